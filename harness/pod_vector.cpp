// pod_vector against std::vector, and its memory contract (C05, C06)
#include "common.hpp"
#include <deque>
#include <itlib/pod_vector.hpp>
#if VF_ASAN
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n) (void)0
#define UNPOISON(p, n) (void)0
#endif
using namespace vf;

// ------------------------------------------------------------------ allocators
struct Side { void* user; char* real; size_t room; };
static std::vector<Side>& sides() { static auto* s = [] { auto* v = new std::vector<Side>; v->reserve(4096); return v; }(); return *s; }
static Rng arng(1);
static struct ResetA { ResetA() { case_reset() = [] { arng = Rng(mix(prog()->idx + 77) + hstr(prog()->suite)); }; } } reset_a;
static uint64_t n_realloc, n_expand_ok, n_expand_no, n_malloc;

// Align: alignment guaranteed, and no more than that is given
// Mode: 0 realloc, 1 realloc with a tiny wasteful size, 2 expand
template <size_t Align, int Mode, bool Zero> struct PA {
    using size_type = size_t;
    int arena = 0;
    PA() = default; explicit PA(int a) : arena(a) {}
    static constexpr size_type max_size() { return ~size_type(0); }
    static constexpr bool zero_fill_new() { return Zero; }
    static constexpr size_type alloc_align() { return Align; }
    static constexpr bool has_expand() { return Mode == 2; }
    static constexpr size_type realloc_wasteful_copy_size() { return Mode == 1 ? 24 : 4096; }
    void* malloc(size_type size) {
        ++n_malloc;
        size_t slack = arng.below(4) ? arng.below(8) * 16 : 0;
        size_t extra = arng.below(4) ? Align * (2 * arng.below(8) + 1) : 256; // mostly an odd multiple of Align, not aligned better than promised; sometimes aligned well by chance
        char* real = nullptr;
        if (posix_memalign((void**)&real, 256, size + slack + extra + 16)) harness_error("no memory");
        char* u = real + extra;
        memset(u, 0xcd, size);
        POISON(real, extra); UNPOISON(u, size); POISON(u + size, slack + 16);
        // the poisoned prefix may share a granule with the block: unpoison wins
        UNPOISON(u, size);
        ledger().add(u, size, Align, arena);
        sides().push_back({u, real, size + slack});
        return u;
    }
    static size_t at(void* p) { for (size_t i = 0; i < sides().size(); ++i) if (sides()[i].user == p) return i; return ~size_t(0); }
    void free(void* p) {
        if (!p) return;
        size_t i = at(p);
        size_t n = size_of(p);
        ledger().remove(p, n, Align, arena);
        if (i == ~size_t(0)) return;
        auto s = sides()[i]; sides()[i] = sides().back(); sides().pop_back();
        UNPOISON(s.real, size_t(s.user ? (char*)s.user - s.real : 0) + s.room + 16);
        ::free(s.real);
    }
    static size_t size_of(void* p) { auto* o = ledger().owner_exact(p); return o ? o->n : 0; }
    bool resize_in_place(void* p, size_type n) {
        size_t i = at(p);
        if (i == ~size_t(0) || n > sides()[i].room) return false;
        size_t old = size_of(p);
        ledger().remove(p, old, Align, arena); ledger().add(p, n, Align, arena);
        POISON(p, sides()[i].room + 16); UNPOISON(p, n);
        if (n > old) memset((char*)p + old, 0xcd, n - old);
        return true;
    }
    bool expand(void* p, size_type n) {
        VCHECK(Mode == 2, "alloc.interface", "expand called on an allocator without expand");
        VCHECK(p && ledger().owner_exact(p), "alloc.unknown-block", "expand of %p which is not a block", p);
        if (arng.chance(70) && resize_in_place(p, n)) { ++n_expand_ok; COV("expanded in place"); return true; }
        ++n_expand_no; COV("expand refused"); return false;
    }
    void* realloc(void* p, size_type n) {
        VCHECK(Mode != 2, "alloc.interface", "realloc called on an allocator with expand");
        ++n_realloc;
        if (!p) return malloc(n);
        VCHECK(ledger().owner_exact(p), "alloc.unknown-block", "realloc of %p which is not a block", p);
        if (arng.chance(40) && resize_in_place(p, n)) { COV("realloc in place"); return p; }
        COV("realloc moved");
        void* q = malloc(n); size_t o = size_of(p);
        memcpy(q, p, o < n ? o : n); free(p); return q;
    }
};

// ------------------------------------------------------------------ element types
struct B3 { uint8_t b[3]; };
struct B12 { uint32_t w[3]; };
struct alignas(32) A32 { uint8_t b[32]; };
struct alignas(64) A64 { uint8_t b[64]; };
struct alignas(128) A128 { uint8_t b[256]; };
template <typename T> T mk(int i) { T t; uint8_t* p = (uint8_t*)&t; for (size_t k = 0; k < sizeof(T); ++k) p[k] = uint8_t(mix(uint64_t(i) * 131 + k)); if (sizeof(T) == 1) p[0] = uint8_t(i); return t; }
template <typename T> bool eq(const T& a, const T& b) { return !memcmp(&a, &b, sizeof(T)); }
template <typename A> struct IsPA : std::false_type {}; template <size_t a, int m, bool z> struct IsPA<PA<a, m, z>> : std::true_type {};
template <typename A> int arena_of(const A& a) { if constexpr (IsPA<A>::value) return a.arena; else return 0; }
template <typename T, typename M> std::string hex(const T* d, const M& m) { char b[200]; size_t k = 0; for (; k < m.size() && eq(d[k], m[k]); ++k) {} snprintf(b, sizeof b, "first difference at %zu of %zu", k, m.size()); return b; }

template <typename V, typename T> void same(const V& v, const std::vector<T>& m, const char* after) {
    VCHECK(v.max_size() >= v.size(), "value.capacity", "%s: max_size() below size", after);
    VCHECK(v.size() == m.size() && v.empty() == m.empty() && v.byte_size() == m.size() * sizeof(T), "value.size", "%s: size() is %zu, should be %zu", after, v.size(), m.size());
    VCHECK(size_t(v.end() - v.begin()) == m.size() && v.data() == v.begin() && v.cbegin() == v.begin() && v.cend() == v.end(), "value.iterators", "%s: begin/end/data disagree", after);
    for (size_t i = 0; i < m.size(); ++i) VCHECK(eq(v.data()[i], m[i]), "value.element", "%s: %s", after, hex(v.data(), m).c_str());
}
template <typename V, typename T> void same_deep(V& v, const std::vector<T>& m, const char* after) {
    same(v, m, after); const V& cv = v;
    size_t i = m.size();
    for (auto r = v.rbegin(); r != v.rend(); ++r) { --i; VCHECK(eq(*r, m[i]), "value.reverse", "%s: reverse iteration differs at %zu", after, i); }
    VCHECK(!i, "value.reverse", "%s: reverse iteration has the wrong length", after);
    i = m.size();
    for (auto r = cv.rbegin(); r != cv.rend(); ++r) { --i; VCHECK(eq(*r, m[i]), "value.reverse", "%s: const reverse iteration differs", after); }
    VCHECK(cv.crend() - cv.crbegin() == (ptrdiff_t)m.size() && cv.crbegin() == cv.rbegin(), "value.reverse", "%s: crbegin/crend", after);
    for (i = 0; i < m.size(); ++i) VCHECK(&v[i] == v.data() + i && &cv[i] == v.data() + i && &v.at(i) == v.data() + i && &cv.at(i) == v.data() + i, "value.index", "%s: address of element %zu", after, i);
    if (!m.empty()) VCHECK(&v.front() == v.data() && &cv.front() == v.data() && &v.back() == v.data() + m.size() - 1 && &cv.back() == v.data() + m.size() - 1, "value.front-back", "%s: front/back", after);
}
template <typename V> void mem_ok(const V& v, const char* after) {
    using T = typename V::value_type; using A = typename V::allocator_type;
    VCHECK(v.capacity() >= v.size(), "policy.capacity", "%s: capacity %zu below size %zu", after, v.capacity(), v.size());
    VCHECK(uintptr_t(v.data()) % alignof(T) == 0, "policy.align", "%s: data %p is not aligned to %zu", after, (const void*)v.data(), alignof(T));
    if (v.capacity()) VCHECK(v.data(), "policy.data", "%s: capacity %zu without data", after, v.capacity());
    if constexpr (IsPA<A>::value) if (v.data()) {
        auto* o = ledger().owner(v.data()); 
        if (!o && v.capacity() == 0) return; // a block may be all slack
        VCHECK(o, "policy.buffer", "%s: data is not in an allocated block", after);
        VCHECK((char*)v.data() + v.capacity() * sizeof(T) <= (char*)o->p + o->n, "policy.buffer", "%s: capacity %zu exceeds the block of %zu bytes", after, v.capacity(), o->n);
        VCHECK(o->arena == arena_of(v.get_allocator()), "policy.buffer", "%s: block of allocator %d in a vector with allocator %d", after, o->arena, arena_of(v.get_allocator()));
    }
}

template <typename V, typename... Us> struct Hist {
    using T = typename V::value_type; using A = typename V::allocator_type; using M = std::vector<T>;
    static constexpr bool zero = A::zero_fill_new();
    static constexpr int K = 3;
    Case& c; Rng& r; const char* nm; std::unique_ptr<V> v[K]; M m[K]; int nv = 1; size_t f = 1; // f: how many times larger than usual
    T val() { return mk<T>(nv++); }
    A alloc() { if constexpr (IsPA<A>::value) return A(int(r.below(3)) + 1); else return A(); }
    size_t pos(size_t n) { switch (r.below(4)) { case 0: return 0; case 1: return n; default: return r.below(n + 1); } }
    size_t count(int i) { size_t cap = v[i]->capacity(), s = m[i].size(); switch (r.below(6)) { case 0: return 0; case 1: return 1; case 2: return cap - s < 60 * f ? cap - s : 2; case 3: return cap - s < 60 * f ? cap - s + 1 : 1; default: return r.below(7 * f); } }
    size_t total(int i) { switch (r.below(6)) { case 0: return 0; case 1: return v[i]->capacity() < 200 * f ? v[i]->capacity() : 5; case 2: return v[i]->capacity() < 200 * f ? v[i]->capacity() + 1 : 5; case 3: return m[i].size(); default: return r.below(24 * f); } }
    // new elements of a vector which doesn't fill them get a value here
    void fill_new(int i, size_t from) { for (size_t k = from; k < m[i].size(); ++k) { if (zero) memset((void*)&m[i][k], 0, sizeof(T)); else { m[i][k] = val(); (*v[i])[k] = m[i][k]; } } }
    struct S { const void* d; size_t cap; };
    S snap(int i) { return {v[i]->data(), v[i]->capacity()}; }
    void grown(int i, S s, size_t need, const char* what) {
        mem_ok(*v[i], what);
        if (need <= s.cap) { COV("growth within capacity"); VCHECK(v[i]->data() == s.d && v[i]->capacity() == s.cap, "policy.moved", "%s: %zu elements fit capacity %zu, but data or capacity changed", what, need, s.cap); }
        else COV("growth beyond capacity");
    }
    void kept(int i, S s, const char* what) { mem_ok(*v[i], what); VCHECK(v[i]->data() == s.d && v[i]->capacity() == s.cap, "policy.moved", "%s: data or capacity changed", what); }
    void truth(int i, S s, bool ret, const char* what) { VCHECK(ret == (v[i]->data() != s.d), "policy.validity", "%s returned %d, but data %s", what, ret, v[i]->data() != s.d ? "moved" : "didn't move"); if (ret) COV("reported moved"); else COV("reported unmoved"); }

    void construct(int i) {
        v[i].reset(); m[i].clear(); A a = alloc(); size_t n = total0();
        switch (r.below(10)) {
        case 0: op("v%d=V(a)", i); v[i].reset(new V(a)); VCHECK(v[i]->capacity() == 0 && !v[i]->data(), "policy.empty", "an empty vector has capacity"); break;
        case 1: op("v%d=V(%zu)", i, n); v[i].reset(new V(n, a)); m[i].resize(n); fill_new(i, 0); break;
        case 2: { T x = val(); op("v%d=V(%zu,x)", i, n); v[i].reset(new V(n, x, a)); m[i].assign(n, x); break; }
        case 3: { for (size_t k = 0; k < n; ++k) m[i].push_back(val()); op("v%d=V(range %zu)", i, n); v[i].reset(new V(m[i].begin(), m[i].end(), a)); break; }
        case 4: { std::deque<T> d; for (size_t k = 0; k < n; ++k) { d.push_back(val()); m[i].push_back(d.back()); } op("v%d=V(deque %zu)", i, n); v[i].reset(new V(d.begin(), d.end(), a)); break; }
        case 5: { T x = val(), y = val(), z = val(); op("v%d=V{x,y,z}", i); v[i].reset(new V({x, y, z}, a)); m[i] = {x, y, z}; break; }
        case 6: { int j = (i + 1) % K; op("v%d=V(v%d)", i, j); v[i].reset(new V(*v[j])); m[i] = m[j]; VCHECK(arena_of(v[i]->get_allocator()) == arena_of(v[j]->get_allocator()), "alloc.propagate", "copy has another allocator"); break; }
        case 7: { int j = (i + 1) % K; op("v%d=V(v%d,a)", i, j); v[i].reset(new V(*v[j], a)); m[i] = m[j]; VCHECK(arena_of(v[i]->get_allocator()) == arena_of(a), "alloc.propagate", "copy has another allocator than it was given"); break; }
        case 8: { int j = (i + 1) % K; op("v%d=V(move v%d)", i, j); S s = snap(j); v[i].reset(new V(std::move(*v[j]))); m[i] = m[j]; m[j].clear(); VCHECK(v[i]->data() == s.d && v[i]->capacity() == s.cap, "policy.move", "a move didn't transfer the buffer"); VCHECK(v[j]->size() == 0, "value.moved-from", "the source of a move isn't empty"); mem_ok(*v[j], "moved from"); break; }
        default: op("v%d=V()", i); v[i].reset(new V()); break;
        }
        mem_ok(*v[i], "construction");
    }
    size_t total0() { return r.chance(30) ? 0 : r.below(20 * f); }

    template <typename U> void recast(int i) {
        using VU = itlib::pod_vector<U, A>;
        constexpr bool takes = (A::alloc_align() >= alignof(T)) == (A::alloc_align() >= alignof(U));
        size_t bytes = m[i].size() * sizeof(T), nu = bytes / sizeof(U);
        std::vector<uint8_t> raw((uint8_t*)m[i].data(), (uint8_t*)m[i].data() + bytes);
        if (r.chance(35)) {
            op("recast copy v%d (%zu bytes) to %zu-byte elements and back", i, bytes, sizeof(U));
            VU u(alloc()); if (r.chance(50)) u.resize(r.below(5));
            u.recast_copy_from(*v[i]);
            VCHECK(u.size() == nu, "value.recast", "recast copy has %zu elements, should have %zu", u.size(), nu);
            for (size_t k = 0; k < nu * sizeof(U); ++k) VCHECK(((uint8_t*)u.data())[k] == raw[k], "value.recast", "recast copy changed byte %zu", k);
            mem_ok(u, "recast copy"); same(*v[i], m[i], "source of recast copy");
            if (r.chance(50)) { S s = snap(i); v[i]->recast_copy_from(u); m[i].resize(nu * sizeof(U) / sizeof(T)); same(*v[i], m[i], "recast copy back"); grown(i, s, m[i].size(), "recast copy back"); }
            COV("recast copy");
            return;
        }
        if constexpr (takes) {
            op("recast take v%d (%zu bytes, capacity %zu) to %zu-byte elements and back", i, bytes, v[i]->capacity(), sizeof(U));
            size_t capb = v[i]->capacity() * sizeof(T); const void* d = v[i]->data(); int arena = arena_of(v[i]->get_allocator());
            VU u(alloc()); if (r.chance(50)) u.resize(r.below(5));
            u.recast_take_from(std::move(*v[i]));
            VCHECK(u.size() == nu, "value.recast", "recast has %zu elements, should have %zu", u.size(), nu);
            VCHECK(u.capacity() == capb / sizeof(U), "policy.recast", "recast has capacity %zu, should have %zu", u.capacity(), capb / sizeof(U));
            if (uintptr_t(d) % alignof(U) == 0) { VCHECK((const void*)u.data() == d, "policy.recast", "recast didn't take the buffer"); COV("recast took the buffer"); } else COV("recast between alignments");
            VCHECK(arena_of(u.get_allocator()) == arena, "alloc.propagate", "recast didn't take the allocator");
            VCHECK(v[i]->size() == 0 && v[i]->capacity() == 0 && !v[i]->data(), "value.recast", "the source of recast_take_from isn't empty");
            mem_ok(u, "recast take");
            for (size_t k = 0; k < nu * sizeof(U); ++k) VCHECK(((uint8_t*)u.data())[k] == raw[k], "value.recast", "recast changed byte %zu", k);
            // used as any other vector
            std::vector<U> mu(nu); if (nu) memcpy((void*)mu.data(), raw.data(), nu * sizeof(U));
            for (int k = int(r.below(4)); k--;) {
                switch (r.below(5)) {
                case 0: { U x = mk<U>(nv++); u.push_back(x); mu.push_back(x); break; }
                case 1: { size_t n = u.capacity() + r.below(3); u.reserve(n); VCHECK(u.capacity() >= n, "policy.reserve", "reserve after recast"); break; }
                case 2: { bool mv; const void* d0 = u.data(); mv = u.shrink_to_fit(); VCHECK(mv == (d0 != u.data()), "policy.validity", "shrink_to_fit after recast returned %d", mv); break; }
                case 3: { U x = mk<U>(nv++); size_t p = r.below(mu.size() + 1); u.insert(u.begin() + p, x); mu.insert(mu.begin() + p, x); break; }
                default: if (!mu.empty()) { size_t p = r.below(mu.size()); u.erase(u.begin() + p); mu.erase(mu.begin() + p); } break;
                }
                mem_ok(u, "after recast"); same(u, mu, "after recast");
            }
            v[i]->recast_take_from(std::move(u));
            size_t nt = mu.size() * sizeof(U) / sizeof(T);
            m[i].clear(); m[i].resize(nt); if (nt) memcpy((void*)m[i].data(), mu.data(), nt * sizeof(T));
            same(*v[i], m[i], "recast back"); mem_ok(*v[i], "recast back");
            VCHECK(u.size() == 0 && u.capacity() == 0, "value.recast", "the source of recast_take_from isn't empty");
        }
    }

    void step() {
        int i = int(r.below(K)); V& w = *v[i]; M& mm = m[i]; S s = snap(i); size_t n = mm.size();
        switch (r.below(24)) {
        case 0: if (r.chance(40)) construct(i); break;
        case 1: { T x = val(); op("v%d.push_back", i); auto& e = w.push_back(x); mm.push_back(x); VCHECK(&e == &w.back(), "value.ret", "push_back returned another element"); grown(i, s, n + 1, "push_back"); break; }
        case 2: { T x = val(); op("v%d.emplace_back", i); auto& e = w.emplace_back(x); mm.push_back(x); VCHECK(&e == &w.back(), "value.ret", "emplace_back returned another element"); grown(i, s, n + 1, "emplace_back"); break; }
        case 3: { T x = val(); op("v%d.emplace_back()", i); w.emplace_back() = x; mm.push_back(x); grown(i, s, n + 1, "emplace_back()"); break; }
        case 4: if (n) { op("v%d.pop_back", i); w.pop_back(); mm.pop_back(); kept(i, s, "pop_back"); } break;
        case 5: case 6: { T x = val(); size_t p = pos(n); op("v%d.insert(%zu)", i, p); auto it = r.chance(50) ? w.insert(w.cbegin() + p, x) : w.emplace(w.cbegin() + p, x); mm.insert(mm.begin() + p, x); VCHECK(it == w.begin() + p, "value.ret", "insert returned position %td, should be %zu", it - w.begin(), p); grown(i, s, n + 1, "insert"); break; }
        case 7: { T x = val(); size_t p = pos(n), k = count(i); op("v%d.insert(%zu,%zu,x)", i, p, k); auto it = w.insert(w.cbegin() + p, k, x); mm.insert(mm.begin() + p, k, x); VCHECK(it == w.begin() + p, "value.ret", "insert returned position %td, should be %zu", it - w.begin(), p); grown(i, s, n + k, "insert count"); break; }
        case 8: { size_t p = pos(n), k = count(i); M src; for (size_t q = 0; q < k; ++q) src.push_back(val()); op("v%d.insert(%zu,range %zu)", i, p, k);
            typename V::iterator it;
            switch (r.below(3)) { case 0: it = w.insert(w.cbegin() + p, src.begin(), src.end()); break; case 1: it = w.insert(w.cbegin() + p, (const T*)src.data(), (const T*)src.data() + k); break; default: { std::deque<T> d(src.begin(), src.end()); it = w.insert(w.cbegin() + p, d.begin(), d.end()); } }
            mm.insert(mm.begin() + p, src.begin(), src.end()); VCHECK(it == w.begin() + p, "value.ret", "insert range returned position %td, should be %zu", it - w.begin(), p); grown(i, s, n + k, "insert range"); break; }
        case 9: { size_t p = pos(n); T x = val(), y = val(); op("v%d.insert(%zu,{x,y})", i, p); auto it = w.insert(w.cbegin() + p, {x, y}); mm.insert(mm.begin() + p, {x, y}); VCHECK(it == w.begin() + p, "value.ret", "insert list position"); grown(i, s, n + 2, "insert list"); break; }
        case 10: if (n) { size_t p = r.below(n); op("v%d.erase(%zu)", i, p); auto it = w.erase(w.cbegin() + p); mm.erase(mm.begin() + p); VCHECK(it == w.begin() + p, "value.ret", "erase returned position %td, should be %zu", it - w.begin(), p); kept(i, s, "erase"); } break;
        case 11: { size_t a = pos(n), b = a + (n > a ? r.below(n - a + 1) : 0); op("v%d.erase(%zu,%zu)", i, a, b); auto it = w.erase(w.cbegin() + a, w.cbegin() + b); mm.erase(mm.begin() + a, mm.begin() + b); VCHECK(it == w.begin() + a, "value.ret", "erase returned position %td, should be %zu", it - w.begin(), a); kept(i, s, "erase range"); break; }
        case 12: { size_t t = total(i); op("v%d.resize(%zu)", i, t); bool ret = w.resize(t); mm.resize(t); if (t > n) fill_new(i, n); truth(i, s, ret, "resize"); grown(i, s, t, "resize"); break; }
        case 13: { size_t t = total(i); T x = val(); op("v%d.resize(%zu,x)", i, t); bool ret = w.resize(t, x); mm.resize(t, x); truth(i, s, ret, "resize"); grown(i, s, t, "resize value"); break; }
        case 14: { size_t t = total(i); op("v%d.reserve(%zu)", i, t); bool ret = w.reserve(t); truth(i, s, ret, "reserve"); VCHECK(w.capacity() >= t, "policy.reserve", "reserve(%zu) left capacity %zu", t, w.capacity()); grown(i, s, t, "reserve"); break; }
        case 15: { op("v%d.shrink_to_fit", i); bool ret = w.shrink_to_fit(); truth(i, s, ret, "shrink_to_fit"); mem_ok(w, "shrink_to_fit"); VCHECK(w.capacity() == n, "policy.shrink", "shrink_to_fit left capacity %zu for %zu elements", w.capacity(), n); COV("shrink_to_fit"); break; }
        case 16: op("v%d.clear", i); w.clear(); mm.clear(); kept(i, s, "clear"); break;
        case 17: { size_t t = total(i); T x = val(); op("v%d.assign(%zu,x)", i, t); w.assign(t, x); mm.assign(t, x); grown(i, s, t, "assign"); break; }
        case 18: { size_t t = total(i); M src; for (size_t q = 0; q < t; ++q) src.push_back(val()); op("v%d.assign(range %zu)", i, t); if (r.chance(50)) w.assign(src.begin(), src.end()); else if (t > 2 && r.chance(30)) { src = {src[0], src[1]}; w.assign({src[0], src[1]}); t = 2; } else w.assign((const T*)src.data(), (const T*)src.data() + t); mm = src; grown(i, s, t, "assign range"); break; }
        case 19: { int j = int(r.below(K)); op("v%d=v%d", i, j); const V& o = *v[j]; w = o; if (i != j) mm = m[j]; grown(i, s, mm.size(), "copy assignment"); break; }
        case 20: { int j = int(r.below(K)); op("v%d=move v%d", i, j); S t = snap(j); int ar = arena_of(v[j]->get_allocator()); w = std::move(*v[j]); if (i != j) { mm = m[j]; m[j].clear(); VCHECK(w.data() == t.d && w.capacity() == t.cap, "policy.move", "a move didn't transfer the buffer"); VCHECK(v[j]->size() == 0 && !v[j]->data(), "value.moved-from", "the source of a move isn't empty"); VCHECK(arena_of(w.get_allocator()) == ar, "alloc.propagate", "a move didn't take the allocator"); } mem_ok(w, "move assignment"); break; }
        case 21: { int j = int(r.below(K)); op("swap(v%d,v%d)", i, j); S t = snap(j); w.swap(*v[j]); std::swap(mm, m[j]); VCHECK(w.data() == t.d && v[j]->data() == s.d, "policy.move", "swap didn't exchange the buffers"); mem_ok(w, "swap"); mem_ok(*v[j], "swap"); break; }
        case 22: { int pick = int(r.below(sizeof...(Us) + 1)); int k = 0; (void)std::initializer_list<int>{(pick == k++ ? (recast<Us>(i), 0) : 0)...}; (void)k; break; }
        case 23: { int j = int(r.below(K)); const V &a = w, &b = *v[j]; bool e = mm.size() == m[j].size() && (mm.empty() || !memcmp(mm.data(), m[j].data(), mm.size() * sizeof(T))); VCHECK((a == b) == e && (a != b) == !e, "value.compare", "comparison is wrong"); if (e) COV("compared equal"); else COV("compared different"); if (n) { V d(w); d.back() = val(); bool de = eq(d.back(), mm.back()); VCHECK((d == a) == de && (a != d) == !de, "value.compare", "comparison of vectors differing in the last element"); } break; }
        }
        if (r.chance(25)) for (int k = 0; k < K; ++k) same_deep(*v[k], m[k], "deep"); else for (int k = 0; k < K; ++k) same(*v[k], m[k], "step");
        int blocks = 0; for (int k = 0; k < K; ++k) { mem_ok(*v[k], "step"); if (v[k]->data()) ++blocks; }
        if (IsPA<A>::value) VCHECK(ledger().live() == blocks, "alloc.stray", "%d blocks for %d vectors with data", ledger().live(), blocks);
        uint64_t h = hstr(nm); for (int k = 0; k < K; ++k) h = hcomb(hcomb(h, m[k].size()), v[k]->capacity()); state(h);
    }
    static void run(Case& c, const char* nm) {
        Hist h{c, c.rng, nm}; if (h.r.chance(4)) { static const size_t fs[] = {16, 64, 256}; h.f = fs[h.r.below(3)]; if (sizeof(T) <= 8 && h.r.chance(8)) h.f = 4096; op("sizes x%zu", h.f); COV("large histories"); } for (int i = 0; i < K; ++i) h.v[i].reset(new V(h.alloc()));
        int steps = 10 + int(c.rng.below(30)); while (steps--) h.step();
        for (int i = 0; i < K; ++i) h.v[i].reset();
        c.interesting();
    }
};
template <typename V> static void amortised(Case& c) {
    // appending reallocates a logarithmic number of times
    using T = typename V::value_type; size_t n = 2000 + c.rng.below(3000); op("append %zu", n);
    V v; int moves = 0; size_t cap = 0;
    for (size_t i = 0; i < n; ++i) { v.push_back(mk<T>(int(i))); if (v.capacity() != cap) { cap = v.capacity(); ++moves; } }
    VCHECK(moves <= 60, "policy.amortised", "%zu appends changed the capacity %d times", n, moves);
    for (size_t i = 0; i < n; ++i) VCHECK(eq(v[i], mk<T>(int(i))), "value.element", "element %zu differs after appending", i);
    COV("amortised appends"); c.interesting();
}

#define H(name, q, ...) static void VF_CAT(hf_, __LINE__)(Case& c) { Hist<__VA_ARGS__>::run(c, name); } REG_SUITE(name, q, q * 40, &VF_CAT(hf_, __LINE__))
#define AM(name, q, ...) static void VF_CAT(hf_, __LINE__)(Case& c) { amortised<__VA_ARGS__>(c); } REG_SUITE(name, q, q * 20, &VF_CAT(hf_, __LINE__))
template <typename T, size_t Al, int Mode, bool Z> using PV = itlib::pod_vector<T, PA<Al, Mode, Z>>;
#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
H("pv.int.std", 250, itlib::pod_vector<int>, uint8_t, double, B3);
H("pv.u8.4.0", 250, PV<uint8_t, 4, 0, true>, int, uint16_t, B3);
#endif
#if PART == 0 || PART == 2
H("pv.u64.8.1", 250, PV<uint64_t, 8, 1, true>, uint8_t, B12, uint32_t);
H("pv.b3.16.2", 250, PV<B3, 16, 2, false>, uint8_t, int, A32);
H("pv.a32.8.0", 250, PV<A32, 8, 0, true>, A64, A128, int);
AM("pv.am.int", 4, itlib::pod_vector<int>);
#endif
#if PART == 0 || PART == 3
H("pv.a64.16.1", 250, PV<A64, 16, 1, false>, A32, A128, uint8_t);
H("pv.a32.4.2", 250, PV<A32, 4, 2, true>, A64, A128, uint64_t, B12);
H("pv.dbl.4.2", 250, PV<double, 4, 2, false>, A32, uint64_t, int);
#endif
#if PART == 0 || PART == 4
H("pv.int.2.0", 200, PV<int, 2, 0, true>, A32, uint64_t, B12);
H("pv.a128.16.2", 200, PV<A128, 16, 2, false>, A32, A64, B12);
H("pv.u16.16.1", 200, PV<uint16_t, 16, 1, true>, uint8_t, B3, A64);
AM("pv.am.a64", 2, PV<A64, 8, 0, true>);
AM("pv.am.exp", 2, PV<int, 8, 2, true>);
#endif
