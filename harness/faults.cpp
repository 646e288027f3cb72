// Every failure point of every operation of small_vector and static_vector (C29)
#include "common.hpp"
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
using namespace vf;
template <typename V> struct Kind;
template <typename T, size_t N, size_t R, typename A> struct Kind<itlib::small_vector<T, N, R, A>> { static constexpr size_t bound = ~size_t(0), st = N; static constexpr bool small = true; using Alloc = A; };
template <typename T, size_t N> struct Kind<itlib::static_vector<T, N>> { static constexpr size_t bound = N, st = N; static constexpr bool small = false; using Alloc = int; };

template <typename V> struct Faults {
    using T = typename V::value_type; using E = El<T>; using K = Kind<V>;
    static constexpr size_t st = K::st, bound = K::bound;
    Case& c; size_t size, spare, osize;
    std::vector<T> src;   // elements to insert, made beforehand
    uint64_t live0 = 0;
    static V* make(int arena) { if constexpr (K::small) return new V(typename K::Alloc(arena)); else return new V(); }
    static void fill(V& v, size_t n, size_t sp, int base) {
        if constexpr (K::small) { if (n + sp > st) v.reserve(n + sp); }
        for (size_t i = 0; i < n; ++i) v.emplace_back(int(base + i));
    }
    // the vector must be usable, whatever happened to it
    void probe(V& v, const char* what, long at) {
        VCHECK(v.size() <= v.capacity() && v.size() <= 1000, "value.invalid", "%s failing at %ld left size %zu with capacity %zu", what, at, v.size(), v.capacity());
        for (auto& e : v) E::get(e); // alive, not overwritten
    }
    void reuse(V& v) {
        if (v.size() < bound) { v.emplace_back(5); E::get(v.back()); }
        if (c.rng.chance(50)) v.clear(); else if (v.size()) v.pop_back();
        T x(9); v.assign(2 < bound ? 2 : 1, x);
        VCHECK(v.size() >= 1 && E::get(v[0]) == 9, "value.invalid", "assign after a failed operation");
        if (v.size() < bound) v.insert(v.begin(), x);
        if (c.rng.chance(50)) v.erase(v.begin());
    }
    using Fn = void (*)(Faults&, V&, V&);
    // strong: contents, capacity and data unchanged after a failure
    void go(const char* what, bool strong, Fn f) {
        for (int kind = 0; kind < (K::small ? 3 : 2); ++kind) { // element failures; + failing moves; allocations
            if (kind == 1 && !std::is_same<T, TrTM>::value && !std::is_same<T, TrTA>::value) continue;
            for (long at = 0; at < 400; ++at) {
                fault().off();
                uint64_t before = reg().live; int blocks = ledger().live();
                {
                    std::unique_ptr<V> v(make(1)), o(make(2));
                    fill(*v, size, spare, 1); fill(*o, osize, 0, 50);
                    const void* d = v->data(); size_t cap = v->capacity();
                    op("%s fail %s %ld", what, kind == 2 ? "allocation" : kind ? "element or move" : "element", at);
                    bool thrown = false;
                    if (kind == 2) fault().alloc = at; else { fault().elem = at; fault().moves_throw = kind == 1; }
                    try { f(*this, *v, *o); }
                    catch (Injected&) { thrown = true; if (kind == 2) fail("value.exception", "%s turned bad_alloc into another exception", what); }
                    catch (std::bad_alloc&) { thrown = true; if (kind != 2) fail("value.exception", "%s turned an element's exception into bad_alloc", what); }
                    bool fired = fault().fired; fault().off();
                    VCHECK(thrown == fired, "value.swallowed", "%s failing at %ld: the exception didn't reach the caller", what, at);
                    if (fired) { COV("faults injected"); if (kind == 1) COV("faults with throwing moves"); if (kind == 2) COV("allocation faults"); }
                    probe(*v, what, at); probe(*o, what, at);
                    VCHECK(reg().live == before + v->size() + o->size(), "lifetime.count", "%s failing at %ld: %lld live elements, vectors hold %zu and %zu", what, at, (long long)(reg().live - before), v->size(), o->size());
                    if (fired && strong && kind != 1 && std::is_same<T, Tr>::value) {
                        VCHECK(v->size() == size, "value.strong", "%s failing at %ld changed the size from %zu to %zu", what, at, size, v->size());
                        for (size_t i = 0; i < size; ++i) VCHECK(E::get((*v)[i]) == int(1 + i), "value.strong", "%s failing at %ld changed element %zu", what, at, i);
                        VCHECK(v->data() == d && v->capacity() == cap, "value.strong", "%s failing at %ld moved the data", what, at);
                        COV("strong guarantee checked");
                    }
                    if constexpr (K::small) { int dyn = !v->is_static() + !o->is_static(); VCHECK(ledger().live() - blocks == dyn, "alloc.stray", "%s failing at %ld: %d blocks for %d dynamic vectors", what, at, ledger().live() - blocks, dyn); }
                    reuse(*v); reuse(*o);
                    VCHECK(reg().live == before + v->size() + o->size(), "lifetime.count", "after reuse");
                    if (!fired) at = 1000;
                }
                VCHECK(reg().live == before, "lifetime.leak", "%s failing at %ld: %lld elements left", what, at, (long long)(reg().live - before));
                VCHECK(ledger().live() == blocks, "alloc.leak", "%s failing at %ld: %d blocks left", what, at, ledger().live() - blocks);
            }
        }
    }
    bool fits(size_t n) { return n <= bound; }
    size_t p = 0, k = 0;
    // moves of small_vector are declared noexcept: with elements which throw when moved they terminate by contract
    static constexpr bool moves = !K::small || std::is_nothrow_move_constructible<T>::value;
    void run() {
        for (int i = 0; i < 6; ++i) src.emplace_back(200 + i);
        using F = Faults;
        auto al = [](int a) { if constexpr (K::small) return typename K::Alloc(a); else return typename V::allocator_type(); };
        (void)al;
        if (size == 0 && spare == 0) for (k = 0; k <= std::min<size_t>(st + 3, bound); ++k) {
            go("V(n)", false, [](F& f, V&, V&) { V x(f.k); });
            go("V(n,x)", false, [](F& f, V&, V&) { V x(f.k, f.src[0]); });
            go("V(range)", false, [](F& f, V&, V&) { size_t n = std::min(f.k, f.src.size()); V x(f.src.begin(), f.src.begin() + n); });
        }
        go("V(copy)", false, [](F&, V& v, V&) { V x(v); });
        if (moves) go("V(move)", false, [](F&, V& v, V&) { V x(std::move(v)); });
        if constexpr (K::small) {
            go("V(copy,alloc)", false, [](F&, V& v, V&) { V x(v, typename K::Alloc(3)); });
            go("V(move,alloc)", false, [](F&, V& v, V&) { V x(std::move(v), typename K::Alloc(3)); });
            go("shrink_to_fit", false, [](F&, V& v, V&) { v.shrink_to_fit(); });
            go("revert_to_static", false, [](F&, V& v, V&) { v.revert_to_static(); });
            for (k = 0; k <= size + spare + st + 2; ++k) go("reserve", true, [](F& f, V& v, V&) { v.reserve(f.k); });
        }
        for (osize = 0; osize <= std::min<size_t>(st + 2, bound); ++osize) {
            go("copy assign", false, [](F&, V& v, V& o) { v = static_cast<const V&>(o); });
            if (moves) go("move assign", false, [](F&, V& v, V& o) { v = std::move(o); });
            if (moves) go("swap", false, [](F&, V& v, V& o) { if constexpr (K::small) std::swap(v, o); else v.swap(o); });
        }
        osize = 1;
        for (k = 0; k <= std::min<size_t>(size + st + 2, bound); ++k) {
            go("assign(n,x)", false, [](F& f, V& v, V&) { v.assign(f.k, f.src[1]); });
            go("resize(n)", false, [](F& f, V& v, V&) { v.resize(f.k); });
            go("resize(n,x)", false, [](F& f, V& v, V&) { v.resize(f.k, f.src[1]); });
            if (k < 6) go("assign(range)", false, [](F& f, V& v, V&) { v.assign(f.src.begin(), f.src.begin() + f.k); });
        }
        go("assign list", false, [](F& f, V& v, V&) { if (f.fits(2)) v.assign({f.src[0], f.src[1]}); });
        if (fits(size + 1)) {
            go("push_back(const&)", true, [](F& f, V& v, V&) { v.push_back(f.src[0]); });
            go("emplace_back", true, [](F&, V& v, V&) { v.emplace_back(77); });
            go("push_back(own)", true, [](F& f, V& v, V&) { if (v.size()) v.push_back(static_cast<const V&>(v)[0]); });
            go("push_back(&&)", true, [](F& f, V& v, V&) { T x(5); v.push_back(std::move(x)); });
        }
        if (size) go("pop_back", false, [](F&, V& v, V&) { v.pop_back(); });
        go("clear", false, [](F&, V& v, V&) { v.clear(); });
        for (p = 0; p <= size; ++p) {
            if (fits(size + 1)) {
                go("insert(const&)", false, [](F& f, V& v, V&) { v.insert(v.begin() + f.p, f.src[0]); });
                go("insert(own)", false, [](F& f, V& v, V&) { if (v.size()) v.insert(v.begin() + f.p, static_cast<const V&>(v)[v.size() / 2]); });
                go("insert(&&)", false, [](F& f, V& v, V&) { T x(5); v.insert(v.begin() + f.p, std::move(x)); });
                go("emplace", false, [](F& f, V& v, V&) { v.emplace(v.begin() + f.p, 77); });
            }
            for (k = 0; k <= 4; ++k) if (fits(size + k)) {
                go("insert(n,x)", false, [](F& f, V& v, V&) { v.insert(v.begin() + f.p, f.k, f.src[0]); });
                go("insert(range)", false, [](F& f, V& v, V&) { v.insert(v.begin() + f.p, f.src.begin(), f.src.begin() + f.k); });
            }
            if (fits(size + 2)) go("insert list", false, [](F& f, V& v, V&) { v.insert(v.begin() + f.p, {f.src[0], f.src[1]}); });
            if (p < size) go("erase", false, [](F& f, V& v, V&) { v.erase(v.begin() + f.p); });
            for (k = p; k <= size; ++k) go("erase range", false, [](F& f, V& v, V&) { v.erase(v.begin() + f.p, v.begin() + f.k); });
        }
        src.clear(); src.shrink_to_fit();
    }
};
template <typename V> void faults(Case& c) {
    constexpr size_t st = Kind<V>::st, nsz = st + 4;
    Faults<V> f{c, c.idx % nsz, (c.idx / nsz) % 4, 1};
    if (f.size > Kind<V>::bound) return;
    op("size %zu spare %zu", f.size, f.spare);
    f.run(); c.h = hcomb(f.size, f.spare); c.interesting();
}
#define S(name, ...) static void VF_CAT(hf_, __LINE__)(Case& c) { faults<__VA_ARGS__>(c); } REG_SUITE(name, (Kind<__VA_ARGS__>::st + 4) * (Kind<__VA_ARGS__>::small ? 4 : 1), (Kind<__VA_ARGS__>::st + 4) * (Kind<__VA_ARGS__>::small ? 4 : 1) * 4, &VF_CAT(hf_, __LINE__))
#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
S("fault.sv.tr.3.0", itlib::small_vector<Tr, 3, 0, LAlloc<Tr>>);
S("fault.sv.trtm.2.3", itlib::small_vector<TrTM, 2, 3, LAlloc<TrTM, 6>>);
#endif
#if PART == 0 || PART == 2
S("fault.sv.trc.3.4", itlib::small_vector<TrC, 3, 4, LAlloc<TrC, 1>>);
S("fault.sv.tr.1.1", itlib::small_vector<Tr, 1, 1, LAlloc<Tr, 15>>);
#endif
#if PART == 0 || PART == 3
S("fault.xv.tr.5", itlib::static_vector<Tr, 5>);
S("fault.xv.trtm.5", itlib::static_vector<TrTM, 5>);
S("fault.xv.trta.5", itlib::static_vector<TrTA, 5>);
S("fault.sv.trta.2.3", itlib::small_vector<TrTA, 2, 3, LAlloc<TrTA, 6>>);
S("fault.xv.trc.4", itlib::static_vector<TrC, 4>);
#endif
