// Random operation histories over small_vector / static_vector against a std::vector<int> model.
#pragma once
#include "common.hpp"
#include <deque>
#include <iterator>
#include <algorithm>
#include <cmath>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>

namespace seq {
using namespace vf;

template <typename V> struct Info;
template <typename TT, size_t N, size_t R, typename A> struct Info<itlib::small_vector<TT, N, R, A>> {
    using T = TT; using Alloc = A; static constexpr bool small = true; static constexpr size_t n = N, r = R;
    using Other = itlib::small_vector<TT, N + 3, 0, A>;
};
template <typename TT, size_t N> struct Info<itlib::static_vector<TT, N>> {
    using T = TT; using Alloc = void; static constexpr bool small = false; static constexpr size_t n = N, r = 0;
    using Other = itlib::static_vector<TT, N + 3>;
};
template <typename A> struct AllocInfo { static constexpr bool ledger = false; };
template <typename T, int F> struct AllocInfo<LAlloc<T, F>> { static constexpr bool ledger = true; static constexpr int flags = F; };

using M = std::vector<int>;
inline std::string show(const M& m) { std::string s = "["; for (size_t i = 0; i < m.size(); ++i) { if (i) s += ' '; if (i > 40) { s += "..."; break; } s += std::to_string(m[i]); } return s + "]"; }

// after a container was copied or reallocated elements must be intact
template <typename V> void same(const V& v, const M& m, const char* after) {
    using E = El<typename Info<V>::T>;
    const V& cv = v;
    VCHECK(cv.size() == m.size(), "value.size", "%s: size() is %zu, should be %zu %s", after, cv.size(), m.size(), show(m).c_str());
    VCHECK(cv.empty() == m.empty(), "value.empty", "%s: empty() is wrong for size %zu", after, m.size());
    VCHECK(size_t(cv.end() - cv.begin()) == m.size() && cv.cbegin() == cv.begin() && cv.cend() == cv.end() && cv.begin() == cv.data(), "value.iterators", "%s: begin/end disagree with size", after);
    auto p = cv.begin();
    for (size_t i = 0; i < m.size(); ++i, ++p) {
        int x = E::get(*p);
        VCHECK(x == m[i], "value.element", "%s: element %zu is %d, should be %d; model %s", after, i, x, m[i], show(m).c_str());
    }
}
template <typename V> void same_deep(V& v, const M& m, const char* after) {
    using E = El<typename Info<V>::T>;
    same(v, m, after);
    const V& cv = v;
    size_t i = m.size();
    for (auto r = v.rbegin(); r != v.rend(); ++r) { --i; VCHECK(E::get(*r) == m[i], "value.reverse", "%s: reverse iteration differs at %zu", after, i); }
    VCHECK(i == 0, "value.reverse", "%s: reverse iteration has the wrong length", after);
    i = m.size();
    for (auto r = cv.crbegin(); r != cv.crend(); ++r) { --i; VCHECK(E::get(*r) == m[i], "value.reverse", "%s: const reverse iteration differs at %zu", after, i); }
    VCHECK(cv.rend() - cv.rbegin() == (ptrdiff_t)m.size(), "value.reverse", "%s: rend-rbegin", after);
    for (i = 0; i < m.size(); ++i) {
        VCHECK(E::get(cv[i]) == m[i] && E::get(cv.at(i)) == m[i] && E::get(v[i]) == m[i] && E::get(v.at(i)) == m[i], "value.index", "%s: at/[] differ at %zu", after, i);
        VCHECK(&v[i] == v.data() + i && &cv.at(i) == cv.data() + i, "value.index", "%s: address of element %zu", after, i);
    }
    if (!m.empty()) {
        VCHECK(E::get(v.front()) == m.front() && E::get(cv.front()) == m.front(), "value.front", "%s: front()", after);
        VCHECK(E::get(v.back()) == m.back() && E::get(cv.back()) == m.back(), "value.back", "%s: back()", after);
    }
}

// ------------------------------------------------------------------ storage policy of small_vector
template <typename V> struct Snap { bool st = false; size_t cap = 0, size = 0; const void* data = nullptr; uint64_t allocs = 0, deallocs = 0; uint64_t eops = 0; };
template <typename V> bool inside(const V& v) { auto d = (const char*)v.data(); return d >= (const char*)&v && d < (const char*)(&v + 1); }
inline uint64_t elem_ops() { auto& r = reg(); return r.ctors + r.dtors + r.copy_asgn + r.move_asgn; }
template <typename V> Snap<V> snap(const V& v) {
    Snap<V> s;
    if constexpr (Info<V>::small) { s.st = v.is_static(); s.cap = v.capacity(); s.size = v.size(); s.data = v.data(); s.allocs = ledger().allocs; s.deallocs = ledger().deallocs; s.eops = elem_ops(); }
    return s;
}
template <typename V> void storage_ok(const V& v, const char* after) {
    using I = Info<V>;
    if constexpr (I::small) {
        VCHECK(v.capacity() >= v.size(), "policy.capacity", "%s: capacity %zu below size %zu", after, v.capacity(), v.size());
        VCHECK(v.is_static() == inside(v), "policy.is_static", "%s: is_static() is %d but data is %s the object", after, v.is_static(), inside(v) ? "inside" : "outside");
        if (v.is_static()) VCHECK(v.capacity() == I::n, "policy.capacity", "%s: static with capacity %zu, static capacity is %zu", after, v.capacity(), I::n);
        else if constexpr (AllocInfo<typename I::Alloc>::ledger) {
            auto* o = ledger().owner(v.data());
            VCHECK(o && o->p == (void*)v.data(), "policy.buffer", "%s: dynamic data is not the start of an allocated block", after);
            VCHECK(o->n == v.capacity() * sizeof(typename I::T), "policy.buffer", "%s: block has %zu bytes, capacity needs %zu", after, o->n, v.capacity() * sizeof(typename I::T));
            VCHECK(o->arena == v.get_allocator().arena, "policy.buffer", "%s: buffer of allocator %d held with allocator %d", after, o->arena, v.get_allocator().arena);
        }
    } else {
        VCHECK(inside(v), "value.inside", "%s: static_vector data is outside of the object", after);
        VCHECK(v.capacity() == I::n && v.max_size() == I::n, "value.capacity", "%s: capacity() is not the static capacity", after);
    }
}
// growth to `need` elements: within the old capacity nothing may move
template <typename V> void after_growth(const V& v, const Snap<V>& s, size_t need, const char* after) {
    using I = Info<V>;
    if constexpr (I::small) {
        storage_ok(v, after);
        if (need <= s.cap) {
            VCHECK(v.data() == s.data && v.capacity() == s.cap, "policy.moved", "%s: data/capacity changed though %zu elements fit capacity %zu (%s)", after, need, s.cap, s.st ? "static" : "dynamic");
            VCHECK(ledger().allocs == s.allocs, "policy.alloc", "%s: allocated though %zu elements fit capacity %zu", after, need, s.cap);
            if (s.st) COV("growth within static"); else COV("growth within dynamic");
        } else { VCHECK(!v.is_static(), "policy.alloc", "%s: %zu elements in static storage", after, need); if (s.st) COV("static to dynamic"); else COV("dynamic to larger dynamic"); }
    } else storage_ok(v, after);
}
template <typename V> void after_reduce(const V& v, const Snap<V>& s, bool reduced, bool may_stay, const char* after) {
    using I = Info<V>;
    if constexpr (I::small) {
        storage_ok(v, after);
        VCHECK(ledger().allocs == s.allocs, "policy.alloc", "%s: a reducing operation allocated", after);
        if (!s.st && reduced && v.size() < I::r) {
            if (!may_stay) VCHECK(v.is_static(), "policy.revert", "%s: size %zu is below the revert threshold %zu but the vector is dynamic", after, v.size(), I::r);
            if (v.is_static()) COV("dynamic reverted to static");
        } else {
            VCHECK(v.data() == s.data && v.capacity() == s.cap, "policy.moved", "%s: data/capacity changed with size %zu, threshold %zu, was %s capacity %zu", after, v.size(), I::r, s.st ? "static" : "dynamic", s.cap);
        }
    } else storage_ok(v, after);
}

// ------------------------------------------------------------------ history
template <typename V> struct Hist {
    using I = Info<V>; using T = typename I::T; using E = El<T>; using A = typename I::Alloc; using Other = typename I::Other;
    static constexpr int K = 3;
    Case& c; Rng& r; const char* nm;
    std::unique_ptr<V> v[K]; M m[K];
    int next_val = 1;
    Hist(Case& c, const char* nm) : c(c), r(c.rng), nm(nm) {}
    int val() { return next_val++ % (sizeof(T) == 1 ? 120 : sizeof(T) == 2 ? 60000 : 100000); }
    static V* fresh(void* = nullptr) { return nullptr; }
    auto alloc() { if constexpr (I::small) { if constexpr (AllocInfo<A>::ledger) return A(int(r.below(3)) + 1); else return A(); } else return typename V::allocator_type(); }
    bool over(size_t need) { return !I::small && need > I::n; }

    // positions and counts, biased to edges and to the static capacity
    size_t pos(size_t n) { switch (r.below(4)) { case 0: return 0; case 1: return n; default: return r.below(n + 1); } }
    size_t count(size_t cur) {
        switch (r.below(6)) {
        case 0: return 0; case 1: return 1;
        case 2: return I::n > cur ? I::n - cur : r.below(3);           // exactly to the static capacity
        case 3: return I::n >= cur ? I::n - cur + 1 : 1;               // one above
        default: return r.below(6);
        }
    }
    size_t total() { switch (r.below(7)) { case 0: return 0; case 1: return I::n; case 2: return I::n + 1; case 3: return I::r; case 4: return I::r ? I::r - 1 : 1; default: return r.below(2 * I::n + 4); } }

    void init() { for (int i = 0; i < K; ++i) { v[i].reset(new V()); m[i].clear(); storage_ok(*v[i], "default ctor"); } }
    // Runs an operation which needs `need` elements in v; bounded vectors must refuse it.
    template <typename F> bool grow(int i, size_t need, bool unchanged_on_throw, F f) {
        if (!over(need)) { f(); return true; }
        COV("over capacity");
        bool thrown = false;
        try { f(); } catch (std::out_of_range&) { thrown = true; }
        VCHECK(thrown, "value.no-out-of-range", "%zu elements accepted by capacity %zu", need, I::n);
        if (unchanged_on_throw) same(*v[i], m[i], "after a refused operation");
        else { // valid, contents unspecified
            m[i].clear(); VCHECK(v[i]->size() <= I::n, "value.size", "size above capacity after a refused operation");
            v[i]->clear(); same(*v[i], m[i], "clear after a refused operation");
        }
        return false;
    }
    void construct(int i);
    void step();
    void run(int steps) {
        init();
        for (int s = 0; s < steps; ++s) {
            step();
            if (r.chance(25)) for (int i = 0; i < K; ++i) same_deep(*v[i], m[i], "deep");
            else for (int i = 0; i < K; ++i) same(*v[i], m[i], "step");
            uint64_t h = hstr(nm);
            for (int i = 0; i < K; ++i) { h = hcomb(h, m[i].size()); if constexpr (I::small) h = hcomb(h, v[i]->capacity() * 2 + v[i]->is_static()); }
            state(h);
            if constexpr (I::small && AllocInfo<A>::ledger) {
                int dyn = 0; for (int i = 0; i < K; ++i) if (!v[i]->is_static()) ++dyn;
                VCHECK(ledger().live() == dyn, "alloc.stray", "%d blocks allocated for %d dynamic vectors", ledger().live(), dyn);
            }
            if constexpr (E::tracked) {
                size_t n = 0; for (int i = 0; i < K; ++i) n += m[i].size();
                VCHECK(reg().live == n, "lifetime.count", "%llu live elements, vectors hold %zu", (unsigned long long)reg().live, n);
            }
        }
        for (int i = 0; i < K; ++i) v[i].reset();
        c.interesting();
    }
};

template <typename V> void Hist<V>::construct(int i) {
    v[i].reset(); 
    auto a = alloc();
    int how = int(r.below(E::copy ? 9 : 3));
    size_t n = total(); M nm2; 
    uint64_t al0 = ledger().allocs;
    auto guarded = [&](size_t need, auto f) {
        if (!over(need)) { f(); return true; }
        COV("over capacity ctor");
        bool thrown = false; try { f(); } catch (std::out_of_range&) { thrown = true; }
        VCHECK(thrown, "value.no-out-of-range", "constructor took %zu elements with capacity %zu", need, I::n);
        v[i].reset(new V()); m[i].clear(); return false;
    };
    bool ok = true;
    switch (how) {
    case 0: op("v%d=V(alloc)", i); v[i].reset(new V(a)); break;
    case 1: op("v%d=V(%zu)", i, n); ok = guarded(n, [&] { v[i].reset(new V(n, a)); }); if (ok) nm2.assign(n, 0); 
        if constexpr (std::is_same<T, Big>::value) { if (ok) for (size_t k = 0; k < n; ++k) (*v[i])[k] = E::make(nm2[k]); } break;
    case 2: { // move from another
        int j = (i + 1) % K; op("v%d=V(move v%d)", i, j);
        auto s = snap(*v[j]); M mj = m[j];
        int arena = -1; if constexpr (I::small && AllocInfo<A>::ledger) arena = v[j]->get_allocator().arena;
        v[i].reset(new V(std::move(*v[j]))); nm2 = mj; m[j].clear();
        if constexpr (I::small) {
            VCHECK(ledger().allocs == s.allocs && ledger().deallocs == s.deallocs, "policy.move", "move construction allocated or deallocated");
            if (!s.st) { VCHECK(v[i]->data() == s.data && v[i]->capacity() == s.cap, "policy.move", "move construction did not take over the dynamic buffer"); VCHECK(elem_ops() == s.eops, "policy.move", "move construction of a dynamic vector touched elements"); COV("move ctor dynamic"); }
            else { VCHECK(v[i]->is_static(), "policy.move", "moved static vector is not static"); COV("move ctor static"); }
            VCHECK(v[j]->is_static(), "policy.move", "moved-from vector is not static");
            if constexpr (AllocInfo<A>::ledger) VCHECK(v[i]->get_allocator().arena == arena, "alloc.move", "move construction lost the allocator");
        }
        storage_ok(*v[j], "moved-from");
        break; }
    default: if constexpr (E::copy) switch (how) {
    case 3: { int x = val(); op("v%d=V(%zu,%d)", i, n, x); T t = E::make(x); ok = guarded(n, [&] { v[i].reset(new V(n, t, a)); }); if (ok) nm2.assign(n, x); break; }
    case 4: { op("v%d=V(range %zu)", i, n); std::vector<T> src; M sm; for (size_t k = 0; k < n; ++k) { int x = val(); sm.push_back(x); src.push_back(E::make(x)); }
        ok = guarded(n, [&] { v[i].reset(new V(src.begin(), src.end(), a)); }); if (ok) nm2 = sm;
        for (size_t k = 0; k < n; ++k) VCHECK(E::get(src[k]) == sm[k], "value.source", "range constructor changed its source"); break; }
    case 5: { int x = val(), y = val(), z = val(); op("v%d=V{%d %d %d}", i, x, y, z); std::initializer_list<T> il{E::make(x), E::make(y), E::make(z)};
        ok = guarded(3, [&] { v[i].reset(new V(il, a)); }); if (ok) nm2 = {x, y, z}; break; }
    case 6: { int j = (i + 1) % K; op("v%d=V(v%d)", i, j); v[i].reset(new V(*v[j])); nm2 = m[j];
        if constexpr (I::small && AllocInfo<A>::ledger) { int want = v[j]->get_allocator().arena + ((AllocInfo<A>::flags & 8) ? 100 : 0); VCHECK(v[i]->get_allocator().arena == want, "alloc.copy", "copy construction has allocator %d, should be %d", v[i]->get_allocator().arena, want); }
        break; }
    case 7: { int j = (i + 2) % K; 
        if constexpr (I::small) { op("v%d=V(v%d,alloc)", i, j); v[i].reset(new V(*v[j], a)); nm2 = m[j]; if constexpr (AllocInfo<A>::ledger) VCHECK(v[i]->get_allocator().arena == a.arena, "alloc.copy", "copy construction ignored the given allocator"); }
        else { // from another capacity
            size_t k = r.below(I::n + 4); op("v%d=V(other %zu)", i, k); Other o; M om; for (size_t q = 0; q < k; ++q) { int x = val(); om.push_back(x); o.push_back(E::make(x)); }
            ok = guarded(k, [&] { v[i].reset(new V(o)); }); if (ok) nm2 = om;
            for (size_t q = 0; q < k; ++q) VCHECK(E::get(o[q]) == om[q], "value.source", "copy construction changed its source");
        }
        break; }
    default: { op("v%d=V()", i); v[i].reset(new V()); break; }
    } }
    if (ok) { m[i] = nm2; storage_ok(*v[i], "ctor"); if constexpr (I::small && AllocInfo<A>::ledger) if (m[i].size() <= I::n && how != 2) VCHECK(ledger().allocs == al0, "policy.alloc", "construction of %zu elements allocated, static capacity %zu", m[i].size(), I::n); }
}

template <typename V> void Hist<V>::step() {
    int i = int(r.below(K)); V& x = *v[i]; M& mm = m[i]; size_t n = mm.size();
    size_t cap = I::small ? 3 * I::n + 8 : I::n; // keep sizes moderate
    auto s = snap(x);
    auto at = [&](size_t p) { return x.begin() + p; };
    int what = int(r.below(34));
    if (n > cap && what < 14) what = 14 + int(r.below(4));
    auto ret = [&](typename V::iterator it, size_t want, const char* o) { VCHECK(it == x.begin() + want, "value.returned", "%s returned position %td, should be %zu", o, it - x.begin(), want); };
    switch (what) {
    case 0: { // push_back(T&&)
        int a = val(); op("v%d.push_back(&&%d)", i, a);
        if (grow(i, n + 1, true, [&] { x.push_back(E::make(a)); })) { mm.push_back(a); after_growth(x, s, n + 1, "push_back"); } break; }
    case 1: { int a = val(); op("v%d.emplace_back(%d)", i, a);
        if (grow(i, n + 1, true, [&] { T& e = x.emplace_back(E::make(a)); VCHECK(&e == x.data() + n, "value.returned", "emplace_back returned a reference to something else"); })) { mm.push_back(a); after_growth(x, s, n + 1, "emplace_back"); } break; }
    case 2: case 3: { size_t p = pos(n); int a = val(); op("v%d.insert(%zu,&&%d)", i, p, a);
        if (grow(i, n + 1, true, [&] { ret(x.insert(at(p), E::make(a)), p, "insert"); })) { mm.insert(mm.begin() + p, a); after_growth(x, s, n + 1, "insert&&"); if (p < n) COV("insert in the middle or front"); } break; }
    case 4: { size_t p = pos(n); int a = val(); op("v%d.emplace(%zu,%d)", i, p, a);
        if (grow(i, n + 1, true, [&] { ret(x.emplace(at(p), E::make(a)), p, "emplace"); })) { mm.insert(mm.begin() + p, a); after_growth(x, s, n + 1, "emplace"); } break; }
    case 5: if constexpr (E::copy) { int a = val(); op("v%d.push_back(&%d)", i, a); const T t = E::make(a);
        if (grow(i, n + 1, true, [&] { x.push_back(t); })) { mm.push_back(a); after_growth(x, s, n + 1, "push_back&"); } } break;
    case 6: if constexpr (E::copy) { size_t p = pos(n); int a = val(); op("v%d.insert(%zu,&%d)", i, p, a); const T t = E::make(a);
        if (grow(i, n + 1, true, [&] { ret(x.insert(at(p), t), p, "insert"); })) { mm.insert(mm.begin() + p, a); after_growth(x, s, n + 1, "insert&"); } } break;
    case 7: case 8: if constexpr (E::copy) { size_t p = pos(n), k = count(n); int a = val(); op("v%d.insert(%zu,%zu x %d)", i, p, k, a); const T t = E::make(a);
        if (grow(i, n + k, true, [&] { ret(x.insert(at(p), k, t), p, "insert n"); })) { mm.insert(mm.begin() + p, k, a); after_growth(x, s, n + k, "insert n"); if (!k) COV("insert nothing"); if (k > 1 && p < n) COV("insert several in the middle"); } } break;
    case 9: case 10: if constexpr (E::copy) {
        size_t p = pos(n), k = count(n); op("v%d.insert(%zu,range %zu)", i, p, k); M sm; for (size_t q = 0; q < k; ++q) sm.push_back(val());
        int kind = int(r.below(4)); bool ok = false;
        if (kind == 0) { std::vector<T> src; for (int q : sm) src.push_back(E::make(q)); const T* b = src.data(); ok = grow(i, n + k, true, [&] { ret(x.insert(at(p), b, b + k), p, "insert range"); }); for (size_t q = 0; q < k; ++q) VCHECK(E::get(src[q]) == sm[q], "value.source", "insert changed its source"); }
        else if (kind == 1) { std::deque<T> src; for (int q : sm) src.push_back(E::make(q)); ok = grow(i, n + k, true, [&] { ret(x.insert(at(p), src.begin(), src.end()), p, "insert range"); }); for (size_t q = 0; q < k; ++q) VCHECK(E::get(src[q]) == sm[q], "value.source", "insert changed its source"); }
        else if (kind == 2) { std::vector<T> src; for (size_t q = k; q-- > 0;) src.push_back(E::make(sm[q])); ok = grow(i, n + k, true, [&] { ret(x.insert(at(p), src.rbegin(), src.rend()), p, "insert range"); }); }
        else { std::vector<T> src; for (int q : sm) src.push_back(E::make(q)); ok = grow(i, n + k, true, [&] { ret(x.insert(at(p), std::make_move_iterator(src.begin()), std::make_move_iterator(src.end())), p, "insert range"); }); }
        if (ok) { mm.insert(mm.begin() + p, sm.begin(), sm.end()); after_growth(x, s, n + k, "insert range"); } } break;
    case 11: if constexpr (E::copy) { size_t p = pos(n); int a = val(), b = val(), d = val(); size_t k = r.below(4);
        op("v%d.insert(%zu,il %zu)", i, p, k); std::initializer_list<T> l0{}, l1{E::make(a)}, l2{E::make(a), E::make(b)}, l3{E::make(a), E::make(b), E::make(d)};
        auto& il = k == 0 ? l0 : k == 1 ? l1 : k == 2 ? l2 : l3; M sm{a, b, d}; sm.resize(k);
        if (grow(i, n + k, true, [&] { ret(x.insert(at(p), il), p, "insert il"); })) { mm.insert(mm.begin() + p, sm.begin(), sm.end()); after_growth(x, s, n + k, "insert il"); } } break;
    case 12: { size_t k = total(); op("v%d.resize(%zu)", i, k);
        if constexpr (std::is_same<T, Big>::value) { if (k > n) break; } // leaves trivial elements uninitialised? value-initialised: covered by int
        if (grow(i, k, true, [&] { x.resize(k); })) { mm.resize(k, 0); if (k >= n) after_growth(x, s, k, "resize"); else after_reduce(x, s, true, true, "resize down"); } break; }
    case 13: if constexpr (E::copy) { size_t k = total(); int a = val(); op("v%d.resize(%zu,%d)", i, k, a); const T t = E::make(a);
        if (grow(i, k, true, [&] { x.resize(k, t); })) { mm.resize(k, a); if (k >= n) after_growth(x, s, k, "resize v"); else after_reduce(x, s, true, true, "resize v down"); } } break;
    case 14: if (n) { op("v%d.pop_back()", i); x.pop_back(); mm.pop_back(); after_reduce(x, s, true, false, "pop_back"); } break;
    case 15: case 16: if (n) { size_t p = r.chance(30) ? 0 : r.chance(30) ? n - 1 : r.below(n); op("v%d.erase(%zu)", i, p);
        auto it = x.erase(at(p)); mm.erase(mm.begin() + p); ret(it, p, "erase"); after_reduce(x, s, true, false, "erase"); if (p < n - 1) COV("erase in the middle or front"); } break;
    case 17: case 18: { size_t p = pos(n), q = r.chance(15) ? p : p + r.below(n - p + 1); op("v%d.erase(%zu,%zu)", i, p, q);
        auto it = x.erase(at(p), at(q)); mm.erase(mm.begin() + p, mm.begin() + q); ret(it, p, "erase range"); after_reduce(x, s, q > p, false, "erase range");
        if (p == q) COV("erase empty range"); else if (q < n && q - p > 1) COV("erase several in the middle"); break; }
    case 19: op("v%d.clear()", i); x.clear(); mm.clear(); after_reduce(x, s, I::r > 0, false, "clear"); break;
    case 20: if constexpr (E::copy) { size_t k = total(); int a = val(); op("v%d.assign(%zu,%d)", i, k, a); const T t = E::make(a);
        if (grow(i, k, false, [&] { x.assign(k, t); })) { mm.assign(k, a); storage_ok(x, "assign"); if constexpr (I::small) if (k <= s.cap) VCHECK(ledger().allocs == s.allocs, "policy.alloc", "assign of %zu allocated with capacity %zu", k, s.cap); } } break;
    case 21: if constexpr (E::copy) { size_t k = total(); op("v%d.assign(range %zu)", i, k); std::vector<T> src; M sm; for (size_t q = 0; q < k; ++q) { sm.push_back(val()); src.push_back(E::make(sm.back())); }
        if (grow(i, k, false, [&] { if (r.chance(50)) x.assign(src.begin(), src.end()); else x.assign((const T*)src.data(), (const T*)src.data() + k); })) { mm = sm; storage_ok(x, "assign range"); if constexpr (I::small) if (k <= s.cap) VCHECK(ledger().allocs == s.allocs, "policy.alloc", "assign of %zu allocated with capacity %zu", k, s.cap); }
        for (size_t q = 0; q < k; ++q) VCHECK(E::get(src[q]) == sm[q], "value.source", "assign changed its source"); } break;
    case 22: if constexpr (E::copy) { int a = val(), b = val(); op("v%d.assign{%d %d}", i, a, b); std::initializer_list<T> il{E::make(a), E::make(b)}; if (grow(i, 2, false, [&] { x.assign(il); })) { mm = {a, b}; storage_ok(x, "assign il"); } } break;
    case 23: case 24: if constexpr (E::copy) { int j = int(r.below(K)); op("v%d=v%d", i, j); auto sj = snap(*v[j]);
        V& rr = (x = *v[j]); VCHECK(&rr == &x, "value.returned", "copy assignment returned something else"); mm = M(m[j]); storage_ok(x, "copy assign"); same(*v[j], m[j], "copy source");
        if constexpr (I::small) { if (i == j || mm.size() <= s.cap) VCHECK(ledger().allocs == s.allocs, "policy.alloc", "copy assignment allocated though %zu elements fit capacity %zu", mm.size(), s.cap); (void)sj; }
        if (i == j) COV("self copy assign"); } break;
    case 25: case 26: { int j = int(r.below(K)); 
        if (i == j) { if constexpr (I::small) { op("v%d=move(v%d)", i, j); V& y = x; x = std::move(y); COV("self move assign"); } break; }
        op("v%d=move(v%d)", i, j); auto sj = snap(*v[j]); int arena = 0; if constexpr (I::small && AllocInfo<A>::ledger) arena = v[j]->get_allocator().arena;
        uint64_t before = elem_ops();
        V& rr = (x = std::move(*v[j])); VCHECK(&rr == &x, "value.returned", "move assignment returned something else");
        size_t mine = mm.size(); mm = m[j]; m[j].clear(); storage_ok(x, "move assign"); storage_ok(*v[j], "moved from");
        if constexpr (I::small) {
            if (!sj.st) { VCHECK(x.data() == sj.data && x.capacity() == sj.cap, "policy.move", "move assignment did not take over the dynamic buffer"); if (E::tracked) VCHECK(elem_ops() - before == mine, "policy.move", "move assignment of a dynamic vector touched elements"); COV("move assign dynamic"); }
            else { VCHECK(x.is_static(), "policy.move", "move assignment from static gave dynamic"); COV("move assign static"); }
            VCHECK(v[j]->is_static(), "policy.move", "moved-from vector is not static");
            VCHECK(ledger().allocs == sj.allocs, "policy.move", "move assignment allocated");
            (void)arena; (void)before; (void)mine;
        } break; }
    case 27: { int j = int(r.below(K)); if (i == j && !I::small) { break; } op("swap(v%d,v%d)", i, j);
        if constexpr (I::small) std::swap(x, *v[j]); else x.swap(*v[j]);
        std::swap(mm, m[j]); storage_ok(x, "swap"); storage_ok(*v[j], "swap"); break; }
    case 28: if constexpr (I::small) { size_t k = r.chance(50) ? total() : n + r.below(2 * I::n + 4); op("v%d.reserve(%zu)", i, k); x.reserve(k); storage_ok(x, "reserve");
        VCHECK(x.capacity() >= k, "policy.reserve", "capacity %zu after reserve(%zu)", x.capacity(), k);
        if (k <= s.cap) VCHECK(x.data() == s.data && x.capacity() == s.cap && ledger().allocs == s.allocs, "policy.reserve", "reserve(%zu) changed capacity %zu", k, s.cap); else COV("reserve reallocates");
        } else { // huge counts must be refused, not wrapped
            size_t p = pos(n); size_t k = ~size_t(0) - r.below(n + 3); op("v%d huge %zu", i, k);
            if constexpr (E::copy) { const T t = E::make(1); switch (r.below(3)) { case 0: grow(i, I::n + 1, true, [&] { x.insert(at(p), k, t); }); break; case 1: grow(i, I::n + 1, true, [&] { x.resize(k, t); }); break; default: grow(i, I::n + 1, false, [&] { x.assign(k, t); }); } COV("huge count"); }
        } break;
    case 29: if constexpr (I::small) { op("v%d.shrink_to_fit()", i); bool b = x.shrink_to_fit(); storage_ok(x, "shrink_to_fit");
        VCHECK(b == ((const void*)x.data() != s.data), "policy.shrink-result", "shrink_to_fit returned %d but data %s", b, x.data() == s.data ? "did not move" : "moved");
        if (n <= I::n) { VCHECK(x.is_static(), "policy.shrink", "shrink_to_fit of %zu elements left the vector dynamic, static capacity %zu", n, I::n); if (!s.st) COV("shrink_to_fit to static"); }
        else { VCHECK(x.capacity() == n, "policy.shrink", "capacity %zu after shrink_to_fit of %zu elements", x.capacity(), n); if (s.cap != n) COV("shrink_to_fit dynamic"); } } break;
    case 30: if constexpr (I::small) { op("v%d.revert_to_static()", i); bool b = x.revert_to_static(); storage_ok(x, "revert_to_static");
        VCHECK(b == x.is_static(), "policy.revert-result", "revert_to_static returned %d but is_static() is %d (size %zu, static capacity %zu)", b, x.is_static(), n, I::n);
        if (n <= I::n) VCHECK(x.is_static(), "policy.revert", "revert_to_static of %zu elements left the vector dynamic, static capacity %zu", n, I::n);
        else VCHECK(x.data() == s.data && x.capacity() == s.cap, "policy.moved", "revert_to_static which cannot revert changed the storage"); if (!s.st && x.is_static()) COV("revert_to_static reverts"); } break;
    case 31: if constexpr (E::by_value) { int j = int(r.below(K)); op("v%d==v%d", i, j); const V &a = x, &b = *v[j];
        VCHECK((a == b) == (mm == m[j]), "value.compare", "== gives %d", a == b); VCHECK((a != b) == (mm != m[j]), "value.compare", "!= gives %d", a != b);
        if constexpr (E::copy) { // different capacity, equal or almost equal contents
            Other o; M om = mm; if (!om.empty() && r.chance(50)) { size_t q = r.below(om.size()); om[q] = val(); } if (r.chance(20) && om.size()) om.pop_back();
            for (int q : om) o.push_back(E::make(q));
            VCHECK((a == o) == (mm == om), "value.compare", "== with another capacity"); VCHECK((o != a) == (mm != om), "value.compare", "!= with another capacity");
            if (mm == om) COV("compare equal"); else COV("compare different"); } break; }
    case 32: { op("write v%d", i); for (size_t k = 0; k < n; ++k) if (r.chance(40)) { int a = val(); x[k] = E::make(a); mm[k] = a; } break; }
    default: construct(i); break;
    }
}

template <typename V> void history(Case& c, const char* nm) { Hist<V> h(c, nm); h.run(10 + int(c.rng.below(50))); }

// many appends: logarithmic number of allocations
template <typename V> void amortised(Case& c) {
    using I = Info<V>; using E = El<typename I::T>;
    uint64_t a0 = ledger().allocs; size_t n = 500 + c.rng.below(4000); int how = int(c.rng.below(3));
    op("append %zu how %d", n, how);
    { V v; for (size_t i = 0; i < n; ++i) { if (how == 0) v.push_back(E::make(int(i % 100))); else if (how == 1) v.emplace_back(E::make(int(i % 100))); else v.insert(v.end(), E::make(int(i % 100))); }
      VCHECK(v.size() == n, "value.size", "size after %zu appends", n);
      double lim = 8 + 4 * std::log2(double(n)); VCHECK(double(ledger().allocs - a0) <= lim, "policy.amortised", "%llu allocations for %zu appends", (unsigned long long)(ledger().allocs - a0), n); }
    COVN("allocations of long appends", ledger().allocs - a0); c.interesting();
}
} // namespace seq
