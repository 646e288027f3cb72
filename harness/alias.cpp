// Inserting an element of the vector itself (C28): all of (operation, size, spare capacity, source, position, count)
#include "common.hpp"
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>
using namespace vf;
struct P3 { uint16_t a, b, c; };
struct alignas(64) P64 { int v; int pad[15]; };
namespace vf {
template <> struct El<P3> { static P3 make(int i) { return {uint16_t(i), uint16_t(~i), 7}; } static int get(const P3& p) { return p.b == uint16_t(~p.a) ? p.a : -5; } static constexpr bool copy = true, tracked = false; };
template <> struct El<P64> { static P64 make(int i) { P64 p{}; p.v = i; p.pad[14] = ~i; return p; } static int get(const P64& p) { return p.pad[14] == ~p.v ? p.v : -5; } static constexpr bool copy = true, tracked = false; };
}
template <typename V> struct Kind;
template <typename T, size_t N, size_t R, typename A> struct Kind<itlib::small_vector<T, N, R, A>> { static constexpr size_t bound = ~size_t(0), st = N; };
template <typename T, size_t N> struct Kind<itlib::static_vector<T, N>> { static constexpr size_t bound = N, st = N; };
template <typename T, typename A> struct Kind<itlib::pod_vector<T, A>> { static constexpr size_t bound = ~size_t(0), st = 3; };
// always moves on realloc, poisons nothing more than free does
struct MoveAlloc : itlib::impl::pod_allocator {
    static void* realloc(void* o, size_t n) { void* p = std::malloc(n); if (o) { size_t k = malloc_usable(o); memcpy(p, o, k < n ? k : n); memset(o, 0xdd, k); std::free(o); } return p; }
#if VF_ASAN
    static size_t malloc_usable(void* p) { return __sanitizer_get_allocated_size_(p); }
    static size_t __sanitizer_get_allocated_size_(void* p);
#else
    static size_t malloc_usable(void* p);
#endif
};
#include <malloc.h>
#if VF_ASAN
inline size_t MoveAlloc::__sanitizer_get_allocated_size_(void* p) { return malloc_usable_size(p); }
#else
inline size_t MoveAlloc::malloc_usable(void* p) { return malloc_usable_size(p); }
#endif

template <typename V> void alias(Case& c) {
    using T = typename V::value_type; using E = El<T>; constexpr size_t bound = Kind<V>::bound, st = Kind<V>::st;
    // the case: size and spare capacity; everything else is enumerated
    size_t size = 1 + c.idx % (st + 5); size_t spare = (c.idx / (st + 5)) % 5;
    if (size > bound) return;
    bool sorted_vals = c.rng.chance(50);
    auto build = [&](V& v, std::vector<int>& m) {
        if constexpr (bound == ~size_t(0)) v.reserve(size + spare);
        for (size_t i = 0; i < size; ++i) { int x = sorted_vals ? int(i + 1) : int(1 + (i * 37 + c.idx) % 100); v.push_back(E::make(x)); m.push_back(x); }
    };
    auto check = [&](V& v, const std::vector<int>& m, const char* what, size_t src, size_t pos, size_t k) {
        COV("aliased calls"); ++G().ops;
        VCHECK(v.size() == m.size(), "value.alias", "%s of own element %zu at %zu x%zu: size %zu, should be %zu", what, src, pos, k, v.size(), m.size());
        for (size_t i = 0; i < m.size(); ++i) VCHECK(E::get(v.data()[i]) == m[i], "value.alias", "%s of own element %zu at %zu x%zu (size was %zu, spare %zu): element %zu is %d, should be %d", what, src, pos, k, size, spare, i, E::get(v.data()[i]), m[i]);
    };
#define ONE(what, pos, k, need, ...) if ((need) <= bound) { V v; std::vector<int> m; build(v, m); int x = m[s]; (void)x; op("%s(%zu,%zu,v[%zu]) size %zu spare %zu", what, size_t(pos), size_t(k), s, size, spare); bool moved = v.capacity() < (need); __VA_ARGS__; check(v, m, what, s, pos, k); if (moved) COV("aliased with reallocation"); else COV("aliased in place"); }
    for (size_t s = 0; s < size; ++s) {
        ONE("push_back", size, 1, size + 1, v.push_back(v[s]); m.push_back(x))
        ONE("emplace_back", size, 1, size + 1, v.emplace_back(v[s]); m.push_back(x))
        if constexpr (E::tracked) ONE("emplace_back member", size, 1, size + 1, v.emplace_back(v[s].v); m.push_back(x))
        for (size_t n : {size_t(0), size - 1, size, size + 1, size + 2, size + 5, 2 * size + 9}) ONE("resize", n, 1, n, v.resize(n, v[s]); m.resize(n, x))
        for (size_t p = 0; p <= size; ++p) {
            ONE("insert", p, 1, size + 1, auto it = v.insert(v.cbegin() + p, v[s]); m.insert(m.begin() + p, x); VCHECK(size_t(it - v.begin()) == p, "value.alias", "returned position"))
            ONE("insert const", p, 1, size + 1, const T& ref = static_cast<const V&>(v).data()[s]; v.insert(v.cbegin() + p, ref); m.insert(m.begin() + p, x))
            ONE("emplace", p, 1, size + 1, auto it = v.emplace(v.cbegin() + p, v[s]); m.insert(m.begin() + p, x); VCHECK(size_t(it - v.begin()) == p, "value.alias", "returned position"))
            if constexpr (E::tracked) ONE("emplace member", p, 1, size + 1, v.emplace(v.cbegin() + p, v[s].v); m.insert(m.begin() + p, x))
            for (size_t k = 0; k <= 4; ++k) ONE("insert count", p, k, size + k, auto it = v.insert(v.cbegin() + p, k, v[s]); m.insert(m.begin() + p, k, x); VCHECK(size_t(it - v.begin()) == p, "value.alias", "returned position"))
            if (p < 3) { size_t k = 9; ONE("insert count", p, k, size + k, v.insert(v.cbegin() + p, k, v[s]); m.insert(m.begin() + p, k, x)) }
        }
    }
    c.h = hcomb(size, spare * 2 + sorted_vals); c.interesting();
}
#define S(name, ...) static void VF_CAT(hf_, __LINE__)(Case& c) { alias<__VA_ARGS__>(c); } REG_SUITE(name, (Kind<__VA_ARGS__>::st + 5) * 10, (Kind<__VA_ARGS__>::st + 5) * 200, &VF_CAT(hf_, __LINE__))
// the same with hundreds to tens of thousands of elements
template <typename V> void alias_large(Case& c) {
    using T = typename V::value_type; using E = El<T>; constexpr size_t bound = Kind<V>::bound; Rng& r = c.rng; size_t top = E::tracked ? 2000 : 80000;
    static const size_t edge[] = {255, 256, 257, 300, 1023, 1024, 32767, 32768, 65535, 65536, 65537};
    for (int rep = 0; rep < 4; ++rep) {
        tick(); size_t size = r.chance(50) ? edge[r.below(11)] : 100 + r.below(top); if (size > top) size = 256 + r.below(3); if (bound != ~size_t(0) && size + 12 > bound) size = bound - 12 - r.below(60); size_t spare = r.chance(40) ? 0 : r.below(12);
        V v; std::vector<int> m; if constexpr (bound == ~size_t(0)) v.reserve(size + spare); for (size_t i = 0; i < size; ++i) { int x = int(1 + (i * 37 + c.idx) % 100); v.push_back(E::make(x)); m.push_back(x); }
        size_t s = r.chance(50) ? r.below(size) : size - 1 - r.below(3), p = r.chance(50) ? r.below(size + 1) : r.chance(50) ? s : r.below(3), k = r.below(9); int x = m[s], how = int(r.below(5)); if (how == 4 && r.chance(30) && bound == ~size_t(0)) k = 300 + r.below(top); op("large %d: size %zu spare %zu, own %zu to %zu x%zu", how, size, spare, s, p, k);
        switch (how) { case 0: v.push_back(v[s]); m.push_back(x); break; case 1: v.emplace_back(v[s]); m.push_back(x); break; case 2: v.insert(v.cbegin() + long(p), v[s]); m.insert(m.begin() + long(p), x); break; case 3: v.emplace(v.cbegin() + long(p), v[s]); m.insert(m.begin() + long(p), x); break; case 4: if (r.chance(50)) { v.insert(v.cbegin() + long(p), k, v[s]); m.insert(m.begin() + long(p), k, x); } else { v.resize(size + k, v[s]); m.resize(size + k, x); } break; }
        VCHECK(v.size() == m.size(), "value.alias", "size %zu, should be %zu", v.size(), m.size()); for (size_t i = 0; i < m.size(); ++i) VCHECK(E::get(v.data()[i]) == m[i], "value.alias", "element %zu of %zu is %d, should be %d", i, m.size(), E::get(v.data()[i]), m[i]); COV("aliased among many"); COV("aliased calls");
    }
    c.h = c.rng.next(); c.interesting();
}
#define L(name, ...) static void VF_CAT(hl_, __LINE__)(Case& c) { alias_large<__VA_ARGS__>(c); } REG_SUITE(name, 12, 600, &VF_CAT(hl_, __LINE__))
#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
S("alias.sv.tr", itlib::small_vector<Tr, 4, 0, LAlloc<Tr>>);
S("alias.sv.trtm", itlib::small_vector<TrTM, 3, 2, LAlloc<TrTM>>);
S("alias.sv.str", itlib::small_vector<std::string, 4, 5>);
S("alias.sv.int", itlib::small_vector<int, 1, 0>);
S("alias.sv.trc", itlib::small_vector<TrC, 3, 3, LAlloc<TrC>>);
L("alias.large.sv.tr", itlib::small_vector<Tr, 300, 0, LAlloc<Tr>>);
L("alias.large.sv.int", itlib::small_vector<int, 1, 0>);
L("alias.large.sv.str", itlib::small_vector<std::string, 257, 0>);
#endif
#if PART == 0 || PART == 2
S("alias.xv.tr", itlib::static_vector<Tr, 7>);
S("alias.xv.trtm", itlib::static_vector<TrTM, 9>);
S("alias.xv.str", itlib::static_vector<std::string, 7>);
S("alias.xv.int", itlib::static_vector<int, 8>);
S("alias.xv.trc", itlib::static_vector<TrC, 8>);
S("alias.pv.int", itlib::pod_vector<int>);
S("alias.pv.p3", itlib::pod_vector<P3, MoveAlloc>);
S("alias.pv.p64", itlib::pod_vector<P64>);
S("alias.pv.u8", itlib::pod_vector<uint8_t, MoveAlloc>);
L("alias.large.xv.tr", itlib::static_vector<Tr, 300>);
L("alias.large.xv.int", itlib::static_vector<int, 70000>);
L("alias.large.pv.u8", itlib::pod_vector<uint8_t, MoveAlloc>);
L("alias.large.pv.int", itlib::pod_vector<int>);
L("alias.large.pv.p3", itlib::pod_vector<P3, MoveAlloc>);
#endif
