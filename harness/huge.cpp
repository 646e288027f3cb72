// Containers and views of more than 2^32 elements, bits or bytes (C01, C04, C05, C09, C14, C15): every size must keep its width.
// The memory is mapped without being reserved, and elements have a constructor which does nothing, so that little of it is ever touched.
#include "common.hpp"
#include <sys/mman.h>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/span.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/memory_view.hpp>
using namespace vf;
static const size_t G4 = size_t(1) << 32;
static void* map(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { fprintf(stderr, "HARNESS-ERROR: can't map %zu bytes\n", n); exit(12); } return p; }
struct E { char c; E() {} explicit E(int i) : c(char(i)) {} };
template <typename T> struct MapAlloc {
    using value_type = T; MapAlloc() = default; template <typename U> MapAlloc(const MapAlloc<U>&) {}
    T* allocate(size_t n) { auto p = (char*)map(n * sizeof(T) + 4096); *(size_t*)p = n; return (T*)(p + 4096); }
    void deallocate(T* q, size_t n) { auto p = (char*)q - 4096; if (*(size_t*)p != n) fail("alloc.wrong-size", "%zu elements allocated, %zu given back", *(size_t*)p, n); munmap(p, n * sizeof(T) + 4096); }
    template <typename U> bool operator==(const MapAlloc<U>&) const { return true; } template <typename U> bool operator!=(const MapAlloc<U>&) const { return false; }
};
#define CK(c, ...) VCHECK(c, "value.huge", __VA_ARGS__)
template <typename F> bool oor(F f) { try { f(); } catch (std::out_of_range&) { return true; } return false; }
template <typename V> void common(V& v, size_t n) { // a vector of n > 2^32 elements with room for some more
    tick(); const V& cv = v;
    CK(v.size() == n && !v.empty() && size_t(v.end() - v.begin()) == n && size_t(cv.cend() - cv.cbegin()) == n && size_t(v.rend() - v.rbegin()) == n && v.capacity() >= n + 20, "size %zu, capacity %zu, should be %zu elements", v.size(), v.capacity(), n);
    v[n - 1] = E('z'); v[0] = E('a'); v[n - 1 - G4] = E('b'); v[5] = E('f'); CK(v.back().c == 'z' && v.front().c == 'a' && v.at(n - 1).c == 'z' && cv.at(n - 1).c == 'z' && cv[n - 1].c == 'z' && v.data()[n - 1].c == 'z' && (v.rbegin())->c == 'z' && (v.begin() + ptrdiff_t(n - 1))->c == 'z', "the last element of %zu", n);
    CK(!oor([&] { v.at(G4); }) && !oor([&] { cv.at(G4 - 1); }), "at() around the end of %zu elements", n);
    v.push_back(E('p')); CK(v.size() == n + 1 && v.back().c == 'p' && v[n - 1].c == 'z', "push_back to %zu elements", n);
    v.emplace_back('q'); CK(v.size() == n + 2 && v.back().c == 'q', "emplace_back");
    auto it = v.insert(v.begin() + ptrdiff_t(n), E('i')); CK(size_t(it - v.begin()) == n && v.size() == n + 3 && v[n].c == 'i' && v[n + 1].c == 'p' && v[n + 2].c == 'q' && v[n - 1].c == 'z', "insert at %zu", n);
    const E x('m'); it = v.insert(v.begin() + ptrdiff_t(n + 1), 3, x); CK(size_t(it - v.begin()) == n + 1 && v.size() == n + 6 && v[n + 1].c == 'm' && v[n + 3].c == 'm' && v[n + 4].c == 'p', "insert of 3 at %zu", n + 1);
    const E a[] = {E('1'), E('2')}; it = v.insert(v.begin() + ptrdiff_t(n - 1), a, a + 2); CK(size_t(it - v.begin()) == n - 1 && v.size() == n + 8 && v[n - 1].c == '1' && v[n].c == '2' && v[n + 1].c == 'z' && v[n + 7].c == 'q', "insert of a range at %zu", n - 1);
    it = v.erase(v.begin() + ptrdiff_t(n + 1)); CK(size_t(it - v.begin()) == n + 1 && v.size() == n + 7 && v[n + 1].c == 'i', "erase at %zu", n + 1);
    v.pop_back(); CK(v.size() == n + 6 && v.back().c == 'p', "pop_back");
    v.resize(n + 10, x); CK(v.size() == n + 10 && v.back().c == 'm' && v[n + 5].c == 'p', "resize to %zu", n + 10); v.resize(n - 1); CK(v.size() == n - 1 && v.end() - v.begin() == ptrdiff_t(n - 1), "resize to %zu", n - 1); v.resize(n); v[n - 1] = E('y'); v[n - 2] = E('x');
    CK(v[0].c == 'a' && v[n - 1 - G4].c == 'b' && v[5].c == 'f', "the first elements of %zu", n);
    // the first five, then nothing up to the last two
    it = v.erase(v.begin() + 5, v.begin() + ptrdiff_t(n - 2)); CK(it == v.begin() + 5 && v.size() == 7 && v[0].c == 'a' && v[5].c == 'x' && v[6].c == 'y' && v.end() - v.begin() == 7, "erase of %zu elements left %zu", n - 7, v.size());
    tick(); COV("huge containers");
}
// all of the elements move
template <typename V> void front(V& v) {
    const size_t n = v.size(); const size_t marks[] = {2, 3, 9, n / 2, n - G4, n - G4 + 3, n - 2, n - 1}; v[0] = E('A'); v[1] = E('B'); char k = 'a'; for (size_t m : marks) v[m] = E(k++);
    auto at = [&](size_t shift, const char* what) { char j = 'a'; for (size_t m : marks) CK(v[m + shift].c == j++, "%s near the beginning of %zu elements: the element %zu is another one", what, n, m + shift); CK(v[0].c == 'A' && v[1].c == 'B', "%s: the first ones changed", what); };
    const E x('x'); auto it = v.insert(v.begin() + 2, 2, x); CK(it == v.begin() + 2 && v.size() == n + 2 && it->c == 'x' && v[3].c == 'x', "insert at 2"); tick(); at(2, "insert");
    it = v.erase(v.begin() + 1, v.begin() + 4); CK(it == v.begin() + 1 && v.size() == n - 1 && v[0].c == 'A', "erase at 1"); tick(); v.insert(v.begin() + 1, E('B')); CK(v.size() == n, "insert at 1"); at(0, "erase"); COV("huge moves");
}
SUITE_NOLEAK("huge.sv", 1, 1) {
    using V = itlib::small_vector<E, 10, 3, MapAlloc<E>>; const size_t n = G4 + 8;
    { V v; v.reserve(n + 40); CK(v.capacity() == n + 40 || v.capacity() > n + 40, "reserve(%zu) left capacity %zu", n + 40, v.capacity()); auto d = v.data(); v.resize(n); CK(v.data() == d, "resize within the reserved size moved"); common(v, n); CK(!v.is_static() && v.data() == d, "erase to 7 elements with a threshold of 3 changed the storage"); v.resize(n); tick(); front(v); CK(v.data() == d, "moved"); v[n - 1] = E('w'); V w(std::move(v)); CK(w.size() == n && w.data() == d && w[n - 1].c == 'w' && v.empty(), "move of %zu elements", n); v = std::move(w); CK(v.size() == n && v.data() == d && w.empty(), "move assignment"); v.clear(); CK(v.empty() && v.is_static(), "clear"); }
    { V v(n); CK(v.size() == n && v.capacity() >= n, "V(%zu) has %zu elements", n, v.size()); v.resize(3); CK(v.shrink_to_fit() && v.is_static() && v.size() == 3, "shrink_to_fit"); }
    c.interesting();
}
SUITE_NOLEAK("huge.xv", 1, 1) {
    constexpr size_t N = (size_t(1) << 32) + 100; using V = itlib::static_vector<E, N>; const size_t n = G4 + 8;
    void* mem = map(sizeof(V)); V* v = new (mem) V; CK(v->capacity() == N && v->max_size() == N && v->empty(), "capacity %zu", v->capacity());
    v->resize(n); common(*v, n); v->resize(n); front(*v); v->resize(N - 2); v->push_back(E('1')); v->push_back(E('2')); CK(v->size() == N && v->back().c == '2', "filled to %zu", N);
    const E x('m'); CK(oor([&] { v->push_back(x); }) && oor([&] { v->emplace_back('m'); }) && oor([&] { v->insert(v->begin() + 5, x); }) && oor([&] { v->insert(v->end(), 2, x); }) && oor([&] { v->resize(N + 1); }) && oor([&] { v->resize(N + 7, x); }) && v->size() == N, "%zu elements: more are accepted", N);
    v->pop_back(); CK(v->size() == N - 1 && v->back().c == '1', "pop_back of %zu", N); v->clear(); CK(v->empty(), "clear"); v->~V(); munmap(mem, sizeof(V)); c.interesting();
}
// header page in front of each block with its size
struct PodAlloc {
    using size_type = size_t;
    static void* malloc(size_t n) { auto p = (char*)map(n + 4096); *(size_t*)p = n; return p + 4096; }
    static void free(void* q) { if (!q) return; auto p = (char*)q - 4096; munmap(p, *(size_t*)p + 4096); }
    static void* realloc(void* q, size_t n) { if (!q) return malloc(n); auto p = (char*)q - 4096; auto r = (char*)mremap(p, *(size_t*)p + 4096, n + 4096, MREMAP_MAYMOVE); if (r == MAP_FAILED) { fprintf(stderr, "HARNESS-ERROR: can't remap\n"); exit(12); } *(size_t*)r = n; return r + 4096; }
    static size_t block(const void* q) { return *(const size_t*)((const char*)q - 4096); }
    static constexpr size_t max_size() { return ~size_t(0); } static constexpr bool zero_fill_new() { return false; } static constexpr size_t alloc_align() { return 64; }
    static constexpr bool has_expand() { return false; } static bool expand(void*, size_t) { return false; } static constexpr size_t realloc_wasteful_copy_size() { return ~size_t(0); }
};
struct P16 { uint64_t a, b; };
struct alignas(128) P128 { uint64_t a; };
template <typename T> T mk(int i) { T t{}; memcpy(&t, &i, std::min(sizeof t, sizeof i)); return t; }
template <typename T> bool is(const T& t, int i) { auto u = mk<T>(i); return !memcmp(&t, &u, std::min(sizeof t, sizeof i)); }
template <typename T> void pods(size_t n) {
    using V = itlib::pod_vector<T, PodAlloc>; tick();
    V v; v.resize(n); const V& cv = v; CK(v.size() == n && v.capacity() >= n && size_t(v.end() - v.begin()) == n && size_t(cv.crend() - cv.crbegin()) == n, "resize to %zu elements of %zu bytes: %zu", n, sizeof(T), v.size());
    if (alignof(T) <= 64) CK(PodAlloc::block(v.data()) >= n * sizeof(T), "a block of %zu bytes for %zu elements of %zu", PodAlloc::block(v.data()), n, sizeof(T));
    CK(v.byte_size() == n * sizeof(T), "byte_size() of %zu elements of %zu bytes: %zu", n, sizeof(T), v.byte_size());
    v[0] = mk<T>(1); v[7] = mk<T>(2); v[n - 1] = mk<T>(3); v[n - 2] = mk<T>(4); CK(is(v.back(), 3) && is(v.front(), 1) && is(v.at(n - 1), 3) && is(cv.at(n - 2), 4), "the ends of %zu elements", n);
    v.push_back(mk<T>(5)); CK(v.size() == n + 1 && v.capacity() > n && is(v.back(), 5) && is(v[n - 1], 3) && is(v[7], 2), "push_back to %zu", n); // moves the pages
    v.reserve(n + 100); CK(v.capacity() >= n + 100 && is(v[n], 5) && is(v[0], 1), "reserve(%zu)", n + 100);
    auto it = v.insert(v.begin() + ptrdiff_t(n - 1), mk<T>(6)); CK(size_t(it - v.begin()) == n - 1 && v.size() == n + 2 && is(v[n - 1], 6) && is(v[n], 3) && is(v[n + 1], 5) && is(v[n - 2], 4), "insert at %zu", n - 1);
    it = v.insert(v.begin() + ptrdiff_t(n), 4, mk<T>(7)); CK(size_t(it - v.begin()) == n && v.size() == n + 6 && is(v[n], 7) && is(v[n + 3], 7) && is(v[n + 4], 3) && is(v[n + 5], 5), "insert of 4 at %zu", n);
    const T a[] = {mk<T>(8), mk<T>(9)}; v.insert(v.end(), a, a + 2); CK(v.size() == n + 8 && is(v.back(), 9) && is(v[n + 6], 8), "insert of a range at the end");
    it = v.erase(v.begin() + ptrdiff_t(n - 2)); CK(size_t(it - v.begin()) == n - 2 && v.size() == n + 7 && is(v[n - 2], 6) && is(v.back(), 9), "erase at %zu", n - 2); v.pop_back(); CK(v.size() == n + 6 && is(v.back(), 8), "pop_back");
    v.resize(n + 9, mk<T>(10)); CK(v.size() == n + 9 && is(v.back(), 10) && is(v[n + 6], 10) && is(v[n + 5], 8), "resize with a value");
    V w(std::move(v)); CK(w.size() == n + 9 && v.empty() && is(w.back(), 10), "move"); v = std::move(w); std::swap(v, w); CK(w.size() == n + 9, "swap");
    it = w.erase(w.begin() + 8, w.begin() + ptrdiff_t(n + 5)); CK(it == w.begin() + 8 && w.size() == 12 && is(w[7], 2) && is(w[8], 8) && is(w[9], 10) && is(w.back(), 10), "erase of %zu elements left %zu", n - 3, w.size());
    w.resize(n); w[n - 1] = mk<T>(11);
    if constexpr (alignof(T) <= 64) { itlib::pod_vector<uint8_t, PodAlloc> b; b.recast_take_from(std::move(w)); CK(b.size() == n * sizeof(T) && !memcmp(&b[(n - 1) * sizeof(T)], std::vector<T>(1, mk<T>(11)).data(), std::min<size_t>(sizeof(T), 4)), "recast of %zu elements of %zu bytes: %zu bytes", n, sizeof(T), b.size()); }
    tick(); COV("huge containers");
}
// what follows the position moves: all of more than 4 GB
template <typename T> void pod_front(size_t n) {
    using V = itlib::pod_vector<T, PodAlloc>; tick(); V v; v.reserve(n + 64); v.resize(n); const size_t marks[] = {0, 1, 2, 9, n / 2, n - G4 / sizeof(T), n - G4 / sizeof(T) + 3, n - 2, n - 1}; int k = 1;
    for (size_t m : marks) v[m] = mk<T>(k++);
    auto at = [&](size_t shift, const char* what) { int j = 1; for (size_t m : marks) { if (m >= 2) CK(is(v[m + shift], j), "%s near the beginning of %zu elements of %zu bytes: the element %zu is another one", what, n, sizeof(T), m + shift); ++j; } CK(is(v[0], 1) && is(v[1], 2), "%s: the first ones changed", what); };
    auto it = v.insert(v.begin() + 2, mk<T>(20)); CK(it == v.begin() + 2 && v.size() == n + 1 && is(v[2], 20), "insert at 2"); tick(); at(1, "insert");
    it = v.emplace(v.begin() + 2, mk<T>(21)); CK(it == v.begin() + 2 && v.size() == n + 2 && is(v[2], 21) && is(v[3], 20), "emplace at 2"); tick(); at(2, "emplace");
    it = v.erase(v.begin() + 2, v.begin() + 4); CK(it == v.begin() + 2 && v.size() == n, "erase at 2"); tick(); at(0, "erase");
    v.reserve(v.capacity() + 100); tick(); at(0, "reserve"); v.shrink_to_fit(); CK(v.capacity() == n, "shrink_to_fit of %zu left capacity %zu", n, v.capacity()); at(0, "shrink_to_fit");
    it = v.insert(v.begin() + 2, 3, mk<T>(22)); CK(it == v.begin() + 2 && v.size() == n + 3 && is(v[2], 22) && is(v[4], 22), "insert of 3 at 2"); tick(); at(3, "insert of 3 into a full vector");
    COV("huge moves");
}
SUITE_NOLEAK("huge.pod", 1, 1) { pod_front<uint8_t>(G4 + 50); pod_front<P16>(G4 / 16 + 50); pods<uint8_t>(G4 + 8); pods<P16>(G4 / 16 + 8); pods<P128>(G4 / 128 + 8); c.interesting(); }
template <typename W> void bits() {
    using B = itlib::dynamic_bitset<std::vector<W>>; const size_t n = G4 + 77, bpw = sizeof(W) * 8; tick();
    B b(n); tick(); const B& cb = b; CK(b.size() == n && b.word_size() == (n + bpw - 1) / bpw && b.byte_size() == (n + 7) / 8 && size_t(b.end() - b.begin()) == n, "%zu bits: size %zu, %zu words", n, b.size(), size_t(b.word_size()));
    CK(B::word_index(G4 + 70) == (G4 + 70) / bpw && B::bit_index(G4 + 70) == (G4 + 70) % bpw && B::word_mask(G4 + 70) == W(W(1) << ((G4 + 70) % bpw)) && B::word_size(n) == b.word_size(), "positions of bit %zu", G4 + 70);
    CK(b.none() && !b.any(), "none"); tick();
    b.set(G4 + 70); CK(b.test(G4 + 70) && cb[G4 + 70] && b[G4 + 70] && !b.test(70) && b.any() && !b.none() && !b.all() && *(cb.begin() + ptrdiff_t(G4 + 70)) && bool(*(b.end() - 7)), "set(%zu)", G4 + 70); tick();
    b.set(3); b.reset(G4 + 3); CK(b.test(3), "reset(%zu) reset 3", G4 + 3); b.flip(G4 + 5); CK(!b.test(5) && b.test(G4 + 5), "flip(%zu)", G4 + 5); b.set(G4 + 6, true); CK(!b.test(6) && b.test(G4 + 6), "set(%zu, true)", G4 + 6); b[G4 + 9] = true; CK(!b.test(9) && b.test(G4 + 9), "[%zu] = true", G4 + 9); *(b.begin() + ptrdiff_t(G4 + 10)) = true; CK(!b.test(10) && b.test(G4 + 10), "*(begin() + %zu)", G4 + 10);
    b.push_back(true); CK(b.size() == n + 1 && b.test(n) && !b.test(n - G4), "push_back"); tick();
    { B s(40); s.set(0); s.set(39); b.copy(b.begin() + ptrdiff_t(G4 + 11), b.begin() + ptrdiff_t(G4 + 51), static_cast<const B&>(s).begin()); CK(b.test(G4 + 11) && b.test(G4 + 50) && !b.test(G4 + 12) && b.test(G4 + 10) && !b.test(11) && !b.test(50), "copy to %zu", G4 + 11);
      b.append(s); CK(b.size() == n + 41 && b.test(n + 1) && b.test(n + 40) && !b.test(n + 2), "append"); B d(60); d.copy(d.begin() + 5, d.begin() + 45, cb.begin() + ptrdiff_t(G4 + 11)); CK(d.test(5) && d.test(44) && !d.test(6) && !d.test(4), "copy from %zu", G4 + 11); }
    b.resize(G4 + 8); CK(b.size() == G4 + 8 && b.test(G4 + 5) && b.test(G4 + 6) && b.test(3), "resize to %zu", G4 + 8); b.resize(G4 + 40); CK(!b.test(G4 + 9) && !b.test(G4 + 10) && !b.test(G4 + 39), "resize grew by ones"); b.resize(10); CK(b.size() == 10 && b.test(3) && !b.test(5), "resize to 10"); tick(); COV("huge containers");
}
SUITE_NOLEAK("huge.bs", 1, 1) { bits<uint64_t>(); bits<uint8_t>(); c.interesting(); }
SUITE_NOLEAK("huge.span", 1, 1) {
    Rng& r = c.rng; size_t bytes = size_t(1) << 36; char* mem = (char*)map(bytes);
    auto go = [&](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>; size_t n = G4 + 1000; itlib::span<T> s(p, n); tick();
        for (int k = 0; k < 300; ++k) {
            CK(s.size() == n && s.data() == p && size_t(s.end() - s.begin()) == n && &s[n - 1] == p + n - 1 && &s.back() == p + n - 1 && s.size_bytes() == n * sizeof(T), "a span of %zu elements", n); CK(&s.at(n - 1) == p + n - 1, "at() of %zu elements", n);
            size_t o = r.chance(50) ? G4 + r.below(900) : r.below(900), m = r.chance(50) ? G4 - 100 + r.below(200) : r.below(500); op("%zu %zu", o, m);
            auto a = s.subspan(o), b = s.subspan(o, m), f = s.first(m); CK(a.data() == p + o && a.size() == n - o, "subspan(%zu) has %zu", o, a.size()); CK(b.data() == p + o && b.size() == std::min(m, n - o), "subspan(%zu, %zu) has %zu", o, m, b.size()); CK(f.data() == p && f.size() == m, "first(%zu) has %zu", m, f.size());
            auto l = s.last(m); CK(l.size() == m && l.data() == p + n - m, "last(%zu) has %zu", m, l.size());
            auto q = s; q.remove_prefix(o); CK(q.data() == p + o && q.size() == n - o, "remove_prefix(%zu)", o); q = s; q.remove_suffix(o); CK(q.data() == p && q.size() == n - o, "remove_suffix(%zu)", o);
            auto y = s.as_bytes(); CK(y.size() == n * sizeof(T) && (const void*)y.data() == p, "as_bytes: %zu", size_t(y.size()));
        }
    };
    go(mem); go((uint32_t*)mem); go((uint64_t*)mem);
    { auto v = itlib::make_memory_view((uint32_t*)mem, G4 + 5); CK(v.size() == G4 + 5, "memory view of %zu", size_t(v.size())); }
    munmap(mem, bytes); COV("huge views"); c.interesting();
}
SUITE_NOLEAK("huge.ss", 1, 1) {
    Rng& r = c.rng; size_t bytes = size_t(1) << 36; char* mem = (char*)map(bytes);
    for (int k = 0; k < 300; ++k) {
        // few elements far from each other, or very many
        bool many = r.chance(50); size_t stride = many ? 4 * (1 + r.below(3)) : (r.below(2) ? G4 : G4 / 2) + 4 * r.below(100), n = many ? G4 + r.below(500) : 4 + r.below(9); op("stride %zu, %zu elements", stride, n);
        itlib::stride_span<int> s = itlib::make_stride_span_from_buf<int>(mem, 64, stride, n); auto at = [&](size_t i) { return (int*)(mem + 64 + i * stride); };
        size_t o = many ? (r.chance(50) ? G4 + r.below(400) : r.below(400)) : r.below(n); if (o > n) o = n; size_t m = r.chance(50) ? n - o : r.below(n - o + 1);
        CK(s.size() == n && s.stride() == stride && size_t(s.end() - s.begin()) == n && &s[n - 1] == at(n - 1) && &s.back() == at(n - 1) && &s.at(n - 1) == at(n - 1), "a stride_span of %zu by %zu", n, stride);
        auto a = s.subspan(o), b = s.subspan(o, m), f = s.first(m), l = s.last(m); CK(a.size() == n - o && (!a.size() || &a[0] == at(o)), "subspan(%zu)", o); CK(b.size() == m && (!m || (&b[m - 1] == at(o + m - 1))), "subspan(%zu, %zu)", o, m); CK(f.size() == m && (!m || &f[m - 1] == at(m - 1)), "first(%zu)", m); CK(l.size() == m && (!m || &l[0] == at(n - m)), "last(%zu)", m);
        auto q = s; q.remove_prefix(o); CK(q.size() == n - o && (o == n || &q[0] == at(o)), "remove_prefix(%zu)", o); q = s; q.remove_suffix(o); CK(q.size() == n - o && (o == n || &q.back() == at(n - o - 1)), "remove_suffix(%zu)", o);
        if (o < n) { auto it = s.begin() + ptrdiff_t(o); CK(&*it == at(o) && it - s.begin() == ptrdiff_t(o) && &*(s.end() - ptrdiff_t(n - o)) == at(o) && s.begin() - it == -ptrdiff_t(o) && (it < s.end()) && !(s.end() < it), "iterator to %zu", o); auto jt = it; ++jt; CK(jt - it == 1 && &*--jt == at(o), "increment"); jt -= ptrdiff_t(o); CK(jt == s.begin(), "-="); }
        *at(n - 1) = int(k + 1); CK(s.back() == k + 1 && s[n - 1] == k + 1, "value");
    }
    struct S { char pad[1 << 16]; int f; }; size_t n = (bytes / sizeof(S)); auto ms = itlib::make_stride_span_member_view((S*)mem, n, &S::f); CK(ms.size() == n && &ms[n - 1] == &((S*)mem)[n - 1].f, "member view"); 
    auto as = itlib::make_stride_span_from_array((int*)mem, bytes / 4, 3, size_t(1) << 31); CK(as.size() == 8 && &as[7] == (int*)mem + 3 + 7 * (size_t(1) << 31), "array view of %zu", as.size());
    munmap(mem, bytes); COV("huge views"); c.interesting();
}
