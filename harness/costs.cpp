// What operations cost (C38): copies, moves, comparisons, constructions, callbacks and allocations are counted and
// compared with bounds which leave room for a constant factor but not for another order of growth
#include "common.hpp"
#include <algorithm>
#include <cmath>
#include <deque>
#include <functional>
#include <ostream>
#include <istream>
#include <sstream>
#include <itlib/any.hpp>
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <itlib/throw_ex.hpp>
#include <itlib/data_mutex.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/expected.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/make_ptr.hpp>
#include <itlib/mem_streambuf.hpp>
#include <itlib/memory_view.hpp>
#include <itlib/pmr_allocator.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/qalgorithm.hpp>
#include <itlib/rstream.hpp>
#include <itlib/sentry.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/ufunction.hpp>
#include <mutex>
#if __cplusplus >= 202002L
#include <itlib/generator.hpp>
#include <itlib/transparent_umap.hpp>
#endif
using namespace vf;
// ---------------------------------------------------------------- what is counted
struct Cost { long made = 0, copied = 0, moved = 0, gone = 0, compared = 0, hashed = 0, calls = 0, allocs = 0, bytes = 0; };
static Cost& now() { static Cost c; return c; }
static long& counting() { static long n = 0; return n; }
void* operator new(size_t n) { if (counting()) { ++now().allocs; now().bytes += long(n); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
struct CEl {
    int v;
    CEl() : v(0) { ++now().made; } explicit CEl(int i) : v(i) { ++now().made; }
    CEl(const CEl& o) : v(o.v) { ++now().copied; } CEl(CEl&& o) noexcept : v(o.v) { ++now().moved; o.v = -1; }
    CEl& operator=(const CEl& o) { v = o.v; ++now().copied; return *this; } CEl& operator=(CEl&& o) noexcept { v = o.v; ++now().moved; return *this; }
    ~CEl() { ++now().gone; }
    friend bool operator==(const CEl& a, const CEl& b) { ++now().compared; return a.v == b.v; }
    friend bool operator!=(const CEl& a, const CEl& b) { ++now().compared; return a.v != b.v; }
    friend bool operator<(const CEl& a, const CEl& b) { ++now().compared; return a.v < b.v; }
};
static std::ostream& operator<<(std::ostream& o, const CEl& e) { return o << e.v; }
struct CLess { using is_transparent = int; bool operator()(const CEl& a, const CEl& b) const { ++now().compared; return a.v < b.v; } bool operator()(const CEl& a, int b) const { ++now().compared; return a.v < b; } bool operator()(int a, const CEl& b) const { ++now().compared; return a < b.v; } };
struct Plain { bool operator()(const CEl& a, const CEl& b) const { ++now().compared; return a.v < b.v; } };
struct Is { int v; bool operator()(const CEl& e) const { ++now().calls; return e.v == v; } };
template <typename F> static Cost of(const char* what, F&& f) { op(what); Cost a = now(); ++counting(); f(); --counting(); Cost b = now(); b.made -= a.made; b.copied -= a.copied; b.moved -= a.moved; b.gone -= a.gone; b.compared -= a.compared; b.hashed -= a.hashed; b.calls -= a.calls; b.allocs -= a.allocs; b.bytes -= a.bytes; COV("operations measured"); return b; }
static double lg(size_t n) { return std::log2(double(n) + 2); }
// at most: cost k of an operation over n elements
#define MAX(c, field, limit, ...) do { long got_ = (c).field, lim_ = long(limit); if (got_ > lim_) { if (::vf::ignored("value.cost." #field)) throw ::vf::Abandon(); char b_[200]; snprintf(b_, sizeof b_, __VA_ARGS__); ::vf::fail("value.cost." #field, "%s: %ld " #field ", at most %ld expected", b_, got_, lim_); } ++checked; } while (0)
#define NONE(c, ...) do { MAX(c, made, 0, __VA_ARGS__); MAX(c, copied, 0, __VA_ARGS__); MAX(c, moved, 0, __VA_ARGS__); MAX(c, gone, 0, __VA_ARGS__); MAX(c, allocs, 0, __VA_ARGS__); } while (0)
static long checked = 0;
static void done(Case& c, size_t n) { COVN("bounds checked", checked); checked = 0; if (n >= 1000) COV("over a thousand elements"); if (n >= 20000) COV("over twenty thousand elements"); c.interesting(); }
static size_t sizes(Rng& r, size_t most) { size_t n = r.chance(30) ? r.below(20) : r.chance(60) ? r.below(600) : r.below(most); return n; }

// ---------------------------------------------------------------- vectors
template <typename V> struct Cap { static constexpr bool bounded = false; };
template <size_t N> struct Cap<itlib::static_vector<CEl, N>> { static constexpr bool bounded = true; };
template <typename V> static V filled(size_t n, Rng& r) { V v; while (v.size() < n) v.emplace_back(int(r.below(1000))); return v; }
template <typename V> static void vectors(Case& c, size_t most) {
    constexpr bool bounded = Cap<V>::bounded; Rng& r = c.rng; size_t n = sizes(r, most - 60); op("n %zu", n);
    V v; Cost k = of("append", [&] { for (size_t i = 0; i < n; ++i) v.emplace_back(int(i)); });
    const char* N = "appending elements one by one"; MAX(k, made, n, "%s", N); MAX(k, copied, 0, "%s", N); MAX(k, moved, bounded ? 0 : 12 * n + 60, "%s", N); MAX(k, allocs, bounded ? 0 : 6 * lg(n) + 8, "%s", N);
    if (!bounded) MAX(k, bytes, (24 * n + 300) * sizeof(CEl), "%s (capacity)", N);
    { CEl e(3); bool full = v.size() == v.capacity(); k = of("push_back", [&] { v.push_back(e); }); MAX(k, copied, 1, "push_back of an lvalue"); MAX(k, made, 0, "push_back"); if (!full) { MAX(k, moved, 2, "push_back within the capacity"); MAX(k, allocs, 0, "push_back within the capacity"); } else { MAX(k, moved, 4 * n + 10, "push_back which grows"); MAX(k, allocs, 1, "push_back which grows"); } }
    { CEl e(3); k = of("push_back rvalue", [&] { v.push_back(std::move(e)); }); MAX(k, copied, 0, "push_back of an rvalue"); MAX(k, allocs, 1, "push_back of an rvalue"); MAX(k, moved, 4 * n + 10, "push_back of an rvalue"); }
    for (int t = 0; t < 4; ++t) {
        size_t s = v.size(), at = r.below(s + 1), num = r.below(5), tail = s - at; bool room = s + num + 1 <= v.capacity(); auto pos = v.begin() + ptrdiff_t(at); CEl e(5); size_t reloc = room ? tail : s;
        switch (r.below(5)) {
        case 0: k = of("insert", [&] { v.insert(pos, e); }); MAX(k, copied, 2, "insert of an lvalue"); num = 1; break;
        case 1: k = of("insert rvalue", [&] { v.insert(pos, std::move(e)); }); MAX(k, copied, 0, "insert of an rvalue"); num = 1; break;
        case 2: k = of("emplace", [&] { v.emplace(pos, 4); }); MAX(k, copied, 0, "emplace"); MAX(k, made, 1, "emplace"); num = 1; break;
        case 3: k = of("insert fill", [&] { v.insert(pos, num, e); }); MAX(k, copied, num + 2, "insert of %zu copies", num); break;
        default: { std::vector<CEl> src(num, e); k = of("insert range", [&] { v.insert(pos, src.begin(), src.end()); }); MAX(k, copied, num, "insert of a range of %zu", num); }
        }
        MAX(k, moved, 4 * (reloc + num) + 10, "inserting %zu elements before the last %zu of %zu, %s the capacity", num, tail, s, room ? "within" : "beyond"); MAX(k, allocs, room ? 0 : 1, "inserting %zu elements %s the capacity", num, room ? "within" : "beyond"); if (room) COV("insertions within the capacity"); else COV("insertions which grow");
    }
    for (int t = 0; t < 3 && v.size() > 2; ++t) {
        size_t s = v.size(), at = r.below(s), num = r.below(std::min<size_t>(s - at, 5)) + 1, tail = s - at - num; bool back = false; auto pos = v.begin() + ptrdiff_t(at);
        if constexpr (!bounded) back = s <= V::static_capacity + 8; // may return to static storage
        k = of("erase", [&] { v.erase(pos, pos + ptrdiff_t(num)); }); MAX(k, copied, 0, "erase"); MAX(k, made, 0, "erase"); MAX(k, moved, 4 * (back ? s : tail + num) + 10, "erasing %zu elements before the last %zu of %zu", num, tail, s); MAX(k, allocs, 0, "erase");
    }
    if (v.size()) { size_t s = v.size(); bool back = false; if constexpr (!bounded) back = s <= V::static_capacity + 8; k = of("pop_back", [&] { v.pop_back(); }); MAX(k, moved, back ? 2 * s : 0, "pop_back"); MAX(k, copied, 0, "pop_back"); MAX(k, allocs, 0, "pop_back"); MAX(k, gone, back ? 2 * s + 2 : 1, "pop_back"); }
    size_t s = v.size();
    { const V& cv = v; long sum = 0; k = of("read", [&] { for (auto& x : cv) sum += x.v; for (size_t i = 0; i < s; ++i) sum += cv[i].v; if (s) sum += cv.front().v + cv.back().v; sum += long(cv.size()) + cv.empty(); for (auto i = cv.rbegin(); i != cv.rend(); ++i) sum += i->v; }); NONE(k, "reading"); }
    { V* d = nullptr; k = of("copy", [&] { d = new V(v); }); MAX(k, copied, s, "copying %zu elements", s); MAX(k, moved, 0, "copying"); MAX(k, made, 0, "copying"); MAX(k, allocs, 2, "copying %zu elements", s);
      k = of("assign", [&] { *d = v; }); MAX(k, copied, s, "assigning %zu elements over as many", s); MAX(k, moved, 0, "assigning"); MAX(k, allocs, 1, "assigning %zu elements over as many", s);
      k = of("compare", [&] { if (!(*d == v)) fail("value.cost.copy", "the copy differs"); }); MAX(k, compared, 2 * s + 4, "comparing %zu elements", s); NONE(k, "comparing");
      bool dyn = false; if constexpr (!bounded) dyn = !d->is_static();
      V* e = nullptr; k = of("move", [&] { e = new V(std::move(*d)); }); MAX(k, copied, 0, "moving"); MAX(k, moved, dyn ? 0 : s, "moving a vector of %zu elements in %s storage", s, dyn ? "dynamic" : "static"); MAX(k, allocs, 1, "moving");
      k = of("move assign", [&] { *d = std::move(*e); }); MAX(k, copied, 0, "move assigning"); MAX(k, moved, dyn ? 0 : s, "move assigning a vector of %zu elements in %s storage", s, dyn ? "dynamic" : "static"); MAX(k, allocs, 0, "move assigning");
      *e = v; if constexpr (!bounded) dyn = !d->is_static() && !e->is_static(); k = of("swap", [&] { std::swap(*d, *e); }); MAX(k, copied, 0, "swapping"); MAX(k, moved, dyn ? 0 : 6 * s + 6, "swapping vectors of %zu elements in %s storage", s, dyn ? "dynamic" : "static"); MAX(k, allocs, 0, "swapping");
      if (dyn) COV("dynamic vectors moved"); delete d; delete e; }
    { V w; CEl e(4); size_t m = r.below(s + 1); k = of("assign count", [&] { w.assign(m, e); }); MAX(k, copied, m + 2, "assigning %zu copies", m); MAX(k, moved, 2, "assigning copies"); MAX(k, allocs, 1, "assigning copies");
      k = of("assign range", [&] { w.assign(v.begin(), v.end()); }); MAX(k, copied, s, "assigning a range of %zu", s); MAX(k, moved, 0, "assigning a range"); MAX(k, allocs, 1, "assigning a range"); k = of("construct range", [&] { V u(v.begin(), v.end()); w.assign(u.begin(), u.end()); }); MAX(k, copied, 2 * s, "constructing from a range of %zu and assigning it", s); MAX(k, moved, 0, "constructing from a range"); MAX(k, allocs, 1, "constructing from a range");
      k = of("resize with a value", [&] { w.resize(m); w.resize(s, e); }); MAX(k, copied, s - m + 2, "resizing from %zu to %zu", m, s); MAX(k, moved, 2 * s + 4, "resizing"); }
    if constexpr (!bounded) {
        k = of("reserve", [&] { v.reserve(v.capacity() + 1 + r.below(50)); }); MAX(k, moved, 2 * s + 4, "reserve over %zu elements", s); MAX(k, copied, 0, "reserve"); MAX(k, allocs, 1, "reserve");
        k = of("reserve less", [&] { v.reserve(v.capacity()); v.reserve(s); }); NONE(k, "reserve of what is there");
        k = of("shrink_to_fit", [&] { v.shrink_to_fit(); }); MAX(k, moved, 2 * s + 4, "shrink_to_fit of %zu elements", s); MAX(k, copied, 0, "shrink_to_fit"); MAX(k, allocs, 1, "shrink_to_fit");
        size_t more = s + r.below(50); k = of("resize", [&] { v.resize(more); }); MAX(k, made, more - s, "resize from %zu to %zu", s, more); MAX(k, copied, 0, "resize"); MAX(k, moved, 2 * s + 4, "resize"); MAX(k, allocs, 1, "resize");
        k = of("resize within", [&] { v.resize(s); }); MAX(k, moved, 0, "shrinking by resize"); MAX(k, gone, more - s, "shrinking by resize"); MAX(k, allocs, 0, "shrinking by resize");
        V w; w.reserve(s + 1); k = of("append to reserved", [&] { for (size_t i = 0; i <= s; ++i) w.emplace_back(1); }); MAX(k, made, s + 1, "appending to reserved space"); MAX(k, moved, 0, "appending to reserved space"); MAX(k, allocs, 0, "appending to reserved space");
    }
    s = v.size(); k = of("clear", [&] { v.clear(); }); MAX(k, gone, s, "clear of %zu", s); MAX(k, moved, 0, "clear"); MAX(k, allocs, 0, "clear");
    done(c, n);
}
static void sv(Case& c) { vectors<itlib::small_vector<CEl, 5, 3>>(c, 60000); } REG_SUITE("cost.sv", 60, 600, &sv);
static void sv2(Case& c) { vectors<itlib::small_vector<CEl, 300, 0>>(c, 3000); } REG_SUITE("cost.sv.300", 40, 400, &sv2);
static void xv(Case& c) { vectors<itlib::static_vector<CEl, 3000>>(c, 2900); } REG_SUITE("cost.xv", 40, 400, &xv);
// pod_vector: nothing but its allocations can be counted
struct PA { // counts what the allocator is asked for
    using size_type = size_t;
    static void* malloc(size_t n) { ++now().allocs; now().bytes += long(n); return ::malloc(n); }
    static void* realloc(void* p, size_t n) { ++now().allocs; now().bytes += long(n); return ::realloc(p, n); }
    static void free(void* p) { ::free(p); }
    static constexpr size_t max_size() { return ~size_t(0); }
    static constexpr bool zero_fill_new() { return true; }
    static constexpr size_t alloc_align() { return alignof(max_align_t); }
    static constexpr bool has_expand() { return false; }
    static bool expand(void*, size_t) { return false; }
    static constexpr size_t realloc_wasteful_copy_size() { return 4096; }
};
static void pv(Case& c) {
    Rng& r = c.rng; size_t n = sizes(r, 100000); itlib::pod_vector<int, PA> v; const char* N = "pod_vector: appending one by one";
    Cost k = of("pod append", [&] { for (size_t i = 0; i < n; ++i) v.push_back(int(i)); }); MAX(k, allocs, 6 * lg(n) + 8, "%s", N); MAX(k, bytes, 100 * n + 4000, "%s", N);
    k = of("pod insert", [&] { for (int i = 0; i < 10; ++i) v.insert(v.begin() + ptrdiff_t(r.below(v.size() + 1)), 7); }); MAX(k, allocs, n < 50 ? 10 : 3, "pod_vector: inserting ten elements"); n += 10;
    k = of("pod erase", [&] { for (int i = 0; i < 5; ++i) v.erase(v.begin() + ptrdiff_t(r.below(v.size()))); v.pop_back(); v.resize(v.size() - 1); }); MAX(k, allocs, 0, "pod_vector: erasing");
    itlib::pod_vector<int, PA> w; k = of("pod copy", [&] { w = v; }); MAX(k, allocs, 1, "pod_vector: copying"); MAX(k, bytes, 4 * (v.size() + 4), "pod_vector: copying"); k = of("pod assign", [&] { w = v; w.assign(v.begin(), v.end()); }); MAX(k, allocs, 0, "pod_vector: assigning over as much");
    k = of("pod move", [&] { itlib::pod_vector<int, PA> m(std::move(w)); w = std::move(m); w.swap(v); }); MAX(k, allocs, 0, "pod_vector: moving and swapping");
    v.reserve(v.size() * 2 + 5); k = of("pod within", [&] { size_t more = v.capacity() - v.size(); for (size_t i = 0; i < more; ++i) v.push_back(1); }); MAX(k, allocs, 0, "pod_vector: appending to reserved space");
    itlib::pod_vector<unsigned char, PA> b; k = of("pod recast", [&] { b.recast_take_from(std::move(v)); }); MAX(k, allocs, 0, "pod_vector: taking the buffer of another"); b.resize(b.size() / 2 + 1); b.shrink_to_fit(); k = of("pod again", [&] { b.shrink_to_fit(); b.reserve(b.capacity()); b.reserve(1); }); MAX(k, allocs, 0, "pod_vector: shrink_to_fit and reserve of what is there"); k = of("pod clear", [&] { b.clear(); }); MAX(k, allocs, 0, "pod_vector: clear");
    done(c, n);
}
REG_SUITE("cost.pv", 60, 600, &pv);
// ---------------------------------------------------------------- flat containers
template <typename T> static const CEl& key(const T& t) { return t; }
static const CEl& key(const std::pair<CEl, CEl>& t) { return t.first; }
template <typename M, bool Map> static void flat(Case& c, size_t most) {
    Rng& r = c.rng; size_t n = sizes(r, most);
    std::vector<int> order; for (size_t i = 0; i < n; ++i) order.push_back(int(i) * 2); for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    typename M::container_type src; src.reserve(n + 40); for (int i : order) { if constexpr (Map) src.emplace_back(CEl(i), CEl(i)); else src.emplace_back(i); }
    M m; Cost k = of("flat from an unsorted container", [&] { m = M(std::move(src)); }); MAX(k, compared, 6 * (double(n) * lg(n)) + 60, "making a flat container of %zu unsorted elements", n); MAX(k, copied, 0, "making a flat container"); MAX(k, allocs, 2, "making a flat container"); MAX(k, moved, (Map ? 16 : 8) * (double(n) * lg(n)) + 200, "making a flat container of %zu unsorted elements", n);
    if (r.chance(30)) { // of a range, with as many equivalent elements again
        typename M::container_type twice(m.begin(), m.end()); twice.insert(twice.end(), m.begin(), m.end()); size_t s = twice.size(); k = of("flat from a range", [&] { M d(twice.begin(), twice.end()); if (d.size() != n) fail("value.cost.range", "%zu elements, should be %zu", d.size(), n); });
        MAX(k, compared, 8 * (double(s) * lg(s)) + 100, "making a flat container of a range of %zu", s); MAX(k, copied, (Map ? 2 : 1) * s, "making a flat container of a range of %zu", s); MAX(k, moved, (Map ? 16 : 8) * (double(s) * lg(s)) + 200, "making a flat container of a range of %zu", s); MAX(k, allocs, 2, "making a flat container of a range"); COV("flat containers of ranges");
    }
    double look = 2 * lg(n) + 6;
    for (int t = 0; t < 30; ++t) {
        int i = int(r.below(2 * n + 3)); CEl e(i); const M& cm = m; size_t s = m.size();
        switch (r.below(9)) {
        case 0: k = of("flat find", [&] { if (m.find(e) != m.end()) ++now().calls; if (cm.find(e) != cm.end()) ++now().calls; }); MAX(k, compared, 2 * look, "two finds in %zu elements", s); NONE(k, "find"); break;
        case 1: k = of("flat transparent find", [&] { cm.find(i); cm.lower_bound(i); }); MAX(k, compared, 2 * look, "find and lower_bound of another key type in %zu elements", s); NONE(k, "find of another key type"); break;
        case 2: k = of("flat bounds", [&] { cm.lower_bound(e); cm.upper_bound(e); cm.equal_range(e); }); MAX(k, compared, 4 * look, "bounds in %zu elements", s); NONE(k, "bounds"); break;
        case 3: k = of("flat count", [&] { cm.count(e); }); MAX(k, compared, 2 * look, "count in %zu elements", s); NONE(k, "count"); break;
        case 4: { auto f = m.lower_bound(e); size_t tail = size_t(m.end() - f); bool has = f != m.end() && key(*f).v == i, room = m.container().capacity() > s; if (!room) break; const bool how = r.chance(50); const CEl& ce = e; k = of("flat insert", [&] { if constexpr (Map) { if (how) m.emplace(e, 5); else { const std::pair<CEl, CEl> p(e, e); m.insert(p); } } else { if (how) m.insert(ce); else m.emplace(i); } }); MAX(k, compared, look + 4, "insert into %zu elements", s); MAX(k, moved, has ? 8 : 2 * (2 * tail + 8), "insert before the last %zu of %zu elements", tail, s); MAX(k, copied, 4, "insert"); MAX(k, allocs, 0, "insert within the capacity"); break; }
        case 5: { auto f = m.lower_bound(e); size_t tail = size_t(m.end() - f); k = of("flat erase", [&] { m.erase(e); }); MAX(k, compared, 2 * look + 4, "erase from %zu elements", s); MAX(k, moved, 2 * (2 * tail + 8), "erase before the last %zu elements", tail); MAX(k, copied, 0, "erase"); MAX(k, allocs, 0, "erase"); break; }
        case 6: if constexpr (Map) { if (auto f = m.find(e); f != m.end()) { k = of("flat index", [&] { m[e].v += 1; m.at(e).v += 1; m[i].v += 1; }); MAX(k, compared, 3 * look + 6, "operator[] and at of present keys"); NONE(k, "operator[] and at of present keys"); COV("present keys"); } } break;
        case 7: if (auto f = m.find(e); f != m.end()) { size_t tail = size_t(m.end() - f); k = of("flat erase at", [&] { m.erase(f); }); MAX(k, compared, 0, "erase at an iterator"); MAX(k, moved, 2 * tail + 4, "erase before the last %zu elements", tail); MAX(k, copied, 0, "erase"); } break;
        default: if (auto f = m.find(e); f != m.end()) { k = of("flat insert present", [&] { if constexpr (Map) m.insert({e, e}); else m.insert(e); }); MAX(k, compared, look + 4, "insert of a present key"); MAX(k, copied, Map ? 4 : 0, "insert of a present key"); MAX(k, moved, Map ? 4 : 0, "insert of a present key"); MAX(k, allocs, 0, "insert of a present key"); }
        }
        COV("flat operations");
    }
    { M d(m); size_t s = m.size(); k = of("flat move, swap", [&] { M e(std::move(d)); d = std::move(e); d.swap(m); std::swap(d, m); }); MAX(k, copied, 0, "moving and swapping flat containers"); MAX(k, moved, 0, "moving and swapping flat containers"); MAX(k, allocs, 0, "moving and swapping flat containers"); MAX(k, compared, 0, "moving and swapping flat containers");
      k = of("flat copy", [&] { M e(m); ++now().calls; }); MAX(k, copied, (Map ? 2 : 1) * s, "copying %zu elements", s); MAX(k, compared, 0, "copying a flat container"); MAX(k, allocs, 1, "copying a flat container");
      k = of("flat compare", [&] { now().calls += d == m; }); MAX(k, compared, 2 * (Map ? 2 : 1) * s + 6, "comparing flat containers of %zu elements", s); NONE(k, "comparing flat containers"); }
    done(c, n);
}
static void fm(Case& c) { flat<itlib::flat_map<CEl, CEl, CLess>, true>(c, 30000); } REG_SUITE("cost.map", 60, 600, &fm);
static void fs(Case& c) { flat<itlib::flat_set<CEl, CLess>, false>(c, 30000); } REG_SUITE("cost.set", 60, 600, &fs);
// ---------------------------------------------------------------- algorithms
static void alg(Case& c) {
    Rng& r = c.rng; size_t n = sizes(r, 30000); std::vector<CEl> v; v.reserve(n); int kinds = 1 + int(r.below(n + 1)); for (size_t i = 0; i < n; ++i) v.emplace_back(int(r.below(size_t(kinds))));
    int x = int(r.below(size_t(kinds) + 2)); size_t first = 0; while (first < n && v[first].v != x) ++first; size_t hits = 0; for (auto& e : v) hits += e.v == x; const CEl e(x); const auto& cv = v; Is is{x};
    size_t upto = std::min(first + 1, n);
    Cost k = of("qfind", [&] { itlib::qfind(v, e); }); MAX(k, compared, 2 * upto + 4, "qfind of what is at %zu", first); NONE(k, "qfind"); k = of("pfind", [&] { itlib::pfind(cv, e); }); MAX(k, compared, 2 * upto + 4, "pfind of what is at %zu", first); NONE(k, "pfind");
    k = of("qfind_if", [&] { itlib::qfind_if(cv, is); }); MAX(k, calls, upto, "qfind_if of what is at %zu", first); NONE(k, "qfind_if"); k = of("pfind_if", [&] { itlib::pfind_if(v, is); }); MAX(k, calls, upto, "pfind_if of what is at %zu", first); NONE(k, "pfind_if");
    k = of("qany_of", [&] { itlib::qany_of(cv, is); }); MAX(k, calls, upto, "qany_of"); NONE(k, "qany_of"); k = of("qnone_of", [&] { itlib::qnone_of(cv, is); }); MAX(k, calls, upto, "qnone_of"); NONE(k, "qnone_of");
    size_t other = 0; while (other < n && v[other].v == x) ++other; k = of("qall_of", [&] { itlib::qall_of(cv, is); }); MAX(k, calls, std::min(other + 1, n), "qall_of"); NONE(k, "qall_of");
    { auto w = v; k = of("erase_first", [&] { itlib::erase_first(w, e); }); MAX(k, compared, 2 * upto + 4, "erase_first of what is at %zu", first); MAX(k, moved, 4 * (n - first) + 4, "erase_first of what is at %zu of %zu", first, n); MAX(k, copied, 0, "erase_first"); MAX(k, allocs, 0, "erase_first"); }
    { auto w = v; k = of("erase_first_if", [&] { itlib::erase_first_if(w, is); }); MAX(k, calls, upto, "erase_first_if of what is at %zu", first); MAX(k, moved, 4 * (n - first) + 4, "erase_first_if"); MAX(k, copied, 0, "erase_first_if"); }
    { auto w = v; k = of("erase_all", [&] { itlib::erase_all(w, e); }); MAX(k, compared, 2 * n + 4, "erase_all of %zu of %zu", hits, n); MAX(k, moved, 4 * n + 4, "erase_all of %zu of %zu", hits, n); MAX(k, copied, 0, "erase_all"); MAX(k, allocs, 0, "erase_all"); MAX(k, gone, hits + 4, "erase_all"); }
    { auto w = v; k = of("erase_all_if", [&] { itlib::erase_all_if(w, is); }); MAX(k, calls, n, "erase_all_if of %zu of %zu", hits, n); MAX(k, moved, 4 * n + 4, "erase_all_if of %zu of %zu", hits, n); MAX(k, copied, 0, "erase_all_if"); MAX(k, allocs, 0, "erase_all_if"); }
    if (hits > 1) COV("several hits"); done(c, n);
}
REG_SUITE("cost.alg", 60, 600, &alg);
// ---------------------------------------------------------------- one value
template <size_t Pad> struct Fn { CEl e; char pad[Pad]; int operator()(const CEl& a, CEl b, CEl&& x) { return e.v + a.v + b.v + x.v; } };
template <typename T> static int poly(T& t) { ++now().calls; return t.v; }
static void value(Case& c) {
    Rng& r = c.rng; Cost k; using X = itlib::expected<CEl, std::string>; using XE = itlib::expected<int, CEl>; int x = int(r.below(100));
    for (int t = 0; t < 6; ++t) switch (r.below(10)) {
    case 0: { X* p = nullptr; CEl e(x); k = of("expected", [&] { p = new X(std::move(e)); }); MAX(k, copied, 0, "an expected of an rvalue"); MAX(k, moved, 4, "an expected of an rvalue"); k = of("expected move", [&] { X q(std::move(*p)); *p = std::move(q); }); MAX(k, copied, 0, "moving an expected"); MAX(k, moved, 8, "moving an expected there and back"); MAX(k, allocs, 0, "moving an expected");
        k = of("expected read", [&] { now().calls += p->value().v + (**p).v + (*p)->v + p->has_value(); }); NONE(k, "reading an expected"); k = of("value_or", [&] { now().calls += static_cast<const X&>(*p).value_or(CEl(1)).v; }); MAX(k, copied, 1, "value_or of an lvalue"); k = of("value_or rvalue", [&] { X z(CEl(2)); CEl g(std::move(z).value_or(CEl(1))); X u(itlib::unexpected(std::string("x"))); CEl h(std::move(u).value_or(CEl(1))); now().calls += g.v + h.v; }); MAX(k, copied, 0, "value_or of rvalues"); k = of("expected take", [&] { CEl f(std::move(*p).value()); x += f.v; }); MAX(k, copied, 0, "taking the value of an expected"); MAX(k, moved, 3, "taking the value of an expected"); delete p;
        XE f(itlib::unexpected(CEl(3))); k = of("expected error", [&] { XE g(std::move(f)); f = std::move(g); now().calls += f.error().v; }); MAX(k, copied, 0, "moving an error"); MAX(k, moved, 8, "moving an error there and back"); COV("expected measured"); break; }
    case 1: { itlib::any<> a; k = of("any emplace", [&] { a.emplace<CEl>(x); }); MAX(k, made, 1, "any::emplace"); MAX(k, copied, 0, "any::emplace"); MAX(k, moved, 0, "any::emplace"); MAX(k, allocs, 1, "any::emplace");
        k = of("any move", [&] { itlib::any<> b(std::move(a)); a = std::move(b); }); NONE(k, "moving an any"); k = of("any read", [&] { now().calls += itlib::any_cast<CEl&>(a).v + itlib::any_cast<const CEl&>(a).v + itlib::any_cast<CEl>(&a)->v + (a.type() == typeid(CEl)) + a.has_value(); }); NONE(k, "reading an any");
        k = of("any copy", [&] { itlib::any<> b(a); now().calls += b.has_value(); }); MAX(k, copied, 1, "copying an any"); MAX(k, moved, 3, "copying an any"); CEl e(x); k = of("any of an rvalue", [&] { a = std::move(e); }); MAX(k, copied, 0, "an any of an rvalue"); MAX(k, moved, 4, "an any of an rvalue");
        k = of("any assign", [&] { itlib::any<> b; b = a; }); MAX(k, copied, 1, "copy assigning an any"); MAX(k, moved, 3, "copy assigning an any"); k = of("any take", [&] { CEl f(itlib::any_cast<CEl>(std::move(a))); x += f.v; }); MAX(k, copied, 0, "taking the value of an any"); k = of("any_cast to a value", [&] { itlib::any<> b(CEl(7)); CEl f(itlib::any_cast<CEl>(b)); x += f.v; }); MAX(k, copied, 1, "any_cast to a value"); COV("any measured"); break; }
    case 2: { using F = itlib::ufunction<int(const CEl&, CEl, CEl&&)>; F f; k = of("ufunction", [&] { f = Fn<200>{CEl(x), {}}; }); MAX(k, copied, 0, "a ufunction of a callable"); MAX(k, moved, 8, "a ufunction of a callable"); k = of("ufunction move", [&] { F g(std::move(f)); f = std::move(g); }); NONE(k, "moving a ufunction of a large callable");
        CEl a(1), b(2), d(3); k = of("ufunction call", [&] { now().calls += f(a, std::move(b), std::move(d)); }); MAX(k, copied, 0, "calling a ufunction with an rvalue"); MAX(k, moved, 6, "calling a ufunction"); MAX(k, allocs, 0, "calling a ufunction"); CEl b2(2); k = of("ufunction call lvalue", [&] { now().calls += f(a, b2, std::move(d)); }); MAX(k, copied, 1, "calling a ufunction with an lvalue"); COV("ufunction measured"); break; }
    case 3: { CEl e(x); k = of("sentry", [&] { auto f = [&] { now().calls += e.v; }; auto s = itlib::make_sentry(f); auto u = itlib::make_sentry([&] { now().calls += 1; }); }); NONE(k, "a sentry"); struct Held { CEl e; void operator()() { now().calls += e.v; } }; k = of("sentry of a callable with state", [&] { auto u = itlib::make_sentry(Held{CEl(x)}); }); MAX(k, copied, 0, "a sentry of an rvalue"); MAX(k, moved, 6, "a sentry of an rvalue"); MAX(k, allocs, 0, "a sentry"); COV("sentry measured"); break; }
    case 4: { { CEl e(x); k = of("data_mutex of an rvalue", [&] { itlib::data_mutex<CEl, std::mutex> d(std::move(e)); }); MAX(k, copied, 0, "data made of an rvalue"); MAX(k, moved, 2, "data made of an rvalue"); } itlib::data_mutex<CEl, std::mutex> m(x); k = of("data_mutex", [&] { { auto l = m.unique_lock(); l->v += 1; (*l).v += 1; } if (auto l = m.try_unique_lock()) now().calls += l->v; }); NONE(k, "locking and using locked data"); COV("data_mutex measured"); break; }
    case 5: { CEl e(x); std::shared_ptr<CEl> p; std::unique_ptr<CEl> u; k = of("make_shared", [&] { p = itlib::make_shared(std::move(e)); }); MAX(k, copied, 0, "make_shared of an rvalue"); MAX(k, moved, 3, "make_shared"); MAX(k, allocs, 1, "make_shared"); k = of("make_unique", [&] { u = itlib::make_unique(CEl(1)); }); MAX(k, copied, 0, "make_unique of an rvalue"); MAX(k, moved, 3, "make_unique"); MAX(k, allocs, 1, "make_unique"); k = of("make_aliased", [&] { auto q = itlib::make_aliased(p, &p->v); x += *q; }); NONE(k, "make_aliased"); k = of("make_shared lvalue", [&] { auto q = itlib::make_shared(*u); }); MAX(k, copied, 1, "make_shared of an lvalue"); itlib::atomic_shared_ptr_storage<CEl> st(p); k = of("storage", [&] { auto q = st.load(); auto o = st.exchange(q); st.store(std::move(o)); st.compare_exchange(q, nullptr); }); NONE(k, "a storage of a pointer"); COV("pointers measured"); break; }
    case 8: { CEl e(x); k = of("throw_ex", [&] { try { itlib::throw_ex<std::runtime_error>() << e << "," << static_cast<const CEl&>(e); } catch (std::runtime_error&) { ++now().calls; } }); MAX(k, copied, 0, "streaming to throw_ex"); MAX(k, moved, 0, "streaming to throw_ex"); MAX(k, made, 0, "streaming to throw_ex"); COV("throw_ex measured"); break; }
    case 6: { size_t n = 1 + r.below(500); std::vector<CEl> d; d.reserve(n); for (size_t i = 0; i < n; ++i) d.emplace_back(int(i)); long sum = 0;
        k = of("span", [&] { itlib::span<CEl> s(d.data(), n); auto t = s.subspan(n / 2); for (auto& e : s) sum += e.v; for (auto& e : t) sum += e.v; sum += s.front().v + s.back().v; auto q = itlib::make_span(d); sum += long(q.size()); itlib::span<const CEl> cs(s); sum += long(cs.size()); itlib::memory_view<CEl> mv(d.data(), n); sum += mv[n - 1].v; auto ss = itlib::make_stride_span_from_array(d.data(), n, 0, 2); for (auto& e : ss) sum += e.v; }); NONE(k, "views");
        k = of("poly_span", [&] { itlib::poly_span<int> ps(d.data(), n, poly<CEl>); sum += ps[n / 2]; }); MAX(k, calls, 1, "an access through a poly_span"); NONE(k, "poly_span"); itlib::poly_span<int> ps(d.data(), n, poly<CEl>);
        k = of("poly_span iteration", [&] { for (auto e : ps) sum += e; }); MAX(k, calls, n, "iterating a poly_span of %zu", n); k = of("poly_span observers", [&] { auto b = ps.begin(), e = ps.end(); sum += (e - b) + long(ps.size()) + ps.empty() + long(ps.subspan(n / 2).size()) + (b + 1 <= e); }); MAX(k, calls, 0, "observing a poly_span"); COV("views measured"); break; }
#if __cplusplus >= 202002L
    case 7: { size_t n = r.below(300); auto gen = [](size_t m) -> itlib::generator<CEl> { for (size_t i = 0; i < m; ++i) co_yield CEl(int(i)); }; long sum = 0; auto g = gen(n); k = of("generator", [&] { while (auto e = g.next()) sum += e->v; }); MAX(k, copied, 0, "values of a generator"); MAX(k, moved, 6 * n + 4, "%zu values of a generator", n); MAX(k, allocs, 0, "resuming a generator"); auto h = gen(n); k = of("generator range", [&] { for (auto& e : h) sum += e.v; }); MAX(k, copied, 0, "values of a generator"); MAX(k, moved, 4 * n + 4, "%zu values of a generator", n); MAX(k, allocs, 0, "resuming a generator");
        std::vector<CEl> d(n); auto refs = [](std::vector<CEl>& v) -> itlib::generator<CEl&> { for (auto& e : v) co_yield e; }; auto i = refs(d); k = of("generator of references", [&] { for (auto& e : i) sum += e.v; }); NONE(k, "references of a generator"); k = of("generator move", [&] { auto j = std::move(i); i = std::move(j); }); NONE(k, "moving a generator"); COV("generator measured"); break; }
#endif
    default: { size_t n = 1 + r.below(3000); std::string text(n, 'x'); itlib::mem_istreambuf<char> b(text.data(), n); std::istream in(&b); std::string out(n, 0); k = of("reading a stream", [&] { in.read(&out[0], long(n / 2)); in.seekg(0); { itlib::redirect_rstream rr(in, long(n / 3)); rr.read(&out[0], long(n / 4)); } in.read(&out[0], long(n / 2)); }); MAX(k, allocs, 0, "reading a buffer"); COV("reading measured"); }
    }
    c.h = c.rng.next(); done(c, 0);
}
REG_SUITE("cost.value", 200, 2000, &value);
// ---------------------------------------------------------------- streams, bitsets, maps
struct Words : std::vector<uint32_t> { // counts accesses and growths
    using B = std::vector<uint32_t>; using B::B;
    uint32_t& operator[](size_t i) { ++now().calls; return B::operator[](i); } const uint32_t& operator[](size_t i) const { ++now().calls; return B::operator[](i); }
};
#if __cplusplus >= 202002L
struct H { using is_transparent = int; size_t operator()(const CEl& e) const { ++now().hashed; return size_t(e.v); } size_t operator()(int i) const { ++now().hashed; return size_t(i); } };
struct Q { using is_transparent = int; static int v(const CEl& e) { return e.v; } static int v(int i) { return i; } bool operator()(const auto& a, const auto& b) const { ++now().compared; return v(a) == v(b); } };
#endif
template <typename Buf> static void streams(Rng& r, size_t n) {
    { itlib::mem_ostreambuf<Buf> b; std::ostream o(&b); Cost k; k = of("put", [&] { for (size_t i = 0; i < n; ++i) o.put('x'); }); MAX(k, allocs, 6 * lg(n) + 10, "writing %zu single characters", n); MAX(k, bytes, 40 * n + 1000, "writing %zu single characters", n);
      std::string chunk(1 + r.below(300), 'y'); size_t m = n / chunk.size(); k = of("write", [&] { for (size_t i = 0; i < m; ++i) o.write(chunk.data(), long(chunk.size())); }); MAX(k, allocs, 6 * lg(n) + 10, "writing %zu chunks", m); MAX(k, bytes, 60 * n + 6000, "writing %zu chunks", m);
      std::string big(n + 1, 'z'); k = of("one write", [&] { o.write(big.data(), long(big.size())); }); MAX(k, allocs, 3, "one write of %zu", n); size_t at = b.poff(); k = of("write over", [&] { o.seekp(0); o.write(big.data(), long(big.size())); o.seekp(long(at)); }); MAX(k, allocs, 0, "writing over what is there");
      k = of("get_container", [&] { auto v = b.get_container(); now().calls += long(v.size()); }); MAX(k, allocs, 1, "get_container"); COV("streams measured"); }
}
static void bulk(Case& c) {
    Rng& r = c.rng; size_t n = sizes(r, 200000); Cost k;
    switch (r.below(3)) { case 0: streams<std::vector<char>>(r, n); break; case 1: streams<itlib::pod_vector<char, PA>>(r, n); break; default: streams<itlib::small_vector<char, 20>>(r, n); }
    { itlib::dynamic_bitset<Words> b; k = of("bits", [&] { for (size_t i = 0; i < n; ++i) b.push_back(i % 3 == 0); }); MAX(k, allocs, 6 * lg(n) + 10, "appending %zu bits", n); MAX(k, calls, 4 * n + 40, "word accesses of appending %zu bits", n);
      itlib::dynamic_bitset<Words> d(b); if (r.chance(70)) d.push_back(1); size_t w = b.word_size() + d.word_size(); k = of("append bits", [&] { d.append(b); }); MAX(k, allocs, 2, "appending a bitset"); MAX(k, calls, 6 * w + 100, "word accesses of appending a bitset to another, %zu words in all", w);
      size_t f = r.below(40); if (d.size() > n + f && n) { k = of("copy bits", [&] { d.copy(d.begin() + ptrdiff_t(f), d.begin() + ptrdiff_t(f + n), static_cast<const itlib::dynamic_bitset<Words>&>(b).begin()); }); MAX(k, allocs, 0, "copying bits"); MAX(k, calls, 6 * w + 300, "word accesses of copying %zu bits", n); COV("bits copied"); }
      k = of("test bits", [&] { for (size_t i = 0; i < n; i += 7) { now().bytes += b.test(i) + b[i]; b.set(i); b.flip(i); } }); MAX(k, allocs, 0, "single bits"); MAX(k, calls, 2 * 4 * (n / 7 + 1), "word accesses of single bits"); k = of("any, all", [&] { now().bytes += b.any() + b.all() + b.none(); }); MAX(k, calls, 6 * (w + 4), "word accesses of any, all and none"); MAX(k, allocs, 0, "any, all, none"); COV("bitsets measured"); }
#if __cplusplus >= 202002L
    { itlib::transparent_umap<CEl, CEl, H, Q> m; size_t s = n / 20; for (size_t i = 0; i < s; ++i) m.try_emplace(int(i), int(i)); const auto& cm = m; int i = int(r.below(s + 1)); bool has = size_t(i) < s;
      k = of("umap find", [&] { now().calls += cm.find(i) != cm.end(); now().calls += long(cm.count(i)) + cm.contains(i); }); NONE(k, "finding by another key type"); MAX(k, hashed, 6, "finding three times"); MAX(k, compared, 60, "finding three times in %zu", s);
      if (has) { k = of("umap present", [&] { m[i].v += 1; now().calls += m.at(i).v + cm.at(i).v; m.try_emplace(i, 5); m.try_emplace(m.cend(), i, 5); }); NONE(k, "using a present key of another type"); MAX(k, hashed, 15, "five lookups"); } else { k = of("umap absent", [&] { m[i].v += 1; }); MAX(k, made, 4, "adding a key"); MAX(k, copied, 0, "adding a key"); MAX(k, hashed, 4 + long(m.size()) * 2, "adding a key"); }
      COV("umap measured"); }
#endif
    done(c, n);
}
REG_SUITE("cost.bulk", 60, 600, &bulk);
