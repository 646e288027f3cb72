// Checked misuse in every error handling configuration (C32). Compiled once per configuration:
//   VF_EH=0..3 (error handling of the vectors), NDEBUG, VF_NOCHECK (no bounds checks, flat_map doesn't throw)
#ifndef VF_EH
#  define VF_EH 1
#endif
#define ITLIB_SMALL_VECTOR_ERROR_HANDLING VF_EH
#define ITLIB_STATIC_VECTOR_ERROR_HANDLING VF_EH
#ifndef VF_NOCHECK
#  define VF_NOCHECK 0
#endif
#if VF_NOCHECK
#  define ITLIB_SMALL_VECTOR_NO_DEBUG_BOUNDS_CHECK
#  define ITLIB_STATIC_VECTOR_NO_DEBUG_BOUNDS_CHECK
#  define ITLIB_SPAN_NO_DEBUG_BOUNDS_CHECK
#  define ITLIB_STRIDE_SPAN_NO_DEBUG_BOUNDS_CHECK
#  define ITLIB_POLY_SPAN_NO_DEBUG_BOUNDS_CHECK
#  define ITLIB_MEMORY_VIEW_NO_DEBUG_BOUNDS_CHECK
#  define ITLIB_FLAT_MAP_NO_THROW
#endif
#include "common.hpp"
#include <cassert>
#include <csetjmp>
#include <list>
#include <map>
#include <set>
#include <algorithm>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/expected.hpp>
#include <itlib/any.hpp>
#include <itlib/span.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/memory_view.hpp>
using namespace vf;

#if defined(NDEBUG)
constexpr bool asserts = false;
#else
constexpr bool asserts = true;
#endif
#if VF_NOCHECK
constexpr bool bounds_checked = false;
#else
constexpr bool bounds_checked = asserts;
#endif
constexpr bool range_asserts = asserts && VF_EH >= 2, range_throws = VF_EH == 1 || VF_EH == 3, range_checked = range_asserts || range_throws;

// ------------------------------------------------------------------ reports
enum Mode { Flag, Throw, Jump, Continue };
static Mode mode = Flag;
static int hits; static const char* hit_expr = ""; static jmp_buf jb;
struct Asserted {};
void vfa_hit_impl(const char* e) {
    hit_expr = e; ++hits;
    switch (mode) {
    case Flag: fail("misuse.false-report", "an assertion failed in a call which is in contract: %s", e);
    case Throw: throw Asserted();
    case Jump: longjmp(jb, 1);
    case Continue: return; // the code goes on to throw
    }
}
namespace vfa { void hit(const char* e) { vfa_hit_impl(e); } }

enum Got { Nothing, Assertion, OutOfRange, Both, BadCast, Other };
static const char* got_name(Got g) { static const char* n[] = {"nothing", "an assertion", "out_of_range", "an assertion and out_of_range", "bad_cast", "another exception"}; return n[g]; }
template <typename F> Got observe(Mode m, F f) {
    hits = 0; mode = m; Got g = Nothing;
    try { f(); }
    catch (Asserted&) { g = Assertion; }
    catch (std::out_of_range&) { g = OutOfRange; }
    catch (std::bad_cast&) { g = BadCast; }
    catch (std::exception&) { g = Other; }
    mode = Flag;
    if (m == Continue && hits) g = g == OutOfRange ? Both : Assertion;
    return g;
}
// an out of range report of a vector
template <typename F> void range_misuse(const char* what, F f) {
    if (!range_checked) return;
    Got want = VF_EH == 1 ? OutOfRange : VF_EH == 2 ? Assertion : asserts ? Both : OutOfRange;
    op("range misuse: %s", what); COV("out of range reports"); cov_dyn(what);
    Got g = observe(VF_EH == 3 ? Continue : Throw, f);
    VCHECK(g == want, "misuse.range", "%s: %s reported instead of %s", what, got_name(g), got_name(want));
}
// an assertion; f must not need destructors if the call is noexcept
template <typename F> void assert_misuse(const char* what, bool on, F f) {
    if (!on) return;
    op("misuse: %s", what); COV("assertions reported"); cov_dyn(what);
    Got g = observe(Throw, f);
    VCHECK(g == Assertion, "misuse.assert", "%s: %s reported instead of an assertion", what, got_name(g));
}
template <typename F> void assert_misuse_noexcept(const char* what, bool on, F f) {
    if (!on) return;
    op("misuse: %s", what); COV("assertions reported"); cov_dyn(what);
    hits = 0; mode = Jump;
    if (!setjmp(jb)) f();
    mode = Flag;
    VCHECK(hits == 1, "misuse.assert", "%s: not reported by an assertion", what);
}
static int sink_v; template <typename T> static void sink(const T& t) { sink_v += int(sizeof t); volatile const char* p = reinterpret_cast<volatile const char*>(&t); sink_v += *p; }

static size_t bad_index(Rng& r, size_t size, size_t cap) {
    const size_t m = ~size_t(0);
    switch (r.below(8)) {
    case 0: return size; case 1: return size + 1; case 2: return cap > size ? cap : size; case 3: return m; case 4: return m / 2 + 1; case 5: return m - r.below(size + 2);
    case 6: return size + r.below(1000); default: return (size_t(1) << (32 + r.below(32))) + r.below(size + 1);
    }
}

// ------------------------------------------------------------------ contents
template <typename C> std::vector<int> contents(const C& c) { std::vector<int> v; for (auto& e : c) v.push_back(El<typename std::remove_cv<typename std::remove_reference<decltype(e)>::type>::type>::get(e)); return v; }
template <typename C> void expect(const C& c, const std::vector<int>& m, const char* what) {
    auto v = contents(c);
    VCHECK(c.size() == m.size() && v == m, "misuse.contents", "contents after %s: size %zu instead of %zu", what, c.size(), m.size());
}

template <typename T> std::vector<T> src_of(Rng& r, size_t n) { std::vector<T> v; v.reserve(n); for (size_t i = 0; i < n; ++i) v.push_back(El<T>::make(int(r.below(100)) + 1)); return v; }

// ------------------------------------------------------------------ in contract, on any vector
template <typename V> struct InContract {
    using T = typename V::value_type; using E = El<T>;
    Rng& r; V& v; std::vector<int>& m; size_t cap;
    void step() {
        int x = int(r.below(100)) + 1; size_t n = m.size(), room = cap - n; auto i = r.chance(30) ? n : r.below(n + 1); if (r.chance(15)) i = 0;
        COV("calls in contract");
        switch (r.below(19)) {
        case 0: if (room) { op("push_back"); T e = E::make(x); v.push_back(e); m.push_back(x); } break;
        case 1: if (room) { op("push_back&&"); v.push_back(E::make(x)); m.push_back(x); } break;
        case 2: if (room) { op("emplace_back"); v.emplace_back(E::make(x)); m.push_back(x); } break;
        case 3: if (n) { op("pop_back"); v.pop_back(); m.pop_back(); if (m.empty()) COV("emptied"); } break;
        case 4: if (room) { op("insert %zu", i); T e = E::make(x); auto it = v.insert(v.begin() + i, e); VCHECK(size_t(it - v.begin()) == i, "misuse.contents", "insert returned another position"); m.insert(m.begin() + i, x); } break;
        case 5: if (room) { op("insert&& %zu", i); v.insert(v.begin() + i, E::make(x)); m.insert(m.begin() + i, x); } break;
        case 6: if (room) { op("emplace %zu", i); v.emplace(v.begin() + i, E::make(x)); m.insert(m.begin() + i, x); } break;
        case 7: { size_t k = r.chance(30) ? 0 : r.chance(30) ? std::min<size_t>(room, 12) : r.below(std::min<size_t>(room, 5) + 1); op("insert %zu n=%zu", i, k); T e = E::make(x); v.insert(v.begin() + i, k, e); m.insert(m.begin() + i, k, x); if (!k) COV("empty ranges in contract"); } break;
        case 8: { size_t k = r.chance(30) ? 0 : r.chance(30) ? std::min<size_t>(room, 12) : r.below(std::min<size_t>(room, 5) + 1); op("insert range %zu n=%zu", i, k); auto s = src_of<T>(r, k); v.insert(v.begin() + i, s.data(), s.data() + k); auto ms = contents(s); m.insert(m.begin() + i, ms.begin(), ms.end()); if (!k) COV("empty ranges in contract"); } break;
        case 9: { if (room >= 2) { op("insert ilist %zu", i); v.insert(v.begin() + i, {E::make(x), E::make(x + 1)}); m.insert(m.begin() + i, {x, x + 1}); } else { op("insert empty ilist"); v.insert(v.begin() + i, std::initializer_list<T>{}); COV("empty ranges in contract"); } } break;
        case 10: if (n) { if (i == n) --i; op("erase %zu", i); auto it = v.erase(v.begin() + i); VCHECK(size_t(it - v.begin()) == i, "misuse.contents", "erase returned another position"); m.erase(m.begin() + i); } break;
        case 11: { size_t k = r.chance(30) ? 0 : r.chance(30) ? n - i : r.below(n - i + 1); op("erase %zu n=%zu", i, k); v.erase(v.begin() + i, v.begin() + i + k); m.erase(m.begin() + i, m.begin() + i + k); if (!k) COV("empty ranges in contract"); } break;
        case 12: { size_t k = r.chance(30) ? std::min<size_t>(cap, 20) : r.below(std::min<size_t>(cap, 12) + 1); op("resize %zu", k); v.resize(k); size_t o = m.size(); m.resize(k); for (size_t j = o; j < k; ++j) v[j] = E::make(0); } break;
        case 13: { size_t k = r.chance(30) ? std::min<size_t>(cap, 20) : r.below(std::min<size_t>(cap, 12) + 1); op("resize %zu v", k); T e = E::make(x); v.resize(k, e); m.resize(k, x); } break;
        case 14: { size_t k = r.chance(30) ? std::min<size_t>(cap, 20) : r.below(std::min<size_t>(cap, 12) + 1); op("assign %zu", k); T e = E::make(x); v.assign(k, e); m.assign(k, x); if (k == cap) COV("filled to the capacity"); } break;
        case 15: { size_t k = r.chance(30) ? std::min<size_t>(cap, 20) : r.below(std::min<size_t>(cap, 12) + 1); op("assign range %zu", k); auto s = src_of<T>(r, k); v.assign(s.data(), s.data() + k); m = contents(s); if (k == cap) COV("filled to the capacity"); } break;
        case 16: if (cap >= 2) { op("assign ilist"); v.assign({E::make(x), E::make(x + 1)}); m = {x, x + 1}; } break;
        case 17: if (n) { size_t k = r.chance(40) ? n - 1 : r.below(n); op("read %zu", k); const V& c = v; VCHECK(E::get(v.at(k)) == m[k] && E::get(v[k]) == m[k] && E::get(c.at(k)) == m[k] && E::get(c[k]) == m[k] && E::get(v.front()) == m[0] && E::get(c.front()) == m[0] && E::get(v.back()) == m.back() && E::get(c.back()) == m.back(), "misuse.contents", "element %zu", k); } break;
        case 18: if (r.chance(30)) { op("clear"); v.clear(); m.clear(); } else if (r.chance(50)) { op("copy"); V w(v); expect(w, m, "copy"); v = w; } else { op("move"); V w(std::move(v)); expect(w, m, "move"); v = std::move(w); } break;
        }
        if (m.size() == cap) COV("filled to the capacity");
        expect(v, m, "a call in contract");
    }
};

// misuse of accessors, all vectors
template <typename V> void bad_access(Rng& r, V& v, size_t cap, bool back_checked) {
    const V& c = v; size_t i = bad_index(r, v.size(), cap);
    switch (r.below(6)) {
    case 0: assert_misuse("at", bounds_checked, [&] { sink(v.at(i)); }); break;
    case 1: assert_misuse("at const", bounds_checked, [&] { sink(c.at(i)); }); break;
    case 2: assert_misuse("operator[]", bounds_checked, [&] { sink(v[i]); }); break;
    case 3: assert_misuse("operator[] const", bounds_checked, [&] { sink(c[i]); }); break;
    case 4: if (v.empty()) { assert_misuse("front", bounds_checked, [&] { sink(v.front()); }); assert_misuse("front const", bounds_checked, [&] { sink(c.front()); }); } break;
    case 5: if (v.empty() && back_checked) { assert_misuse("back", bounds_checked, [&] { sink(v.back()); }); assert_misuse("back const", bounds_checked, [&] { sink(c.back()); }); } break;
    }
}

// a position outside of the vector
template <typename V> typename V::const_iterator bad_pos(Rng& r, V& v) { // computed as integers: these pointers have no object
    using T = typename V::value_type; uintptr_t b = uintptr_t(v.data()), e = b + v.size() * sizeof(T); size_t k = (1 + r.below(4)) * sizeof(T);
    return reinterpret_cast<const T*>(r.chance(60) ? e + k : b - k);
}

template <typename T, size_t N, size_t R> void small_case(Case& c) {
    using V = itlib::small_vector<T, N, R>; using E = El<T>; Rng& r = c.rng;
    V v; std::vector<int> m; InContract<V> ic{r, v, m, size_t(1) << 20};
    for (int steps = int(r.range(3, 40)); steps--;) {
        if (r.chance(60)) { ic.step(); continue; }
        auto live = reg().live; const T* data = v.data(); size_t capacity = v.capacity();
        T e = E::make(7); const V& cv = v; (void)cv;
        switch (r.below(12)) {
        case 0: case 1: bad_access(r, v, v.capacity(), false); break;
        case 2: if (v.empty()) range_misuse("small_vector::pop_back of an empty vector", [&] { v.pop_back(); }); break;
        case 3: range_misuse("small_vector::erase of the end", [&] { v.erase(v.end()); }); break;
        case 4: { auto p = bad_pos(r, v); range_misuse("small_vector::erase of a position outside", [&] { v.erase(p); }); } break;
        case 5: if (!v.empty()) { size_t a = r.below(v.size()), b = a + 1 + r.below(v.size() - a); range_misuse("small_vector::erase of a reversed range", [&] { v.erase(v.begin() + b, v.begin() + a); }); } break;
        case 6: { auto p = bad_pos(r, v); if (p > v.data()) { size_t a = r.below(v.size() + 1); range_misuse("small_vector::erase beyond the end", [&] { v.erase(v.begin() + a, p); }); }
                  else { size_t a = r.below(v.size() + 1); range_misuse("small_vector::erase from before the begin", [&] { v.erase(p, v.begin() + a); }); } } break;
        case 7: { auto p = bad_pos(r, v); range_misuse("small_vector::insert outside", [&] { v.insert(p, e); }); } break;
        case 8: { auto p = bad_pos(r, v); range_misuse("small_vector::insert&& outside", [&] { v.insert(p, E::make(3)); }); } break;
        case 9: { auto p = bad_pos(r, v); size_t k = r.below(6); range_misuse("small_vector::insert of a count outside", [&] { v.insert(p, k, e); }); } break;
        case 10: { auto p = bad_pos(r, v); auto s = src_of<T>(r, r.below(6)); live += E::tracked ? s.size() : 0; range_misuse("small_vector::insert of a range outside", [&] { v.insert(p, s.data(), s.data() + s.size()); });
                   range_misuse("small_vector::insert of a list outside", [&] { v.insert(p, {E::make(1), E::make(2)}); }); live -= E::tracked ? s.size() : 0; } break;
        case 11: { auto p = bad_pos(r, v); range_misuse("small_vector::emplace outside", [&] { v.emplace(p, E::make(3)); }); } break;
        }
        VCHECK(v.data() == data && v.capacity() == capacity, "misuse.contents", "the buffer changed");
        VCHECK(reg().live == live + (E::tracked ? 1 : 0), "misuse.contents", "elements were made or lost by a refused call");
        expect(v, m, "a refused call"); c.interesting(); COV("vectors compared after misuse");
    }
}

static size_t bad_count(Rng& r, size_t over) { // at least `over`
    const size_t m = ~size_t(0);
    switch (r.below(6)) { case 0: case 1: return over; case 2: return over + 1 + r.below(100); case 3: return m; case 4: return m - r.below(10); default: return (size_t(1) << (32 + r.below(32))) + r.below(4); }
}

template <typename T, size_t N> void static_case(Case& c) {
    using V = itlib::static_vector<T, N>; using Larger = itlib::static_vector<T, N + 3>; using E = El<T>; Rng& r = c.rng;
    struct { unsigned char before[16]; V v; unsigned char after[16]; } box; memset(box.before, 0xa5, 16); memset(box.after, 0x5a, 16);
    V& v = box.v; std::vector<int> m; InContract<V> ic{r, v, m, N};
    auto fill = [&] { while (m.size() < N) { int x = int(r.below(100)) + 1; v.push_back(E::make(x)); m.push_back(x); } };
    for (int steps = int(r.range(3, 40)); steps--;) {
        if (r.chance(60)) { ic.step(); continue; }
        if (r.chance(40)) { op("fill"); fill(); }
        auto live = reg().live; T e = E::make(7); size_t n = m.size(), room = N - n; size_t i = r.below(n + 1); bool may_empty = false;
        auto pos = v.begin() + i;
        switch (r.below(22)) {
        case 0: case 1: bad_access(r, v, N, true); break;
        case 2: if (v.empty()) { range_misuse("static_vector::pop_back of an empty vector", [&] { v.pop_back(); }); range_misuse("static_vector::erase in an empty vector", [&] { v.erase(v.begin()); }); } break;
        case 3: if (!room) range_misuse("static_vector::push_back to a full vector", [&] { v.push_back(e); }); break;
        case 4: if (!room) range_misuse("static_vector::push_back&& to a full vector", [&] { v.push_back(E::make(4)); }); break;
        case 5: if (!room) range_misuse("static_vector::emplace_back to a full vector", [&] { v.emplace_back(E::make(4)); }); break;
        case 6: if (!room) range_misuse("static_vector::insert to a full vector", [&] { v.insert(pos, e); }); break;
        case 7: if (!room) range_misuse("static_vector::insert&& to a full vector", [&] { v.insert(pos, E::make(4)); }); break;
        case 8: if (!room) range_misuse("static_vector::emplace to a full vector", [&] { v.emplace(pos, E::make(4)); }); break;
        case 9: { size_t k = bad_count(r, room + 1); range_misuse("static_vector::insert of a count over the capacity", [&] { v.insert(pos, k, e); }); } break;
        case 10: { auto s = src_of<T>(r, room + 1 + r.below(5)); live += E::tracked ? s.size() : 0; range_misuse("static_vector::insert of a range over the capacity", [&] { v.insert(pos, s.data(), s.data() + s.size()); }); live -= E::tracked ? s.size() : 0; } break;
        case 11: if (room < 3) range_misuse("static_vector::insert of a list over the capacity", [&] { v.insert(pos, {E::make(1), E::make(2), E::make(3)}); }); break;
        case 12: { size_t k = bad_count(r, N + 1); range_misuse("static_vector::resize over the capacity", [&] { v.resize(k); }); } break;
        case 13: { size_t k = bad_count(r, N + 1); range_misuse("static_vector::resize with a value over the capacity", [&] { v.resize(k, e); }); } break;
        case 14: { size_t k = bad_count(r, N + 1); may_empty = range_checked; range_misuse("static_vector::assign over the capacity", [&] { v.assign(k, e); }); } break;
        case 15: { auto s = src_of<T>(r, N + 1 + r.below(5)); may_empty = range_checked; live += E::tracked ? s.size() : 0; range_misuse("static_vector::assign of a range over the capacity", [&] { v.assign(s.data(), s.data() + s.size()); }); live -= E::tracked ? s.size() : 0; } break;
        case 16: if (N < 8) { may_empty = range_checked; range_misuse("static_vector::assign of a list over the capacity", [&] { v.assign({E::make(1), E::make(2), E::make(3), E::make(4), E::make(5), E::make(6), E::make(7), E::make(8)}); }); } break;
        case 17: { size_t k = bad_count(r, N + 1); range_misuse("static_vector construction over the capacity", [&] { V w(k); sink(w); }); range_misuse("static_vector construction with a value over the capacity", [&] { V w(k, e); sink(w); }); } break;
        case 18: { auto s = src_of<T>(r, N + 1 + r.below(5)); live += E::tracked ? s.size() : 0; range_misuse("static_vector construction from a range over the capacity", [&] { V w(s.data(), s.data() + s.size()); sink(w); }); live -= E::tracked ? s.size() : 0; } break;
        case 19: { auto s = src_of<T>(r, N + 1 + r.below(3)); Larger l(s.data(), s.data() + s.size()); size_t k = s.size() + l.size(); live += E::tracked ? k : 0; range_misuse("static_vector construction from a larger static_vector", [&] { V w(l); sink(w); });
                   l.resize(N); V w(l); expect(w, contents(l), "copy from a larger static_vector"); live -= E::tracked ? k : 0; } break;
        case 20: if (n) { auto p = bad_pos(r, v); auto len = size_t(1) + n; range_misuse("static_vector::erase of more than there is", [&] { v.erase(v.begin(), v.begin() + len); }); (void)p; } break;
        case 21: if (room) { auto p = bad_pos(r, v); switch (r.below(4)) {
            case 0: assert_misuse("static_vector::insert outside", bounds_checked, [&] { v.insert(p, e); }); break;
            case 1: assert_misuse("static_vector::emplace outside", bounds_checked, [&] { v.emplace(p, E::make(3)); }); break;
            case 2: assert_misuse("static_vector::insert of a count outside", bounds_checked, [&] { v.insert(p, room, e); }); break;
            case 3: if (n) assert_misuse("static_vector::erase outside", bounds_checked, [&] { v.erase(p); }); break; } } break;
        }
        if (may_empty && v.empty() && n) { COV("emptied by a refused assignment"); live -= E::tracked ? n : 0; m.clear(); }
        VCHECK(reg().live == live + (E::tracked ? 1 : 0), "misuse.contents", "elements were made or lost by a refused call");
        for (int k = 0; k < 16; ++k) VCHECK(box.before[k] == 0xa5 && box.after[k] == 0x5a, "misuse.memory", "memory outside of the vector was touched");
        expect(v, m, "a refused call"); c.interesting(); COV("vectors compared after misuse");
    }
}

REG_SUITE("mu.small<int,3,0>", 1500, 30000, (&small_case<int, 3, 0>));
REG_SUITE("mu.small<int,4,5>", 1500, 30000, (&small_case<int, 4, 5>));
REG_SUITE("mu.small<Tr,3,0>", 1500, 30000, (&small_case<Tr, 3, 0>));
REG_SUITE("mu.small<Tr,4,3>", 1500, 30000, (&small_case<Tr, 4, 3>));
REG_SUITE("mu.small<std::string,2,2>", 1500, 30000, (&small_case<std::string, 2, 2>));
REG_SUITE("mu.small<Tr,1,1>", 1500, 30000, (&small_case<Tr, 1, 1>));
REG_SUITE("mu.static<int,3>", 1500, 30000, (&static_case<int, 3>));
REG_SUITE("mu.static<Tr,4>", 1500, 30000, (&static_case<Tr, 4>));
REG_SUITE("mu.static<std::string,2>", 1500, 30000, (&static_case<std::string, 2>));
REG_SUITE("mu.static<Tr,1>", 1500, 30000, (&static_case<Tr, 1>));
REG_SUITE("mu.static<char,5>", 1500, 30000, (&static_case<char, 5>));
REG_SUITE("mu.static<Tr,9>", 1500, 30000, (&static_case<Tr, 9>));

// ------------------------------------------------------------------ flat containers
template <typename Map> void flat_map_case(Case& c, size_t bound) {
    Rng& r = c.rng; Map f; std::map<int, int> m;
    auto same = [&](const char* what) { VCHECK(f.size() == m.size(), "misuse.contents", "size %zu instead of %zu after %s", f.size(), m.size(), what); auto i = m.begin(); for (auto& p : f) { VCHECK(p.first == i->first && p.second == i->second, "misuse.contents", "pairs after %s", what); ++i; } };
    for (int steps = int(r.range(3, 50)); steps--;) {
        int k = int(r.below(14)); const Map& cf = f; bool has = m.count(k), full = m.size() >= bound;
        switch (r.below(8)) {
        case 0: if (has) { op("at %d", k); COV("calls in contract"); VCHECK(f.at(k) == m[k] && cf.at(k) == m[k], "misuse.contents", "at"); } break;
        case 1: if (!has) {
            c.interesting();
            if (VF_NOCHECK) { assert_misuse("flat_map::at of a missing key", asserts, [&] { sink(f.at(k)); }); assert_misuse("flat_map::at const of a missing key", asserts, [&] { sink(cf.at(k)); }); }
            else { for (int q = 0; q < 2; ++q) { op("at missing %d", k); COV("missing keys"); Got g = observe(Throw, [&] { if (q) sink(cf.at(k)); else sink(f.at(k)); }); VCHECK(g == OutOfRange, "misuse.range", "flat_map::at of a missing key: %s", got_name(g)); } } } break;
        case 2: if (has || !full) { op("[] %d", k); COV("calls in contract"); f[k] = steps; m[k] = steps; } else { c.interesting(); COV("bounded containers exceeded"); range_misuse("flat_map::operator[] over the capacity", [&] { f[k] = 1; }); } break;
        case 3: if (has || !full) { op("insert %d", k); COV("calls in contract"); f.insert({k, steps}); m.insert({k, steps}); } else { c.interesting(); COV("bounded containers exceeded"); range_misuse("flat_map::insert over the capacity", [&] { f.insert({k, 1}); }); } break;
        case 4: if (has || !full) { op("emplace %d", k); COV("calls in contract"); f.emplace(k, steps); m.emplace(k, steps); } else { c.interesting(); COV("bounded containers exceeded"); range_misuse("flat_map::emplace over the capacity", [&] { f.emplace(k, 1); }); } break;
        case 5: if (r.chance(40)) { op("erase %d", k); COV("calls in contract"); VCHECK(f.erase(k) == m.erase(k), "misuse.contents", "erase"); } break;
        case 6: if (has && r.chance(40)) { op("erase it %d", k); COV("calls in contract"); f.erase(f.find(k)); m.erase(k); } break;
        case 7: { op("lookups"); COV("calls in contract"); VCHECK((f.find(k) != f.end()) == has && size_t(f.count(k)) == m.count(k), "misuse.contents", "find"); } break;
        }
        same("a call");
    }
}
SUITE("mu.flat_map<vector>", 2000, 40000) { flat_map_case<itlib::flat_map<int, int>>(c, ~size_t(0)); }
SUITE("mu.flat_map<static_vector>", 2000, 40000) { flat_map_case<itlib::flat_map<int, int, std::less<int>, itlib::static_vector<std::pair<int, int>, 6>>>(c, 6); }
SUITE("mu.flat_map<small_vector>", 1000, 20000) { flat_map_case<itlib::flat_map<int, int, std::less<int>, itlib::small_vector<std::pair<int, int>, 3, 2>>>(c, ~size_t(0)); }
SUITE("mu.flat_set<static_vector>", 2000, 40000) {
    Rng& r = c.rng; using S = itlib::flat_set<Tr, std::less<Tr>, itlib::static_vector<Tr, 5>>; S f; std::set<int> m;
    for (int steps = int(r.range(3, 50)); steps--;) {
        int k = int(r.below(12)); bool has = m.count(k), full = m.size() >= 5;
        switch (r.below(4)) {
        case 0: if (has || !full) { op("insert %d", k); COV("calls in contract"); f.insert(Tr(k)); m.insert(k); } else { c.interesting(); COV("bounded containers exceeded"); range_misuse("flat_set::insert over the capacity", [&] { f.insert(Tr(k)); }); } break;
        case 1: if (has || !full) { op("emplace %d", k); COV("calls in contract"); f.emplace(k); m.insert(k); } else { c.interesting(); COV("bounded containers exceeded"); range_misuse("flat_set::emplace over the capacity", [&] { f.emplace(k); }); } break;
        case 2: if (r.chance(50)) { op("erase %d", k); COV("calls in contract"); VCHECK(f.erase(Tr(k)) == m.erase(k), "misuse.contents", "erase"); } break;
        case 3: { op("lookup"); COV("calls in contract"); VCHECK((f.find(Tr(k)) != f.end()) == has, "misuse.contents", "find"); } break;
        }
        VCHECK(contents(f) == std::vector<int>(m.begin(), m.end()), "misuse.contents", "elements of the set");
    }
}

// ------------------------------------------------------------------ expected
template <typename E> int err(const E& e) { return El<E>::get(e); }
SUITE("mu.expected<T,E>", 3000, 60000) {
    Rng& r = c.rng; using X = itlib::expected<Tr, std::string>; int v = int(r.below(100)) + 1; bool ok = r.chance(50);
    X x = ok ? X(Tr(v)) : X(itlib::unexpected(El<std::string>::make(v))); const X& k = x; auto live = reg().live; c.interesting();
    for (int i = 0; i < 4; ++i) switch (r.below(9)) {
    case 0: if (ok) { COV("calls in contract"); op("value"); VCHECK(x.value().v == v && k.value().v == v && (*x).v == v && (*k).v == v && x->v == v && k->v == v, "misuse.contents", "value"); } else { COV("calls in contract"); op("error"); VCHECK(err(x.error()) == v && err(k.error()) == v, "misuse.contents", "error"); } break;
    case 1: if (!ok) assert_misuse("expected::value of an error", asserts, [&] { sink(x.value()); }); else assert_misuse("expected::error of a value", asserts, [&] { sink(x.error()); }); break;
    case 2: if (!ok) assert_misuse("expected::value const of an error", asserts, [&] { sink(k.value()); }); else assert_misuse("expected::error const of a value", asserts, [&] { sink(k.error()); }); break;
    case 3: if (!ok) assert_misuse("expected::value&& of an error", asserts, [&] { Tr t = std::move(x).value(); sink(t); }); else assert_misuse("expected::error&& of a value", asserts, [&] { std::string s = std::move(x).error(); sink(s); }); break;
    case 4: if (!ok) { assert_misuse("*expected of an error", asserts, [&] { sink(*x); }); assert_misuse("*expected const of an error", asserts, [&] { sink(*k); }); } break;
    case 5: if (!ok) { assert_misuse("expected-> of an error", asserts, [&] { sink(x->v); }); assert_misuse("expected-> const of an error", asserts, [&] { sink(k->v); }); } break;
    case 6: { COV("calls in contract"); op("value_or"); VCHECK(k.value_or(Tr(-5)).v == (ok ? v : -5), "misuse.contents", "value_or"); } break;
    case 7: { COV("calls in contract"); op("copy"); X y = k.has_value() ? X(Tr(v)) : X(itlib::unexpected(El<std::string>::make(v))); y = std::move(x); VCHECK(y.has_value() == ok, "misuse.contents", "moved"); x = std::move(y); if (ok) x.value().v = v, x.value().check = ~v; } break;
    case 8: if (!ok) assert_misuse("*expected&& of an error", asserts, [&] { Tr t = *std::move(x); sink(t); }); break;
    }
    VCHECK(reg().live == live && x.has_value() == ok && (ok ? x.value().v == v : err(x.error()) == v), "misuse.contents", "the expected changed");
}
SUITE("mu.expected others", 3000, 60000) {
    Rng& r = c.rng; int v = int(r.below(100)) + 1; bool ok = r.chance(50); int obj = v; c.interesting();
    switch (r.below(4)) {
    case 0: { using X = itlib::expected<int&, std::string>; X x = ok ? X(obj) : X(itlib::unexpected(El<std::string>::make(v))); const X& k = x; op("ref %d", ok);
        if (!ok) { VCHECK(err(x.error()) == v && err(k.error()) == v, "misuse.contents", "error"); assert_misuse("expected<T&>::value of an error", asserts, [&] { sink(x.value()); }); assert_misuse("*expected<T&> of an error", asserts, [&] { sink(*k); }); assert_misuse("expected<T&>-> of an error", asserts, [&] { sink(*k.operator->()); }); VCHECK(err(x.error()) == v, "misuse.contents", "error"); }
        else { VCHECK(&x.value() == &obj && &*k == &obj, "misuse.contents", "value"); assert_misuse("expected<T&>::error of a value", asserts, [&] { sink(x.error()); }); assert_misuse("expected<T&>::error const of a value", asserts, [&] { sink(k.error()); }); assert_misuse("expected<T&>::error&& of a value", asserts, [&] { std::string s = std::move(x).error(); sink(s); }); VCHECK(&x.value() == &obj, "misuse.contents", "value"); } } break;
    case 1: { using X = itlib::expected<void, std::string>; X x = ok ? X() : X(itlib::unexpected(El<std::string>::make(v))); const X& k = x; op("void %d", ok);
        if (!ok) VCHECK(err(x.error()) == v && err(k.error()) == v, "misuse.contents", "error");
        else { assert_misuse("expected<void>::error of a value", asserts, [&] { sink(x.error()); }); assert_misuse("expected<void>::error const of a value", asserts, [&] { sink(k.error()); }); assert_misuse("expected<void>::error&& of a value", asserts, [&] { std::string s = std::move(x).error(); sink(s); }); VCHECK(x.has_value(), "misuse.contents", "value"); } } break;
    case 2: { using X = itlib::expected<Tr, void>; X x = ok ? X(Tr(v)) : X(itlib::unexpected()); const X& k = x; op("T,void %d", ok);
        if (ok) VCHECK(x.value().v == v && k->v == v && (*k).v == v, "misuse.contents", "value");
        else { assert_misuse("expected<T,void>::value of an error", asserts, [&] { sink(x.value()); }); assert_misuse("expected<T,void>::value const of an error", asserts, [&] { sink(k.value()); }); assert_misuse("expected<T,void>::value&& of an error", asserts, [&] { Tr t = std::move(x).value(); sink(t); }); assert_misuse("*expected<T,void> of an error", asserts, [&] { sink(*x); }); assert_misuse("expected<T,void>-> of an error", asserts, [&] { sink(k->v); }); VCHECK(!x.has_value(), "misuse.contents", "value"); } } break;
    case 3: { using X = itlib::expected<int&, void>; X x = ok ? X(obj) : X(itlib::unexpected()); op("T&,void %d", ok);
        if (ok) VCHECK(&x.value() == &obj && &*x == &obj, "misuse.contents", "value");
        else { assert_misuse("expected<T&,void>::value of an error", asserts, [&] { sink(x.value()); }); assert_misuse("*expected<T&,void> of an error", asserts, [&] { sink(*x); }); VCHECK(!x.has_value(), "misuse.contents", "value"); } } break;
    }
    COV("calls in contract");
}

// ------------------------------------------------------------------ any
SUITE("mu.any", 3000, 60000) {
    Rng& r = c.rng; using A = itlib::any<>; int v = int(r.below(100)) + 1; c.interesting(); int kind = int(r.below(4));
    A a; if (kind == 1) a = A(v); else if (kind == 2) a = A(El<std::string>::make(v)); else if (kind == 3) a = A(Tr(v));
    const A& k = a; auto live = reg().live;
    auto bad = [&](const char* what, auto f) { op("bad cast: %s", what); COV("bad casts"); Got g = observe(Throw, f); VCHECK(g == BadCast, "misuse.cast", "%s of kind %d: %s", what, kind, got_name(g)); };
    for (int i = 0; i < 4; ++i) {
        if (kind != 1) { bad("any_cast<int>", [&] { sink(itlib::any_cast<int>(a)); }); bad("any_cast<int> const", [&] { sink(itlib::any_cast<int>(k)); }); bad("any_cast<int&>", [&] { sink(itlib::any_cast<int&>(a)); }); bad("any_cast<const int&> const", [&] { sink(itlib::any_cast<const int&>(k)); }); VCHECK(!itlib::any_cast<int>(&a) && !itlib::any_cast<int>(&k), "misuse.cast", "any_cast of a pointer"); }
        else VCHECK(itlib::any_cast<int>(a) == v && itlib::any_cast<int&>(a) == v && itlib::any_cast<const int&>(k) == v && *itlib::any_cast<int>(&a) == v, "misuse.contents", "any_cast<int>");
        if (kind != 2) { bad("any_cast<string>", [&] { sink(itlib::any_cast<std::string>(a)); }); bad("any_cast<string&>", [&] { sink(itlib::any_cast<std::string&>(a)); }); VCHECK(!itlib::any_cast<std::string>(&a), "misuse.cast", "any_cast of a pointer"); }
        else VCHECK(err(itlib::any_cast<std::string&>(a)) == v && err(*itlib::any_cast<std::string>(&k)) == v, "misuse.contents", "any_cast<string>");
        if (kind != 3) { bad("any_cast<Tr>", [&] { sink(itlib::any_cast<Tr>(a)); }); bad("any_cast<const Tr&>", [&] { sink(itlib::any_cast<const Tr&>(k)); }); } else VCHECK(itlib::any_cast<Tr&>(a).v == v, "misuse.contents", "any_cast<Tr>");
        bad("any_cast<long>", [&] { sink(itlib::any_cast<long>(a)); }); bad("any_cast<unsigned>", [&] { sink(itlib::any_cast<unsigned>(a)); }); bad("any_cast<const char*>", [&] { sink(itlib::any_cast<const char*>(a)); });
        VCHECK(reg().live == live && a.has_value() == (kind != 0), "misuse.contents", "the any changed"); COV("calls in contract");
    }
}

// ------------------------------------------------------------------ views
SUITE("mu.views", 4000, 80000) {
    Rng& r = c.rng; size_t n = r.chance(25) ? 0 : r.below(12); std::unique_ptr<int[]> p(n || r.chance(50) ? new int[n] : nullptr); int* b = p.get(); for (size_t i = 0; i < n; ++i) b[i] = int(i) * 3 + 1;
    c.interesting(); size_t i = bad_index(r, n, n), g = n ? (r.chance(40) ? n - 1 : r.below(n)) : 0;
    itlib::span<int> s(b, n); itlib::span<const int> cs(b, n);
    itlib::memory_view<int> mv; mv.reset(b, n); const auto& kmv = mv; itlib::const_memory_view<int> cmv; cmv.reset(b, n);
    itlib::stride_span<int> ss(reinterpret_cast<uint8_t*>(b), sizeof(int), n); const auto& kss = ss; itlib::stride_span<const int> css(reinterpret_cast<const uint8_t*>(b), sizeof(int), n);
    itlib::poly_span<int&> ps(b, n, [](int& x) -> int& { return x; }); const auto& kps = ps;
    if (n) { op("read %zu of %zu", g, n); COV("calls in contract"); int w = int(g) * 3 + 1, f = 1, l = int(n - 1) * 3 + 1;
        VCHECK(s.at(g) == w && s[g] == w && s.front() == f && s.back() == l && cs.at(g) == w && cs[g] == w && cs.back() == l, "misuse.contents", "span");
        VCHECK(mv.at(g) == w && mv[g] == w && kmv.at(g) == w && kmv[g] == w && mv.front() == f && mv.back() == l && cmv.at(g) == w && cmv[g] == w && cmv.back() == l && cmv.front() == f, "misuse.contents", "memory_view");
        VCHECK(ss.at(g) == w && ss[g] == w && kss.at(g) == w && ss.front() == f && ss.back() == l && css[g] == w && kss.back() == l, "misuse.contents", "stride_span");
        VCHECK(ps.at(g) == w && ps[g] == w && kps.at(g) == w && ps.front() == f && ps.back() == l, "misuse.contents", "poly_span"); }
    switch (r.below(4)) {
    case 0: assert_misuse_noexcept("span::at", bounds_checked, [&] { sink(s.at(i)); }); assert_misuse_noexcept("span::operator[]", bounds_checked, [&] { sink(cs[i]); });
        if (!n) { assert_misuse_noexcept("span::front", bounds_checked, [&] { sink(s.front()); }); assert_misuse_noexcept("span::back", bounds_checked, [&] { sink(s.back()); }); } break;
    case 1: assert_misuse_noexcept("memory_view::at", bounds_checked, [&] { sink(mv.at(i)); }); assert_misuse_noexcept("memory_view::at const", bounds_checked, [&] { sink(kmv.at(i)); }); assert_misuse_noexcept("memory_view::operator[]", bounds_checked, [&] { sink(mv[i]); }); assert_misuse_noexcept("const_memory_view::at", bounds_checked, [&] { sink(cmv.at(i)); }); assert_misuse_noexcept("const_memory_view::operator[]", bounds_checked, [&] { sink(cmv[i]); });
        if (!n) { assert_misuse_noexcept("memory_view::front", bounds_checked, [&] { sink(mv.front()); }); assert_misuse_noexcept("memory_view::back", bounds_checked, [&] { sink(mv.back()); }); assert_misuse_noexcept("const_memory_view::back", bounds_checked, [&] { sink(cmv.back()); }); } break;
    case 2: assert_misuse_noexcept("stride_span::at", bounds_checked, [&] { sink(ss.at(i)); }); assert_misuse_noexcept("stride_span::at const", bounds_checked, [&] { sink(kss.at(i)); }); assert_misuse_noexcept("stride_span::operator[]", bounds_checked, [&] { sink(ss[i]); });
        if (!n) { assert_misuse_noexcept("stride_span::front", bounds_checked, [&] { sink(ss.front()); }); assert_misuse_noexcept("stride_span::back", bounds_checked, [&] { sink(kss.back()); }); } break;
    case 3: assert_misuse_noexcept("poly_span::at", bounds_checked, [&] { sink(ps.at(i)); }); assert_misuse_noexcept("poly_span::at const", bounds_checked, [&] { sink(kps.at(i)); }); assert_misuse_noexcept("poly_span::operator[]", bounds_checked, [&] { sink(ps[i]); });
        if (!n) { assert_misuse_noexcept("poly_span::front", bounds_checked, [&] { sink(ps.front()); }); assert_misuse_noexcept("poly_span::back", bounds_checked, [&] { sink(kps.back()); }); } break;
    }
}
