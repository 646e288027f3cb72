// span, memory views (C14: suites span.*) and stride_span, poly_span (C15: suites ss.*)
#include "common.hpp"
#include <array>
#include <algorithm>
#include <numeric>
#include <itlib/span.hpp>
#include <itlib/memory_view.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/small_vector.hpp>
using namespace vf;
static size_t arg(Rng& r, size_t n) { // offsets and counts: in range, around the end, extreme
    switch (r.below(8)) { case 0: return n; case 1: return n + 1; case 2: return n ? n - 1 : 0; case 3: return n + r.below(50); case 4: { static const size_t x[] = {size_t(-1), size_t(-2), size_t(-1) / 2, size_t(-1) / 2 + 1, size_t(1) << 62, (size_t(1) << 61) - 1, size_t(1) << 60, (size_t(-1) / 8) + 1, size_t(-1) / 12 + 1, size_t(1) << 32}; size_t e = x[r.below(sizeof x / sizeof *x)]; COV("extreme arguments"); return r.chance(50) ? e : e - r.below(40); } case 5: { COV("extreme arguments"); return size_t(0) - 1 - r.below(40); } default: return r.below(n + 1); }
}
// ---------------------------------------------------------------- contiguous views: [lo, hi) of a buffer
template <typename T> struct Buf { T* p; size_t n; static void* get(size_t b) { void* m = nullptr; if (posix_memalign(&m, alignof(T) < 16 ? 16 : alignof(T), b)) abort(); return m; } Buf(size_t n_) : p(static_cast<T*>(get(n_ ? n_ * sizeof(T) : 1))), n(n_) { for (size_t i = 0; i < n; ++i) new (p + i) T(El<T>::make(int(i + 1))); } ~Buf() { for (size_t i = 0; i < n; ++i) p[i].~T(); free(p); } Buf(const Buf&) = delete; };
#define CK(c, ...) VCHECK(c, "value.view", __VA_ARGS__)
template <typename V, typename T> void same(V& v, T* base, size_t lo, size_t n, const char* what) { // the view shows base[lo, lo+n)
    const V& cv = v;
    CK(cv.size() == n && cv.empty() == (n == 0), "%s has size %zu, should have %zu", what, cv.size(), n);
    CK(cv.data() == base + lo && v.begin() == base + lo && cv.cbegin() == base + lo && v.end() == base + lo + n && cv.cend() == base + lo + n, "%s begins at element %td, should begin at %zu", what, cv.data() - base, lo);
    size_t i = 0; for (auto& e : v) { CK(&e == base + lo + i, "%s: iteration", what); ++i; } CK(i == n, "%s: iteration visits %zu of %zu", what, i, n);
    i = n; for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; CK(&*it == base + lo + i, "%s: reverse iteration", what); } CK(i == 0, "%s: reverse iteration visits too few", what);
    i = n; for (auto it = cv.crbegin(); it != cv.crend(); ++it) { --i; CK(&*it == base + lo + i, "%s: const reverse iteration", what); } CK(i == 0, "%s: const reverse iteration", what);
    for (i = 0; i < n; ++i) CK(&v[i] == base + lo + i && &cv[i] == base + lo + i && &v.at(i) == &v[i] && El<typename std::remove_const<T>::type>::get(cv[i]) == int(lo + i + 1), "%s: element %zu", what, i);
    if (n) CK(&v.front() == base + lo && &v.back() == base + lo + n - 1 && &cv.front() == base + lo && &cv.back() == base + lo + n - 1, "%s: front or back", what);
    COVN("view elements compared", n);
}
template <typename S, typename T> void slices(Rng& r, S s, T* base, size_t N) {
    size_t lo = 0, n = N; int depth = int(r.below(6));
    while (depth--) {
        size_t off = arg(r, n), cnt = arg(r, n); int how = int(r.below(7)); op("slice how%d off %zx cnt %zx of %zu", how, off, cnt, n);
        switch (how) {
        case 0: { S t = s.subspan(off); size_t o = std::min(off, n); same(t, base, lo + o, n - o, "subspan(off)"); if (r.chance(70)) { s = t; lo += o; n -= o; } if (off > n) COV("offset beyond the end"); break; }
        case 1: { S t = s.subspan(off, cnt); size_t o = std::min(off, n), k = std::min(cnt, n - o); same(t, base, lo + o, k, "subspan(off, count)"); if (r.chance(70)) { s = t; lo += o; n = k; } break; }
        case 2: { S t = s.first(cnt); size_t k = std::min(cnt, n); same(t, base, lo, k, "first"); if (r.chance(70)) { s = t; n = k; } break; }
        case 3: { size_t k = std::min(cnt, n); S t = s.last(k); same(t, base, lo + n - k, k, "last"); if (r.chance(70)) { s = t; lo += n - k; n = k; } break; }
        case 4: { size_t k = r.below(n + 1); s.remove_prefix(k); lo += k; n -= k; same(s, base, lo, n, "remove_prefix"); break; }
        case 5: { size_t k = r.below(n + 1); s.remove_suffix(k); n -= k; same(s, base, lo, n, "remove_suffix"); break; }
        case 6: { S t = s.last(cnt); if (cnt > n) { CK(t.size() <= n && t.data() >= s.data() && t.end() <= s.end(), "last(more than the size) reaches outside of the range"); COV("last beyond the size"); } break; }
        }
        same(s, base, lo, n, "span");
        // bytes
        auto b = s.as_bytes(); CK((const void*)b.data() == (const void*)(base + lo) && b.size() == n * sizeof(T) && s.size_bytes() == n * sizeof(T), "as_bytes");
        auto w = s.as_writable_bytes(); CK((const void*)w.data() == (const void*)(base + lo) && w.size() == n * sizeof(T), "as_writable_bytes");
        static_assert(std::is_const<typename std::remove_reference<decltype(w[0])>::type>::value == std::is_const<typename S::element_type>::value, "writable bytes of a const span");
        unsigned x = 0; for (auto c : b) x += c; (void)x;
    }
}
template <typename T> void span_case(Case& c) {
    Rng& r = c.rng; size_t n = r.below(4) ? r.below(20) : r.below(250); Buf<T> b(n); int how = int(r.below(6)); op("span of %zu how%d", n, how);
    using S = itlib::span<T>; using CS = itlib::span<const T>;
    { S d; CS cd; CK(d.empty() && d.size() == 0 && !d.data() && !d && d.begin() == d.end() && !cd, "default span"); S e = d.subspan(arg(r, 0), arg(r, 0)); CK(e.empty() && !e.data(), "subspan of a default span"); S f = d.first(arg(r, 0)), g = d.last(0); CK(f.empty() && g.empty() && d.as_bytes().empty(), "parts of a default span"); }
    S s = how == 0 ? S(b.p, b.n) : how == 1 ? S(b.p, b.p + b.n) : how == 2 ? itlib::make_span(b.p, b.n) : itlib::make_span(b.p, b.p + b.n); CK(bool(s), "operator bool"); same(s, b.p, 0, n, "span");
    slices(r, s, b.p, n);
    CS cs(s); same(cs, b.p, 0, n, "const span of a span"); CS ca; ca = s; same(ca, b.p, 0, n, "const span assigned from a span"); CS cp(b.p, n); same(cp, b.p, 0, n, "const span of a pointer"); CS cc(const_cast<const T*>(b.p), const_cast<const T*>(b.p + n)); same(cc, b.p, 0, n, "const span of a range");
    S s2(s), s3; s3 = s2; S s4(std::move(s2)); same(s3, b.p, 0, n, "copy"); same(s4, b.p, 0, n, "moved");
    slices(r, cs, const_cast<const T*>(b.p), n);
    if (n) { size_t i = r.below(n); s[i] = El<T>::make(77); CK(El<T>::get(b.p[i]) == 77, "a write through a span doesn't reach the element"); b.p[i] = El<T>::make(int(i + 1)); COV("written through"); }
    c.interesting(); state(hcomb(n, hstr(prog()->suite)));
}
template <typename C> void container(C& c, Rng& r, const char* what) { // every kind of source
    using T = typename std::remove_reference<decltype(*c.data())>::type; using VT = typename std::remove_const<T>::type;
    auto s = itlib::make_span(c); static_assert(std::is_same<decltype(s), itlib::span<T>>::value, "make_span of a container"); same(s, c.data(), 0, c.size(), what);
    itlib::span<T> d(c); same(d, c.data(), 0, c.size(), what); itlib::span<const VT> k(c); same(k, c.data(), 0, c.size(), what);
    slices(r, s, c.data(), c.size()); COV("container sources");
}
SUITE("span.containers", 400, 10000) {
    Rng& r = c.rng; size_t n = r.below(12); op("containers %zu", n);
    std::vector<int> v(n); std::iota(v.begin(), v.end(), 1); const std::vector<int> cv = v; container(v, r, "vector"); container(cv, r, "const vector");
    itlib::small_vector<int, 4> sv(v.begin(), v.end()); container(sv, r, "small_vector"); const auto csv = sv; container(csv, r, "const small_vector");
    std::array<int, 5> a; std::iota(a.begin(), a.end(), 1); container(a, r, "array"); const std::array<int, 5> ca = a; container(ca, r, "const array");
    itlib::span<int> in(v); const itlib::span<int> cin(v); container(in, r, "span"); { itlib::span<int> s(cin); same(s, v.data(), 0, n, "const span object"); }
    std::vector<std::string> vs; for (size_t i = 0; i < n; ++i) vs.push_back(El<std::string>::make(int(i + 1))); container(vs, r, "vector of strings");
    int ar[] = {1, 2, 3}; const int car[] = {1, 2, 3, 4}; auto s1 = itlib::make_span(ar); auto s2 = itlib::make_span(car); static_assert(std::is_same<decltype(s1), itlib::span<int>>::value && std::is_same<decltype(s2), itlib::span<const int>>::value, ""); same(s1, ar, 0, 3, "array"); same(s2, car, 0, 4, "const array"); itlib::span<int> s3(ar); same(s3, ar, 0, 3, "array"); itlib::span<const int> s4(ar); same(s4, (const int*)ar, 0, 3, "const view of an array"); slices(r, s3, ar, 3);
#if __cplusplus >= 201703L
    { itlib::span d1(v); itlib::span d2(v.data(), n); itlib::span d3(v.data(), v.data() + n); itlib::span d4(cv); static_assert(std::is_same_v<decltype(d1), itlib::span<int>> && std::is_same_v<decltype(d4), itlib::span<const int>>); same(d1, v.data(), 0, n, "deduced"); same(d2, v.data(), 0, n, "deduced"); same(d3, v.data(), 0, n, "deduced"); same(d4, cv.data(), 0, n, "deduced"); }
#endif
    c.interesting();
}
REG_SUITE("span.char", 600, 20000, &span_case<unsigned char>);
REG_SUITE("span.int", 600, 20000, &span_case<int>);
REG_SUITE("span.str", 300, 10000, &span_case<std::string>);
REG_SUITE("span.big", 300, 10000, &span_case<Big>);
// memory views
template <typename V, typename T> void view_slices(Rng& r, V v, T* base, size_t N) {
    size_t lo = 0, n = N; int depth = int(r.below(6));
    while (depth--) { size_t off = arg(r, n), cnt = arg(r, n); op("slice %zx %zx of %zu", off, cnt, n);
        switch (r.below(4)) { case 0: { V t = v.slice(off); size_t o = std::min(off, n); same(t, base, lo + o, n - o, "slice(off)"); v = t; lo += o; n -= o; break; } case 1: { V t = v.slice(off, cnt); size_t o = std::min(off, n), k = std::min(cnt, n - o); same(t, base, lo + o, k, "slice"); v = t; lo += o; n = k; break; } case 2: { size_t k = r.below(n + 1); v.remove_prefix(k); lo += k; n -= k; break; } case 3: { size_t k = r.below(n + 1); v.remove_suffix(k); n -= k; break; } }
        same(v, base, lo, n, "view"); const V& cv = v; CK(v.get() == base + lo && cv.get() == base + lo && bool(cv), "get"); }
    v.reset(base, N); same(v, base, 0, N, "reset"); v.reset(N / 2); same(v, base, 0, N / 2, "reset(size)"); v.reset(); CK(!v && v.empty() && !v.data(), "reset()"); COV("memory views");
}
template <typename T> void view_case(Case& c) {
    Rng& r = c.rng; size_t n = r.below(20); Buf<T> b(n); op("view of %zu", n); const T* cp = b.p;
    itlib::memory_view<T> d; CK(!d && d.size() == 0 && d.begin() == d.end(), "default view"); itlib::memory_view<T> e = d.slice(0, arg(r, 0)); CK(e.empty(), "slice of a default view"); { itlib::const_memory_view<T> cd; CK(!cd && cd.size() == 0 && cd.empty() && cd.begin() == cd.end() && !cd.data(), "default const view"); auto ce = cd.slice(0, arg(r, 0)); CK(ce.empty(), "slice of a default const view"); }
    auto v = itlib::make_memory_view(b.p, n); same(v, b.p, 0, n, "view"); view_slices(r, v, b.p, n); auto cv = itlib::make_memory_view(cp, n); static_assert(std::is_same<decltype(cv), itlib::const_memory_view<T>>::value, ""); same(cv, cp, 0, n, "const view"); view_slices(r, cv, cp, n); itlib::const_memory_view<T> x(v); same(x, cp, 0, n, "const view of a view"); { const auto kv = v; CK(kv.begin() == b.p && kv.end() == b.p + n && kv.rbegin().base() == kv.end() && kv.rend().base() == kv.begin(), "const view object"); }
    std::vector<T> vec; for (size_t i = 0; i < n; ++i) vec.push_back(El<T>::make(int(i + 1))); const auto& cvec = vec; size_t o = r.below(n + 1); auto a = itlib::make_memory_view(vec, o); same(a, vec.data(), o, n - o, "view of a vector with an offset"); auto ca = itlib::make_memory_view(cvec, o); same(ca, cvec.data(), o, n - o, "const view of a vector with an offset"); { auto w = itlib::make_memory_view(vec); same(w, vec.data(), 0, n, "view of a vector"); auto cw = itlib::make_memory_view(cvec); same(cw, cvec.data(), 0, n, "const view of a vector"); static_assert(std::is_same<decltype(w), itlib::memory_view<T>>::value && std::is_same<decltype(cw), itlib::const_memory_view<T>>::value, ""); } const T ar[] = {El<T>::make(1), El<T>::make(2)}; auto va = itlib::make_memory_view(ar); same(va, ar, 0, 2, "view of an array");
    if (n) { size_t i = r.below(n); v[i] = El<T>::make(500); CK(El<T>::get(b.p[i]) == 500, "write through a view"); v.at(i) = El<T>::make(int(i + 1)); }
    c.interesting();
}
REG_SUITE("span.view.int", 400, 10000, &view_case<int>);
REG_SUITE("span.view.str", 200, 5000, &view_case<std::string>);
#undef CK

// ---------------------------------------------------------------- strided views
#define CK(c, ...) VCHECK(c, "value.stride", __VA_ARGS__)
// At is how to get the address shown by the i-th element
template <typename It, typename At> void iters(Rng& r, It b, It e, size_t n, At at, const char* what) {
    CK(size_t(e - b) == n && b + ptrdiff_t(n) == e && e - ptrdiff_t(n) == b && (b == e) == (n == 0), "%s: end - begin is %td of %zu", what, e - b, n);
    for (int k = 0; k < 6; ++k) {
        size_t i = r.below(n + 1), j = r.below(n + 1); It x = b + ptrdiff_t(i), y = b; y += ptrdiff_t(j); ptrdiff_t d = ptrdiff_t(j) - ptrdiff_t(i);
        CK(y - x == d && x - y == -d, "%s: iterator %zu - iterator %zu is %td", what, j, i, y - x);
        CK(x + d == y && y - d == x && y + (-d) == x && x - (-d) == y, "%s: iterator %zu + %td", what, i, d);
        It z = x; z += d; CK(z == y, "%s: iterator %zu += %td", what, i, d); z -= d; CK(z == x, "%s: iterator %zu -= %td", what, j, d);
        CK((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), "%s: comparison of iterators %zu and %zu", what, i, j);
        CK(std::distance(x, y) == d, "%s: std::distance", what); z = x; std::advance(z, d); CK(z == y, "%s: std::advance", what);
        if (i < n) CK(at(x, i), "%s: iterator %zu refers to another element", what, i);
        if (d < 0) COV("backward iterator arithmetic");
        using R = std::reverse_iterator<It>; R rx(x), ry(y); CK(ry - rx == -d && rx + (-d) == ry && (rx < ry) == (j < i), "%s: reverse iterator arithmetic", what); if (i > 0) CK(at(std::prev(rx.base()), i - 1), "%s: reverse iterator", what);
    }
    size_t i = 0; for (It it = b; it != e; ++it, ++i) CK(at(it, i), "%s: element %zu", what, i); CK(i == n, "%s: visited %zu of %zu", what, i, n);
    for (It it = e; it != b;) { --it; --i; CK(at(it, i), "%s: backwards element %zu", what, i); } CK(i == 0, "%s: backwards visit", what);
    COV("iterator sets"); It def, def2; CK(def == def2, "%s: default iterators", what);
}
template <typename S, typename T> void ssame(Rng& r, S& s, char* base, size_t stride, size_t n, const char* what, const T*) {
    const S& cs = s; using E = typename S::element_type;
    CK(cs.size() == n && cs.empty() == (n == 0) && cs.stride() == stride, "%s has size %zu stride %zu, should have %zu, %zu", what, cs.size(), cs.stride(), n, stride);
    CK((const void*)cs.data() == base && (const void*)s.data() == base, "%s begins at another place", what);
    for (size_t i = 0; i < n; ++i) { const void* p = base + i * stride; CK((const void*)&s[i] == p && (const void*)&cs[i] == p && (const void*)&s.at(i) == p && (const void*)&cs.at(i) == p, "%s: element %zu is elsewhere", what, i); volatile char k = *reinterpret_cast<const char*>(&cs[i]); (void)k; }
    if (n) CK((const void*)&s.front() == base && (const void*)&cs.front() == base && (const void*)&s.back() == base + (n - 1) * stride && (const void*)&cs.back() == base + (n - 1) * stride, "%s: front or back", what);
    auto at = [&](typename S::iterator it, size_t i) { return (char*)&*it == base + i * stride && it.ptr() == &*it && it.operator->() == &*it; }; auto cat = [&](typename S::const_iterator it, size_t i) { return (const char*)&*it == base + i * stride && it.ptr() == &*it; };
    iters(r, s.begin(), s.end(), n, at, what); iters(r, cs.begin(), cs.end(), n, cat, what); CK(cs.cbegin() == cs.begin() && cs.cend() == cs.end(), "%s: cbegin", what);
    size_t i = n; for (auto it = s.rbegin(); it != s.rend(); ++it) { --i; CK((char*)&*it == base + i * stride, "%s: reverse", what); } CK(i == 0, "%s: reverse", what); i = n; for (auto it = cs.rbegin(); it != cs.rend(); ++it) { --i; CK((const char*)&*it == base + i * stride, "%s: const reverse", what); } CK(i == 0, "%s: const reverse", what);
    COVN("strided elements", n);
}
template <typename T> void stride_case(Case& c) {
    Rng& r = c.rng; size_t n = r.below(15), mult = 1 + r.below(4), stride = mult * alignof(T) + (sizeof(T) - alignof(T)) / alignof(T) * alignof(T); if (r.chance(20)) stride = alignof(T) * (1 + r.below(10)) + sizeof(T); if (stride < sizeof(T)) stride = sizeof(T); if (sizeof(T) > alignof(T) && r.chance(10)) { stride = alignof(T); COV("stride below the size"); }
    size_t bytes = n ? (n - 1) * stride + sizeof(T) : 0; size_t lead = r.below(3) * alignof(T); size_t align = alignof(T) < 8 ? 8 : alignof(T); void* mem = nullptr; if (posix_memalign(&mem, align, lead + bytes ? lead + bytes : 1)) return; struct Fr { void* p; ~Fr() { free(p); } } fr{mem}; memset(mem, 0, lead + bytes); char* base = (char*)mem + lead; op("stride %zu of %zu lead %zu", stride, n, lead);
    using S = itlib::stride_span<T>; using CS = itlib::stride_span<const T>; const T* tag = nullptr;
    S s = r.chance(50) ? S((uint8_t*)base, stride, n) : itlib::make_stride_span_from_buf<T>((char*)mem, lead, stride, n); CK(bool(s), "bool"); ssame(r, s, base, stride, n, "stride_span", tag);
    CS cs(s); ssame(r, cs, base, stride, n, "const stride_span", tag); CS ca; CK(!ca && ca.empty() && ca.begin() == ca.end(), "default"); ca = s; ssame(r, ca, base, stride, n, "assigned", tag); auto bs = itlib::make_stride_span_from_buf((T*)base, stride, n); ssame(r, bs, base, stride, n, "from buf", tag);
    size_t lo = 0, m = n; int depth = int(r.below(6));
    while (depth--) {
        size_t off = arg(r, m), cnt = arg(r, m); int how = int(r.below(7)); op("slice how%d %zx %zx of %zu", how, off, cnt, m); S t = s; size_t o = 0, k = m;
        switch (how) { case 0: t = s.subspan(off); o = std::min(off, m); k = m - o; break; case 1: t = s.subspan(off, cnt); o = std::min(off, m); k = std::min(cnt, m - o); break; case 2: t = s.first(cnt); k = std::min(cnt, m); break; case 3: k = std::min(cnt, m); t = s.last(k); o = m - k; break; case 4: o = r.below(m + 1); k = m - o; t.remove_prefix(o); break; case 5: k = r.below(m + 1); t.remove_suffix(m - k); break; case 6: { S l = s.last(cnt); if (cnt > m) CK(l.size() <= m && l.data() >= s.data(), "last(more than the size)"); break; } }
        ssame(r, t, base + (lo + o) * stride, stride, k, "part", tag); s = t; lo += o; m = k; COV("strided slices");
    }
    c.interesting(); state(hcomb(n * 1000 + stride, hstr(prog()->suite)));
}
REG_SUITE("ss.char", 300, 10000, &stride_case<char>);
REG_SUITE("ss.int", 400, 10000, &stride_case<int>);
REG_SUITE("ss.double", 300, 10000, &stride_case<double>);
REG_SUITE("ss.big", 200, 10000, &stride_case<Big>);
struct Trio { int a[3]; };
REG_SUITE("ss.trio", 200, 10000, &stride_case<Trio>);
// writing, algorithms and the named constructors
struct Rec { char c; double d; int i; Rec(int k) : c(char(k)), d(k * 2), i(k * 3) {} }; struct B1 { int x; B1(int k) : x(k) {} virtual ~B1() {} }; struct B2 { int y; virtual int get() const { return y; } B2(int k) : y(k + 1) {} virtual ~B2() {} }; struct Der : B1, B2 { int z; Der(int k) : B1(k), B2(k), z(k) {} int get() const override { return -z; } };
SUITE("ss.use", 400, 10000) {
    Rng& r = c.rng; size_t n = r.below(20), ns = 1 + r.below(5), off = r.below(n + 1); op("use %zu step %zu off %zu", n, ns, off); std::vector<int> v(n); for (auto& x : v) x = int(r.below(50)); std::vector<int> ref; for (size_t i = off; i < n; i += ns) ref.push_back(v[i]);
    auto s = itlib::make_stride_span_from_array(v.data(), n, off, ns); CK(s.size() == ref.size(), "make_stride_span_from_array has %zu elements, should have %zu", s.size(), ref.size()); CK(std::equal(ref.begin(), ref.end(), s.begin()), "make_stride_span_from_array shows other elements");
    std::vector<int> before = v; std::sort(s.begin(), s.end()); std::sort(ref.begin(), ref.end()); CK(std::equal(ref.begin(), ref.end(), s.begin()), "std::sort through a stride_span"); for (size_t i = 0; i < n; ++i) if (i < off || (i - off) % ns) CK(v[i] == before[i], "an element in between was changed"); std::reverse(s.begin(), s.end()); std::reverse(ref.begin(), ref.end()); CK(std::equal(s.begin(), s.end(), ref.begin()), "std::reverse"); std::sort(s.begin(), s.end()); std::sort(ref.begin(), ref.end());
    int key = int(r.below(50)); CK(std::lower_bound(s.begin(), s.end(), key) - s.begin() == std::lower_bound(ref.begin(), ref.end(), key) - ref.begin(), "std::lower_bound"); CK(std::accumulate(s.begin(), s.end(), 0) == std::accumulate(ref.begin(), ref.end(), 0), "accumulate"); for (size_t i = 0; i < s.size(); ++i) { s[i] = int(i) - 5; } for (size_t i = 0, k = off; k < n; ++i, k += ns) CK(v[k] == int(i) - 5, "a write through a stride_span"); COV("algorithms over strides");
    { auto d = itlib::make_stride_span_from_array(v.data(), n); CK(d.size() == n && std::equal(v.begin(), v.end(), d.begin()), "default step"); }
    std::vector<Rec> recs; for (size_t i = 0; i < n; ++i) recs.emplace_back(int(i)); const auto& crecs = recs; auto m = itlib::make_stride_span_member_view(recs.data(), n, &Rec::d); auto cm = itlib::make_stride_span_member_view(crecs.data(), n, &Rec::i); static_assert(std::is_same<decltype(m), itlib::stride_span<double>>::value && std::is_same<decltype(cm), itlib::stride_span<const int>>::value, ""); CK(m.size() == n && cm.size() == n, "member view size"); for (size_t i = 0; i < n; ++i) { CK(&m[i] == &recs[i].d && &cm[i] == &crecs[i].i, "member view"); m[i] = 0.5; } for (auto& x : recs) CK(x.d == 0.5, "member write");
    std::vector<Der> ds; for (size_t i = 0; i < n; ++i) ds.emplace_back(int(i)); if (n) { auto b = itlib::make_stride_span_base_view<B2>(ds.data(), n); size_t i = 0; for (auto& x : b) { CK(&x == &ds[i] && x.get() == -int(i) && x.y == int(i) + 1, "base view"); ++i; } CK(i == n, "base view size"); auto b1 = itlib::make_stride_span_base_view<B1>(ds.data(), n); CK(&b1.back() == &ds.back(), "base view"); }
    c.interesting();
}
// poly_span
template <typename P, typename At> void psame(Rng& r, P& p, const void* data, size_t stride, size_t n, At val, const char* what) {
    const P& cp = p; CK(cp.size() == n && cp.empty() == (n == 0) && cp.stride() == stride && (const void*)cp.data() == data && (const void*)p.data() == data, "%s: size %zu, should be %zu", what, cp.size(), n);
    for (size_t i = 0; i < n; ++i) CK(val(p[i], i) && val(cp[i], i) && val(p.at(i), i) && val(cp.at(i), i), "%s: element %zu", what, i); if (n) CK(val(p.front(), 0) && val(cp.front(), 0) && val(p.back(), n - 1) && val(cp.back(), n - 1), "%s: front or back", what);
    iters(r, p.begin(), p.end(), n, [&](typename P::iterator it, size_t i) { return val(*it, i); }, what); iters(r, cp.begin(), cp.end(), n, [&](typename P::const_iterator it, size_t i) { return val(*it, i); }, what); CK(cp.cbegin() == cp.begin() && cp.cend() == cp.end(), "%s: cbegin", what);
    size_t i = n; for (auto it = p.rbegin(); it != p.rend(); ++it) { --i; CK(val(*it, i), "%s: reverse", what); } CK(i == 0, "%s: reverse", what); i = n; for (auto it = cp.rbegin(); it != cp.rend(); ++it) { --i; CK(val(*it, i), "%s: const reverse", what); } CK(i == 0, "%s: reverse", what); COVN("polymorphic elements", n);
}
template <typename P, typename At> void pslices(Rng& r, P p, const char* data, size_t stride, size_t n, At val) {
    size_t lo = 0, m = n; int depth = int(r.below(6));
    while (depth--) { size_t off = arg(r, m), cnt = arg(r, m), o = 0, k = m; P t = p; int how = int(r.below(6)); op("poly how%d %zx %zx of %zu", how, off, cnt, m); switch (how) { case 0: t = p.subspan(off); o = std::min(off, m); k = m - o; break; case 1: t = p.subspan(off, cnt); o = std::min(off, m); k = std::min(cnt, m - o); break; case 2: t = p.first(cnt); k = std::min(cnt, m); break; case 3: k = std::min(cnt, m); t = p.last(k); o = m - k; break; case 4: o = r.below(m + 1); k = m - o; t.remove_prefix(o); break; case 5: k = r.below(m + 1); t.remove_suffix(m - k); break; } lo += o; m = k; p = t; auto v = [&](auto&& x, size_t i) { return val(std::forward<decltype(x)>(x), lo + i); }; psame(r, p, data + lo * stride, stride, m, v, "part of a poly_span"); COV("polymorphic slices"); }
}
static int neg(Rec& x) { return -x.i; }
SUITE("ss.poly", 400, 10000) {
    Rng& r = c.rng; size_t n = r.below(20); op("poly %zu", n); std::vector<Rec> v; for (size_t i = 0; i < n; ++i) v.emplace_back(int(i)); const auto& cv = v;
    { itlib::poly_span<int&> e; CK(!e && e.empty() && e.begin() == e.end() && !e.data() && e.end() - e.begin() == 0, "default"); auto k = e.subspan(arg(r, 0), arg(r, 0)); CK(k.empty() && k.end() - k.begin() == 0, "slice of a default poly_span"); typename itlib::poly_span<int&>::iterator i, j; CK(i == j && i - j == 0, "default iterators"); }
    { itlib::poly_span<int&> p(v.data(), n, [](Rec& x) -> int& { return x.i; }); auto val = [&](auto&& x, size_t i) { return &x == &v[i].i; }; psame(r, p, v.data(), sizeof(Rec), n, val, "references"); pslices(r, p, (char*)v.data(), sizeof(Rec), n, val); for (auto& x : p) x += 100; for (size_t i = 0; i < n; ++i) CK(v[i].i == int(i) * 3 + 100, "a write through a poly_span"); auto q = p; itlib::poly_span<int&> q2; q2 = std::move(q); psame(r, q2, v.data(), sizeof(Rec), n, val, "copies"); }
    { itlib::poly_span<const double&> p(cv.data(), n, [](const Rec& x) -> const double& { return x.d; }); auto val = [&](const double& x, size_t i) { return &x == &cv[i].d; }; psame(r, p, cv.data(), sizeof(Rec), n, val, "const references"); }
    { itlib::poly_span<int> p(v.data(), n, neg); auto val = [&](int x, size_t i) { return x == -v[i].i; }; psame(r, p, v.data(), sizeof(Rec), n, val, "values"); pslices(r, p, (char*)v.data(), sizeof(Rec), n, val); }
    { std::vector<Der> d; for (size_t i = 0; i < n; ++i) d.emplace_back(int(i)); itlib::poly_span<B2&> p(d.data(), n, [](Der& x) -> B2& { return x; }); auto val = [&](B2& x, size_t i) { return &x == static_cast<B2*>(&d[i]) && x.get() == -int(i); }; psame(r, p, d.data(), sizeof(Der), n, val, "bases"); pslices(r, p, (char*)d.data(), sizeof(Der), n, val); }
    { std::vector<std::unique_ptr<Tr>> u; for (size_t i = 0; i < n; ++i) u.emplace_back(new Tr(int(i))); itlib::poly_span<Tr&> p(u.data(), n, [](std::unique_ptr<Tr>& x) -> Tr& { return *x; }); uint64_t cp = reg().copies; auto val = [&](Tr& x, size_t i) { return &x == u[i].get(); }; psame(r, p, u.data(), sizeof(u[0]), n, val, "pointees"); CK(reg().copies == cp, "access copied elements"); itlib::poly_span<std::string> ps(u.data(), n, [](std::unique_ptr<Tr>& x) { return std::to_string(x->v); }); auto sv = [&](const std::string& x, size_t i) { return x == std::to_string(i); }; psame(r, ps, u.data(), sizeof(u[0]), n, sv, "strings"); }
    c.interesting();
}
