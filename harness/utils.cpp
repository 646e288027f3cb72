// qalgorithm, strutil, utility, type_traits (C27). Before C++17 without strutil.
#include "common.hpp"
#include <vector>
#include <list>
#include <deque>
#include <functional>
#include <set>
#include <string>
#include <memory>
#include <limits>
#include <algorithm>
#include <itlib/qalgorithm.hpp>
#include <itlib/utility.hpp>
#include <itlib/type_traits.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/span.hpp>
#if __cplusplus >= 201703L
#include <itlib/strutil.hpp>
#endif
using namespace vf;
#define CK(c, ...) VCHECK(c, "value.utils", __VA_ARGS__)
// ---------------------------------------------------------------- qalgorithm
template <typename E> struct Mk { static E of(int i) { return E(i); } static int val(const E& e) { return int(e); } };
template <> struct Mk<std::string> { static std::string of(int i) { return std::string(size_t(i) * 7, char('a' + i)); } static int val(const std::string& s) { return int(s.size() / 7); } };
template <int K> struct Mk<TrT<K>> { static TrT<K> of(int i) { return TrT<K>(i); } static int val(const TrT<K>& t) { t.alive("read"); return t.v; } };
template <typename C> struct Limit { static constexpr size_t v = 3000; }; template <typename T, size_t N> struct Limit<itlib::static_vector<T, N>> { static constexpr size_t v = N; };
template <typename C> struct Algo {
    typedef typename C::value_type E; typedef Mk<E> M;
    static std::vector<int> vals(const C& c) { std::vector<int> v; for (auto& e : c) v.push_back(M::val(e)); return v; }
    static std::vector<const void*> addrs(const C& c) { std::vector<const void*> v; for (auto& e : c) v.push_back(&e); return v; }
    static void run(Case& k) {
        Rng& r = k.rng; size_t n = r.chance(30) ? r.below(3) : r.below(16); int range = r.chance(20) ? 1 : 2 + int(r.below(4)); std::vector<int> m; C c; bool big = Limit<C>::v > 100 && r.below(80) == 0; if (big) { n = 200 + r.below(r.chance(20) ? Limit<C>::v : 400); range = 30; COV("large inputs"); } for (size_t i = 0; i < n; ++i) { int v = big ? (r.below(n / 2) ? 10 + int(r.below(20)) : int(r.below(10))) : r.chance(15) ? 2 : int(r.below(size_t(range))); m.push_back(v); c.push_back(M::of(v)); } int reps = 1 + int(r.below(6)); op("%zu elements", n);
        while (reps--) {
            tick(); int what = int(r.below(14)), x = int(r.below(size_t(range) + 2)), lim = int(r.below(4)); const C& cc = c; E val = M::of(x); bool few = big && r.chance(60); auto is = [=](int v) { return (v + lim) % (few ? 29 : 3) == 0; }; op("%d: %d lim%d", what, x, lim); std::vector<int> seen; auto pred = [&](const E& e) { seen.push_back(M::val(e)); return is(M::val(e)); };
            size_t at = size_t(std::find(m.begin(), m.end(), x) - m.begin()), atp = size_t(std::find_if(m.begin(), m.end(), is) - m.begin()); auto before = addrs(c); if (m.empty()) COV("empty inputs"); if (at == m.size() && atp == m.size()) COV("no matches");
            switch (what) {
            case 0: { auto f = itlib::qfind(c, val); CK(size_t(std::distance(c.begin(), f)) == at, "qfind"); auto g = itlib::qfind(cc, val); CK(size_t(std::distance(cc.begin(), g)) == at, "qfind of const"); static_assert(std::is_same<decltype(f), typename C::iterator>::value && std::is_same<decltype(g), typename C::const_iterator>::value, "iterator types"); break; }
            case 1: { auto f = itlib::qfind_if(c, pred); CK(size_t(std::distance(c.begin(), f)) == atp, "qfind_if"); CK(seen.size() <= atp + 1 && seen.size() >= std::min(atp + 1, m.size()) && std::equal(seen.begin(), seen.end(), m.begin()), "qfind_if asks %zu times, about others or in another order", seen.size()); auto g = itlib::qfind_if(cc, pred); CK(size_t(std::distance(cc.begin(), g)) == atp, "qfind_if of const"); break; }
            case 2: { auto* p = itlib::pfind(c, val); const E* q = itlib::pfind(cc, val); const void* w = at < m.size() ? before[at] : nullptr; CK((const void*)p == w && (const void*)q == w, "pfind is not the first equal element or null"); static_assert(std::is_same<decltype(itlib::pfind(cc, val)), typename C::const_pointer>::value && std::is_same<decltype(p), typename C::pointer>::value, "pointer types"); break; }
            case 3: { auto* p = itlib::pfind_if(c, pred); const void* w = atp < m.size() ? before[atp] : nullptr; CK(seen.size() <= m.size(), "pfind_if asks %zu times about %zu elements", seen.size(), m.size()); const E* q = itlib::pfind_if(cc, pred); CK((const void*)p == w && (const void*)q == w, "pfind_if is not the first matching element or null"); break; }
            case 4: { bool e = itlib::erase_first(c, val); CK(e == (at < m.size()), "erase_first returns %d", e); if (e) { m.erase(m.begin() + long(at)); COV("erased"); } break; }
            case 5: { bool e = itlib::erase_first_if(c, pred); CK(seen.size() <= m.size(), "erase_first_if asks %zu times about %zu elements", seen.size(), m.size()); CK(e == (atp < m.size()), "erase_first_if returns %d", e); if (e) { m.erase(m.begin() + long(atp)); COV("erased"); } break; }
            case 6: { size_t s = m.size(); m.erase(std::remove(m.begin(), m.end(), x), m.end()); auto e = itlib::erase_all(c, val); static_assert(std::is_same<decltype(e), typename C::size_type>::value, "size_type"); CK(size_t(e) == s - m.size(), "erase_all returns %zu, should be %zu", size_t(e), s - m.size()); if (e > 1) COV("several erased"); break; }
            case 7: { size_t s = m.size(); std::vector<int> old = m; m.erase(std::remove_if(m.begin(), m.end(), is), m.end()); auto e = itlib::erase_all_if(c, pred); CK(size_t(e) == s - m.size(), "erase_all_if returns %zu, should be %zu", size_t(e), s - m.size()); CK(seen == old, "erase_all_if doesn't ask about each element once and in order"); if (e > 1) COV("several erased"); break; }
            case 8: { bool b = itlib::qall_of(cc, pred); CK(seen.size() <= m.size(), "qall_of asks %zu times about %zu elements", seen.size(), m.size()); CK(b == std::all_of(m.begin(), m.end(), is), "qall_of"); break; }
            case 9: { bool b = itlib::qany_of(cc, pred); CK(seen.size() <= m.size(), "qany_of asks %zu times about %zu elements", seen.size(), m.size()); CK(b == std::any_of(m.begin(), m.end(), is), "qany_of"); break; }
            case 10: { bool b = itlib::qnone_of(c, pred); CK(seen.size() <= m.size(), "qnone_o asks %zu times about %zu elements", seen.size(), m.size()); CK(b == std::none_of(m.begin(), m.end(), is), "qnone_of"); break; }
            case 11: { auto cnt = std::make_shared<long>(0); auto q = [cnt, is](const E& e) mutable { ++*cnt; return is(M::val(e)); }; bool b = itlib::qany_of(cc, std::move(q)); CK(b == std::any_of(m.begin(), m.end(), is) && *cnt <= long(m.size()), "with an rvalue predicate"); auto q2 = [cnt, is](const E& e) { return is(M::val(e)); }; const auto& q3 = q2; CK(itlib::qall_of(cc, q3) == std::all_of(m.begin(), m.end(), is) && itlib::qnone_of(cc, q3) == std::none_of(m.begin(), m.end(), is) && itlib::qany_of(c, q3) == b, "with a const predicate"); COV("predicates of other kinds"); break; }
            case 12: { int thr_at = int(r.below(m.size() + 1)); int cnt = 0; bool t = false; try { itlib::qfind_if(c, [&](const E&) -> bool { if (cnt++ == thr_at) throw Injected(); return false; }); } catch (Injected&) { t = true; } CK(t == (size_t(thr_at) < m.size()), "a predicate's exception isn't passed on"); break; }
            case 13: { const auto snap = vals(c); itlib::qfind(cc, val); itlib::pfind(cc, val); itlib::qany_of(cc, pred); CK(vals(c) == snap, "a query modifies the container"); break; }
            }
            if (what < 4 || what > 7) CK(addrs(c) == before, "a query moves elements"); auto now = vals(c); CK(now == m && M::val(val) == x, "the contents are others"); COV("algorithm calls");
        }
        k.interesting(); k.h = hcomb(k.h, n);
    }
};
REG_SUITE("qa.vector", 3000, 100000, &Algo<std::vector<int>>::run);
REG_SUITE("qa.tracked", 3000, 100000, &Algo<std::vector<Tr>>::run);
REG_SUITE("qa.string elements", 2000, 100000, &Algo<std::vector<std::string>>::run);
REG_SUITE("qa.list", 2000, 100000, &Algo<std::list<Tr>>::run);
REG_SUITE("qa.deque", 2000, 100000, &Algo<std::deque<short>>::run);
REG_SUITE("qa.string", 2000, 100000, &Algo<std::string>::run);
struct SV : std::vector<Tr> {}; using SV5 = itlib::small_vector<Tr, 5>; using ST20 = itlib::static_vector<Tr, 20>;
REG_SUITE("qa.small", 2000, 100000, &Algo<SV5>::run);
REG_SUITE("qa.static", 2000, 100000, &Algo<ST20>::run);
SUITE("qa.more", 3000, 100000) { // identity forms, sets, spans, predicates of other kinds
    Rng& r = c.rng; size_t n = r.chance(30) ? r.below(3) : r.below(12); std::unique_ptr<int[]> blk(new int[n]); std::vector<int> m; std::vector<bool> vb; std::vector<std::unique_ptr<int>> up; std::set<int> st; for (size_t i = 0; i < n; ++i) { int v = int(r.below(r.chance(50) ? 2 : 4)); m.push_back(v); blk[i] = v; vb.push_back(v != 0); up.emplace_back(v ? new int(v) : nullptr); st.insert(v); }
    auto nz = [](int v) { return v != 0; }; bool all = std::all_of(m.begin(), m.end(), nz), any = std::any_of(m.begin(), m.end(), nz); op("%zu", n);
    CK(itlib::qall_of(m) == all && itlib::qany_of(m) == any && itlib::qnone_of(m) == !any, "without a predicate"); CK(itlib::qall_of(vb) == all && itlib::qany_of(vb) == any && itlib::qnone_of(vb) == !any, "of bools"); CK(itlib::qall_of(up) == all && itlib::qany_of(up) == any && itlib::qnone_of(up) == !any, "of pointers"); COV("without a predicate");
    itlib::span<int> s = itlib::make_span(blk.get(), n); itlib::span<const int> cs = s; int x = int(r.below(5)); size_t at = size_t(std::find(m.begin(), m.end(), x) - m.begin()); int* w = at < n ? blk.get() + at : nullptr; CK(itlib::pfind(s, x) == w && itlib::pfind(cs, x) == w && itlib::pfind_if(s, [&](int v) { return v == x; }) == w, "pfind in a span"); CK(itlib::qfind(s, x) == s.begin() + long(at), "qfind in a span"); CK(itlib::qall_of(s) == all && itlib::qany_of(cs) == any, "of a span");
    { auto* p = itlib::pfind_if(up, [&](const std::unique_ptr<int>& u) { return u && *u == x; }); size_t k = 0; while (k < n && !(m[k] && m[k] == x)) ++k; CK(p == (k < n ? &up[k] : nullptr), "pfind_if of move-only elements"); size_t e = itlib::erase_all_if(up, [&](const std::unique_ptr<int>& u) { return u && *u == x; }); size_t left = 0; for (size_t i = 0; i < n; ++i) if (!(m[i] && m[i] == x)) { CK(left < up.size() && (m[i] ? up[left] && *up[left] == m[i] : !up[left]), "erase_all_if of move-only elements"); ++left; } CK(left == up.size() && e == n - left, "erase_all_if of move-only elements"); bool f = itlib::erase_first(up, nullptr); CK(f == (std::find(m.begin(), m.end(), 0) != m.end()), "erase_first with another type"); }
    { bool had = st.count(x) != 0; auto i = itlib::qfind(st, x); CK((i != st.end()) == had && (!had || *i == x), "qfind in a set"); CK(itlib::erase_first(st, x) == had && !st.count(x), "erase_first in a set"); }
    { std::string txt; for (int v : m) txt += char('a' + v); char ch = char('a' + x); auto t2 = txt; size_t e = itlib::erase_all(t2, ch); CK(e == size_t(std::count(txt.begin(), txt.end(), ch)) && t2.find(ch) == std::string::npos && t2.size() + e == txt.size(), "erase_all in a string"); }
    { itlib::identity id; int v = x; CK(&id(v) == &v, "identity"); const std::string& q = id(std::string("temporary, which lives until the end of this expression")), *dummy = nullptr; (void)q; (void)dummy; }
    { // predicates which are lvalues belong to the caller
        auto tag = std::make_shared<int>(x); std::function<bool(int)> f = [tag](int v) { return v == *tag; }; const auto& kf = f; auto mm = m; const auto& km = m; size_t k = size_t(std::count(m.begin(), m.end(), x)); int which = int(r.below(8)); op("lvalue predicate %d", which); COV("predicates which are lvalues"); bool rev = r.chance(50);
        switch (which) {
        case 0: CK((itlib::qfind_if(mm, f) == mm.end()) == !k, "qfind_if"); break;
        case 1: CK((itlib::pfind_if(mm, f) == nullptr) == !k, "pfind_if"); break;
        case 2: CK(itlib::erase_first_if(mm, f) == (k > 0) && mm.size() == n - (k > 0), "erase_first_if"); break;
        case 3: CK(itlib::erase_all_if(mm, f) == k && mm.size() == n - k, "erase_all_if"); break;
        case 4: CK(itlib::qall_of(km, f) == (k == n), "qall_of"); break;
        case 5: CK(itlib::qany_of(km, f) == (k > 0), "qany_of"); break;
        case 6: CK(itlib::qnone_of(km, f) == (k == 0), "qnone_of"); break;
        case 7: CK(itlib::qany_of(km, kf) == (k > 0) && itlib::erase_all_if(mm, kf) == k, "const predicates"); break; }
        CK(f && tag.use_count() == 2 && f(x) && !f(x + 1), "the caller's predicate was taken or changed"); (void)rev; }
    for (size_t i = 0; i < n; ++i) CK(blk[i] == m[i], "a query modifies the elements"); c.interesting();
}
// values of other types, which are compared with operator== only and can't or mustn't be converted
struct Alike { int q; }; template <typename E> bool operator==(const E& e, const Alike& a) { return Mk<E>::val(e) / 2 == a.q; } template <typename E> bool operator==(const Alike& a, const E& e) { return e == a; }
struct NoConv { int v; NoConv(int v) : v(v) {} NoConv(const NoConv&) = delete; }; inline bool operator==(int a, const NoConv& b) { return a == b.v; } inline bool operator==(const NoConv& b, int a) { return a == b.v; }
template <typename C, typename V, typename Eq> void mixed(const C& src, const V& v, Eq eq, const char* how) {
    typedef typename C::value_type E; std::vector<E> m(src.begin(), src.end()); C c = src; const C& cc = c; size_t n = m.size(), at = size_t(std::find_if(m.begin(), m.end(), eq) - m.begin()), cnt = size_t(std::count_if(m.begin(), m.end(), eq));
    CK(size_t(std::distance(c.begin(), itlib::qfind(c, v))) == at && size_t(std::distance(cc.begin(), itlib::qfind(cc, v))) == at, "qfind of %s", how); auto* p = itlib::pfind(c, v); auto* q = itlib::pfind(cc, v); CK(p == q && (p != nullptr) == (at < n) && (at == n || p == &*std::next(c.begin(), long(at))), "pfind of %s", how);
    { C d = src; auto w = m; if (at < n) w.erase(w.begin() + long(at)); CK(itlib::erase_first(d, v) == (at < n) && std::vector<E>(d.begin(), d.end()) == w, "erase_first of %s", how); }
    { C d = src; auto w = m; w.erase(std::remove_if(w.begin(), w.end(), eq), w.end()); CK(size_t(itlib::erase_all(d, v)) == cnt && std::vector<E>(d.begin(), d.end()) == w, "erase_all of %s erases others", how); }
    CK(std::vector<E>(c.begin(), c.end()) == m, "a query modifies the container"); COV("values of other types"); if (cnt > 1) COV("several equal to a value of another type");
}
template <typename C> void mixed_ints(Case& k) {
    Rng& r = k.rng; typedef typename C::value_type E; C c; size_t n = r.chance(20) ? r.below(3) : r.below(14); for (size_t i = 0; i < n; ++i) c.push_back(E(int(r.below(9)))); int x = int(r.below(10)); op("%zu, %d", n, x);
    double d = x + (r.chance(50) ? 0.5 : 0); mixed(c, d, [&](const E& e) { return double(e) == d; }, "a double"); long long big = x + (r.chance(50) ? 1ll << 40 : 0); mixed(c, big, [&](const E& e) { return (long long)e == big; }, "a wide integer");
    Alike a{x / 2}; mixed(c, a, [&](const E& e) { return int(e) / 2 == a.q; }, "a class"); NoConv nc(x); mixed(c, nc, [&](const E& e) { return int(e) == x; }, "a class which can't be copied"); bool b = r.chance(50); mixed(c, b, [&](const E& e) { return int(e) == int(b); }, "a bool");
    if (n) { int nth = int(r.below(n)); int left = nth; auto nthp = [&left](const E&) { return left-- == 0; }; C t = c; auto* p = itlib::pfind_if(t, nthp); CK(p == &*std::next(t.begin(), nth), "pfind_if with a predicate which counts"); left = nth; auto f = itlib::qfind_if(t, nthp); CK(f == std::next(t.begin(), nth), "qfind_if with a predicate which counts"); left = nth; CK(itlib::erase_first_if(t, nthp) && t.size() == n - 1, "erase_first_if with a predicate which counts"); C w = c; w.erase(std::next(w.begin(), nth)); CK(t == w, "erase_first_if with a predicate which counts"); COV("predicates which count"); }
    k.interesting(); k.h = hcomb(n, uint64_t(x));
}
SUITE("qa.mixed int", 2000, 100000) { mixed_ints<std::vector<int>>(c); }
SUITE("qa.mixed short", 2000, 100000) { mixed_ints<std::deque<short>>(c); }
SUITE("qa.mixed list", 2000, 100000) { mixed_ints<std::list<unsigned char>>(c); }
SUITE("qa.mixed string", 2000, 100000) {
    Rng& r = c.rng; std::vector<std::string> v; size_t n = r.below(10); auto word = [&] { return std::string(r.below(3), char('a' + r.below(2))) + (r.chance(20) ? std::string(1, 0) + "z" : ""); }; while (n--) v.push_back(word()); std::string x = word(); const char* cs = x.c_str(); std::string upto = cs; op("%zu of %zu", x.size(), v.size());
    mixed(v, cs, [&](const std::string& e) { return e == upto; }, "a C string"); mixed(v, x, [&](const std::string& e) { return e == x; }, "a string"); mixed(v, "aa", [&](const std::string& e) { return e == "aa"; }, "a literal");
#if __cplusplus >= 201703L
    std::string_view sv = x; mixed(v, sv, [&](const std::string& e) { return e == x; }, "a string view");
#endif
    c.interesting(); c.h = hstr(cs);
}
// ---------------------------------------------------------------- strutil
#if __cplusplus >= 201703L
struct Buf { std::unique_ptr<char[]> p; size_t n; explicit Buf(const std::string& s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); } std::string_view v() const { return std::string_view(p.get(), n); } };
static std::string word(Rng& r, size_t max) { size_t n = r.below(max + 1); std::string s; const char* al = r.chance(50) ? "ab" : "a"; int k = r.chance(20) ? 3 : 0; while (s.size() < n) s += k && r.chance(30) ? char(r.chance(50) ? 0 : 0x80 + int(r.below(128))) : al[r.below(strlen(al))]; return s; }
SUITE("str.fixes", 20000, 500000) {
    Rng& r = c.rng; std::string a = word(r, 4), s; switch (r.below(5)) { case 0: s = word(r, 12); break; case 1: for (size_t k = r.below(6); k--;) s += a; s += word(r, 3); break; case 2: s = word(r, 3); for (size_t k = r.below(6); k--;) s += a; break; case 3: s = a.substr(0, r.below(a.size() + 1)); break; case 4: for (size_t k = r.below(40); k--;) s += a; break; }
    if (r.chance(10)) a = s; Buf bs(s), ba(a); std::string_view vs = r.chance(5) && s.empty() ? std::string_view() : bs.v(), va = a.empty() && r.chance(50) ? std::string_view() : ba.v(); op("%zu %zu", s.size(), a.size()); if (a.empty()) COV("empty prefixes"); if (s.empty()) COV("empty strings");
    bool sw = s.size() >= a.size(), ew = sw; for (size_t i = 0; sw && i < a.size(); ++i) sw = s[i] == a[i]; for (size_t i = 0; ew && i < a.size(); ++i) ew = s[s.size() - a.size() + i] == a[i]; CK(itlib::starts_with(vs, va) == sw, "starts_with"); CK(itlib::ends_with(vs, va) == ew, "ends_with"); if (sw && a.size()) COV("prefix found"); if (ew && a.size()) COV("suffix found");
    size_t p = 0; if (a.size()) while (s.size() - p >= a.size() && s.compare(p, a.size(), a) == 0) p += a.size(); size_t e = s.size(); if (a.size()) while (e >= a.size() && s.compare(e - a.size(), a.size(), a) == 0) e -= a.size(); auto x = itlib::remove_prefix_all(vs, va), y = itlib::remove_suffix_all(vs, va);
    CK(x.data() == vs.data() + p && x.size() == s.size() - p, "remove_prefix_all leaves %zu characters, should be %zu", x.size(), s.size() - p); CK(y.data() == vs.data() && y.size() == e, "remove_suffix_all leaves %zu characters, should be %zu", y.size(), e); if (p > a.size()) COV("several prefixes removed"); if (s.size() - e > a.size()) COV("several suffixes removed");
    { size_t i = r.below(s.size() + 1), j = i + r.below(s.size() - i + 1); auto v = itlib::make_string_view(bs.p.get() + i, bs.p.get() + j); const char* cb = bs.p.get(); auto v0 = itlib::make_string_view(cb + i, cb + j); CK(v.size() == j - i && v0.size() == j - i && (i == j || (v.data() == cb + i && v0.data() == cb + i)), "make_string_view of pointers"); const std::string cs = s; std::vector<char> vec(s.begin(), s.end()); auto v1 = itlib::make_string_view(s.begin() + long(i), s.begin() + long(j)); auto v2 = itlib::make_string_view(cs.begin() + long(i), cs.begin() + long(j)); auto v3 = itlib::make_string_view(vec.begin() + long(i), vec.begin() + long(j)); CK(v1.size() == j - i && v2.size() == j - i && v3.size() == j - i && (i == j || (v1.data() == s.data() + i && v2.data() == cs.data() + i && v3.data() == vec.data() + i)), "make_string_view of iterators"); auto v4 = itlib::make_string_view((const char*)nullptr, (const char*)nullptr); CK(v4.empty(), "make_string_view of nothing"); auto w = itlib::make_string_view(v.begin(), v.end()); CK(w == v, "make_string_view of a view's iterators"); }
    CK(bs.v() == s && ba.v() == a, "a query modifies its input"); COV("string calls"); c.interesting(); c.h = hcomb(hstr(s.c_str()), hstr(a.c_str()));
}
constexpr char lit[] = "abcd"; static_assert(itlib::make_string_view(lit + 1, lit + 3) == "bc", "constexpr");
static_assert(noexcept(itlib::starts_with("", "")) && noexcept(itlib::ends_with("", "")) && noexcept(itlib::remove_prefix_all("", "")) && noexcept(itlib::remove_suffix_all("", "")) && noexcept(itlib::make_string_view(lit, lit)), "noexcept");
#endif
// ---------------------------------------------------------------- utility
struct O1 { char a; int b; double c; char d[7]; std::string s; }; struct B0 { virtual ~B0() {} int x; }; struct B1 { long y; }; struct O2 : B0, B1 { short z; Tr t; std::vector<int> v; char last; O2() : t(3) {} }; struct O3 { O1 in; union { int i; float f; } u; unsigned char e[3]; }; struct O4 { char only; }; struct Incomplete;
template <typename O, typename M> static void own(O* p, M O::*mp, const char* what) { const O* q = itlib::owner_from_member(p->*mp, mp); CK(q == p, "owner_from_member of %s is off by %ld", what, long((const char*)q - (const char*)p)); static_assert(noexcept(itlib::owner_from_member(p->*mp, mp)) && std::is_same<decltype(itlib::owner_from_member(p->*mp, mp)), const O*>::value, "types"); COV("owners found"); }
template <typename D, typename S> static void bits(const S& s, const char* what) { S keep; memcpy((void*)&keep, &s, sizeof s); D d = itlib::bit_cast<D>(s); CK(memcmp(&d, &s, sizeof s) == 0, "bit_cast %s", what); S back = itlib::bit_cast<S>(d); CK(memcmp(&back, &keep, sizeof s) == 0 && memcmp(&s, &keep, sizeof s) == 0, "bit_cast %s and back", what); COV("bit casts"); }
struct P8 { uint16_t a[4]; }; struct Mv { int v = 1; bool moved = false; Mv() {} Mv(Mv&& o) noexcept : v(o.v) { o.v = 0; } Mv(const Mv& o) : v(o.v) { fail("value.utils", "force_move copies"); } };
enum E8 : unsigned char {}; enum class E32 : int { x };
template <typename F, typename T, bool> struct Bits { static void same(Rng&, const char*) {} };
template <typename F, typename T> struct Bits<F, T, true> { static void same(Rng& r, const char* what) { // casting must keep the bits exactly where the trait says so
    uint64_t lim = sizeof(F) == 1 ? 256 : sizeof(F) == 2 ? 65536 : 300; for (uint64_t k = 0; k < lim; ++k) { uint64_t raw = sizeof(F) <= 2 ? k : r.next(); if (std::is_same<F, bool>::value && raw > 1) break; F f; if (std::is_floating_point<F>::value) { double d = double(int64_t(raw)) / 3; float g = float(d); raw = 0; if (sizeof(F) == 8) memcpy(&raw, &d, 8); else memcpy(&raw, &g, 4); } memcpy((void*)&f, &raw, sizeof f); T t = (T)f; CK(memcmp(&t, &f, sizeof f) == 0, "is_noop_convertible of %s, but converting changes bits", what); } COV("conversions compared bit by bit"); } };
template <typename F, typename T> static void noop(Rng& r, const char* what, bool want) { constexpr bool v = itlib::is_noop_convertible<F, T>::value; CK(v == want, "is_noop_convertible of %s is %d", what, v); CK((itlib::is_noop_convertible<const F, volatile T>::value == v), "is_noop_convertible of %s with qualifiers", what); COV("traits checked"); Bits<F, T, v>::same(r, what); }
SUITE("ut.all", 3000, 100000) {
    Rng& r = c.rng; switch (r.below(4)) {
    case 0: { std::unique_ptr<O1> o(new O1); own(o.get(), &O1::a, "a"); own(o.get(), &O1::b, "b"); own(o.get(), &O1::c, "c"); own(o.get(), &O1::d, "d"); own(o.get(), &O1::s, "s"); std::unique_ptr<O2[]> a(new O2[3]); O2* p = &a[r.below(3)]; own(p, &O2::z, "z"); own(p, &O2::t, "t"); own(p, &O2::v, "v"); own(p, &O2::last, "last"); own<B1>(p, &B1::y, "a base's"); O3 l; own(&l, &O3::in, "first"); own(&l, &O3::e, "array"); own(&l, &O3::u, "union"); O4 f; own(&f, &O4::only, "only"); break; }
    case 1: { uint64_t raw = r.chance(30) ? 0x7ff0000000000000ull | r.next() >> 12 | (r.next() << 63) : r.next(); bits<double>(raw, "to double"); bits<P8>(raw, "to a struct"); bits<int64_t>(raw, "to int64"); double d; memcpy(&d, &raw, 8); bits<uint64_t>(d, "of a double"); uint32_t h = uint32_t(raw >> 20); bits<float>(h, "to float"); bits<int>(h, "to int"); float g; memcpy(&g, &h, 4); bits<uint32_t>(g, "of a float"); void* vp = &d; bits<uintptr_t>(vp, "of a pointer"); unsigned char ch = (unsigned char)raw; bits<signed char>(ch, "of a char"); P8 p8; memcpy(&p8, &raw, 8); bits<double>(p8, "of a struct"); const uint64_t q = itlib::bit_cast<uint64_t>(0.0); CK(q == 0, "bit_cast of 0.0"); static_assert(noexcept(itlib::bit_cast<float>(1)), "noexcept"); break; }
    case 2: { Mv m; Mv n(itlib::force_move(m)); CK(m.v == 0 && n.v == 1, "force_move doesn't move"); Mv& ref = n; Mv o(itlib::force_move(ref)); CK(o.v == 1 && n.v == 0, "force_move of a reference"); Mv q(itlib::force_move(Mv())); CK(q.v == 1, "force_move of a temporary"); static_assert(std::is_same<decltype(itlib::force_move(m)), Mv&&>::value && std::is_same<decltype(itlib::force_move(std::declval<Mv>())), Mv&&>::value && noexcept(itlib::force_move(m)), "types"); Mv&& rr = itlib::force_move(o); CK(&rr == &o, "force_move refers to another object"); static_assert(std::is_same<decltype(itlib::make_nullptr<Incomplete>()), Incomplete*>::value, "types"); CK(itlib::make_nullptr<Incomplete>() == nullptr && itlib::make_nullptr<const int>() == nullptr && itlib::make_nullptr<void>() == nullptr, "make_nullptr"); COV("forced moves"); break; }
    case 3: {
        noop<int, unsigned>(r, "int, unsigned", true); noop<unsigned char, signed char>(r, "chars", true); noop<bool, unsigned char>(r, "bool, char", true); noop<unsigned char, bool>(r, "char, bool", false); noop<signed char, bool>(r, "schar, bool", false); noop<bool, bool>(r, "bool, bool", true); noop<float, int>(r, "float, int", false); noop<int, float>(r, "int, float", false); noop<double, long>(r, "double, long", false); noop<double, double>(r, "double, double", true); noop<float, float>(r, "float", true); noop<float, double>(r, "float, double", false); noop<short, int>(r, "short, int", false); noop<long, long long>(r, "long, long long", true); noop<unsigned long, long>(r, "ulong, long", true); noop<char16_t, short>(r, "char16, short", true); noop<short, char16_t>(r, "short, char16", true); noop<wchar_t, unsigned>(r, "wchar, unsigned", true); noop<E8, char>(r, "enum, char", true); noop<unsigned char, E8>(r, "char, enum", true); noop<E32, unsigned>(r, "enum class, unsigned", true); noop<unsigned, E32>(r, "unsigned, enum class", true); noop<E8, int>(r, "enum, int", false); noop<E8, bool>(r, "enum, bool", false); noop<bool, E8>(r, "bool, enum", true); noop<char*, const void*>(r, "pointers", true); noop<int*, uintptr_t>(r, "pointer, integer", true); noop<int*, int>(r, "pointer, int", false); noop<int*, double>(r, "pointer, double", false);
        static_assert(!itlib::is_noop_convertible<O4, char>::value && !itlib::is_noop_convertible<char, O4>::value && !itlib::is_noop_convertible<O4, O4>::value && !itlib::is_noop_convertible<int[2], long>::value && !itlib::is_noop_convertible<long, P8>::value, "not scalars");
        using itlib::is_instantiation_of; static_assert(is_instantiation_of<std::vector, std::vector<int>>::value && is_instantiation_of<std::vector, std::vector<int, std::allocator<int>>>::value && !is_instantiation_of<std::vector, std::list<int>>::value && !is_instantiation_of<std::vector, int>::value && is_instantiation_of<std::unique_ptr, std::unique_ptr<O1>>::value && !is_instantiation_of<std::vector, const std::vector<int>&>::value && is_instantiation_of<std::basic_string, std::string>::value && !is_instantiation_of<std::vector, SV>::value && is_instantiation_of<std::pair, std::pair<int, char>>::value && !is_instantiation_of<std::shared_ptr, std::unique_ptr<int>>::value, "is_instantiation_of"); static_assert(std::is_same<itlib::type_identity<const int&>::type, const int&>::value && std::is_same<itlib::type_identity<void>::type, void>::value && std::is_same<itlib::type_identity<int[3]>::type, int[3]>::value, "type_identity");
#if __cplusplus >= 201703L
        static_assert(itlib::is_instantiation_of_v<std::vector, std::vector<int>> && !itlib::is_instantiation_of_v<std::vector, int> && std::is_same_v<itlib::type_identity_t<int&&>, int&&> && itlib::is_noop_convertible_v<int, unsigned> && !itlib::is_noop_convertible_v<char, bool>, "_v and _t forms");
#endif
        break; }
    }
    c.interesting(); c.h = r.next();
}
