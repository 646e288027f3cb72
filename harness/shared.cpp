// Nothing is shared behind the scenes (C33): concurrent readers of one object, threads with objects of
// their own, objects handed from thread to thread, and components used inside each other's callbacks
#define ITLIB_RSTREAM_OVERLOAD_RSHIFT 1
#include "mt.hpp"
#include <map>
#include <set>
#include <unordered_map>
#include <sstream>
#include <deque>
#include <algorithm>
#include <itlib/any.hpp>
#include <itlib/atomic.hpp>
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <itlib/data_mutex.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/expected.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/make_ptr.hpp>
#include <itlib/mem_streambuf.hpp>
#include <itlib/memory_view.hpp>
#include <itlib/mutex.hpp>
#include <itlib/pmr_allocator.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/qalgorithm.hpp>
#include <itlib/rstream.hpp>
#include <itlib/sentry.hpp>
#include <itlib/shared_from.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/strutil.hpp>
#include <itlib/throw_ex.hpp>
#include <itlib/time_t.hpp>
#include <itlib/ufunction.hpp>
#include <itlib/utility.hpp>
#if __cplusplus >= 202002L
#include <itlib/generator.hpp>
#include <itlib/transparent_umap.hpp>
#endif
using namespace vf;
#define CK(c, ...) do { if (!(c)) ::vf::fail("value.shared", __VA_ARGS__); } while (0)
static void callback(); // what user code may do inside of an operation of an element, a comparator, a stream...
// ---------------------------------------------------------------- elements which run user code in each operation
struct Nest {
    std::string s; int v; // long enough to be on the heap
    static std::string text(int i) { return "nested element number " + std::to_string(i); }
    Nest() : s(text(0)), v(0) {}
    explicit Nest(int i) : s(text(i)), v(i) { callback(); }
    Nest(const Nest& o) : s((callback(), o.s)), v(o.v) { check(); }
    Nest(Nest&& o) noexcept : s((callback(), o.s)), v(o.v) { check(); }
    Nest& operator=(const Nest& o) { callback(); s = o.s; v = o.v; callback(); check(); return *this; }
    Nest& operator=(Nest&& o) noexcept { callback(); s = o.s; v = o.v; callback(); check(); return *this; }
    ~Nest() { callback(); check(); s = "gone"; v = -1; }
    void check() const { CK(s == text(v), "an element is \"%s\", should be \"%s\"", s.c_str(), text(v).c_str()); }
    friend bool operator==(const Nest& a, const Nest& b) { callback(); a.check(); b.check(); return a.v == b.v; }
    friend bool operator!=(const Nest& a, const Nest& b) { return !(a == b); }
    friend bool operator<(const Nest& a, const Nest& b) { callback(); a.check(); b.check(); return a.v < b.v; }
    friend std::ostream& operator<<(std::ostream& o, const Nest& n) { callback(); return o << "<" << n.v << ">"; }
};
namespace vf { template <> struct El<Nest> { static Nest make(int i) { return Nest(i); } static int get(const Nest& n) { n.check(); return n.v; } static constexpr bool copy = true, tracked = false, by_value = true; }; }
// ---------------------------------------------------------------- short histories, each against plain code
static constexpr size_t BOUND = 14;
template <typename V> using VT = typename V::value_type;
template <typename V> void vec_same(const V& v, const std::vector<int>& m, const char* what) { CK(v.size() == m.size() && v.empty() == m.empty() && size_t(v.end() - v.begin()) == m.size(), "%s: size %zu, should be %zu", what, size_t(v.size()), m.size()); for (size_t i = 0; i < m.size(); ++i) CK(El<VT<V>>::get(v[i]) == m[i] && El<VT<V>>::get(v.data()[i]) == m[i], "%s: element %zu is %d, should be %d", what, i, El<VT<V>>::get(v[i]), m[i]); }
template <typename V> void vec_steps(Rng& r, V& v, std::vector<int>& m, int n) {
    using T = VT<V>; auto mk = [](int i) { return El<T>::make(i); };
    while (n--) {
        int x = int(r.below(100)); size_t s = m.size(), p = r.below(s + 1), room = BOUND - s;
        switch (r.below(11)) {
        case 0: case 1: if (room) { v.push_back(mk(x)); m.push_back(x); } break;
        case 2: if (room) { v.emplace_back(mk(x)); m.push_back(x); } break;
        case 3: if (room) { auto it = v.insert(v.begin() + long(p), mk(x)); m.insert(m.begin() + long(p), x); CK(it == v.begin() + long(p), "position"); } break;
        case 4: { size_t k = r.below(room + 1) % 5; const T t = mk(x); v.insert(v.begin() + long(p), k, t); m.insert(m.begin() + long(p), k, x); break; }
        case 5: if (s) { p %= s; v.erase(v.begin() + long(p)); m.erase(m.begin() + long(p)); } break;
        case 6: { size_t q = p + r.below(s - p + 1); v.erase(v.begin() + long(p), v.begin() + long(q)); m.erase(m.begin() + long(p), m.begin() + long(q)); break; }
        case 7: { size_t k = r.below(BOUND); const T t = mk(x); v.resize(k, t); m.resize(k, x); break; }
        case 8: { V w(v); vec_same(w, m, "copy"); if (room) w.push_back(mk(x)); vec_same(v, m, "copied from"); if (r.chance(50)) { v = w; if (room) m.push_back(x); } break; }
        case 9: { V w(std::move(v)); vec_same(w, m, "moved"); if (r.chance(50)) v.clear(); v = std::move(w); break; }
        case 10: { std::vector<T> src; size_t k = r.below(BOUND); m.clear(); for (size_t i = 0; i < k; ++i) { src.push_back(mk(int(i) + x)); m.push_back(int(i) + x); } v.assign(src.begin(), src.end()); break; }
        }
        vec_same(v, m, "vector");
    }
}
template <typename V> void vec_hist(Rng& r, int n) { V v; std::vector<int> m; vec_steps(r, v, m, n); }
template <typename K> struct Ord { bool operator()(int a, int b) const { return a < b; } }; // the order of the keys made from numbers
template <> struct Ord<std::string> { bool operator()(int a, int b) const { return El<std::string>::make(a) < El<std::string>::make(b); } };
template <typename M> using Ref = std::map<int, int, Ord<typename M::key_type>>;
template <typename M> void map_same(const M& a, const Ref<M>& m) { CK(a.size() == m.size(), "size"); auto i = m.begin(); for (auto& e : a) { CK(El<typename M::key_type>::get(e.first) == i->first && e.second == i->second, "map element"); ++i; } }
template <typename M> void map_steps(Rng& r, M& a, Ref<M>& m, int n) {
    using K = typename M::key_type; const M& ca = a;
    while (n--) {
        int k = int(r.below(30)), x = int(r.below(1000)); bool had = m.count(k) != 0; const K key = El<K>::make(k);
        switch (r.below(7)) {
        case 0: { auto p = a.emplace(key, x); CK(p.second == !had && El<K>::get(p.first->first) == k, "emplace"); m.emplace(k, x); break; }
        case 1: if (m.size() < BOUND || had) { a[key] = x; m[k] = x; } break;
        case 2: CK(a.erase(key) == size_t(had), "erase"); m.erase(k); break;
        case 3: CK((ca.find(key) != ca.end()) == had && ca.count(key) == size_t(had) && (!had || ca.at(key) == m[k]), "lookup"); break;
        case 4: { auto l = ca.lower_bound(key), u = m.lower_bound(k) == m.end() ? ca.end() : ca.begin() + std::distance(m.begin(), m.lower_bound(k)); CK(l == u, "lower_bound"); break; }
        case 5: { M b(a); map_same(b, m); b.clear(); map_same(a, m); break; }
        case 6: { M b(std::move(a)); map_same(b, m); a = std::move(b); break; }
        }
        if (m.size() >= BOUND) { a.erase(a.begin()); m.erase(m.begin()); } map_same(a, m);
    }
}
template <typename M> void map_hist(Rng& r, int n) { M a; Ref<M> m; map_steps(r, a, m, n); }
template <typename S> void set_same(const S& a, const std::set<int, Ord<typename S::value_type>>& m) { CK(a.size() == m.size(), "size"); auto i = m.begin(); for (auto& e : a) { CK(El<typename S::value_type>::get(e) == *i, "set element"); ++i; } }
template <typename S> void set_hist(Rng& r, int n) {
    using K = typename S::value_type; S a; std::set<int, Ord<K>> m; const S& ca = a;
    while (n--) {
        int k = int(r.below(30)); bool had = m.count(k) != 0; const K key = El<K>::make(k);
        switch (r.below(5)) {
        case 0: case 1: { auto p = a.insert(key); CK(p.second == !had && El<K>::get(*p.first) == k, "insert"); m.insert(k); break; }
        case 2: CK(a.erase(key) == size_t(had), "erase"); m.erase(k); break;
        case 3: { auto e = ca.equal_range(key); CK((ca.find(key) != ca.end()) == had && size_t(e.second - e.first) == size_t(had), "lookup"); break; }
        case 4: { S b(a); set_same(b, m); S c(std::move(b)); a = std::move(c); break; }
        }
        if (m.size() >= BOUND) { a.erase(a.begin()); m.erase(m.begin()); } set_same(a, m);
    }
}
template <typename B> void bits_same(const B& b, const std::vector<bool>& m) { CK(b.size() == m.size(), "bitset size"); bool all = true, any = false; for (size_t i = 0; i < m.size(); ++i) { CK(b.test(i) == m[i] && b[i] == m[i], "bit %zu", i); all = all && m[i]; any = any || m[i]; } CK(b.any() == any && b.none() == !any && (m.empty() || b.all() == all), "all, any, none"); size_t k = 0; for (auto x : b) CK(bool(x) == m[k++], "bit iteration"); }
template <typename W> void bits_hist(Rng& r, int n) {
    using B = itlib::dynamic_bitset<std::vector<W>>; B b; std::vector<bool> m;
    while (n--) {
        size_t s = m.size(), i = r.below(s); bool x = r.chance(50);
        switch (r.below(7)) {
        case 0: case 1: b.push_back(x); m.push_back(x); break;
        case 2: if (s) { b.set(i, x); m[i] = x; } break;
        case 3: if (s) { b.flip(i); m[i] = !m[i]; } break;
        case 4: { size_t k = r.below(100); if (k > s) m.resize(k); else m.resize(k); b.resize(k); for (size_t q = s; q < k; ++q) { b.set(q, q % 3 == 0); m[q] = q % 3 == 0; } break; }
        case 5: { B c(b); bits_same(c, m); c.append(b); if (m.size() < 60) { b = c; auto t = m; m.insert(m.end(), t.begin(), t.end()); } break; }
        case 6: { B c(r.below(40) + s, W(0)); c.copy(c.begin(), c.begin() + long(s), ((const B&)b).begin()); for (size_t q = 0; q < s; ++q) CK(c.test(q) == m[q], "copied bit %zu", q); break; }
        }
        bits_same(b, m);
    }
}
template <typename T> void exp_hist(Rng& r, int n) {
    struct E2 { int e; }; using X = itlib::expected<T, std::string>; using O = itlib::eoptional<T>; X x; bool has = true; int v = 0; O o; bool ohas = true; int ov = 0; (void)sizeof(E2); x = X(El<T>::make(0)); o = O(El<T>::make(0));
    while (n--) {
        int k = int(r.below(50));
        switch (r.below(6)) {
        case 0: x = X(El<T>::make(k)); has = true; v = k; break;
        case 1: x = X(itlib::unexpected(El<std::string>::make(k))); has = false; v = k; break;
        case 2: { X y(std::move(x)); CK(y.has_value() == has, "moved expected"); x = std::move(y); break; }
        case 3: if (has) { *x = El<T>::make(k); v = k; } break;
        case 4: o = O(El<T>::make(k)); ohas = true; ov = k; break;
        case 5: o = O(itlib::unexpected()); ohas = false; break;
        }
        CK(bool(x) == has && (has ? El<T>::get(*x) : El<std::string>::get(x.error())) == v, "expected"); CK(bool(o) == ohas && (!ohas || El<T>::get(*o) == ov), "optional");
        const X& cx = x; T d = cx.value_or(El<T>::make(77)); CK(El<T>::get(d) == (has ? v : 77), "value_or");
    }
}
template <typename A> void any_same(const A& a, int kind, int v) { CK(a.has_value() == (kind != 0), "any"); auto* i = itlib::any_cast<int>(&a); auto* s = itlib::any_cast<std::string>(&a); auto* n = itlib::any_cast<Nest>(&a); CK((i != nullptr) == (kind == 1) && (s != nullptr) == (kind == 2) && (n != nullptr) == (kind == 3), "any_cast"); if (i) CK(*i == v, "any value"); if (s) CK(El<std::string>::get(*s) == v, "any value"); if (n) CK(El<Nest>::get(*n) == v, "any value"); }
template <typename A> void any_set(A& a, int kind, int v) { switch (kind) { case 0: a.reset(); break; case 1: a.template emplace<int>(v); break; case 2: a = El<std::string>::make(v); break; case 3: a.template emplace<Nest>(v); break; } }
static void any_hist(Rng& r, int n) {
    using A = itlib::any<>; A a; int kind = 0, v = 0;
    while (n--) { int k = 1 + int(r.below(50)); switch (r.below(4)) { case 0: case 1: any_set(a, kind = int(r.below(4)), v = k); break; case 2: { A b(a); any_same(b, kind, v); any_set(b, 2, k); any_same(a, kind, v); a = b; kind = 2; v = k; break; } case 3: { A b(std::move(a)); any_same(b, kind, v); a = std::move(b); break; } } any_same(a, kind, v); }
}
static int twice(int x) { return 2 * x; }
static void fun_hist(Rng& r, int n) {
    using F = itlib::ufunction<int(int)>; F f; int add = -1; // -1: empty
    while (n--) {
        int k = int(r.below(50)); F g;
        switch (r.below(6)) {
        case 0: { std::unique_ptr<int> p(new int(k)); struct Fo { std::unique_ptr<int> p; int operator()(int x) { callback(); return x + *p; } }; g = Fo{std::move(p)}; f = std::move(g); add = k; break; }
        case 1: { Nest ne(k); f = F([ne](int x) { ne.check(); return x + ne.v; }); add = k; break; }
        case 2: f = &twice; add = -2; break;
        case 3: f = nullptr; add = -1; break;
        case 4: g = std::move(f); f = std::move(g); break;
        case 5: if (add >= 0) { auto* h = new F(std::move(f)); f = [h](int x) { std::unique_ptr<F> del; (void)del; return (*h)(x); }; CK(f(1) == 1 + add, "a function which calls another"); f = std::move(*h); delete h; } break;
        }
        CK(bool(f) == (add != -1), "empty"); if (f) CK(f(k) == (add == -2 ? 2 * k : k + add), "result");
    }
}
static void stream_hist(Rng& r, int n) {
    while (n-- > 0) {
        std::string in; std::vector<int> nums; size_t k = 1 + r.below(12); for (size_t i = 0; i < k; ++i) nums.push_back(int(r.below(100000)));
        std::string got; if (r.chance(50)) { itlib::mem_ostreambuf<std::string> ob; std::ostream o(&ob); for (int x : nums) o << x << " "; o << Nest(3); got = ob.get_container(); } else { itlib::mem_ostreambuf<std::vector<char>> ob(r.below(20)); std::ostream o(&ob); for (int x : nums) o << x << ' '; o << Nest(3); auto c = ob.get_container(); got.assign(c.begin(), c.end()); }
        std::ostringstream want; for (int x : nums) want << x << ' '; want << "<3>"; CK(got == want.str(), "written \"%s\", should be \"%s\"", got.c_str(), want.str().c_str());
        itlib::mem_istreambuf<char> ib(got.data(), got.size()); std::istream is(&ib); size_t at = r.below(k); for (size_t i = 0; i < k; ++i) { if (i == at) { itlib::redirect_rstream rs(is, 0); int y; rs >> y; CK(y == nums[0], "redirected read"); } int x = -1; is >> x; CK(x == nums[i], "read %d, should be %d", x, nums[i]); }
    }
}
static void throw_hist(Rng& r, int n) {
    while (n-- > 0) { int x = int(r.below(1000)); std::string msg; auto f = [&](int d) { if (d) itlib::throw_ex<std::runtime_error>() << "number " << x << " " << Nest(x) << std::hex << " " << x; }; try { f(1); CK(false, "nothing thrown"); } catch (std::runtime_error& e) { msg = e.what(); } std::ostringstream o; o << "number " << x << " <" << x << "> " << std::hex << x; CK(msg == o.str(), "message \"%s\", should be \"%s\"", msg.c_str(), o.str().c_str()); }
}
static void time_hist(Rng& r, int n) { while (n-- > 0) { int64_t s = int64_t(r.below(4000000000u)); std::time_t t = std::time_t(s); std::tm w = {}; gmtime_r(&t, &w); auto x = itlib::time_t::from_seconds(s); std::tm g = x.gmtime(); CK(g.tm_year == w.tm_year && g.tm_yday == w.tm_yday && g.tm_sec == w.tm_sec && g.tm_hour == w.tm_hour, "gmtime"); CK(itlib::time_t::from_gmtime(g).seconds_since_epoch() == s, "from_gmtime"); char b[400]; std::string pad(r.below(300), 'p'); std::string f = "%Y-%m-%d %H:%M:%S" + pad; CK(std::strftime(b, sizeof b, f.c_str(), &w), "C"); CK(itlib::strftime(f.c_str(), w) == b, "strftime"); } }
static void algo_hist(Rng& r, int n) {
    while (n-- > 0) {
        std::vector<Nest> v; std::vector<int> m; size_t k = r.below(8); for (size_t i = 0; i < k; ++i) { m.push_back(int(r.below(4))); v.emplace_back(m.back()); } int x = int(r.below(4)); Nest nx(x); auto at = std::find(m.begin(), m.end(), x) - m.begin();
        auto is = [&](const Nest& e) { callback(); e.check(); return e.v == x; }; CK(itlib::qfind(v, nx) - v.begin() == at && itlib::qfind_if(v, is) - v.begin() == at && itlib::pfind(v, nx) == (size_t(at) < k ? v.data() + at : nullptr), "find"); CK(itlib::qany_of(v, is) == (size_t(at) < k) && itlib::qnone_of(v, is) == (size_t(at) == k) && itlib::qall_of(v, is) == (size_t(std::count(m.begin(), m.end(), x)) == k), "any, all, none");
        auto w = v; size_t c = size_t(std::count(m.begin(), m.end(), x)); CK(itlib::erase_all(v, nx) == c && v.size() == k - c && itlib::erase_first_if(w, is) == (c > 0) && w.size() == k - (c > 0), "erase");
        std::string s, a(1 + r.below(2), 'a'); for (size_t q = r.below(5); q--;) s += a; s += "b"; for (size_t q = r.below(5); q--;) s += a; CK(itlib::remove_prefix_all(s, a)[0] == 'b' || itlib::remove_prefix_all(s, a).substr(0, a.size()) != a, "prefix"); CK(itlib::ends_with(itlib::remove_suffix_all(s, a), a) == false && itlib::starts_with(s, s.substr(0, r.below(s.size()))), "suffix");
    }
}
struct Shared : itlib::enable_shared_from { Nest n; explicit Shared(int i) : n(i) {} Shared(const Shared&) = default; using enable_shared_from::shared_from; using enable_shared_from::weak_from; };
static void ptr_hist(Rng& r, int n) {
    while (n-- > 0) { int x = int(r.below(100)); auto p = itlib::make_shared(Shared(x)); auto q = p->shared_from(&p->n); CK(p.use_count() == 2 && q.get() == &p->n && El<Nest>::get(*q) == x, "shared_from"); auto al = itlib::make_aliased(p, &p->n.v); CK(*al == x && p.use_count() == 3, "make_aliased"); auto w = p->weak_from(p.get()); p.reset(); q.reset(); CK(!w.expired() && *al == x, "kept by an alias"); al.reset(); CK(w.expired(), "released"); auto u = itlib::make_unique(Nest(x)); CK(El<Nest>::get(*u) == x, "make_unique"); itlib::atomic_shared_ptr_storage<Nest> st; st.store(std::make_shared<Nest>(x)); auto l = st.load(); CK(El<Nest>::get(*l) == x && l.use_count() == 2, "storage"); auto e = st.exchange(nullptr); CK(e == l && !st.load(), "exchange"); }
}
static void lock_hist(Rng& r, int n) {
    itlib::data_mutex<std::vector<Nest>, std::mutex> d; itlib::strong_try_rec_mutex m; itlib::atomic_relaxed_counter<int> cnt(0); size_t have = 0;
    while (n-- > 0) { auto l = d.unique_lock(); l->emplace_back(int(r.below(9))); CK(l->size() == ++have, "data"); CK(m.try_lock() && m.try_lock(), "recursive"); m.unlock(); m.unlock(); ++cnt; CK(size_t(int(cnt)) == have, "counter"); std::vector<int> order; { auto s = itlib::make_sentry([&] { callback(); order.push_back(1); }); auto t = itlib::make_sentry([&] { callback(); order.push_back(2); }); } CK(order.size() == 2 && order[0] == 2, "sentries"); }
}
static void view_hist(Rng& r, int n) {
    while (n-- > 0) { std::vector<Nest> v; size_t k = r.below(9); for (size_t i = 0; i < k; ++i) v.emplace_back(int(i)); auto s = itlib::make_span(v); size_t o = r.below(k + 1); auto t = s.subspan(o); size_t i = o; for (auto& e : t) CK(&e == &v[i++], "span"); CK(i == k, "span size"); if (k) { auto ss = itlib::make_stride_span_member_view(v.data(), k, &Nest::v); i = 0; for (int x : ss) CK(x == int(i++), "stride span"); CK(i == k && *(ss.end() - 1) == int(k) - 1, "stride span"); } }
}
static void pmr_hist(Rng& r, int n) {
    unsigned char blk[4096]; std::pmr::monotonic_buffer_resource mono(blk, sizeof blk); std::pmr::unsynchronized_pool_resource pool; std::pmr::memory_resource* res = r.chance(50) ? static_cast<std::pmr::memory_resource*>(&mono) : &pool; using V = itlib::small_vector<Nest, 2, 0, itlib::pmr_allocator<Nest>>; V v{itlib::pmr_allocator<Nest>(res)}; std::vector<int> m; while (n-- > 0) { int x = int(r.below(50)); if (m.size() < 12) { v.push_back(Nest(x)); m.push_back(x); } else { v.erase(v.begin()); m.erase(m.begin()); } CK(v.get_allocator().resource() == res, "resource"); vec_same(v, m, "pmr vector"); }
}
#if __cplusplus >= 202002L
static itlib::generator<int> range(int a, int b, Nest n) { for (int i = a; i < b; ++i) { callback(); n.check(); co_yield i; } }
static itlib::generator<Nest> nests(int a, int b) { for (int i : range(a, b, Nest(a))) co_yield Nest(i); }
static void gen_hist(Rng& r, int n) {
    while (n-- > 0) { int a = int(r.below(20)), b = a + int(r.below(6)); int want = a; for (auto& x : nests(a, b)) CK(El<Nest>::get(x) == want++, "yielded"); CK(want == b, "yields"); auto g = range(a, b, Nest(1)); auto h = nests(a, b); want = a; while (auto x = g.next()) { auto y = h.next(); CK(*x == want && y && El<Nest>::get(*y) == want, "interleaved generators"); ++want; } CK(want == b && !h.next(), "interleaved generators end"); }
}
struct THash { using is_transparent = void; size_t operator()(std::string_view s) const { callback(); return std::hash<std::string_view>()(s) % 7; } }; struct TEq { using is_transparent = void; bool operator()(std::string_view a, std::string_view b) const { callback(); return a == b; } };
using UM = itlib::transparent_umap<std::string, int, THash, TEq>;
static void um_hist(Rng& r, int n) {
    UM u; std::map<std::string, int> m; while (n-- > 0) { std::string k = El<std::string>::make(int(r.below(20))); int x = int(r.below(99)); bool had = m.count(k) != 0; std::string_view sv = k; switch (r.below(4)) { case 0: u[sv] = x; m[k] = x; break; case 1: CK(u.try_emplace(sv, x).second == !had, "try_emplace"); m.emplace(k, x); break; case 2: CK(u.contains(sv) == had && (!had || u.at(sv) == m[k]), "lookup"); break; case 3: CK(u.erase(k) == size_t(had), "erase"); m.erase(k); break; } CK(u.size() == m.size(), "size"); }
}
#endif
using SVi = itlib::small_vector<int, 4>; using SVs = itlib::small_vector<std::string, 3, 2>; using SVn = itlib::small_vector<Nest, 3>; using STn = itlib::static_vector<Nest, BOUND>; using STs = itlib::static_vector<std::string, BOUND>; using PVi = itlib::pod_vector<int>; using PVd = itlib::pod_vector<double>;
using FMs = itlib::flat_map<std::string, int>; using FMn = itlib::flat_map<Nest, int>; using FMst = itlib::flat_map<Nest, int, std::less<Nest>, itlib::static_vector<std::pair<Nest, int>, BOUND + 2>>; using FSn = itlib::flat_set<Nest>; using FSs = itlib::flat_set<std::string, std::less<std::string>, itlib::small_vector<std::string, 4>>;
enum { KINDS = 26 };
static void history(Rng& r, int kind, int n) {
    switch (kind) {
    case 0: vec_hist<SVi>(r, n); break; case 1: vec_hist<SVs>(r, n); break; case 2: vec_hist<SVn>(r, n); break; case 3: vec_hist<STn>(r, n); break; case 4: vec_hist<STs>(r, n); break; case 5: vec_hist<PVi>(r, n); break; case 6: vec_hist<PVd>(r, n); break;
    case 7: map_hist<FMs>(r, n); break; case 8: map_hist<FMn>(r, n); break; case 9: map_hist<FMst>(r, n); break; case 10: set_hist<FSn>(r, n); break; case 11: set_hist<FSs>(r, n); break;
    case 12: bits_hist<uint8_t>(r, n); break; case 13: bits_hist<uint64_t>(r, n); break; case 14: exp_hist<std::string>(r, n); break; case 15: exp_hist<Nest>(r, n); break; case 16: any_hist(r, n); break; case 17: fun_hist(r, n); break;
    case 18: stream_hist(r, n / 4 + 1); break; case 19: throw_hist(r, n / 3 + 1); break; case 20: time_hist(r, n / 4 + 1); break; case 21: algo_hist(r, n / 4 + 1); break; case 22: ptr_hist(r, n / 3 + 1); break; case 23: lock_hist(r, n / 2 + 1); break; case 24: view_hist(r, n / 3 + 1); break; case 25: pmr_hist(r, n); break;
#if __cplusplus >= 202002L
    case 26: gen_hist(r, n / 3 + 1); break; case 27: um_hist(r, n); break;
#endif
    }
}
#if __cplusplus >= 202002L
enum { ALL = KINDS + 2 };
#else
enum { ALL = KINDS };
#endif
struct Cb { int depth = 1; uint64_t s = 1, n = 0; int percent = 0; }; // depth: 1 = off
static Cb& cb() { static thread_local Cb c; return c; }
static void callback() {
    Cb& c = cb(); if (c.depth) return; c.s = mix(c.s); if (int(c.s % 100) >= c.percent) return; ++c.depth; ++c.n;
    struct Back { Cb& c; ~Back() { --c.depth; } } back{c}; Rng r(c.s); history(r, int(r.below(ALL)), 1 + int(r.below(6)));
}
struct WithCb { WithCb(Rng& r, int pc) { auto& c = cb(); c.s = r.next(); c.percent = pc; c.depth = 0; c.n = 0; } ~WithCb() { cb().depth = 1; } };
// ---------------------------------------------------------------- one thread: everything within everything
static void nested(Case& c, int kind) { uint64_t n; { WithCb w(c.rng, 3 + int(c.rng.below(15))); op("history of kind %d with callbacks", kind); history(c.rng, kind, 6 + int(c.rng.below(14))); n = cb().n; } COVN("histories within callbacks", n); tick(); c.interesting(); c.h = c.rng.next(); }
#if VF_TSAN
#define NESTED_N 10
#else
#define NESTED_N 60
#endif
template <int K> struct RegNested { static void run(Case& c) { nested(c, K); } };
#define NEST(k, nm) REG_SUITE("sh.nested." nm, NESTED_N, NESTED_N * 30, &RegNested<k>::run)
NEST(2, "small_vector"); NEST(3, "static_vector"); NEST(5, "pod_vector"); NEST(8, "flat_map"); NEST(9, "flat_map static"); NEST(10, "flat_set"); NEST(15, "expected"); NEST(16, "any"); NEST(17, "ufunction"); NEST(18, "streams"); NEST(19, "throw_ex"); NEST(21, "algorithms"); NEST(22, "pointers"); NEST(23, "locks"); NEST(24, "spans"); NEST(25, "pmr");
#if __cplusplus >= 202002L
NEST(26, "generator"); NEST(27, "umap");
#endif
// ---------------------------------------------------------------- threads with objects of their own
SUITE("sh.own", 60, 4000) {
    Rng& r = c.rng; int n = 2 + int(r.below(5)); bool same = r.chance(60); int kind = int(r.below(ALL)); op("%d threads, %s", n, same ? "one kind" : "any kind"); if (same) op("kind %d", kind); int per = 6;
    team(r, n, some_level(r), [&](int, Rng& tr) { for (int i = 0; i < per; ++i) history(tr, same ? kind : int(tr.below(ALL)), 4 + int(tr.below(10))); });
    COVN("histories in threads", n * per); if (same) COV("the same component in all threads"); c.interesting(); c.h = r.next();
}
// ---------------------------------------------------------------- objects made in one thread, used and destroyed in others
template <typename F> static void relay(Case& c, F make_use) { // make_use(thread, round, rng)
    Rng& r = c.rng; int n = 2 + int(r.below(3)); for (int round = 0; round < 3; ++round) team(r, n, 0, [&](int t, Rng& tr) { make_use((t + round) % n, round, tr); }); COVN("objects handed over", n * 2); c.interesting(); c.h = r.next();
}
template <typename V> static void relay_vec(Case& c) { std::vector<std::unique_ptr<V>> v(8); std::vector<std::vector<int>> m(8); op("vectors"); relay(c, [&](int s, int round, Rng& tr) { if (!round) v[size_t(s)].reset(new V); vec_steps(tr, *v[size_t(s)], m[size_t(s)], 8); if (round == 2) v[size_t(s)].reset(); }); }
template <typename M> static void relay_map(Case& c) { std::vector<std::unique_ptr<M>> v(8); std::vector<Ref<M>> m(8); op("maps"); relay(c, [&](int s, int round, Rng& tr) { if (!round) v[size_t(s)].reset(new M); map_steps(tr, *v[size_t(s)], m[size_t(s)], 8); if (round == 2) v[size_t(s)].reset(); }); }
SUITE("sh.relay", 60, 4000) {
    Rng& r = c.rng; int what = int(r.below(9)); op("relay %d", what);
    switch (what) {
    case 0: relay_vec<SVs>(c); break; case 1: relay_vec<STs>(c); break; case 2: relay_vec<PVi>(c); break; case 3: relay_vec<SVi>(c); break; case 4: relay_map<FMs>(c); break;
    case 5: { std::vector<itlib::any<>> a(8); std::vector<int> k(8), v(8); relay(c, [&](int s_, int round, Rng& tr) { size_t s = size_t(s_); if (round) any_same(a[s], k[s], v[s]); if (round == 2) { a[s].reset(); return; } if (!round || tr.chance(50)) any_set(a[s], k[s] = int(tr.below(4)), v[s] = 1 + int(tr.below(50))); else { itlib::any<> b(std::move(a[s])); a[s] = b; } }); break; }
    case 6: { std::vector<itlib::ufunction<int(int)>> f(8); std::vector<int> a(8); relay(c, [&](int s_, int round, Rng& tr) { size_t s = size_t(s_); if (round) CK(f[s](3) == 3 + a[s], "a function from another thread"); if (round == 2) { f[s] = nullptr; return; } a[s] = int(tr.below(50)); std::unique_ptr<int> p(new int(a[s])); struct Fo { std::unique_ptr<int> p; int operator()(int x) const { return x + *p; } }; f[s] = Fo{std::move(p)}; }); break; }
    case 7: { std::vector<std::unique_ptr<itlib::mem_ostreambuf<std::string>>> b(8); std::vector<std::string> w(8); relay(c, [&](int s_, int round, Rng& tr) { size_t s = size_t(s_); if (!round) b[s].reset(new itlib::mem_ostreambuf<std::string>); { std::ostream o(b[s].get()); for (int i = int(tr.below(20)); i--;) { int x = int(tr.below(1000)); o << x << ","; w[s] += std::to_string(x) + ","; } } if (round == 2) { CK(b[s]->get_container() == w[s], "written by several threads"); b[s].reset(); } }); break; }
#if __cplusplus >= 202002L
    case 8: { std::vector<itlib::generator<int>> g; for (int i = 0; i < 8; ++i) g.push_back(range(i, i + 20, Nest(i))); std::vector<int> at{0, 1, 2, 3, 4, 5, 6, 7}; relay(c, [&](int s_, int round, Rng& tr) { size_t s = size_t(s_); for (int i = int(tr.below(round == 2 ? 20 : 8)); i--;) { auto x = g[s].next(); if (!x) { CK(at[s] == s_ + 20, "end"); break; } CK(*x == at[s], "a generator resumed in another thread"); ++at[s]; } if (round == 2) g[s] = range(0, 1, Nest(1)); }); break; }
#endif
    }
}
// ---------------------------------------------------------------- many readers of one object
template <typename F> static void readers(Case& c, F f) { Rng& r = c.rng; int n = 2 + int(r.below(4)), per = 40; team(r, n, some_level(r), [&](int, Rng& tr) { for (int i = 0; i < per; ++i) f(tr); }); COVN("concurrent reads", n * per); tick(); c.interesting(); c.h = r.next(); }
template <typename V> static void read_vec(Case& c) {
    using T = VT<V>; V v; std::vector<int> m; size_t n = c.rng.below(4) ? c.rng.below(BOUND) : 0; for (size_t i = 0; i < n; ++i) { m.push_back(int(c.rng.below(100))); v.push_back(El<T>::make(m.back())); } const V& cv = v; const V eqv(v); op("vector of %zu", n);
    readers(c, [&](Rng& r) { switch (r.below(8)) {
        case 0: vec_same(cv, m, "read"); break; case 1: { V w(cv); vec_same(w, m, "copy of a shared vector"); w.clear(); break; } case 2: CK(cv == eqv && !(cv != eqv), "comparison"); break;
        case 3: { size_t i = n; for (auto it = cv.rbegin(); it != cv.rend(); ++it) CK(El<T>::get(*it) == m[--i], "reverse"); break; }
        case 4: if (n) CK(El<T>::get(cv.front()) == m[0] && El<T>::get(cv.back()) == m.back() && El<T>::get(v.front()) == m[0] && El<T>::get(v.back()) == m.back(), "front and back"); break; // non-const access reads, too
        case 5: if (n) { size_t i = r.below(n); CK(El<T>::get(v[i]) == m[i] && El<T>::get(v.at(i)) == m[i] && &v[i] == v.data() + i && v.begin() + long(i) == v.cbegin() + long(i), "access"); } break;
        case 6: { V w; w = cv; vec_same(w, m, "assigned from a shared vector"); break; } case 7: CK(cv.capacity() >= n && cv.max_size() >= n && cv.end() - cv.begin() == ptrdiff_t(n), "capacity"); break; } });
    if (n > 1) { int t = int(std::min<size_t>(n, 5)); op("writers of different elements"); team(c.rng, t, some_level(c.rng), [&](int k, Rng&) { for (size_t i = size_t(k); i < n; i += size_t(t)) { v[i] = El<T>::make(m[i] + 1); CK(El<T>::get(v.at(i)) == m[i] + 1, "an element written by one thread"); } }); for (size_t i = 0; i < n; ++i) CK(El<T>::get(v[i]) == m[i] + 1, "element %zu after concurrent writes", i); COV("different elements written at once"); }
}
REG_SUITE("sh.read.small_vector int", 25, 2000, &read_vec<SVi>); REG_SUITE("sh.read.small_vector string", 25, 2000, &read_vec<SVs>); REG_SUITE("sh.read.static_vector", 25, 2000, &read_vec<STs>); REG_SUITE("sh.read.pod_vector", 25, 2000, &read_vec<PVi>);
template <typename M> static void read_map(Case& c) {
    M a; Ref<M> m; map_steps(c.rng, a, m, 40); const M& ca = a; op("map of %zu", m.size()); using K = typename M::key_type;
    readers(c, [&](Rng& r) { int k = int(r.below(30)); bool had = m.count(k) != 0; const K key = El<K>::make(k); switch (r.below(6)) {
        case 0: map_same(ca, m); break; case 1: CK((ca.find(key) != ca.end()) == had && (a.find(key) != a.end()) == had && ca.count(key) == size_t(had), "find"); break; case 2: if (had) CK(ca.at(key) == m.at(k) && a.at(key) == m.at(k), "at"); break; case 3: { size_t w = size_t(std::distance(m.begin(), m.lower_bound(k))); CK(size_t(ca.lower_bound(key) - ca.begin()) == w && size_t(a.upper_bound(key) - a.begin()) == w + had, "bounds"); auto e = ca.equal_range(key); CK(size_t(e.second - e.first) == size_t(had), "equal_range"); break; } case 4: { M b(ca); map_same(b, m); break; } case 5: { CK(ca == a && !(ca != a), "comparison"); break; } } });
}
REG_SUITE("sh.read.flat_map", 25, 2000, &read_map<FMs>); REG_SUITE("sh.read.flat_map static", 25, 2000, &read_map<FMst>);
SUITE("sh.read.flat_set", 25, 2000) {
    FSs a; std::set<int> m; for (int i = int(c.rng.below(BOUND)); i--;) { int k = int(c.rng.below(30)); a.insert(El<std::string>::make(k)); m.insert(k); } std::vector<std::string> so; for (int k : m) so.push_back(El<std::string>::make(k)); std::sort(so.begin(), so.end()); const FSs& ca = a; op("set of %zu", m.size());
    readers(c, [&](Rng& r) { int k = int(r.below(30)); bool had = m.count(k) != 0; auto key = El<std::string>::make(k); switch (r.below(4)) { case 0: { size_t i = 0; for (auto& e : ca) CK(e == so[i++], "iteration"); CK(i == so.size(), "size"); break; } case 1: CK((ca.find(key) != ca.end()) == had && ca.count(key) == size_t(had), "find"); break; case 2: { FSs b(ca); CK(b == ca && b.size() == m.size(), "copy"); break; } case 3: CK(ca.lower_bound(key) - ca.begin() == std::lower_bound(so.begin(), so.end(), key) - so.begin(), "lower_bound"); break; } });
}
template <typename W> static void read_bits(Case& c) {
    using B = itlib::dynamic_bitset<std::vector<W>>; B b; std::vector<bool> m; size_t n = c.rng.below(150); int mode = int(c.rng.below(3)); for (size_t i = 0; i < n; ++i) { bool x = mode == 0 ? true : mode == 1 ? false : c.rng.chance(50); b.push_back(x); m.push_back(x); } const B& cb_ = b; op("%zu bits", n);
    readers(c, [&](Rng& r) { switch (r.below(4)) { case 0: bits_same(cb_, m); break; case 1: { B d(cb_); bits_same(d, m); break; } case 2: { B d(n, W(0)); d.copy(d.begin(), d.end(), cb_.begin()); bits_same(d, m); B e; e.append(cb_); bits_same(e, m); break; } case 3: if (n) { size_t i = r.below(n); CK(cb_.test(i) == m[i] && cb_[i] == m[i] && bool(b[i]) == m[i], "bit"); } break; } });
}
REG_SUITE("sh.read.bitset 8", 25, 2000, &read_bits<uint8_t>); REG_SUITE("sh.read.bitset 32", 25, 2000, &read_bits<uint32_t>);
SUITE("sh.read.expected", 25, 2000) {
    using X = itlib::expected<std::string, std::vector<int>>; using O = itlib::eoptional<std::string>; using P = itlib::expected<std::string&, int>; using Q = itlib::expected<void, std::string>; Rng& r0 = c.rng; bool has = r0.chance(50); int v = int(r0.below(50)); std::string sv = El<std::string>::make(v); X x = has ? X(std::string(sv)) : X(itlib::unexpected(std::vector<int>{v, 1})); O o = has ? O(std::string(sv)) : O(itlib::unexpected()); P p = has ? P(sv) : P(itlib::unexpected(v)); Q q = has ? Q() : Q(itlib::unexpected(std::string(sv))); const X& cx = x; const O& co = o; const P& cp = p; const Q& cq = q; op("expected %d", has);
    readers(c, [&](Rng& r) { switch (r.below(5)) { case 0: CK(cx.has_value() == has && cx.has_error() == !has && bool(cx) == has, "state"); if (has) CK(*cx == sv && cx.value() == sv && cx->size() == sv.size() && *x == sv, "value"); else CK(cx.error().size() == 2 && cx.error()[0] == v, "error"); break; case 1: CK(cx.value_or("other") == (has ? sv : "other"), "value_or"); break; case 2: CK(bool(co) == has && (!has || *co == sv) && co.value_or("q") == (has ? sv : "q"), "optional"); break; case 3: CK(bool(cp) == has && (has ? &*cp == &sv : cp.error() == v), "reference"); break; case 4: CK(bool(cq) == has && (has || cq.error() == sv), "void"); break; } });
}
SUITE("sh.read.any", 25, 2000) {
    itlib::any<> a; int kind = int(c.rng.below(4)), v = 1 + int(c.rng.below(50)); any_set(a, kind, v); const itlib::any<>& ca = a; op("any of kind %d", kind);
    readers(c, [&](Rng& r) { switch (r.below(4)) { case 0: any_same(ca, kind, v); any_same(a, kind, v); break; case 1: { itlib::any<> b(ca); any_same(b, kind, v); break; } case 2: { itlib::any<> b; b.emplace<int>(5); b = ca; any_same(b, kind, v); any_set(b, 2, 3); break; } case 3: { bool bad = false; try { int x = itlib::any_cast<int>(ca); CK(x == v, "any_cast"); } catch (std::bad_cast&) { bad = true; } CK(bad == (kind != 1), "any_cast"); break; } } });
}
SUITE("sh.read.ufunction", 25, 2000) {
    int k = int(c.rng.below(50)); std::unique_ptr<int> p(new int(k)); struct Fo { std::unique_ptr<int> p; std::string s = "kept"; int operator()(int x) const { return x + *p + int(s.size()); } }; Fo fo; fo.p = std::move(p); const itlib::ufunction<int(int)> f(std::move(fo)), e, g(&twice); op("function");
    readers(c, [&](Rng& r) { int x = int(r.below(99)); CK(f && f(x) == x + k + 4 && !e && g(x) == 2 * x, "call"); });
}
SUITE("sh.read.views", 25, 2000) {
    struct Rec { int a; std::string s; double d; }; size_t n = 1 + c.rng.below(20); std::vector<Rec> v; for (size_t i = 0; i < n; ++i) v.push_back({int(i), El<std::string>::make(int(i)), double(i)}); const std::vector<Rec>& cvv = v; auto s = itlib::make_span(v); auto cs = itlib::make_span(cvv); auto ss = itlib::make_stride_span_member_view(v.data(), n, &Rec::s); auto mv = itlib::make_memory_view(v.data(), n); std::string text(c.rng.below(100), 'a'); text += "b tail 12 34"; op("%zu records", n);
    readers(c, [&](Rng& r) { size_t i = r.below(n); switch (r.below(5)) { case 0: { auto t = s.subspan(i); size_t q = i; for (auto& e : t) CK(e.a == int(q++), "span"); CK(q == n && cs[i].a == int(i) && s.front().a == 0 && cs.back().a == int(n) - 1, "span"); break; } case 1: { size_t q = 0; for (auto& e : ss) CK(El<std::string>::get(e) == int(q++), "stride span"); CK(q == n && &ss[i] == &v[i].s && ss.size() == n, "stride span"); break; } case 2: CK(mv.size() == n && mv[i].a == int(i), "memory view"); break;
        case 3: { itlib::mem_istreambuf<char> b(text.data(), text.size()); std::istream is(&b); std::string w1, w2; int x = 0, y = 0; is >> w1 >> w2 >> x >> y; CK(w2 == "tail" && x == 12 && y == 34, "stream over shared text"); break; } case 4: CK(itlib::remove_prefix_all(text, "a") == "b tail 12 34" && itlib::ends_with(text, "34") && itlib::pfind_if(cvv, [&](const Rec& q) { return q.a == int(i); }) == &cvv[i] && itlib::qany_of(cvv, [&](const Rec& q) { return q.d == double(i); }), "helpers on shared data"); break; } });
}
SUITE("sh.read.pointers", 25, 2000) {
    int x = int(c.rng.below(99)); auto p = std::make_shared<Shared>(x); const Shared& cs = *p; std::shared_ptr<const int> own = itlib::make_aliased(p, &p->n.v); op("shared object");
    readers(c, [&](Rng& r) { switch (r.below(5)) { case 0: { auto q = cs.shared_from(&cs.n); CK(q.get() == &cs.n && El<Nest>::get(*q) == x, "shared_from"); break; } case 1: { auto w = cs.weak_from(&cs); CK(w.lock().get() == &cs, "weak_from"); break; } case 2: { auto a = itlib::make_aliased(p, &x); CK(*a == x && a.use_count() > 1, "make_aliased"); break; } case 3: { auto u = itlib::make_unique(cs.n); CK(El<Nest>::get(*u) == x, "make_unique"); auto s = itlib::make_shared(cs.n); CK(El<Nest>::get(*s) == x, "make_shared"); break; } case 4: CK(*own == x, "alias"); break; } });
    CK(p.use_count() == 2, "use count after concurrent sharing is %ld", p.use_count());
}
#if __cplusplus >= 202002L
SUITE("sh.read.umap", 25, 2000) {
    UM u; std::map<std::string, int> m; for (int i = int(c.rng.below(30)); i--;) { auto k = El<std::string>::make(int(c.rng.below(40))); int x = int(c.rng.below(100)); u[k] = x; m[k] = x; } const UM& cu = u; op("map of %zu", m.size());
    readers(c, [&](Rng& r) { auto k = El<std::string>::make(int(r.below(40))); std::string_view sv = k; auto f = m.find(k); bool had = f != m.end(); switch (r.below(4)) { case 0: CK(cu.contains(sv) == had && (cu.find(sv) != cu.end()) == had && cu.count(k.c_str()) == size_t(had), "find"); break; case 1: { bool miss = false; try { CK(cu.at(sv) == f->second && u.at(k.c_str()) == f->second, "at"); } catch (std::out_of_range&) { miss = true; } CK(miss == !had, "at"); break; } case 2: { UM w(cu); CK(w.size() == m.size(), "copy"); break; } case 3: { size_t n = 0; for (auto& e : cu) { CK(m.at(e.first) == e.second, "iteration"); ++n; } CK(n == m.size(), "iteration"); break; } } });
}
#endif
