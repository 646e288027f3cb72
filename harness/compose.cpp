// The components work inside each other (C34): objects nested to several levels against plain trees
#include "common.hpp"
#include <algorithm>
#include <deque>
#include <map>
#include <list>
#include <typeinfo>
#include <itlib/any.hpp>
#include <itlib/data_mutex.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/expected.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/make_ptr.hpp>
#include <itlib/memory_view.hpp>
#include <itlib/mutex.hpp>
#include <itlib/pmr_allocator.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/qalgorithm.hpp>
#include <itlib/sentry.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/time_t.hpp>
#include <itlib/ufunction.hpp>
#if __cplusplus >= 202002L
#include <itlib/generator.hpp>
#include <itlib/transparent_umap.hpp>
#endif
#ifndef PART
#define PART 0
#endif
#define IN(p) (PART == 0 || PART == p)
using namespace vf;
#define CK(c, ...) do { if (!(c)) { if (::vf::ignored("value.compose")) throw ::vf::Abandon(); ::vf::fail("value.compose", __VA_ARGS__); } } while (0)
// ---------------------------------------------------------------- the model: a tree
struct M {
    int leaf = 0; std::vector<M> kids;
    M(int l = 0) : leaf(l) {}
    friend bool operator==(const M& a, const M& b) { return a.leaf == b.leaf && a.kids == b.kids; }
    friend bool operator!=(const M& a, const M& b) { return !(a == b); }
    friend bool operator<(const M& a, const M& b) { if (a.leaf != b.leaf) return a.leaf < b.leaf; return std::lexicographical_compare(a.kids.begin(), a.kids.end(), b.kids.begin(), b.kids.end()); }
    size_t nodes() const { size_t n = 1; for (auto& k : kids) n += k.nodes(); return n; }
    size_t depth() const { size_t n = 0; for (auto& k : kids) n = std::max(n, k.depth()); return n + 1; }
    std::string str() const { std::string s = std::to_string(leaf); if (!kids.empty()) { s += "("; for (auto& k : kids) s += k.str() + " "; s += ")"; } return s.size() > 700 ? s.substr(0, 700) + "..." : s; }
    uint64_t hash() const { uint64_t h = hcomb(uint64_t(leaf), kids.size()); for (auto& k : kids) h = hcomb(h, k.hash()); return h; }
};
// Tw<T>: make(rng, model), dump(t), change(rng, t, model), copy (independent copies), order (T has <), eq (T has ==), dflt (model of T{})
template <typename T> struct Tw;
template <typename T> T mk(Rng& r, M& m) { m = M(); return Tw<T>::make(r, m); }
template <typename T> void check(const T& t, const M& m, const char* what) { M d = Tw<T>::dump(t); CK(d == m, "%s: is %s, should be %s", what, d.str().c_str(), m.str().c_str()); }
// replaces or changes something within; what can be copied is also copied, assigned and compared on the way
template <typename T> void change(Rng& r, T& t, M& m) {
    size_t what = r.below(8); op("any %zu", what);
    switch (what) {
    case 0: t = mk<T>(r, m); COV("nested: assigned"); return;
    case 1: { T u(std::move(t)); check(u, m, "moved out"); if (r.chance(50)) Tw<T>::change(r, u, m); t = std::move(u); COV("nested: moved out and back"); return; }
    case 2: if constexpr (Tw<T>::copy) {
        const T& ct = t; T u(ct); M um = m; check(u, m, "copy"); Tw<T>::change(r, u, um); check(u, um, "changed copy"); check(t, m, "the original of a changed copy");
        if (r.chance(50)) { t = u; m = um; Tw<T>::change(r, t, m); check(u, um, "assigned from"); } COV("nested: copied"); return;
    } break;
    case 3: { M um; T u = mk<T>(r, um); using std::swap; swap(t, u); std::swap(m, um); check(u, um, "swapped"); COV("nested: swapped"); return; }
    case 4: if constexpr (Tw<T>::eq) {
        M um; T u = mk<T>(r, um); const T& ct = t; const T& cu = u; CK((ct == cu) == (m == um) && (ct != cu) == (m != um), "equality of %s and %s", m.str().c_str(), um.str().c_str());
        if constexpr (Tw<T>::copy) { u = ct; CK(ct == cu && !(cu != ct), "a copy is not equal to %s", m.str().c_str()); } COV("nested: compared"); return;
    } break;
    case 5: { std::vector<T> h; std::vector<M> hm; size_t n = 1 + r.below(4), at = r.below(n); for (size_t i = 0; i < n; ++i) { hm.emplace_back(); if (i == at) { h.push_back(std::move(t)); hm[i] = m; } else h.push_back(mk<T>(r, hm[i])); }
        for (size_t i = 0; i < n; ++i) check(h[i], hm[i], "in a std::vector"); h.erase(h.begin(), h.begin() + long(at)); check(h[0], m, "moved down"); t = std::move(h[0]); COV("nested: through a std::vector"); return; }
    case 6: { std::unique_ptr<T> p(new T(std::move(t))); check(*p, m, "on the heap"); t = std::move(*p); COV("nested: through the heap"); return; }
    }
    Tw<T>::change(r, t, m);
}
// ---------------------------------------------------------------- leaves
template <typename T, bool C> struct Leaf {
    static constexpr bool copy = C, order = true, eq = true, dflt = true;
    static T make(Rng& r, M& m) { m = M(1 + int(r.below(40))); return El<T>::make(m.leaf); }
    static M dump(const T& t) { return M(El<T>::get(t)); }
    static void change(Rng& r, T& t, M& m) { t = make(r, m); }
    static M zero() { return M(0); }
};
template <> struct Tw<int> : Leaf<int, true> {};
template <> struct Tw<uint16_t> : Leaf<uint16_t, true> {};
template <> struct Tw<Tr> : Leaf<Tr, true> {};
template <> struct Tw<TrC> : Leaf<TrC, true> { static constexpr bool eq = false; };
template <> struct Tw<TrM> : Leaf<TrM, false> { static constexpr bool eq = false; };
template <> struct Tw<TrTM> : Leaf<TrTM, true> {};
template <> struct Tw<std::unique_ptr<int>> : Leaf<std::unique_ptr<int>, false> { static constexpr bool order = false, eq = false, dflt = true; };
template <> struct Tw<Big> : Leaf<Big, true> { static constexpr bool eq = false, dflt = false; };
template <> struct Tw<std::string> : Leaf<std::string, true> { // in the order of the numbers
    static std::string text(int i) { if (!i) return {}; std::string s = std::to_string(i); return std::string(i % 3 ? 3 - s.size() : 3 - s.size(), '0') + s + (i % 3 ? "" : " long enough for the heap"); }
    static std::string make(Rng& r, M& m) { m = M(1 + int(r.below(40))); return text(m.leaf); }
    static M dump(const std::string& s) { M m(atoi(s.c_str())); CK(s == text(m.leaf), "a string is \"%s\"", s.c_str()); return m; }
    static void change(Rng& r, std::string& t, M& m) { t = make(r, m); }
};
template <> struct Tw<itlib::time_t> : Leaf<itlib::time_t, true> {
    static itlib::time_t make(Rng& r, M& m) { m = M(1 + int(r.below(40))); return itlib::time_t::from_seconds(m.leaf); }
    static M dump(const itlib::time_t& t) { return M(int(t.seconds_since_epoch())); }
    static void change(Rng& r, itlib::time_t& t, M& m) { t = make(r, m); }
};
// ---------------------------------------------------------------- sequences
static constexpr size_t MOST = 5; // per level
template <typename V> struct Cap { static constexpr size_t n = MOST; static constexpr bool shrink = false; };
template <typename T, size_t N> struct Cap<itlib::static_vector<T, N>> { static constexpr size_t n = N < MOST ? N : MOST; static constexpr bool shrink = false; };
template <typename V> constexpr auto has_data(int) -> decltype(std::declval<V&>().data(), true) { return true; }
template <typename V> constexpr bool has_data(long) { return false; }
template <typename V> struct Seq {
    using T = typename V::value_type; using W = Tw<T>;
    static constexpr bool copy = W::copy, order = false, eq = W::eq, dflt = true; static constexpr size_t cap = Cap<V>::n;
    static M zero() { return M(0); }
    static V make(Rng& r, M& m) {
        size_t n = r.below(cap + 1); std::vector<T> s; m = M(0); m.kids.resize(n); for (auto& k : m.kids) s.push_back(mk<T>(r, k));
        switch (r.below(3)) {
        case 0: { V v; v.assign(std::make_move_iterator(s.begin()), std::make_move_iterator(s.end())); return v; }
        case 1: if constexpr (W::copy) { const auto& cs = s; return V(cs.begin(), cs.end()); } break;
        }
        V v; for (auto& e : s) v.emplace_back(std::move(e)); return v;
    }
    static M dump(const V& v) { M m(0); CK(v.size() <= cap && size_t(v.end() - v.begin()) == v.size() && v.empty() == (v.size() == 0), "size %zu", size_t(v.size())); for (auto& e : v) m.kids.push_back(W::dump(e)); return m; }
    static void change(Rng& r, V& v, M& m) {
        auto& k = m.kids; size_t s = k.size(), p = r.below(s + 1); M x; CK(v.size() == s, "size is %zu, should be %zu", size_t(v.size()), s);
        size_t what = r.below(22); op("seq %zu at %zu of %zu", what, p, s);
        switch (what) {
        case 0: if (s < cap) { v.push_back(mk<T>(r, x)); k.push_back(x); } break;
        case 1: if (s < cap) { auto it = v.insert(v.begin() + long(p), mk<T>(r, x)); k.insert(k.begin() + long(p), x); check(*it, x, "inserted"); } break;
        case 2: if (s < cap) { auto it = v.emplace(v.begin() + long(p), mk<T>(r, x)); k.insert(k.begin() + long(p), x); check(*it, x, "emplaced"); } break;
        case 3: if (s) { p %= s; auto it = v.erase(v.begin() + long(p)); k.erase(k.begin() + long(p)); CK(it == v.begin() + long(p), "erase returns a wrong position"); } break;
        case 4: { size_t q = p + r.below(s - p + 1); v.erase(v.begin() + long(p), v.begin() + long(q)); k.erase(k.begin() + long(p), k.begin() + long(q)); break; }
        case 5: if (s) { v.pop_back(); k.pop_back(); } break;
        case 6: if constexpr (W::dflt) { size_t n = r.below(cap + 1); v.resize(n); k.resize(n, W::zero()); } break;
        case 7: if constexpr (W::copy) { size_t n = r.below(cap + 1); const T t = mk<T>(r, x); v.resize(n, t); k.resize(n, x); check(t, x, "the value of resize"); } break;
        case 8: if constexpr (W::copy) { size_t n = r.below(cap + 1); const T t = mk<T>(r, x); v.assign(n, t); k.assign(n, x); } break;
        case 9: if constexpr (W::copy) { size_t n = r.below(cap - s + 1); if (!n && !has_data<V>(0)) break; /* std::deque moves elements to themselves then */ const T t = mk<T>(r, x); v.insert(v.begin() + long(p), n, t); k.insert(k.begin() + long(p), n, x); } break;
        case 10: if constexpr (W::copy) if (s && s < cap) { p %= s; size_t q = r.below(s + 1); x = k[p]; v.insert(v.begin() + long(q), v[p]); k.insert(k.begin() + long(q), x); COV("nested: own element inserted"); } break;
        case 11: if (s > 1) { size_t q = r.below(s); p %= s; using std::swap; if (p != q) { swap(v[p], v[q]); std::swap(k[p], k[q]); } } break;
        case 12: if (s > 1) { p %= s; std::rotate(v.begin(), v.begin() + long(p), v.end()); std::rotate(k.begin(), k.begin() + long(p), k.end()); COV("nested: rotated"); } break;
        case 13: if constexpr (W::order) { std::sort(v.begin(), v.end()); std::sort(k.begin(), k.end()); COV("nested: sorted"); } break;
        case 14: { auto odd = [](const M& e) { return e.hash() % 2 == 0; }; size_t had = s; itlib::erase_all_if(v, [&](const T& t) { return odd(W::dump(t)); }); k.erase(std::remove_if(k.begin(), k.end(), odd), k.end()); CK(v.size() == k.size(), "erase_all_if of %zu leaves %zu, should be %zu", had, size_t(v.size()), k.size()); COV("nested: erased by a predicate"); break; }
        case 15: { V w; M wm; w = mk<V>(r, wm); v = std::move(w); m = wm; w = mk<V>(r, wm); check(w, wm, "reused after a move"); break; }
        case 16: if constexpr (has_data<V>(0)) { auto sp = itlib::make_span(v); CK(sp.size() == s, "span size"); for (size_t i = 0; i < s; ++i) check(sp[i], k[i], "through a span"); if (s) { p %= s; sp[p] = mk<T>(r, k[p]); } COV("nested: through spans"); } break;
        case 17: if constexpr (has_data<V>(0)) if (s) { struct P { virtual ~P() {} }; auto sp = itlib::make_stride_span_from_buf<T>(v.data(), sizeof(T), s); for (size_t i = 0; i < s; ++i) check(sp[i], k[i], "through a stride span"); (void)sizeof(P); COV("nested: through stride spans"); } break;
        default: if (s) { p %= s; ::change(r, v[p], k[p]); } // into an element
        }
    }
};
template <typename T, size_t N, size_t R, typename A> struct Tw<itlib::small_vector<T, N, R, A>> : Seq<itlib::small_vector<T, N, R, A>> {};
template <typename T, size_t N> struct Tw<itlib::static_vector<T, N>> : Seq<itlib::static_vector<T, N>> {};
template <typename T, typename A> struct Tw<itlib::pod_vector<T, A>> : Seq<itlib::pod_vector<T, A>> {};
template <typename T, typename A> struct Tw<std::vector<T, A>> : Seq<std::vector<T, A>> {};
template <typename T> struct Tw<std::deque<T>> : Seq<std::deque<T>> { };
// ---------------------------------------------------------------- the flat containers
template <typename V> struct Less { bool operator()(const V& a, const V& b) const { return Tw<V>::dump(a) < Tw<V>::dump(b); } };
template <typename F> struct FMap {
    using K = typename F::key_type; using T = typename F::mapped_type; using KW = Tw<K>; using W = Tw<T>;
    static constexpr bool copy = KW::copy && W::copy, order = false, eq = KW::eq && W::eq, dflt = true; static constexpr size_t cap = Cap<typename F::container_type>::n;
    static M zero() { return M(0); }
    static M pair(const M& k, const M& v) { M p(0); p.kids.push_back(k); p.kids.push_back(v); return p; }
    static std::vector<M>::iterator find(M& m, const M& k) { auto it = m.kids.begin(); while (it != m.kids.end() && it->kids[0] < k) ++it; return it; }
    static bool has(M& m, const M& k) { auto it = find(m, k); return it != m.kids.end() && it->kids[0] == k; }
    static void put(Rng& r, F& f, M& m) {
        M km, vm; K key = mk<K>(r, km); bool had = has(m, km); if (!had && m.kids.size() >= cap) return; auto at = find(m, km); long pos = long(at - m.kids.begin());
        switch (r.below(4)) {
        case 0: if constexpr (W::dflt) { auto& e = f[std::move(key)]; if (!had) m.kids.insert(at, pair(km, W::zero())); check(e, m.kids[size_t(pos)].kids[1], "operator[]"); ::change(r, e, m.kids[size_t(pos)].kids[1]); return; } break;
        case 1: { T t = mk<T>(r, vm); std::pair<K, T> kv(std::move(key), std::move(t)); auto res = f.insert(std::move(kv)); CK(res.second == !had && res.first == f.begin() + pos, "insert into a flat_map"); if (!had) m.kids.insert(at, pair(km, vm)); return; }
        }
        T t = mk<T>(r, vm); auto res = f.emplace(std::move(key), std::move(t)); CK(res.second == !had && res.first == f.begin() + pos, "emplace into a flat_map"); if (!had) m.kids.insert(at, pair(km, vm));
    }
    static F make(Rng& r, M& m) { m = M(0); F f; for (size_t n = r.below(cap + 1); n--;) put(r, f, m); return f; }
    static M dump(const F& f) { M m(0); for (auto& e : f) m.kids.push_back(pair(KW::dump(e.first), W::dump(e.second))); CK(f.size() == m.kids.size(), "size of a flat_map"); return m; }
    static void change(Rng& r, F& f, M& m) {
        size_t s = m.kids.size(), p = r.below(s); const F& cf = f;
        switch (r.below(8)) {
        case 0: case 1: put(r, f, m); break;
        case 2: if (s) { auto it = f.erase(f.begin() + long(p)); m.kids.erase(m.kids.begin() + long(p)); CK(it == f.begin() + long(p), "erase"); } break;
        case 3: { M km; const K key = mk<K>(r, km); bool had = has(m, km); size_t n = f.erase(key); CK(n == size_t(had), "erase of a key"); if (had) m.kids.erase(find(m, km)); break; }
        case 4: { M km; const K key = mk<K>(r, km); bool had = has(m, km); CK((cf.find(key) != cf.end()) == had && cf.count(key) == size_t(had), "lookup of a nested key"); if (had) check(cf.at(key), find(m, km)->kids[1], "at"); COV("nested: keys looked up"); break; }
        case 5: { F g(std::move(f)); check(g, m, "moved flat_map"); F h; h = std::move(g); f = std::move(h); break; }
        default: if (s) ::change(r, (f.begin() + long(p))->second, m.kids[p].kids[1]);
        }
    }
};
template <typename K, typename T, typename C, typename Cont> struct Tw<itlib::flat_map<K, T, C, Cont>> : FMap<itlib::flat_map<K, T, C, Cont>> {};
template <typename F> struct FSet {
    using K = typename F::value_type; using W = Tw<K>;
    static constexpr bool copy = W::copy, order = false, eq = W::eq, dflt = true; static constexpr size_t cap = Cap<typename F::container_type>::n;
    static M zero() { return M(0); }
    static void put(Rng& r, F& f, M& m) {
        M km; K key = mk<K>(r, km); auto at = std::lower_bound(m.kids.begin(), m.kids.end(), km); bool had = at != m.kids.end() && *at == km; if (!had && m.kids.size() >= cap) return; long pos = long(at - m.kids.begin());
        auto res = r.chance(50) ? f.insert(std::move(key)) : f.emplace(std::move(key)); CK(res.second == !had && res.first == f.begin() + pos, "insert into a flat_set"); if (!had) m.kids.insert(at, km);
    }
    static F make(Rng& r, M& m) { m = M(0); F f; for (size_t n = r.below(cap + 1); n--;) put(r, f, m); return f; }
    static M dump(const F& f) { M m(0); for (auto& e : f) m.kids.push_back(W::dump(e)); CK(f.size() == m.kids.size(), "size of a flat_set"); return m; }
    static void change(Rng& r, F& f, M& m) {
        size_t s = m.kids.size(), p = r.below(s); const F& cf = f;
        switch (r.below(6)) {
        case 0: case 1: put(r, f, m); break;
        case 2: if (s) { f.erase(f.begin() + long(p)); m.kids.erase(m.kids.begin() + long(p)); } break;
        case 3: { M km; const K key = mk<K>(r, km); auto at = std::lower_bound(m.kids.begin(), m.kids.end(), km); bool had = at != m.kids.end() && *at == km; CK((cf.find(key) != cf.end()) == had, "lookup of a nested key"); CK(f.erase(key) == size_t(had), "erase of a key"); if (had) m.kids.erase(at); COV("nested: keys looked up"); break; }
        case 4: { F g(std::move(f)); check(g, m, "moved flat_set"); f = std::move(g); break; }
        case 5: { put(r, f, m); put(r, f, m); break; }
        }
    }
};
template <typename K, typename C, typename Cont> struct Tw<itlib::flat_set<K, C, Cont>> : FSet<itlib::flat_set<K, C, Cont>> {};
// ---------------------------------------------------------------- one value or another
template <typename T, typename E> struct Tw<itlib::expected<T, E>> {
    using X = itlib::expected<T, E>; static constexpr bool copy = false, order = false, eq = false, dflt = Tw<T>::dflt;
    static M wrap(int l, const M& k) { M m(l); m.kids.push_back(k); return m; }
    static M zero() { return wrap(1, Tw<T>::zero()); }
    static X make(Rng& r, M& m) { M k; if (r.chance(60)) { T t = mk<T>(r, k); m = wrap(1, k); return X(std::move(t)); } E e = mk<E>(r, k); m = wrap(0, k); return itlib::unexpected(std::move(e)); }
    static M dump(const X& x) { CK(x.has_value() == bool(x) && x.has_value() != x.has_error(), "an expected has both or none"); return x ? wrap(1, Tw<T>::dump(*x)) : wrap(0, Tw<E>::dump(x.error())); }
    static void change(Rng& r, X& x, M& m) {
        if (r.chance(30)) { x = make(r, m); COV("nested: value and error switched"); return; }
        if (x) ::change(r, r.chance(50) ? *x : x.value(), m.kids[0]); else ::change(r, x.error(), m.kids[0]);
    }
};
template <typename T> struct Tw<itlib::eoptional<T>> {
    using X = itlib::eoptional<T>; static constexpr bool copy = false, order = false, eq = false, dflt = Tw<T>::dflt;
    static M wrap(const M& k) { M m(1); m.kids.push_back(k); return m; }
    static M zero() { return wrap(Tw<T>::zero()); }
    static X make(Rng& r, M& m) { M k; if (r.chance(60)) { T t = mk<T>(r, k); m = wrap(k); return X(std::move(t)); } m = M(0); return itlib::unexpected(); }
    static M dump(const X& x) { return x ? wrap(Tw<T>::dump(*x)) : M(0); }
    static void change(Rng& r, X& x, M& m) { if (!x || r.chance(30)) { x = make(r, m); return; } ::change(r, *x, m.kids[0]); }
};
template <typename A> struct Tw<itlib::any<A>> {
    using X = itlib::any<A>; static constexpr bool copy = true, order = false, eq = false, dflt = true;
    using T1 = itlib::small_vector<Tr, 2>; using T2 = std::string; using T3 = itlib::flat_map<int, itlib::static_vector<Tr, 3>>; using T4 = X; using T5 = itlib::pod_vector<int>; using T6 = itlib::dynamic_bitset<itlib::small_vector<uint32_t, 1>>;
    static M zero() { return M(0); }
    template <typename T> static void put(Rng& r, X& x, M& m, int which) { M k; T t = mk<T>(r, k); m = M(which); m.kids.push_back(k); if constexpr (!std::is_same_v<T, X>) if (r.chance(50)) { x = std::move(t); return; } x.template emplace<T>(std::move(t)); }
    static void fill(Rng& r, X& x, M& m) {
        switch (r.below(8)) {
        case 0: case 7: x.reset(); m = M(0); break; case 1: put<T1>(r, x, m, 1); break; case 2: put<T2>(r, x, m, 2); break; case 3: put<T3>(r, x, m, 3); break;
        case 4: if (r.chance(50)) { put<T4>(r, x, m, 4); COV("nested: any within any"); } break; case 5: put<T5>(r, x, m, 5); break; case 6: put<T6>(r, x, m, 6); break;
        }
    }
    static X make(Rng& r, M& m) { m = M(0); X x; fill(r, x, m); return x; }
    template <typename F> static void visit(X& x, F f) { // by the type alone
        if (!x.has_value()) { f(static_cast<int*>(nullptr), 0); return; } int n = 0;
        if (auto p = itlib::any_cast<T1>(&x)) { ++n; f(p, 1); } if (auto p = itlib::any_cast<T2>(&x)) { ++n; f(p, 2); } if (auto p = itlib::any_cast<T3>(&x)) { ++n; f(p, 3); }
        if (auto p = itlib::any_cast<T4>(&x)) { ++n; f(p, 4); } if (auto p = itlib::any_cast<T5>(&x)) { ++n; f(p, 5); } if (auto p = itlib::any_cast<T6>(&x)) { ++n; f(p, 6); }
        CK(n == 1, "an any is of %d types", n);
    }
    static M dump(const X& x) { M m; visit(const_cast<X&>(x), [&](auto* p, int w) { m = M(w); if (p) m.kids.push_back(Tw<std::decay_t<decltype(*p)>>::dump(*p)); }); return m; }
    static void change(Rng& r, X& x, M& m) {
        if (r.chance(35)) { fill(r, x, m); return; }
        if (m.leaf == 4 && r.chance(50)) { X& in = itlib::any_cast<X&>(x); M k = m.kids[0]; if (r.chance(50)) x = std::move(in); else { const X& cin = in; x = cin; } m = k; COV("nested: an any becomes what it has within"); return; }
        visit(x, [&](auto* p, int w) { if (w) ::change(r, *p, m.kids[0]); });
    }
};
// ---------------------------------------------------------------- captured by a function
struct Ask { Rng* r; M* m; };
template <typename T> struct Fn; // a ufunction which keeps a T
template <typename T> struct Holder { T t; M operator()(const Ask* a) { if (a) { ::change(*a->r, t, *a->m); } return Tw<T>::dump(t); } };
template <typename T> struct Fn : itlib::ufunction<M(const Ask*)> { using S = itlib::ufunction<M(const Ask*)>; using S::S; Fn() = default; Fn(Fn&&) = default; Fn& operator=(Fn&&) = default; };
template <typename T> struct Tw<Fn<T>> {
    using X = Fn<T>; static constexpr bool copy = false, order = false, eq = false, dflt = true;
    static M zero() { return M(0); }
    static X make(Rng& r, M& m) { m = M(0); if (r.chance(15)) return X(); M k; Holder<T> h{mk<T>(r, k)}; m = M(1); m.kids.push_back(k); if (r.chance(50)) { T& t = h.t; return X([t = std::move(t)](const Ask* a) mutable { if (a) ::change(*a->r, t, *a->m); return Tw<T>::dump(t); }); } return X(std::move(h)); }
    static M dump(const X& x) { if (!x) return M(0); M m(1); m.kids.push_back(const_cast<X&>(x)(nullptr)); return m; }
    static void change(Rng& r, X& x, M& m) {
        if (!x || r.chance(30)) { if (r.chance(30)) { x = nullptr; m = M(0); } else x = make(r, m); return; }
        Ask a{&r, &m.kids[0]}; M d = x(&a); CK(d == m.kids[0], "a captured value is %s, should be %s", d.str().c_str(), m.kids[0].str().c_str()); COV("nested: captured values changed by calls");
    }
};
// ---------------------------------------------------------------- owned by pointer, locked
template <typename T> struct Tw<std::unique_ptr<T>> {
    using X = std::unique_ptr<T>; static constexpr bool copy = false, order = false, eq = false, dflt = true;
    static M zero() { return M(0); }
    static X make(Rng& r, M& m) { m = M(0); if (r.chance(15)) return X(); M k; T t = mk<T>(r, k); m = M(1); m.kids.push_back(k); return itlib::make_unique(std::move(t)); }
    static M dump(const X& x) { if (!x) return M(0); M m(1); m.kids.push_back(Tw<T>::dump(*x)); return m; }
    static void change(Rng& r, X& x, M& m) { if (!x || r.chance(25)) { x = make(r, m); return; } ::change(r, *x, m.kids[0]); }
};
template <typename T> struct Tw<std::shared_ptr<T>> { // values shared between copies are never changed
    using X = std::shared_ptr<T>; static constexpr bool copy = true, order = false, eq = false, dflt = true;
    static M zero() { return M(0); }
    static X make(Rng& r, M& m) { m = M(0); if (r.chance(15)) return X(); M k; T t = mk<T>(r, k); m = M(1); m.kids.push_back(k); auto p = itlib::make_shared(std::move(t)); T* q = p.get(); return r.chance(50) ? itlib::make_aliased(p, q) : p; }
    static M dump(const X& x) { if (!x) return M(0); M m(1); m.kids.push_back(Tw<T>::dump(*x)); return m; }
    static void change(Rng& r, X& x, M& m) { if (!x || r.chance(25)) { x = make(r, m); return; } if constexpr (Tw<T>::copy) { const T& old = *x; auto p = itlib::make_shared(T(old)); ::change(r, *p, m.kids[0]); x = p; } else if (x.use_count() == 1) ::change(r, *x, m.kids[0]); }
};
template <typename T, typename Mx> struct Tw<std::unique_ptr<itlib::data_mutex<T, Mx>>> { // the mutex itself can't move
    using D = itlib::data_mutex<T, Mx>; using X = std::unique_ptr<D>; static constexpr bool copy = false, order = false, eq = false, dflt = true;
    static M zero() { return M(0); }
    static X make(Rng& r, M& m) { m = M(0); if (r.chance(15)) return X(); M k; T t = mk<T>(r, k); m = M(1); m.kids.push_back(k); return X(new D(std::move(t))); }
    static M dump(const X& x) { if (!x) return M(0); M m(1); const D& d = *x; auto l = d.unique_lock(); m.kids.push_back(Tw<T>::dump(*l)); return m; }
    static void change(Rng& r, X& x, M& m) { if (!x || r.chance(25)) { x = make(r, m); return; } auto l = x->unique_lock(); ::change(r, *l, m.kids[0]); auto l2 = std::move(l); check(*l2, m.kids[0], "through a moved lock"); COV("nested: changed under a lock"); }
};
// ---------------------------------------------------------------- bits over various buffers
template <typename Buf> struct Tw<itlib::dynamic_bitset<Buf>> {
    using X = itlib::dynamic_bitset<Buf>; static constexpr bool copy = true, order = false, eq = false, dflt = true; static constexpr size_t most = Cap<Buf>::n * 8 * sizeof(typename Buf::value_type) < 70 ? Cap<Buf>::n * 8 * sizeof(typename Buf::value_type) : 70;
    static M zero() { return M(0); }
    static X make(Rng& r, M& m) { m = M(0); X x; for (size_t n = r.below(most + 1); n--;) { bool b = r.chance(50); x.push_back(b); m.kids.emplace_back(b); } return x; }
    static M dump(const X& x) { M m(0); size_t on = 0; for (size_t i = 0; i < x.size(); ++i) { bool b = x.test(i); on += b; m.kids.emplace_back(b); } CK(x.any() == (on != 0) && x.none() == (on == 0), "any of a bitset"); return m; }
    static void change(Rng& r, X& x, M& m) {
        size_t s = m.kids.size(), i = r.below(s); bool b = r.chance(50);
        switch (r.below(4)) {
        case 0: if (s < most) { x.push_back(b); m.kids.emplace_back(b); } break;
        case 1: if (s) { x.set(i, b); m.kids[i] = M(b); } break;
        case 2: if (s) { x.flip(i); m.kids[i] = M(!m.kids[i].leaf); } break;
        case 3: { size_t n = r.below(s + 1); x.resize(n); m.kids.resize(n); break; }
        }
    }
};
#if __cplusplus >= 202002L
struct SvHash { using is_transparent = void; size_t operator()(std::string_view s) const { return s.size() < 3 ? 0 : size_t(s[2]) % 4; } };
template <typename T> using Umap = itlib::transparent_umap<std::string, T, SvHash, std::equal_to<>>;
template <typename T> struct Tw<Umap<T>> {
    using K = std::string; using X = Umap<T>; static constexpr bool copy = Tw<T>::copy, order = false, eq = false, dflt = true;
    static M zero() { return M(0); }
    static M dump(const X& x) { M m(0); for (auto& e : x) { M p(0); p.kids.push_back(Tw<K>::dump(e.first)); p.kids.push_back(Tw<T>::dump(e.second)); m.kids.push_back(p); } std::sort(m.kids.begin(), m.kids.end(), [](const M& a, const M& b) { return a.kids[0] < b.kids[0]; }); return m; }
    static void put(Rng& r, X& x, M& m) {
        M km; K key = mk<K>(r, km); auto at = m.kids.begin(); while (at != m.kids.end() && at->kids[0] < km) ++at; bool had = at != m.kids.end() && at->kids[0] == km; if (!had && m.kids.size() >= MOST) return;
        if (!had) { M p(0); p.kids.push_back(km); M vm; T t = mk<T>(r, vm); p.kids.push_back(vm); m.kids.insert(at, p); auto res = x.try_emplace(std::string_view(key), std::move(t)); CK(res.second, "try_emplace"); }
        else { auto& e = x[std::string_view(key)]; check(e, at->kids[1], "operator[]"); ::change(r, e, at->kids[1]); }
    }
    static X make(Rng& r, M& m) { m = M(0); X x; for (size_t n = r.below(MOST + 1); n--;) put(r, x, m); return x; }
    static void change(Rng& r, X& x, M& m) {
        size_t s = m.kids.size(); put(r, x, m); (void)s;
        if (r.chance(30) && !m.kids.empty()) { size_t p = r.below(m.kids.size()); auto k = Tw<std::string>::text(m.kids[p].kids[0].leaf); auto it = x.find(std::string_view(k)); CK(it != x.end(), "lookup"); check(it->second, m.kids[p].kids[1], "found"); x.erase(it); m.kids.erase(m.kids.begin() + long(p)); }
    }
};
template <typename T> itlib::generator<const T&> each(const T* b, size_t n) { for (size_t i = 0; i < n; ++i) co_yield b[i]; }
template <typename T> itlib::generator<T> taken(std::vector<T> v) { for (auto& e : v) co_yield std::move(e); }
#endif
// ---------------------------------------------------------------- the histories
template <typename T> void run(Case& c) {
    Rng& r = c.rng; uint64_t live0 = reg().live;
    {
        const size_t N = 3; std::vector<T> x; M m[N]; x.reserve(N); for (auto& k : m) x.push_back(mk<T>(r, k));
        size_t deepest = 0, biggest = 0;
        for (size_t n = 6 + r.below(24); n--;) {
            size_t i = r.below(N), j = r.below(N); op("%zu %s", i, m[i].str().substr(0, 40).c_str());
            switch (r.below(7)) {
            case 0: if (i != j) { x[i] = std::move(x[j]); m[i] = m[j]; check(x[i], m[i], "move assigned"); x[j] = mk<T>(r, m[j]); } break;
            case 1: if constexpr (Tw<T>::copy) { const T& o = x[j]; x[i] = o; m[i] = m[j]; } break; // also to itself
#if __cplusplus >= 202002L
            case 2: if (r.chance(30)) { // handed out by generators
                size_t at = 0; for (auto& e : each<T>(x.data(), N)) { check(e, m[at], "yielded"); CK(&e == &x[at], "yielded another object"); ++at; } CK(at == N, "yielded %zu", at);
                auto g = taken<T>(std::move(x)); x = std::vector<T>(); x.reserve(N); for (auto&& e : g) x.push_back(std::move(e)); CK(x.size() == N, "yielded %zu values", x.size()); COV("nested: yielded");
            } break;
#endif
            default: change(r, x[i], m[i]);
            }
            for (size_t k = 0; k < N; ++k) { check(x[k], m[k], "object"); deepest = std::max(deepest, m[k].depth()); biggest = std::max(biggest, m[k].nodes()); }
            COV("objects compared"); state(m[i].hash());
        }
        if (deepest >= 4) { c.interesting(); COV("three levels or more"); } if (biggest >= 20) COV("twenty nodes or more");
        for (auto& k : m) c.h = hcomb(c.h, k.hash());
    }
    VCHECK(reg().live == live0, "lifetime.leak", "%lld elements outlive everything which had them", (long long)(reg().live - live0));
}
template <typename T> using LA = LAlloc<T, 0>;
template <typename T, size_t N, size_t R = 0> using SV = itlib::small_vector<T, N, R>;
template <typename T, size_t N> using ST = itlib::static_vector<T, N>;
template <typename T> using Dm = std::unique_ptr<itlib::data_mutex<T, std::recursive_mutex>>;
template <typename T> using Dmm = std::unique_ptr<itlib::data_mutex<T, std::mutex>>;
#define C(nm, ...) REG_SUITE("co." nm, 700, 10000, (&run<__VA_ARGS__>))
#define CAT(K, T) itlib::flat_map<K, T>
using SetOfVec = itlib::flat_set<ST<int, 3>, Less<ST<int, 3>>>;
#if IN(1)
C("small-small", SV<SV<Tr, 2>, 2>);
C("small-static-small", SV<ST<SV<Tr, 1>, 2>, 2, 3>);
C("static-small-moveonly", ST<SV<TrM, 2>, 3>);
C("small-small-unique", SV<SV<std::unique_ptr<int>, 2>, 1>);
C("vector-small-string", std::vector<SV<std::string, 3>>);
C("deque-static", std::deque<ST<TrC, 2>>);
C("small-ledger", SV<itlib::small_vector<SV<Tr, 1>, 2, 0, LA<SV<Tr, 1>>>, 1>);
C("small-big-pod", SV<itlib::pod_vector<Big>, 2>);
C("static-vector-pod", ST<std::vector<itlib::pod_vector<uint16_t>>, 2>);
#endif
#if IN(2)
C("map-small", itlib::flat_map<std::string, SV<Tr, 2>>);
C("map-in-static", itlib::flat_map<Tr, ST<Tr, 3>, itlib::fmimpl::less, ST<std::pair<Tr, ST<Tr, 3>>, 4>>);
C("map-vec-keys", itlib::flat_map<SV<int, 2>, SV<TrM, 1>, Less<SV<int, 2>>>);
C("map-map", itlib::flat_map<int, itlib::flat_map<TrM, std::string>>);
C("set-vec", SetOfVec);
C("map-set-keys", itlib::flat_map<SetOfVec, SV<Tr, 1>, Less<SetOfVec>>);
C("small-map-set", SV<itlib::flat_map<itlib::time_t, itlib::flat_set<Tr>>, 1>);
C("map-in-small", itlib::flat_map<int, SV<Tr, 2>, itlib::fmimpl::less, SV<std::pair<int, SV<Tr, 2>>, 2>>);
#endif
#if IN(3)
C("expected-small", itlib::expected<SV<Tr, 2>, ST<std::string, 2>>);
C("small-expected", SV<itlib::expected<SV<TrM, 1>, std::string>, 2>);
C("eopt-map", itlib::eoptional<itlib::flat_map<int, itlib::eoptional<Tr>>>);
C("expected-expected", itlib::expected<itlib::expected<Tr, std::string>, itlib::expected<TrM, int>>);
C("fn-small", Fn<SV<Tr, 2>>);
C("small-fn-map", SV<Fn<itlib::flat_map<int, TrM>>, 2>);
C("map-fn-expected", itlib::flat_map<std::string, Fn<itlib::expected<SV<Tr, 1>, TrM>>>);
C("fn-fn", Fn<Fn<ST<Tr, 3>>>);
#endif
#if IN(4)
C("any", itlib::any<>);
C("small-any", SV<itlib::any<>, 2>);
C("static-any", ST<itlib::any<>, 3>);
C("map-any", itlib::flat_map<std::string, itlib::any<>>);
C("expected-any", itlib::expected<itlib::any<>, itlib::any<>>);
C("fn-any", Fn<itlib::any<>>);
#endif
#if IN(5)
C("locked-map", Dm<itlib::flat_map<int, SV<Tr, 2>>>);
C("small-locked", SV<Dmm<ST<Tr, 2>>, 2>);
C("unique-small", SV<std::unique_ptr<SV<TrM, 2>>, 1>);
C("shared-map", itlib::flat_map<int, std::shared_ptr<SV<Tr, 2>>>);
C("bits-small", SV<itlib::dynamic_bitset<SV<uint32_t, 2>>, 2>);
C("bits-static", ST<itlib::dynamic_bitset<ST<uint8_t, 5>>, 3>);
C("bits-pod", itlib::flat_map<int, itlib::dynamic_bitset<itlib::pod_vector<uint64_t>>>);
#if __cplusplus >= 202002L
C("umap-small", Umap<SV<Tr, 2>>);
C("small-umap-map", SV<Umap<itlib::flat_map<int, Tr>>, 1>);
C("umap-fn", Umap<Fn<SV<TrM, 1>>>);
#endif
#if ITLIB_HAS_PMR || __cplusplus >= 201703L
C("pmr", SV<std::vector<SV<Tr, 2>, itlib::pmr_allocator<SV<Tr, 2>>>, 2>);
C("any-pmr", SV<itlib::any<itlib::pmr_allocator<>>, 1>);
#endif
#endif
