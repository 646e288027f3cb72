// transparent_umap (C30), C++20
#include "common.hpp"
#include <itlib/transparent_umap.hpp>
#include <string>
#include <string_view>
#include <map>
#include <memory>
#include <mutex>
#include <functional>
using namespace vf;
#define CK(c, ...) VCHECK(c, "value.umap", __VA_ARGS__)
typedef std::string_view SV;
static long keys_made;
// a key which counts how many are made, moved from only visibly
struct KStr { std::string s; Tr life; KStr(SV v) : s(v), life(1) { ++keys_made; } KStr(const char* p) : s(p), life(1) { ++keys_made; } explicit KStr(const struct Form& f); explicit KStr(struct Form&& f); KStr(const KStr& o) : s(o.s), life(o.life) { ++keys_made; } KStr(KStr&& o) : s(std::move(o.s)), life(std::move(o.life)) { ++keys_made; o.s = "moved from"; } operator SV() const { return s; } friend bool operator==(const KStr& a, const KStr& b) { return a.s == b.s; } };
struct Form { std::string s; mutable int copied = 0; explicit Form(SV v) : s(v) {} };
inline KStr::KStr(const Form& f) : s(f.s), life(1) { ++keys_made; ++f.copied; } inline KStr::KStr(Form&& f) : s(std::move(f.s)), life(1) { ++keys_made; f.s = "taken"; }
inline SV sv(const Form& f) { return f.s; } inline SV sv(SV v) { return v; } inline SV sv(const char* p) { return p; } inline SV sv(const std::string& s) { return s; } inline SV sv(const KStr& k) { return k.s; }
template <int MOD> struct H { using is_transparent = void; int salt = 0; template <typename T> size_t operator()(const T& t) const { size_t h = std::hash<SV>()(sv(t)) + size_t(salt); return MOD ? h % size_t(MOD) : h; } };
struct Eq { using is_transparent = void; template <typename A, typename B> bool operator()(const A& a, const B& b) const { return sv(a) == sv(b); } };
template <typename V> struct VM; // how to make and read values
template <> struct VM<int> { static int val(const int& v) { return v; } static void set(int& v, int i) { v = i; } };
template <> struct VM<Tr> { static int val(const Tr& v) { v.alive("read"); return v.v; } static void set(Tr& v, int i) { v = Tr(i); } };
template <> struct VM<TrM> { static int val(const TrM& v) { v.alive("read"); return v.v; } static void set(TrM& v, int i) { v = TrM(i); } };
struct Pin { Tr t; explicit Pin(int i) : t(i) {} Pin() : t(0) {} Pin(const Pin&) = delete; Pin& operator=(const Pin&) = delete; }; // can't be moved
template <> struct VM<Pin> { static int val(const Pin& v) { return v.t.v; } static void set(Pin& v, int i) { v.t = Tr(i); } };
template <typename K, typename V, typename HH, typename EE> struct UM {
    typedef itlib::transparent_umap<K, V, HH, EE> M; typedef std::map<std::string, int> R8;
    Rng& r; M m; R8 ref; std::map<std::string, const void*> where; bool tr = std::is_same_v<EE, Eq>; size_t dom = 12;
    explicit UM(Rng& r) : r(r) {}
    std::string key() { static const char* const w[] = {"", "a", "b", "ab", "a key too long for the small string buffer", "a key too long for the small string buffer ", "c", "d"}; switch (r.below(6)) { case 0: return std::string("a\0b", 3); case 1: return std::string("a\0", 2); case 2: return "k" + std::to_string(r.below(dom)); default: return w[r.below(8)]; } }
    void compare() { CK(m.size() == ref.size() && m.empty() == ref.empty(), "%zu elements, should be %zu", m.size(), ref.size()); size_t n = 0; for (auto& e : m) { auto f = ref.find(std::string(sv(e.first))); CK(f != ref.end(), "a key which wasn't inserted: \"%s\"", std::string(sv(e.first)).c_str()); CK(VM<V>::val(e.second) == f->second, "the value of \"%s\" is %d, should be %d", f->first.c_str(), VM<V>::val(e.second), f->second); auto w = where.find(f->first); if (w == where.end()) where[f->first] = &e.second; else CK(w->second == &e.second, "an element moved"); ++n; } CK(n == ref.size(), "a key twice"); COV("maps compared"); }
    // calls f with the key in one of its forms; exact: the form's text is the key
    template <typename F> void form(const std::string& k, F f) {
        int how = int(r.below(7)); if (how >= 3 && how <= 4 && k.find('\0') != std::string::npos) how = 0; long made = keys_made; op("form%d", how); std::unique_ptr<char[]> ex(new char[k.size() ? k.size() : 1]); memcpy(ex.get(), k.data(), k.size()); std::string own = k; const std::string cown = k; (void)made;
        switch (how) { case 0: case 1: f(SV(ex.get(), k.size())); COV("view keys"); break; case 2: { SV v(ex.get(), k.size()); f(v); CK(v.data() == ex.get() && v.size() == k.size(), "the key argument changes"); COV("view keys"); break; } case 3: case 4: { const char* p = cown.c_str(); f(p); COV("C string keys"); break; } case 5: { f(own); CK(own == k, "an lvalue key is moved from"); COV("owned keys"); break; } case 6: f(cown); CK(cown == k, "the key changes"); COV("owned keys"); break; }
    }
    void step() {
        tick(); std::string k = key(); bool had = ref.count(k) != 0; int x = 1 + int(r.below(1000)), how = int(r.below(22)); op("how%d '%s'%s", how, k.c_str(), had ? " present" : ""); const M& cm = m; long made = keys_made; auto here = [&](typename M::const_iterator i) { return i != cm.end() && sv(i->first) == SV(k); };
        switch (how) {
        case 0: case 1: if constexpr (std::is_same_v<EE, Eq>) { form(k, [&](auto&& q) { made = keys_made; auto p = m.try_emplace(std::forward<decltype(q)>(q), x); CK(p.second == !had && here(p.first), "try_emplace"); CK(!had || keys_made == made, "try_emplace of an existing key makes a key"); }); if (!had) ref[k] = x; COV("transparent try_emplace"); } break;
        case 2: if constexpr (std::is_same_v<EE, Eq>) { auto hint = r.chance(50) || m.empty() ? m.cend() : m.cbegin(); form(k, [&](auto&& q) { made = keys_made; auto i = m.try_emplace(hint, std::forward<decltype(q)>(q), x); static_assert(std::is_same_v<decltype(i), typename M::iterator>); CK(here(i), "try_emplace with a hint"); CK(!had || keys_made == made, "try_emplace of an existing key makes a key"); }); if (!had) ref[k] = x; COV("hinted try_emplace"); } break;
        case 3: case 4: if constexpr (std::is_same_v<EE, Eq>) { form(k, [&](auto&& q) { made = keys_made; V& v = m[std::forward<decltype(q)>(q)]; CK(VM<V>::val(v) == (had ? ref[k] : 0), "operator[]"); CK(!had || keys_made == made, "operator[] of an existing key makes a key"); if (r.chance(50)) { VM<V>::set(v, x); ref[k] = x; } else if (!had) ref[k] = 0; }); COV("transparent operator[]"); } break;
        case 5: case 6: if constexpr (std::is_same_v<EE, Eq>) { form(k, [&](auto&& q) { made = keys_made; bool t = false; const V* v = nullptr; try { if (r.chance(50)) { V& w = m.at(q); v = &w; } else v = &cm.at(q); } catch (std::out_of_range&) { t = true; } CK(t == !had, "at of a %s key %s", had ? "present" : "missing", t ? "throws" : "doesn't throw"); CK(!v || (VM<V>::val(*v) == ref[k] && v == &cm.find(q)->second), "at"); CK(keys_made == made, "at makes a key"); }); COV("transparent at"); if (!had) COV("at of a missing key"); } break;
        case 7: if constexpr (std::is_same_v<EE, Eq>) { form(k, [&](auto&& q) { made = keys_made; CK(cm.contains(q) == had && cm.count(q) == size_t(had) && (cm.find(q) != cm.end()) == had && (m.find(q) != m.end()) == had && (!had || here(m.find(q))), "find, count, contains"); auto e = m.equal_range(q); CK(size_t(std::distance(e.first, e.second)) == size_t(had), "equal_range"); CK(keys_made == made, "a lookup makes a key"); }); COV("transparent lookups"); } break;
        case 8: { K q(k); auto p = m.try_emplace(std::move(q), x); CK(p.second == !had && here(p.first), "try_emplace of a key"); if (had) CK(sv(q) == SV(k), "try_emplace of an existing key moves from its argument"); else ref[k] = x; COV("key operations"); break; }
        case 9: { const K q(k); V& v = m[q]; CK(VM<V>::val(v) == (had ? ref[k] : 0), "operator[] of a key"); if (!had) ref[k] = 0; COV("key operations"); break; }
        case 10: { K q(k); V& v = m[std::move(q)]; CK(VM<V>::val(v) == (had ? ref[k] : 0), "operator[] of a key"); if (!had) ref[k] = 0; else CK(sv(q) == SV(k), "operator[] of an existing key moves from its argument"); break; }
        case 11: { const K q(k); bool t = false; try { CK(VM<V>::val(m.at(q)) == ref.at(k) && &cm.at(q) == &m.at(q), "at of a key"); } catch (std::out_of_range&) { t = true; } CK(t == !had, "at of a key"); COV("key operations"); break; }
        case 12: { const K q(k); size_t e = m.erase(q); CK(e == size_t(had), "erase returns %zu", e); ref.erase(k); where.erase(k); COV("erased"); break; }
        case 13: { auto i = m.find(K(k)); if (i != m.end()) { m.erase(i); ref.erase(k); where.erase(k); COV("erased"); } break; }
        case 14: if (r.chance(10)) { m.clear(); ref.clear(); where.clear(); } else m.rehash(r.below(40)); break;
        case 15: { auto p = m.emplace(std::piecewise_construct, std::forward_as_tuple(SV(k)), std::forward_as_tuple(x)); CK(p.second == !had && here(p.first), "emplace"); if (!had) ref[k] = x; break; }
        case 16: if constexpr (std::is_copy_constructible_v<V>) { M t(m); CK(t == m && t.size() == ref.size(), "a copy isn't equal"); t.clear(); if (r.chance(50)) { t = m; m.clear(); where.clear(); m = t; } COV("copied"); } break;
        case 17: { M t(std::move(m)); CK(t.size() == ref.size(), "moving loses elements"); m.clear(); m = std::move(t); if (r.chance(50)) { M u(0, m.hash_function(), m.key_eq()); u.swap(m); u.swap(m); } COV("moved"); break; }
        case 18: if constexpr (std::is_same_v<EE, Eq>) if (!m.empty()) { auto i = m.begin(); std::advance(i, long(r.below(m.size()))); SV own = sv(i->first); std::string o(own); long mk = keys_made; auto p = m.try_emplace(own, x); CK(!p.second && p.first == i && &m[own] == &i->second && &m.at(own) == &i->second && keys_made == mk, "a view of an own key"); COV("views of own keys"); } break;
        case 19: if constexpr (std::is_move_constructible_v<V> && std::is_same_v<EE, Eq>) { V v(x); auto p = m.try_emplace(SV(k), std::move(v)); CK(p.second == !had && here(p.first), "try_emplace of a value"); if (had) CK(VM<V>::val(v) == x, "try_emplace of an existing key moves from the value"); else ref[k] = x; COV("values moved in"); } break;
        case 20: if constexpr (std::is_copy_constructible_v<V> && std::is_same_v<EE, Eq>) { V v(x); const V cv(x); bool hint = r.chance(50), cst = r.chance(50); if (hint) { auto i = cst ? m.try_emplace(m.cend(), SV(k), cv) : m.try_emplace(m.cend(), SV(k), v); CK(here(i), "hinted try_emplace of an lvalue"); } else { auto p = cst ? m.try_emplace(SV(k), cv) : m.try_emplace(SV(k), v); CK(p.second == !had && here(p.first), "try_emplace of an lvalue"); } CK(VM<V>::val(v) == x && VM<V>::val(cv) == x, "try_emplace moves from an lvalue"); if (!had) ref[k] = x; COV("lvalue values"); } break;
        case 21: if constexpr (std::is_same_v<K, KStr> && std::is_same_v<EE, Eq>) { Form q(k); bool rv = r.chance(50); int w = int(r.below(3)); made = keys_made; if (w == 0) { auto p = rv ? m.try_emplace(std::move(q), x) : m.try_emplace(q, x); CK(p.second == !had && here(p.first), "try_emplace"); } else if (w == 1) { auto i = rv ? m.try_emplace(m.cbegin(), std::move(q), x) : m.try_emplace(m.cbegin(), q, x); CK(here(i), "hinted try_emplace"); } else { V& v = rv ? m[std::move(q)] : m[q]; CK(VM<V>::val(v) == (had ? ref[k] : 0), "operator[]"); }
            if (had) CK(q.s == k && keys_made == made && !q.copied, "a key form is consumed for an existing key"); else { if (rv) CK(!q.copied && q.s == "taken", "an rvalue key form is copied"); else CK(q.copied == 1 && q.s == k, "an lvalue key form is moved from"); ref[k] = w == 2 ? 0 : x; } COV("key forms with state"); } break;
        }
        compare();
    }
};
template <typename K, typename V, typename HH, typename EE> void umap_case(Case& c) { UM<K, V, HH, EE> u(c.rng); if (c.rng.chance(30)) { typedef typename UM<K, V, HH, EE>::M M; HH h; u.m.~M(); new (&u.m) M(c.rng.below(20), h); } if (c.rng.below(150) == 0) { u.dom = 300 + c.rng.below(c.rng.chance(10) ? 4000 : 500); op("%zu keys", u.dom); for (size_t i = 0; i < u.dom; i += 1 + c.rng.below(2)) { std::string k = "k" + std::to_string(i); u.m.try_emplace(K(k), int(i + 1)); u.ref[k] = int(i + 1); } u.compare(); tick(); COV("large histories"); } int n = 10 + int(c.rng.below(60)); while (n--) u.step(); c.interesting(); state(u.m.size() * 100 + u.m.bucket_count()); }
struct PlainH { size_t operator()(const std::string& s) const { return std::hash<std::string>()(s) % 5; } }; struct PlainHK { size_t operator()(const KStr& s) const { return std::hash<std::string>()(s.s) % 5; } };
template <typename K, typename V, int MOD> void tr_case(Case& c) { umap_case<K, V, H<MOD>, Eq>(c); }
#define TRS(nm, K, V, MOD) static void VF_CAT(tr_run_, __LINE__)(Case& c) { tr_case<K, V, MOD>(c); } REG_SUITE(nm, 1500, 50000, &VF_CAT(tr_run_, __LINE__))
TRS("um.int", std::string, int, 0);
TRS("um.collide", std::string, Tr, 3);
TRS("um.onebucket", KStr, Tr, 1);
TRS("um.kstr", KStr, int, 0);
TRS("um.moveonly", KStr, TrM, 5);
TRS("um.pinned", std::string, Pin, 7);
static void plain_run(Case& c) { umap_case<std::string, Tr, std::hash<std::string>, std::equal_to<std::string>>(c); } REG_SUITE("um.plain", 1000, 50000, &plain_run);
static void plaink_run(Case& c) { umap_case<KStr, Tr, PlainHK, std::equal_to<KStr>>(c); } REG_SUITE("um.plain.kstr", 1000, 50000, &plaink_run);
// the overloads exist exactly when both the hash and the equality are transparent
struct OpaqueEq { bool operator()(const std::string& a, const std::string& b) const { return a == b; } }; struct OpaqueH { size_t operator()(const std::string& s) const { return s.size(); } };
template <typename M> concept AtView = requires(M& m, SV v) { m.at(v); }; template <typename M> concept TryView = requires(M& m, SV v) { m.try_emplace(v, 1); }; template <typename M> concept IdxView = requires(M& m, SV v) { m[v]; }; template <typename M> concept HintView = requires(M& m, SV v) { m.try_emplace(m.cbegin(), v, 1); };
template <typename M, bool W> constexpr bool right = AtView<M> == W && AtView<const M> == W && TryView<M> == W && IdxView<M> == W && HintView<M> == W;
SUITE("um.overloads", 100, 1000) {
    typedef itlib::transparent_umap<std::string, int, H<0>, Eq> A; typedef itlib::transparent_umap<std::string, int, H<0>, OpaqueEq> B; typedef itlib::transparent_umap<std::string, int, OpaqueH, Eq> C; typedef itlib::transparent_umap<std::string, int> D; CK((right<A, true>), "transparent overloads are missing"); CK((right<B, false> && right<C, false> && right<D, false>), "transparent overloads of maps which aren't"); D d; d["x"] = 3; CK(d.at("x") == 3 && d.try_emplace("x", 4).first->second == 3 && d.size() == 1, "maps which aren't transparent");
    itlib::transparent_umap<std::string, std::mutex, H<0>, Eq> mm; std::mutex* p = &mm[SV("k")]; CK(&mm.at("k") == p && &mm.try_emplace(std::string("k")).first->second == p && mm.size() == 1, "values which can't be moved"); itlib::transparent_umap<std::string, std::unique_ptr<int>, H<2>, Eq> up; std::unique_ptr<int> u(new int(int(c.rng.below(9)))); int* q = u.get(); up.try_emplace(SV("a"), std::move(u)); CK(!u && up["a"].get() == q, "a move-only value"); u.reset(new int(1)); int* w = u.get(); up.try_emplace("a", std::move(u)); CK(u.get() == w && up.at(SV("a")).get() == q, "try_emplace of an existing key moves from the value"); std::initializer_list<std::pair<const std::string, int>> il{{"1", 1}, {"2", 2}, {"1", 3}}; A a(il); CK(a.size() == 2 && a.at("1") == 1 && a[SV("2")] == 2, "initializer list"); A b(a.begin(), a.end(), 10); CK(b == a && b.bucket_count() >= 10, "range"); auto it = a.begin(); a.erase(it); CK(a.size() == 1, "erase of an iterator"); itlib::transparent_umap<int, int> i; i[3] = 4; i.try_emplace(5, 6); CK(i.at(3) == 4 && i.at(5) == 6 && i.size() == 2, "integer keys"); c.interesting(); c.h = c.rng.next();
}
