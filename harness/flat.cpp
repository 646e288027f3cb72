// flat_map / flat_set against std::map / std::set (C07, C08; lifetimes for C03)
#include "common.hpp"
#include <map>
#include <set>
#include <deque>
#include <list>
#include <cmath>
#include <algorithm>
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
using namespace vf;

// ------------------------------------------------------------------ keys
template <typename K> struct Key { // ordered like the int it stands for
    static K make(int i) { return El<K>::make(i); }
    static int get(const K& k) { return El<K>::get(k); }
    static constexpr bool copy = El<K>::copy;
};
template <> struct Key<std::string> {
    static std::string make(int i) { char b[64]; snprintf(b, sizeof b, i % 2 ? "k%05d" : "k%05d-and-a-tail-which-is-not-short", i); return b; }
    static int get(const std::string& s) { return s.size() < 6 ? -1 : atoi(s.c_str() + 1); }
    static constexpr bool copy = true;
};
struct Alt { int i; }; // another type which compares with keys
struct Grp { static constexpr int width = 4; int g; }; // a key which several elements are equivalent to
template <typename K> Alt alt_of(int i, const K*) { return {i}; }
static uint64_t ncmp;
// stateful, transparent, possibly coarse
struct Cmp {
    int div = 1; bool rev = false; int id = 0;
    static int val(int i) { return i; } static int val(Alt a) { return a.i; }
    template <typename K> static int val(const K& k) { return Key<K>::get(k); }
    template <typename A, typename B> bool operator()(const A& a, const B& b) const { ++ncmp; int x = val(a) / div, y = val(b) / div; return rev ? y < x : x < y; }
    template <typename A> bool operator()(const A& a, Grp b) const { ++ncmp; int x = val(a) / div / Grp::width; return rev ? b.g < x : x < b.g; }
    template <typename B> bool operator()(Grp a, const B& b) const { ++ncmp; int y = val(b) / div / Grp::width; return rev ? y < a.g : a.g < y; }
};
// stateless
struct Greater {
    template <typename A, typename B> bool operator()(const A& a, const B& b) const { ++ncmp; return Cmp::val(b) < Cmp::val(a); }
    template <typename A> bool operator()(const A& a, Grp b) const { ++ncmp; return b.g < Cmp::val(a) / Grp::width; }
    template <typename B> bool operator()(Grp a, const B& b) const { ++ncmp; return Cmp::val(b) / Grp::width < a.g; }
};
template <typename C> C make_cmp(Rng& r) { if constexpr (std::is_same<C, Cmp>::value) { static const int divs[] = {1, 1, 2, 3, 7}; C c; c.div = divs[r.below(5)]; c.rev = r.chance(50); c.id = int(r.below(1000)); return c; } else { (void)r; return C(); } }
// the model's comparator: ints
template <typename C> struct MC { C c; bool operator()(int a, int b) const { auto n = ncmp; bool x = c(a, b); ncmp = n; return x; } };
template <> struct MC<itlib::fmimpl::less> { itlib::fmimpl::less c; bool operator()(int a, int b) const { return a < b; } };
template <> struct MC<itlib::fsimpl::less> { itlib::fsimpl::less c; bool operator()(int a, int b) const { return a < b; } };

template <typename C> struct Cap { static constexpr size_t bound = ~size_t(0); static constexpr bool has_swap = true, ranged_alloc = true; };
template <typename T, size_t N> struct Cap<itlib::static_vector<T, N>> { static constexpr size_t bound = N; static constexpr bool has_swap = true; };
template <typename T, size_t N, size_t R, typename A> struct Cap<itlib::small_vector<T, N, R, A>> { static constexpr size_t bound = ~size_t(0); static constexpr bool has_swap = false; };
template <typename K, bool D> struct HasAlt { static constexpr bool value = !D; };   // own comparators take Alt
template <> struct HasAlt<std::string, true> { static constexpr bool value = true; }; // strings compare with C strings
template <typename K, bool D> auto alt(int i) { if constexpr (D && std::is_same<K, std::string>::value) { static char buf[8][64]; static int n; char* b = buf[n++ % 8]; snprintf(b, 64, "%s", Key<K>::make(i).c_str()); return (const char*)b; } else return Alt{i}; }

template <typename F, bool IsMap> struct Info_;
template <typename K, typename T, typename C, typename V> struct Info_<itlib::flat_map<K, T, C, V>, true> { using Mapped = T; using Cont = V; using Comp = C; static constexpr bool dflt = std::is_same<C, itlib::fmimpl::less>::value; };
template <typename K, typename C, typename V> struct Info_<itlib::flat_set<K, C, V>, false> { using Mapped = int; using Cont = V; using Comp = C; static constexpr bool dflt = std::is_same<C, itlib::fsimpl::less>::value; };

template <typename F, bool IsMap> struct Hist {
    using I = Info_<F, IsMap>; using K = typename F::key_type; using KK = Key<K>; using T = typename I::Mapped; using E = El<T>; using Cont = typename I::Cont; using C = typename I::Comp;
    using value_type = typename F::value_type; using M = std::map<int, int, MC<C>>;
    static constexpr bool copy = KK::copy && E::copy; static constexpr size_t bound = Cap<Cont>::bound;
    static constexpr bool has_alt = HasAlt<K, I::dflt>::value;
    static constexpr int N = 2;
    Case& c; Rng& r; std::unique_ptr<F> f[N]; std::unique_ptr<M> m[N]; int nv = 1, dom;
    Hist(Case& c) : c(c), r(c.rng) { dom = r.chance(20) ? 300 : r.chance(50) ? 12 : 30; if (bound == ~size_t(0) && r.chance(3)) { dom = r.chance(1) && !E::tracked && !El<K>::tracked ? 99999 : 3000; COV("large histories"); } }
    int key() { return int(r.below(dom)); }
    int val() { return nv++; }
    static int kof(const value_type& v) { if constexpr (IsMap) return KK::get(v.first); else return KK::get(v); }
    static int vof(const value_type& v) { if constexpr (IsMap) return E::get(v.second); else return 0; }
    static value_type mkv(int k, int v) { if constexpr (IsMap) return value_type(KK::make(k), E::make(v)); else return KK::make(k); }
    void fresh(int i, C cmp) { f[i].reset(new F(cmp)); m[i].reset(new M(MC<C>{cmp})); }
    // index of a model iterator
    static size_t at(const M& mm, typename M::const_iterator it) { return size_t(std::distance(mm.begin(), it)); }

    void same(int i, const char* after) {
        const F& cf = *f[i]; const M& mm = *m[i];
        VCHECK(cf.size() == mm.size() && cf.empty() == mm.empty(), "value.size", "%s: size %zu, should be %zu", after, cf.size(), mm.size());
        VCHECK(size_t(cf.end() - cf.begin()) == mm.size() && cf.cbegin() == cf.begin() && cf.cend() == cf.end(), "value.iterators", "%s: begin/end", after);
        auto it = cf.begin(); size_t n = 0;
        for (auto& e : mm) { VCHECK(kof(*it) == e.first, "value.key", "%s: key %zu is %d, should be %d", after, n, kof(*it), e.first); if (IsMap) VCHECK(vof(*it) == e.second, "value.mapped", "%s: value of key %d is %d, should be %d", after, e.first, vof(*it), e.second); ++it; ++n; }
        state(hcomb(n, mm.empty() ? 0 : uint64_t(mm.begin()->first) * 1000 + mm.rbegin()->first));
    }
    void deep(int i) {
        F& w = *f[i]; const F& cf = w; const M& mm = *m[i]; same(i, "deep");
        auto mi = mm.rbegin(); for (auto it = w.rbegin(); it != w.rend(); ++it, ++mi) VCHECK(mi != mm.rend() && kof(*it) == mi->first, "value.reverse", "reverse iteration"); VCHECK(mi == mm.rend(), "value.reverse", "reverse iteration ends early");
        mi = mm.rbegin(); for (auto it = cf.rbegin(); it != cf.rend(); ++it, ++mi) VCHECK(mi != mm.rend() && kof(*it) == mi->first, "value.reverse", "const reverse iteration"); VCHECK(mi == mm.rend(), "value.reverse", "const reverse iteration ends early");
        VCHECK(cf.container().size() == mm.size() && w.begin() == w.modify_container().begin(), "value.container", "container()");
        VCHECK(w.capacity() >= mm.size() && w.max_size() >= mm.size(), "value.capacity", "capacity/max_size below size");
        if (mm.size() > 20) return;
        for (int k = -1; k <= dom; k += 1 + int(r.below(dom / 8 + 1))) lookup(i, k < 0 ? 0 : k);
    }
    // lookups of every kind by key k
    void lookup(int i, int k) {
        F& w = *f[i]; const F& cf = w; const M& mm = *m[i];
        auto lo = at(mm, mm.lower_bound(k)), up = at(mm, mm.upper_bound(k)); bool has = mm.count(k) != 0; size_t fi = has ? lo : mm.size();
        uint64_t limit = 6 + 4 * uint64_t(std::log2(double(mm.size() + 1)));
        auto check = [&](auto&& q, const char* how) {
#define L(expr, want, what) { uint64_t n0 = ncmp; size_t got = expr; uint64_t used = ncmp - n0; VCHECK(got == size_t(want), "value.lookup", "%s(%s %d) gives %zu, should give %zu", what, how, k, got, size_t(want)); VCHECK(used <= limit, "value.complexity", "%s took %llu comparisons in %zu elements", what, (unsigned long long)used, mm.size()); }
            L(size_t(w.lower_bound(q) - w.begin()), lo, "lower_bound") L(size_t(cf.lower_bound(q) - cf.begin()), lo, "const lower_bound")
            L(size_t(w.upper_bound(q) - w.begin()), up, "upper_bound") L(size_t(cf.upper_bound(q) - cf.begin()), up, "const upper_bound")
            L(size_t(w.find(q) - w.begin()), fi, "find") L(size_t(cf.find(q) - cf.begin()), fi, "const find")
            L(cf.count(q), has, "count")
            auto er = w.equal_range(q); VCHECK(size_t(er.first - w.begin()) == lo && size_t(er.second - w.begin()) == up, "value.lookup", "equal_range(%s %d)", how, k);
            auto ec = cf.equal_range(q); VCHECK(size_t(ec.first - cf.begin()) == lo && size_t(ec.second - cf.begin()) == up, "value.lookup", "const equal_range(%s %d)", how, k);
            if (has) COV("lookup hit"); else COV("lookup miss");
        };
        const K kk = KK::make(k); check(kk, "key");
        if constexpr (!IsMap) { const int k2 = k / 2 + 3; const K kb = KK::make(k2); auto n0 = ncmp; auto kc = cf.key_comp(); const bool ab = kc(kk, kb), ba = kc(kb, kk); ncmp = n0; VCHECK(ab == mm.key_comp()(k, k2) && ba == mm.key_comp()(k2, k), "value.comparator", "key_comp() orders %d and %d differently", k, k2); }
        if constexpr (has_alt) { check(alt<K, I::dflt>(k), "other type"); COV("lookup by another type"); }
        if constexpr (!I::dflt) { // a key of which several elements are equivalents
            const Grp q{k / Grp::width}; auto n0 = ncmp; size_t glo = 0, gup = 0; auto mc = mm.key_comp(); for (auto& e : mm) { glo += mc.c(e.first, q); gup += !mc.c(q, e.first); } ncmp = n0; const size_t n = gup - glo;
            const char* how = "group"; const int k0 = k; k = q.g;
            L(size_t(w.lower_bound(q) - w.begin()), glo, "lower_bound") L(size_t(cf.lower_bound(q) - cf.begin()), glo, "const lower_bound")
            L(size_t(w.upper_bound(q) - w.begin()), gup, "upper_bound") L(size_t(cf.upper_bound(q) - cf.begin()), gup, "const upper_bound")
            L(cf.count(q), n, "count")
            auto er = w.equal_range(q); VCHECK(size_t(er.first - w.begin()) == glo && size_t(er.second - w.begin()) == gup, "value.lookup", "equal_range(group %d) is [%td, %td), should be [%zu, %zu)", k, er.first - w.begin(), er.second - w.begin(), glo, gup);
            auto ec = cf.equal_range(q); VCHECK(size_t(ec.first - cf.begin()) == glo && size_t(ec.second - cf.begin()) == gup, "value.lookup", "const equal_range(group %d)", k);
            auto in = [&](size_t p) { return n ? p >= glo && p < gup : p == mm.size(); };
            VCHECK(in(size_t(w.find(q) - w.begin())) && in(size_t(cf.find(q) - cf.begin())), "value.lookup", "find(group %d) doesn't find one of the %zu equivalent elements", k, n);
            k = k0; if (n > 1) COV("lookup by a key of several elements");
        }
        if constexpr (IsMap) if (has || r.chance(15)) {
            for (int cst = 0; cst < 2; ++cst) {
                bool thrown = false; const T* p = nullptr;
                try { p = cst ? &cf.at(kk) : &w.at(kk); } catch (std::out_of_range&) { thrown = true; }
                VCHECK(thrown == !has, "value.at", "at(%d) %s", k, thrown ? "threw for a key in the map" : "didn't throw for a missing key");
                if (has) VCHECK(p == &(cf.begin() + fi)->second, "value.at", "at(%d) refers to another value", k);
            }
        }
    }
    template <typename R_> void inserted(int i, R_ res, int k, int v, const char* what) {
        auto mr = m[i]->emplace(k, v); if (mr.second) COV("inserted"); else COV("insertion of an existing key");
        VCHECK(res.second == mr.second, "value.inserted", "%s(%d) reports %d, should report %d", what, k, res.second, mr.second);
        VCHECK(size_t(res.first - f[i]->begin()) == at(*m[i], mr.first), "value.position", "%s(%d) returned position %td, should be %zu", what, k, res.first - f[i]->begin(), at(*m[i], mr.first));
    }
    // false: the container is full and the key is new
    template <typename G> bool guarded(int i, int k, G g) {
        if (m[i]->size() < bound || m[i]->count(k)) { g(); return true; }
        bool thrown = false; try { g(); } catch (std::out_of_range&) { thrown = true; }
        VCHECK(thrown, "value.capacity", "insertion over the capacity didn't throw"); COV("insertion over the capacity"); same(i, "refused insertion"); return false;
    }
    void construct(int i) {
        C cmp = make_cmp<C>(r); int how = int(r.below(6));
        size_t n = bound == ~size_t(0) ? r.below(dom > 300 ? size_t(dom) * 3 / 2 : r.chance(20) ? 60 : 14) : r.below(bound + 1);
        std::vector<std::pair<int, int>> src; for (size_t k = 0; k < n; ++k) src.push_back({key(), val()});
        if (r.chance(20)) std::sort(src.begin(), src.end()); else if (r.chance(20)) std::sort(src.rbegin(), src.rend());
        f[i].reset(); auto a = typename F::allocator_type();
        op("f%d=ctor %d of %zu", i, how, n);
        if (how == 0) { fresh(i, cmp); return; }
        if (how == 1) { f[i].reset(r.chance(50) ? new F() : new F(cmp, a)); if (f[i] && !f[i]->size()) {} m[i].reset(new M(MC<C>{cmp})); f[i].reset(new F(cmp, a)); return; }
        bool dc = false;
        if constexpr (copy) {
            std::vector<value_type> v; for (auto& s : src) v.push_back(mkv(s.first, s.second));
            switch (how) {
            case 2: { Cont ct(v.begin(), v.end()); f[i].reset(new F(std::move(ct), cmp)); break; }
            case 3: f[i].reset(new F(v.begin(), v.end(), cmp, a)); break;
            case 4: { std::list<value_type> l(v.begin(), v.end()); if constexpr (bound != ~size_t(0) || !Cap<Cont>::has_swap) f[i].reset(new F(v.begin(), v.end(), cmp)); else f[i].reset(new F(l.begin(), l.end(), cmp)); break; }
            default: if (v.size() < 4) v.clear(); v.resize(std::min<size_t>(v.size(), 4)); src.resize(v.size());
                if (v.empty()) f[i].reset(new F(std::initializer_list<value_type>{}, cmp, a)); else f[i].reset(new F({v[0], v[1], v[2], v[3]}, cmp)); break;
            }
            if (std::is_empty<C>::value && r.chance(30)) { f[i].reset(r.chance(50) ? new F(v.begin(), v.end()) : new F(v.begin(), v.end(), a)); dc = true; }
        } else { Cont ct; for (auto& s : src) ct.push_back(mkv(s.first, s.second)); f[i].reset(new F(std::move(ct), cmp)); }
        (void)dc;
        // of several equal keys any one may stay
        m[i].reset(new M(MC<C>{cmp})); for (auto& s : src) m[i]->insert(s);
        VCHECK(f[i]->size() == m[i]->size(), "value.size", "construction of %zu: size %zu, should be %zu", src.size(), f[i]->size(), m[i]->size());
        M got(MC<C>{cmp}); auto mi = m[i]->begin();
        for (auto& e : *f[i]) {
            int k = kof(e), v = vof(e); bool found = false; for (auto& s : src) if (s.first == k && (!IsMap || s.second == v)) { found = true; if (!IsMap) v = s.second; break; }
            VCHECK(found, "value.element", "construction: element %d isn't one of those given", k);
            MC<C> mc{cmp}; VCHECK(!mc(k, mi->first) && !mc(mi->first, k), "value.order", "construction: key %d where one equivalent to %d should be", k, mi->first);
            got.insert({k, v}); ++mi;
        }
        *m[i] = got; if (src.size() > m[i]->size()) COV("constructed with duplicates"); COV("constructed from a range");
    }
    void step() {
        int i = int(r.below(N)); F& w = *f[i]; M& mm = *m[i]; int k = key(), v = val();
        switch (r.below(20)) {
        case 0: if (r.chance(30)) construct(i); break;
        case 1: if constexpr (copy) { op("f%d.insert(const& %d)", i, k); const value_type x = mkv(k, v); guarded(i, k, [&] { auto res = w.insert(x); inserted(i, res, k, v, "insert(const&)"); }); } break;
        case 2: case 3: { op("f%d.insert(&& %d)", i, k); guarded(i, k, [&] { auto res = w.insert(mkv(k, v)); inserted(i, res, k, v, "insert(&&)"); }); break; }
        case 4: if constexpr (copy) { op("f%d.insert(& %d)", i, k); value_type x = mkv(k, v); guarded(i, k, [&] { auto res = w.insert(x); inserted(i, res, k, v, "insert(&)"); VCHECK(kof(x) == k && vof(x) == (IsMap ? v : 0), "value.argument", "insert changed its lvalue argument"); }); } break;
        case 5: case 6: { op("f%d.emplace(%d)", i, k);
            if constexpr (copy) if (r.chance(35)) { // arguments which are lvalues belong to the caller
                guarded(i, k, [&] { K kk = KK::make(k); if constexpr (IsMap) { T t = E::make(v); auto res = w.emplace(kk, t); inserted(i, res, k, v, "emplace"); VCHECK(E::get(t) == v, "value.argument", "emplace changed its lvalue argument"); } else { auto res = w.emplace(kk); inserted(i, res, k, v, "emplace"); } VCHECK(KK::get(kk) == k, "value.argument", "emplace changed its lvalue argument"); COV("lvalues emplaced"); });
                break;
            }
            guarded(i, k, [&] { if constexpr (IsMap) { auto res = w.emplace(KK::make(k), E::make(v)); inserted(i, res, k, v, "emplace"); } else { auto res = w.emplace(KK::make(k)); inserted(i, res, k, v, "emplace"); } }); break; }
        case 7: case 8: if constexpr (IsMap && std::is_default_constructible<T>::value) {
            int how = int(r.below(3)); op("f%d[%d] how %d", i, k, how); bool had = mm.count(k);
            guarded(i, k, [&] {
                T* p; const K ck = KK::make(k);
                if (how == 0) { if constexpr (KK::copy) { if (r.chance(50)) p = &w[ck]; else { K lk = KK::make(k); p = &w[lk]; VCHECK(KK::get(lk) == k, "value.argument", "operator[] changed its lvalue argument"); } } else p = &w[KK::make(k)]; }
                else if (how == 1) { K rk = KK::make(k); p = &w[std::move(rk)]; if (had) VCHECK(KK::get(rk) == k, "value.argument", "operator[] of a present key took the argument"); }
                else if constexpr (has_alt && I::dflt) p = &w[alt<K, true>(k)]; else p = &w[KK::make(k)];
                int& q = mm[k];
                VCHECK(w.size() == mm.size(), "value.size", "operator[] left size %zu, should be %zu", w.size(), mm.size());
                VCHECK(p == &(w.begin() + at(mm, mm.find(k)))->second, "value.position", "operator[](%d) refers to another element", k);
                if (!had) VCHECK(E::get(*p) == 0, "value.default", "operator[](%d) of a new key isn't the default value", k);
                if (r.chance(70)) { *p = E::make(v); q = v; }
                if (had) COV("operator[] of a present key"); else COV("operator[] of a new key");
            });
        } break;
        case 9: if (!mm.empty()) { size_t p = r.below(mm.size()); op("f%d.erase(it %zu)", i, p); auto it = r.chance(50) ? w.erase(w.begin() + p) : w.erase(w.cbegin() + p); mm.erase(std::next(mm.begin(), p)); VCHECK(size_t(it - w.begin()) == p, "value.position", "erase(iterator) returned position %td, should be %zu", it - w.begin(), p); COV("erased"); } break;
        case 10: case 11: { op("f%d.erase(key %d)", i, k); const K kk = KK::make(k); size_t n = w.erase(kk), mn = mm.erase(k); VCHECK(n == mn, "value.erased", "erase(%d) returned %zu, should return %zu", k, n, mn); if (n) COV("erased"); else COV("erase of a missing key"); break; }
        case 12: if constexpr (!I::dflt) if (r.chance(15)) { // all elements equivalent to the key
            const Grp q{k / Grp::width}; op("f%d.erase(group %d)", i, q.g); size_t mn = 0; auto mc = mm.key_comp(); for (auto it = mm.begin(); it != mm.end();) { if (!mc.c(it->first, q) && !mc.c(q, it->first)) { it = mm.erase(it); ++mn; } else ++it; }
            size_t n = w.erase(q); VCHECK(n == mn, "value.erased", "erase(group %d) returned %zu, should return %zu", q.g, n, mn); if (n > 1) COV("erased several"); break;
        }
            if constexpr (has_alt) { op("f%d.erase(other type %d)", i, k); size_t n = w.erase(alt<K, I::dflt>(k)), mn = mm.erase(k); VCHECK(n == mn, "value.erased", "erase(other type %d) returned %zu, should return %zu", k, n, mn); } break;
        case 13: op("lookup %d", k); lookup(i, k); break;
        case 14: { int j = 1 - i; int how = int(r.below(8)); op("between f%d and f%d: %d", i, j, how);
            if (how == 0) { if constexpr (copy) { w = static_cast<const F&>(*f[j]); *m[i] = *m[j]; } }
            else if (how == 1) { w = std::move(*f[j]); *m[i] = *m[j]; construct(j); }
            else if (how == 2) { if constexpr (copy) { F x(static_cast<const F&>(w)); VCHECK(x == w && !(x != w), "value.compare", "a copy compares unequal"); f[i].reset(new F(std::move(x))); } }
            else if (how == 3) { F x(std::move(w)); f[i].reset(new F(std::move(x))); }
            else if (how == 4 || how == 5) { if constexpr (Cap<Cont>::has_swap) { if (r.chance(20)) w.swap(w); w.swap(*f[j]); std::swap(*m[i], *m[j]); COV("swap"); } }
            else if (how == 6) { if constexpr (copy && (bound == ~size_t(0) || true)) { F& self = w; w = static_cast<const F&>(self); } }
            else if constexpr (KK::copy && E::copy) { bool e = mm.size() == m[j]->size() && std::equal(mm.begin(), mm.end(), m[j]->begin(), [](auto& a, auto& b) { return a.first == b.first && (!IsMap || a.second == b.second); }); VCHECK((w == *f[j]) == e && (w != *f[j]) == !e, "value.compare", "comparison gives %d, should give %d", w == *f[j], e); COV("compared"); }
            break; }
        case 15: if (r.chance(30)) { op("f%d.clear", i); w.clear(); mm.clear(); } break;
        case 16: if constexpr (bound == ~size_t(0)) { size_t n = r.below(40); op("f%d.reserve(%zu)", i, n); w.reserve(n); VCHECK(w.capacity() >= n, "value.capacity", "reserve(%zu) left capacity %zu", n, w.capacity()); } break;
        case 17: if constexpr (IsMap) if (!mm.empty()) { size_t p = r.below(mm.size()); op("f%d value %zu through iterator", i, p); (w.begin() + p)->second = E::make(v); std::next(mm.begin(), p)->second = v; } break;
        case 18: if constexpr (copy) if (!mm.empty()) { // own elements as arguments
            size_t p = r.below(mm.size()); op("own element %zu", p); int ek = std::next(mm.begin(), p)->first;
            const value_type& own = *(w.begin() + p);
            auto res = w.insert(own); VCHECK(!res.second && res.first == w.begin() + p, "value.inserted", "insertion of an own element isn't refused");
            if constexpr (IsMap) { int ev = std::next(mm.begin(), p)->second; guarded(i, k, [&] { auto rs = w.emplace(KK::make(k), static_cast<const T&>((w.begin() + p)->second)); inserted(i, rs, k, ev, "emplace of an own value"); }); if (r.chance(50)) { p = at(mm, mm.find(ek)); size_t n = w.erase(static_cast<const K&>((w.begin() + p)->first)); VCHECK(n == 1, "value.erased", "erase by own key"); mm.erase(ek); } }
            else if (r.chance(50)) { size_t n = w.erase(static_cast<const K&>(*(w.begin() + p))); VCHECK(n == 1, "value.erased", "erase by own key"); mm.erase(ek); }
        } break;
        case 19: deep(i); break;
        }
        for (int q = 0; q < N; ++q) same(q, "step");
    }
    static void run(Case& c) {
        { Hist h(c); for (int i = 0; i < N; ++i) h.fresh(i, make_cmp<C>(h.r)); if (h.r.chance(70) || h.dom > 300) h.construct(0);
          int steps = 10 + int(c.rng.below(h.dom == 300 ? 150 : 40)); while (steps--) h.step(); for (int i = 0; i < N; ++i) h.deep(i); }
        c.interesting();
    }
};
#define HM(name, q, ...) static void VF_CAT(hf_, __LINE__)(Case& c) { Hist<itlib::flat_map<__VA_ARGS__>, true>::run(c); } REG_SUITE(name, q, q * 40, &VF_CAT(hf_, __LINE__))
#define HS(name, q, ...) static void VF_CAT(hf_, __LINE__)(Case& c) { Hist<itlib::flat_set<__VA_ARGS__>, false>::run(c); } REG_SUITE(name, q, q * 40, &VF_CAT(hf_, __LINE__))
template <typename A, typename B> using Pr = std::pair<A, B>;
#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
HM("fm.int.less", 150, int, int);
HM("fm.int.cmp", 200, int, int, Cmp);
HM("fm.str.less", 100, std::string, std::string);
#endif
#if PART == 0 || PART == 2
HM("fm.tr.cmp", 150, Tr, Tr, Cmp);
HM("fm.trm.gt", 100, TrM, std::unique_ptr<int>, Greater);
HM("fm.tr.sv", 100, Tr, int, Cmp, itlib::small_vector<Pr<Tr, int>, 4, 3>);
#endif
#if PART == 0 || PART == 3
HM("fm.str.cmp", 100, std::string, Tr, Cmp);
HM("fm.int.xv", 150, int, Tr, Cmp, itlib::static_vector<Pr<int, Tr>, 9>);
HM("fm.trc.gt", 100, TrC, TrC, Greater);
#endif
#if PART == 0 || PART == 4
HS("fs.int.less", 150, int);
HS("fs.int.cmp", 200, int, Cmp);
HS("fs.str.less", 100, std::string);
HS("fs.tr.cmp", 150, Tr, Cmp);
#endif
#if PART == 0 || PART == 5
HS("fs.trm.gt", 100, TrM, Greater);
HS("fs.tr.sv", 100, Tr, Cmp, itlib::small_vector<Tr, 4, 3>);
HS("fs.tr.xv", 150, Tr, Cmp, itlib::static_vector<Tr, 9>);
HS("fs.trc.gt", 100, TrC, Greater);
#endif
