// Element types which overload what isn't theirs to be used (C37): the same history over a plain and over a hostile
// type must go the same way, and the hostile type's operator&, operator comma, class-specific placement new and
// functions only argument-dependent lookup finds must never be called by the library
#include "common.hpp"
#include <list>
#include <map>
#include <sstream>
#include <deque>
#include <itlib/any.hpp>
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <itlib/data_mutex.hpp>
#include <itlib/expected.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/make_ptr.hpp>
#include <itlib/memory_view.hpp>
#include <itlib/mutex.hpp>
#include <itlib/pmr_allocator.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/qalgorithm.hpp>
#include <itlib/sentry.hpp>
#include <itlib/shared_from.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/throw_ex.hpp>
#include <itlib/ufunction.hpp>
#include <itlib/utility.hpp>
#include <mutex>
#include <shared_mutex>
#if __cplusplus >= 202002L
#include <itlib/generator.hpp>
#include <itlib/transparent_umap.hpp>
#endif
#ifndef PART
#define PART 0
#endif
#define IN(p) (PART == 0 || PART == p)
using namespace vf;
#define CK(c, ...) do { if (!(c)) { if (::vf::ignored("value.hostile")) throw ::vf::Abandon(); ::vf::fail("value.hostile", __VA_ARGS__); } } while (0)

struct Hits { long amp = 0, comma = 0, placed = 0, plain = 0, deleted = 0, adl = 0; const char* fn = ""; };
static Hits& hits() { static Hits h; return h; }
static long& alive() { static long a = 0; return a; }

// what every kind of element can do; D is the element itself
#define ELEMENT(D) \
    int v; \
    explicit D(int i) : v(i) { ++alive(); } \
    D(const D& o) : v(o.v) { ++alive(); } \
    D(D&& o) noexcept : v(o.v) { ++alive(); o.v = -1; } \
    D& operator=(const D& o) { v = o.v; return *this; } \
    D& operator=(D&& o) noexcept { int t = o.v; o.v = -1; v = t; return *this; } \
    ~D() { --alive(); } \
    friend bool operator==(const D& a, const D& b) { return a.v == b.v; } \
    friend bool operator!=(const D& a, const D& b) { return a.v != b.v; } \
    friend bool operator<(const D& a, const D& b) { return a.v < b.v; }

namespace plain { struct El { ELEMENT(El) El() : El(0) {} }; struct Nd { ELEMENT(Nd) }; struct Pod { int v; friend bool operator==(const Pod& a, const Pod& b) { return a.v == b.v; } };
#define HOST(D)
struct Less { template <typename T> bool operator()(const T& a, const T& b) const { return a.v < b.v; } HOST(Less) };
struct Mtx : std::mutex { HOST(Mtx) }; struct SMtx : std::shared_mutex { HOST(SMtx) };
struct Is { int v; template <typename T> bool operator()(const T& t) const { return t.v == v; } HOST(Is) };
}

namespace hostile {
// the lookalikes: they do what they are asked to, and are noticed
struct Spy {
    // a pointer, but not to the object
    template <typename D> static D* elsewhere(D*) { ++hits().amp; alignas(D) static char store[sizeof(D)]; return reinterpret_cast<D*>(store); }
};
#define HOSTILE(D) \
    D* operator&() { return Spy::elsewhere(this); } \
    const D* operator&() const { return Spy::elsewhere(const_cast<D*>(this)); } \
    template <typename U> friend U&& operator,(const D&, U&& u) { ++hits().comma; return static_cast<U&&>(u); } \
    template <typename U, typename = typename std::enable_if<!std::is_same<typename std::decay<U>::type, D>::value>::type> friend const D& operator,(U&&, const D& d) { ++hits().comma; return d; } \
    static void* operator new(size_t n) { ++hits().plain; return ::operator new(n); } \
    static void* operator new(size_t, void* p) { ++hits().placed; return p; } \
    static void operator delete(void* p) { ++hits().deleted; ::operator delete(p); } \
    static void operator delete(void*, void*) {}
struct El { ELEMENT(El) El() : El(0) {} HOSTILE(El) };
struct Nd { ELEMENT(Nd) HOSTILE(Nd) }; // no default constructor
struct Pod { int v; HOSTILE(Pod) friend bool operator==(const Pod& a, const Pod& b) { return a.v == b.v; } };
#undef HOST
#define HOST(D) HOSTILE(D)
struct Less { template <typename T> bool operator()(const T& a, const T& b) const { return a.v < b.v; } HOST(Less) };
struct Mtx : std::mutex { HOST(Mtx) }; struct SMtx : std::shared_mutex { HOST(SMtx) };
struct Is { int v; template <typename T> bool operator()(const T& t) const { return t.v == v; } HOST(Is) };
// found by argument-dependent lookup only
template <typename T> typename std::remove_reference<T>::type&& move(T&& t) noexcept { ++hits().adl; hits().fn = "move"; return static_cast<typename std::remove_reference<T>::type&&>(t); }
template <typename T> T* addressof(T& t) noexcept { ++hits().adl; hits().fn = "addressof"; return std::addressof(t); }
template <typename T> typename std::add_const<T>::type& as_const(T& t) noexcept { ++hits().adl; hits().fn = "as_const"; return t; }
template <typename T, typename U> T exchange(T& t, U&& u) { ++hits().adl; hits().fn = "exchange"; T o(std::move(t)); t = std::forward<U>(u); return o; }
template <typename T> void destroy_at(T* t) { ++hits().adl; hits().fn = "destroy_at"; t->~T(); }
template <typename T, typename... A> T* construct_at(T* t, A&&... a) { ++hits().adl; hits().fn = "construct_at"; return ::new ((void*)t) T(std::forward<A>(a)...); }
template <typename P, typename I> P find(P a, P b, const I& x) { ++hits().adl; hits().fn = "find"; for (; a != b; ++a) if (*a == x) break; return a; }
template <typename P, typename I> P find_if(P a, P b, I f) { ++hits().adl; hits().fn = "find_if"; for (; a != b; ++a) if (f(*a)) break; return a; }
}

// a dump of everything a history sees
struct Out {
    std::string s;
    Out& operator<<(int i) { s += std::to_string(i); s += ' '; return *this; }
    Out& operator<<(size_t i) { return *this << int(i); }
    Out& operator<<(const char* t) { s += t; s += ' '; return *this; }
    template <typename C> void all(const C& c) { s += '['; for (auto& e : c) *this << e.v; s += ']'; }
};
#define OP(name) op(name); o << name; COV(name)

// ---------------------------------------------------------------- vectors, as much as T is capable of
template <typename V> size_t room(const V& v) { return v.max_size() < 1000 ? v.max_size() - v.size() : 40 > v.size() ? 40 - v.size() : 0; }
template <typename T, typename V> void vec_history(Rng& r, Out& o, V v, bool dflt) {
    V w;
    for (int i = 0; i < 50; ++i) {
        size_t n = v.size(), at = r.below(n + 1), k = r.below(4); int x = int(r.below(100));
        auto pos = v.begin() + ptrdiff_t(at);
        switch (r.below(22)) {
        case 0: OP("vector push_back copy"); { T t(x); if (room(v)) v.push_back(t); o << t.v; } break;
        case 1: OP("vector push_back move"); { T t(x); if (room(v)) v.push_back(std::move(t)); } break;
        case 2: OP("vector emplace_back"); if (room(v)) v.emplace_back(x); break;
        case 3: OP("vector insert copy"); { T t(x); if (room(v)) o << (v.insert(pos, t) - v.begin() == ptrdiff_t(at)); } break;
        case 4: OP("vector insert move"); if (room(v)) v.insert(pos, T(x)); break;
        case 5: OP("vector emplace"); if (room(v)) v.emplace(pos, x); break;
        case 6: OP("vector insert fill"); { T t(x); if (room(v) >= k) v.insert(pos, k, t); } break;
        case 7: OP("vector insert range"); { std::vector<T> s; for (size_t j = 0; j < k; ++j) s.emplace_back(x + int(j)); if (room(v) >= k) v.insert(pos, s.begin(), s.end()); } break;
        case 8: OP("vector insert list"); if (room(v) >= 2) v.insert(pos, {T(x), T(x + 1)}); break;
        case 9: OP("vector insert own"); if (n && room(v)) v.insert(pos, static_cast<const V&>(v)[r.below(n)]); break;
        case 10: OP("vector erase"); if (at < n) o << int(v.erase(pos) - v.begin()); break;
        case 11: OP("vector erase range"); { size_t b = at + r.below(n - at + 1); o << int(v.erase(pos, v.begin() + ptrdiff_t(b)) - v.begin()); } break;
        case 12: OP("vector pop_back"); if (n) v.pop_back(); break;
        case 13: OP("vector copy"); { V c(v); o.all(c); w = c; } break;
        case 14: OP("vector move"); { V c(std::move(v)); o.all(c); o.all(v); v = std::move(c); } break;
        case 15: OP("vector swap"); std::swap(v, w); break;
        case 16: OP("vector assign fill"); { T t(x); v.assign(k, t); } break;
        case 17: OP("vector assign list"); v.assign({T(x), T(x + 1)}); break;
        case 18: OP("vector resize fill"); { T t(x); v.resize(std::min(n + k, n + room(v)), t); } break;
        case 19: OP("vector resize"); if constexpr (std::is_default_constructible<T>::value) { if (dflt) v.resize(k * 2); } break;
        case 20: OP("vector read"); if (n) { const V& c = v; o << c.front().v << c.back().v << c.at(r.below(n)).v << v.begin()->v << int(c.end() - c.begin()) << (v.data() == std::addressof(v[0])); auto q = c.rbegin(); o << q->v; } break;
        default: OP("vector compare"); o << (v == w) << (v != w);
        }
        o.all(v);
    }
    v.clear(); o.all(v);
}
template <typename T> void h_sv(Rng& r, Out& o) { vec_history<T>(r, o, itlib::small_vector<T, 3, 2>(), true); }
template <typename T> void h_xv(Rng& r, Out& o) { vec_history<T>(r, o, itlib::static_vector<T, 9>(), true); }
template <typename T> void h_sva(Rng& r, Out& o) {
    itlib::small_vector<T, 3, 0, LAlloc<T, 3>> v(LAlloc<T, 3>(1)), w(LAlloc<T, 3>(2));
    for (int i = 0; i < 20; ++i) {
        int x = int(r.below(50));
        switch (r.below(7)) {
        case 0: OP("stateful allocator: emplace"); v.emplace(v.begin(), x); break; case 1: OP("stateful allocator: move"); w = std::move(v); break;
        case 2: OP("stateful allocator: copy"); v = w; break; case 3: OP("stateful allocator: shrink"); v.shrink_to_fit(); break;
        case 4: OP("stateful allocator: reserve"); v.reserve(size_t(x % 9)); break; case 5: OP("stateful allocator: revert"); o << v.revert_to_static(); break;
        default: if (v.size()) v.erase(v.begin());
        }
        o.all(v); o.all(w); o << v.is_static();
    }
}
template <typename P> void h_pv(Rng& r, Out& o) {
    itlib::pod_vector<P> v, w;
    for (int i = 0; i < 40; ++i) {
        size_t n = v.size(), at = r.below(n + 1), k = r.below(4); int x = int(r.below(100)); P p; p.v = x;
        auto pos = v.begin() + ptrdiff_t(at);
        switch (r.below(13)) {
        case 0: OP("pod push_back"); v.push_back(p); break; case 1: OP("pod insert"); v.insert(pos, p); break;
        case 2: OP("pod insert fill"); v.insert(pos, k, p); break; case 3: OP("pod insert range"); { std::vector<P> s(k, p); v.insert(pos, s.begin(), s.end()); } break;
        case 4: OP("pod assign"); v.assign(k, p); break; case 5: OP("pod erase"); if (at < n) v.erase(pos); break;
        case 6: OP("pod resize"); v.resize(n + k, p); break; case 7: OP("pod copy"); { itlib::pod_vector<P> c(v); w = c; } break;
        case 8: OP("pod move"); { itlib::pod_vector<P> c(std::move(v)); v = std::move(c); } break; case 9: OP("pod swap"); v.swap(w); break;
        case 10: OP("pod emplace"); v.emplace(pos, p); break; case 11: OP("pod recast"); { auto c = itlib::pod_vector<int>(v.begin() == v.end() ? 0 : 1); c.recast_take_from(std::move(v)); o << c.size(); v.recast_take_from(std::move(c)); } break;
        default: OP("pod compare"); { itlib::pod_vector<P> c(v); o << std::equal(v.begin(), v.end(), c.begin()); if (n) o << v.front().v << v.back().v; }
        }
        o.all(v); o.all(w);
    }
    P p; p.v = 77; int i = itlib::bit_cast<int>(p); P q = itlib::bit_cast<P>(i + 1); o << i << q.v; COV("bit_cast");
}
// ---------------------------------------------------------------- flat containers
template <typename T> struct Ns { using Less = plain::Less; using Mtx = plain::Mtx; using SMtx = plain::SMtx; using Is = plain::Is; };
template <> struct Ns<hostile::El> { using Less = hostile::Less; using Mtx = hostile::Mtx; using SMtx = hostile::SMtx; using Is = hostile::Is; }; template <> struct Ns<hostile::Nd> : Ns<hostile::El> {};
template <typename T, typename M> void map_history(Rng& r, Out& o) {
    M m, n;
    for (int i = 0; i < 40; ++i) {
        T k(int(r.below(8))); int x = int(r.below(100));
        switch (r.below(11)) {
        case 0: OP("map insert"); o << m.insert({k, T(x)}).second; break; case 1: OP("map emplace"); o << m.emplace(k, T(x)).second; break;
        case 2: OP("map index"); m[k] = T(x); break; case 3: OP("map index move"); m[std::move(k)].v += 1; break;
        case 4: OP("map find"); { auto f = m.find(k); o << (f == m.end() ? -9 : f->second.v); } break;
        case 5: OP("map erase key"); o << m.erase(k); break; case 6: OP("map erase iterator"); if (m.size()) m.erase(m.begin()); break;
        case 7: OP("map at"); if (m.count(k)) o << m.at(k).v; break;
        case 8: OP("map bounds"); o << int(m.lower_bound(k) - m.begin()) << int(m.upper_bound(k) - m.begin()); { auto e = m.equal_range(k); o << int(e.second - e.first); } break;
        case 9: OP("map copy, move, swap"); { M c(m); M d(std::move(c)); n.swap(d); std::swap(n, m); } break;
        default: OP("map compare"); o << (m == n);
        }
        for (auto& e : m) o << e.first.v << e.second.v;
    }
}
template <typename T> void h_map(Rng& r, Out& o) { if (r.chance(50)) map_history<T, itlib::flat_map<T, T>>(r, o); else map_history<T, itlib::flat_map<T, T, typename Ns<T>::Less, itlib::static_vector<std::pair<T, T>, 9>>>(r, o); }
template <typename T, typename S> void set_history(Rng& r, Out& o) {
    S s, n;
    for (int i = 0; i < 40; ++i) {
        T k(int(r.below(8)));
        switch (r.below(8)) {
        case 0: OP("set insert"); o << s.insert(k).second; break; case 1: OP("set insert move"); o << s.insert(std::move(k)).second; break;
        case 2: OP("set emplace"); o << s.emplace(k.v).second; break; case 3: OP("set find"); { auto f = s.find(k); o << (f == s.end() ? -9 : f->v); } break;
        case 4: OP("set erase"); o << s.erase(k); break; case 5: OP("set bounds"); o << int(s.lower_bound(k) - s.begin()) << int(s.upper_bound(k) - s.begin()); break;
        case 6: OP("set copy, move, swap"); { S c(s); S d(std::move(c)); std::swap(n, d); std::swap(n, s); } break;
        default: OP("set compare"); o << (s == n);
        }
        o.all(s);
    }
}
template <typename T> void h_set(Rng& r, Out& o) { if (r.chance(50)) set_history<T, itlib::flat_set<T>>(r, o); else set_history<T, itlib::flat_set<T, typename Ns<T>::Less, itlib::small_vector<T, 2>>>(r, o); }
// ---------------------------------------------------------------- one value
template <typename T> void h_ex(Rng& r, Out& o) {
    using A = itlib::expected<T, std::string>; using B = itlib::expected<std::string, T>; using C = itlib::expected<T, T>;
    using R = itlib::expected<T&, T>; using V = itlib::expected<void, T>; using O = itlib::expected<T, void>; using RO = itlib::expected<T&, void>;
    auto err = [](int i) { return itlib::unexpected(T(i)); };
    A a{T(1)}; B b{std::string("a string which isn't short")}; C c{T(2)}; T target(5), other(6); R rf(target); V vd; O ov{T(3)}; RO ro(target);
    for (int i = 0; i < 30; ++i) {
        int x = int(r.below(100));
        switch (r.below(12)) {
        case 0: OP("expected value"); if (r.chance(50)) { A n{T(x)}; A m(std::move(n)); a = std::move(m); } else { A n{itlib::unexpected(std::string("e"))}; A m(std::move(n)); a = std::move(m); } break;
        case 1: OP("expected error"); if (r.chance(50)) { B n{std::string("b")}; B m(std::move(n)); b = std::move(m); } else { B n{err(x)}; B m(std::move(n)); b = std::move(m); } break;
        case 2: OP("expected both"); if (r.chance(50)) { C n{T(x)}; C m(std::move(n)); c = std::move(m); } else { C n{err(x)}; C m(std::move(n)); c = std::move(m); } break;
        case 3: OP("expected reference"); if (r.chance(50)) { R n(r.chance(50) ? target : other); R m(std::move(n)); rf = std::move(m); } else { R n{err(x)}; R m(std::move(n)); rf = std::move(m); } break;
        case 4: OP("expected void"); if (r.chance(50)) { V n; V m(std::move(n)); vd = std::move(m); } else { V n{err(x)}; V m(std::move(n)); vd = std::move(m); } break;
        case 5: OP("eoptional"); if (r.chance(50)) { O n{T(x)}; O m(n); O q(std::move(m)); ov = q; ov = std::move(q); } else { O n{itlib::unexpected()}; O m(n); ov = m; } break;
        case 6: OP("eoptional reference"); if (r.chance(50)) { RO n(r.chance(50) ? target : other); RO m(std::move(n)); ro = m; } else { RO n{itlib::unexpected()}; ro = n; } break;
        case 7: OP("expected arrow"); if (a) { a->v += 1; o << static_cast<const A&>(a)->v; } if (c) o << c->v; if (rf) { rf->v += 1; o << (&*std::vector<T*>{std::addressof(*rf)}.begin() != nullptr); } if (ov) { ov->v += 1; o << static_cast<const O&>(ov)->v; } if (ro) { ro->v += 1; o << (std::addressof(*ro) == std::addressof(target)) << (std::addressof(ro.value()) == std::addressof(other)); } break;
        case 8: OP("expected emplace"); ov.emplace(x); ro.emplace(r.chance(50) ? target : other); break;
        case 9: OP("expected value_or"); { T d(77); o << ov.value_or(d).v; A m(std::move(a)); o << std::move(m).value_or(T(78)).v; a = A{T(1)}; } break;
        case 10: OP("expected take"); if (a) { T t(std::move(a).value()); o << t.v; a = A{T(x)}; } break;
        default: OP("expected reset"); ov = O{itlib::unexpected()};
        }
        o << (a ? a.value().v : -5) << (b ? -5 : b.error().v) << (c ? c.value().v : -c.error().v) << (rf ? rf.value().v : -rf.error().v) << (vd ? -5 : vd.error().v) << (ov ? ov.value().v : -5) << (ro ? ro.value().v : -5) << target.v << other.v;
    }
}
template <typename T> void h_any(Rng& r, Out& o) {
    itlib::any<> a; itlib::any<itlib::pmr_allocator<>> p;
    for (int i = 0; i < 30; ++i) {
        int x = int(r.below(100));
        switch (r.below(7)) {
        case 0: OP("any emplace"); o << a.template emplace<T>(x).v << p.template emplace<T>(x).v; break;
        case 1: OP("any assign"); { T t(x); if (r.chance(50)) a = t; else a = itlib::any<>(std::move(t)); } break;
        case 2: OP("any copy"); { itlib::any<> b(a); itlib::any<> c; c = b; a = c; } break;
        case 3: OP("any move"); { itlib::any<> b(std::move(a)); a = std::move(b); } break;
        case 4: OP("any cast"); if (a) { o << itlib::any_cast<T&>(a).v << itlib::any_cast<T>(a).v << itlib::any_cast<const T&>(static_cast<const itlib::any<>&>(a)).v; itlib::any_cast<T&>(a).v += 1; } { auto q = itlib::any_cast<T>(std::addressof(a)); o << (q ? q->v : -1); } break;
        case 5: OP("any data"); if (a) { o << static_cast<T*>(a.data())->v << (a.data() == static_cast<const void*>(itlib::any_cast<T>(std::addressof(a)))); } if (p) o << static_cast<const T*>(static_cast<const itlib::any<itlib::pmr_allocator<>>&>(p).data())->v; break;
        default: OP("any reset"); a.reset(); p.reset();
        }
        o << bool(a) << bool(p);
    }
}
// ---------------------------------------------------------------- callables
template <typename T> struct Fn : T { using T::T; int* log; Fn(int x, int* l) : T(x), log(l) {} int operator()(int i) { *log = (*log % 10000) + i + this->v; return *log; } };
template <typename T> struct Bye : T { int* log; Bye(int x, int* l) : T(x), log(l) {} void operator()() { *log = (*log % 10000) * 3 + this->v; } };
template <typename T> void h_fn(Rng& r, Out& o) {
    int log = 0; itlib::ufunction<int(int)> f, g; using F = Fn<T>; using B = Bye<T>;
    for (int i = 0; i < 20; ++i) {
        int x = int(r.below(100));
        switch (r.below(7)) {
        case 0: OP("ufunction of a callable"); f = F(x, &log); break; case 1: OP("ufunction of an lvalue"); { F l(x, &log); itlib::ufunction<int(int)> h(std::move(l)); g = std::move(h); } break;
        case 2: OP("ufunction call"); if (f) o << f(x); if (g) o << g(x); break; case 3: OP("ufunction move, swap"); { itlib::ufunction<int(int)> h(std::move(f)); f = std::move(g); g = std::move(h); } break;
        case 4: OP("ufunction takes and returns"); { itlib::ufunction<T(const T&, T)> h = [](const T& a, T b) { return T(a.v * 2 + b.v); }; o << h(T(x), T(1)).v; } break;
        case 5: OP("sentry"); { itlib::sentry<B> s(B(x, &log)); auto t = itlib::make_sentry(B(x + 1, &log)); B l(x + 2, &log); auto u = itlib::make_sentry(l); o << log; } o << log; break;
        default: OP("ufunction null"); f = nullptr; o << bool(f);
        }
    }
    o << log;
}
// ---------------------------------------------------------------- views
template <typename T> struct Two { int pad; T a, b; Two(int x) : pad(x), a(x), b(x + 1) {} };
template <typename T> struct Der : T { int more = 5; Der(int x) : T(x) {} };
template <typename T> static int val_of(T& t) { return t.v; }
template <typename T> void h_view(Rng& r, Out& o) {
    std::vector<T> d; size_t n = 1 + r.below(9); for (size_t i = 0; i < n; ++i) d.emplace_back(int(r.below(100)));
    OP("span"); itlib::span<T> s(d.data(), d.size()); itlib::span<const T> cs = s; auto ms = itlib::make_span(d); T ar[3] = {T(1), T(2), T(3)}; itlib::span<T> as(ar); auto ma = itlib::make_span(ar);
    o.all(s); o.all(cs); o.all(ms); o.all(as); o.all(ma); size_t at = r.below(n); o << s[at].v << cs.at(at).v << s.front().v << s.back().v << s.begin()->v << s.rbegin()->v; o.all(s.subspan(at, 2)); o.all(s.first(at)); s[at].v += 3; o << (s.data() == d.data()) << (std::addressof(s[at]) == std::addressof(d[at]));
    OP("stride_span"); std::vector<Two<T>> tw; for (size_t i = 0; i < n; ++i) tw.emplace_back(int(i)); auto mv = itlib::make_stride_span_member_view(tw.data(), n, &Two<T>::b); auto cmv = itlib::make_stride_span_member_view(static_cast<const Two<T>*>(tw.data()), n, &Two<T>::a);
    for (size_t i = 0; i < n; ++i) o << mv[i].v << cmv[i].v << (std::addressof(mv[i]) == std::addressof(tw[i].b)); for (auto& e : mv) e.v += 1; o.all(mv); o << mv.begin()->v << mv.front().v << mv.back().v << mv.begin().ptr()->v;
    std::vector<Der<T>> de; for (size_t i = 0; i < n; ++i) de.emplace_back(int(i)); auto bv = itlib::make_stride_span_base_view<T>(de.data(), n); for (auto& e : bv) o << e.v; o << int(bv.end() - bv.begin());
    auto sa = itlib::make_stride_span_from_array(d.data(), n, 0, 2); o.all(sa); for (auto it = sa.rbegin(); it != sa.rend(); ++it) o << it->v;
    OP("poly_span"); auto ps = itlib::poly_span<int>(d.data(), n, val_of<T>); for (size_t i = 0; i < n; ++i) o << ps[i]; for (auto e : ps) o << e;
    OP("owner_from_member"); o << (itlib::owner_from_member(tw[at].b, &Two<T>::b) == std::addressof(tw[at])) << (itlib::owner_from_member(tw[at].a, &Two<T>::a) == std::addressof(tw[at]));
    OP("memory_view"); itlib::memory_view<T> v(d.data(), n); itlib::const_memory_view<T> cv(d.data(), n); o.all(v); o.all(cv); o << v[at].v << v.front().v << cv.back().v;
}
template <typename T, typename C> void alg(Rng& r, Out& o) {
    C c; for (int i = 0; i < 9; ++i) c.push_back(T(int(r.below(5)))); T x(int(r.below(6))); const C& k = c; typename Ns<T>::Is is{x.v};
    OP("qfind"); { auto f = itlib::qfind(c, x); o << (f == c.end() ? -1 : f->v); auto g = itlib::qfind(k, x); o << (g == k.end() ? -1 : int(std::distance(k.begin(), g))); auto q = itlib::qfind_if(c, is); o << (q == c.end() ? -1 : int(std::distance(c.begin(), q))); }
    OP("pfind"); { auto f = itlib::pfind(c, x); auto q = itlib::qfind(c, x); o << (f ? f->v : -1); CK(f ? q != c.end() && f == std::addressof(*q) : q == c.end(), "pfind: another element"); auto g = itlib::pfind(k, x); CK(g == f, "pfind in a const container: another element"); auto h = itlib::pfind_if(c, is); CK(h == f, "pfind_if: another element"); auto i = itlib::pfind_if(k, is); CK(i == f, "pfind_if in a const container: another element"); }
    OP("erase"); o << itlib::erase_first(c, x); o.all(c); o << itlib::erase_all(c, x); o.all(c); is.v = 2; o << itlib::erase_first_if(c, is) << itlib::erase_all_if(c, is) << itlib::qany_of(c, is) << itlib::qall_of(c, is) << itlib::qnone_of(c, is); o.all(c);
}
template <typename T> void h_alg(Rng& r, Out& o) { switch (r.below(4)) { case 0: alg<T, std::vector<T>>(r, o); break; case 1: alg<T, std::deque<T>>(r, o); break; case 2: alg<T, std::list<T>>(r, o); break; default: alg<T, itlib::small_vector<T, 4>>(r, o); } }
// ---------------------------------------------------------------- shared, guarded, generated
template <typename T> struct Own : itlib::enable_shared_from { T t; Own(int x) : t(x) {} std::shared_ptr<T> get() { return this->shared_from(std::addressof(t)); } std::shared_ptr<Own> self() { return this->shared_from(this); } std::weak_ptr<T> weak() { return this->weak_from(std::addressof(t)); } };
template <typename E> struct Ex : std::runtime_error, E { Ex(const std::string& s) : std::runtime_error(s), E(int(s.size())) {} };
template <typename T> void h_own(Rng& r, Out& o) {
    itlib::data_mutex<T, typename Ns<T>::Mtx> m(int(r.below(9))); itlib::data_mutex<T, typename Ns<T>::SMtx> sm(int(r.below(9))); itlib::atomic_shared_ptr_storage<T> st;
    for (int i = 0; i < 16; ++i) {
        int x = int(r.below(100));
        switch (r.below(8)) {
        case 0: OP("data_mutex"); { auto l = m.unique_lock(); l->v += x; (*l).v += 1; o << l->v << static_cast<const decltype(l)&>(l)->v; } if (auto l = m.try_unique_lock()) { *l = T(x); o << l->v; } break;
        case 1: OP("shared data_mutex"); { auto l = sm.unique_lock(); l->v += x; } { auto l = sm.shared_lock(); o << l->v; auto k = sm.try_shared_lock(); o << (k ? k->v : -1); } if (auto l = sm.try_unique_lock()) { l->v += 1; } { auto l = static_cast<const decltype(sm)&>(sm).shared_lock(); o << (*l).v; } break;
        case 2: OP("make_shared"); { auto p = itlib::make_shared(T(x)); T t(x + 1); auto q = itlib::make_shared(t); auto a = itlib::make_aliased(q, std::addressof(q->v)); o << p->v << q->v << *a << int(a.use_count()); } break;
        case 3: OP("make_unique"); { auto p = itlib::make_unique(T(x)); T t(x + 1); auto q = itlib::make_unique(t); o << p->v << q->v << t.v; } break;
        case 4: OP("atomic_shared_ptr_storage"); { auto p = itlib::make_shared(T(x)); st.store(p); auto q = st.load(); o << (p == q); auto e = st.exchange(nullptr); o << (e == p); o << st.compare_exchange(p, q); } break;
        case 5: OP("shared_from"); { auto p = std::make_shared<Own<T>>(x); auto g = p->get(); o << g->v << int(p.use_count()) << (p->self() == p); auto w = p->weak(); o << w.lock()->v; } break;
        case 6: OP("throw_ex"); try { itlib::throw_ex<Ex<T>>() << "value " << x; } catch (const Ex<T>& e) { o << e.what() << e.v; } break;
        default: OP("force_move"); { T t(x); T u(itlib::force_move(t)); o << t.v << u.v; }
        }
    }
}
#if __cplusplus >= 202002L
template <typename T> itlib::generator<T> gen(int n) { for (int i = 0; i < n; ++i) co_yield T(i * 3); }
template <typename T> itlib::generator<T&> genr(std::vector<T>& v) { for (auto& e : v) co_yield e; }
template <typename T> itlib::generator<const T&> genc(const std::vector<T>& v) { for (auto& e : v) co_yield e; }
struct KHash { using is_transparent = int; template <typename T> size_t operator()(const T& t) const { return size_t(t.v) % 3; } size_t operator()(int i) const { return size_t(i) % 3; } };
struct KEq { using is_transparent = int; template <typename A, typename B> static int v(const A& a) { if constexpr (std::is_same_v<A, int>) return a; else return a.v; } template <typename A, typename B> bool operator()(const A& a, const B& b) const { return v<A, B>(a) == v<B, A>(b); } };
template <typename T> void h_gen(Rng& r, Out& o) {
    int n = int(r.below(5)); std::vector<T> v; for (int i = 0; i < n; ++i) v.emplace_back(int(r.below(50)));
    OP("generator next"); { auto g = gen<T>(n); while (auto x = g.next()) o << (*x).v << x->v; }
    OP("generator range"); for (auto& x : gen<T>(n)) { o << x.v; x.v = 0; } for (auto&& x : gen<T>(n)) { T t(std::move(x)); o << t.v; }
    OP("generator of references"); for (auto& x : genr<T>(v)) { x.v += 1; bool in = false; for (auto& e : v) in |= std::addressof(e) == std::addressof(x); CK(in, "generator<T&> yields a reference to another object"); } { auto g = genr<T>(v); while (auto x = g.next()) o << (*x).v; } for (auto& x : genc<T>(v)) o << x.v; o.all(v);
    OP("umap"); itlib::transparent_umap<T, T, KHash, KEq> m; for (int i = 0; i < 12; ++i) { int k = int(r.below(6)); T key(k); switch (r.below(6)) { case 0: m[key] = T(i); break; case 1: m[k] = T(i); break; case 2: o << m.try_emplace(k, i).second; break; case 3: o << m.try_emplace(m.cend(), k, i)->second.v; break; case 4: try { o << m.at(k).v; } catch (std::out_of_range&) { o << "none"; } break; default: m[std::move(key)].v += 1; } o << m.size(); }
}
#endif
template <typename P, typename X> struct Pair { void (*plain)(Rng&, Out&); void (*hostile)(Rng&, Out&); };
static void both(Case& c, void (*p)(Rng&, Out&), void (*h)(Rng&, Out&)) {
    Rng r1 = c.rng, r2 = c.rng; Out a, b; long before = alive();
    p(r1, a); CK(alive() == before, "the plain type's elements leak: %ld left", alive() - before);
    hits() = Hits(); op("hostile:");
    h(r2, b); Hits n = hits();
    CK(n.amp == 0, "the library used the element's operator& %ld times", n.amp);
    CK(n.comma == 0, "the library used the element's operator comma %ld times", n.comma);
    CK(n.placed == 0, "the library used the element's class-specific placement new %ld times", n.placed);
    CK(n.adl == 0, "the library called %s of the element's namespace", n.fn);
    CK(n.plain == n.deleted, "class-specific operator new was called %ld times, operator delete %ld times", n.plain, n.deleted);
    CK(alive() == before, "%ld elements left", alive() - before);
    CK(a.s == b.s, "a history over the hostile type goes another way: ...%s instead of ...%s", b.s.substr(b.s.size() > 150 ? b.s.size() - 150 : 0).c_str(), a.s.substr(a.s.size() > 150 ? a.s.size() - 150 : 0).c_str());
    COV("histories compared"); COVN("bytes of observations", a.s.size()); if (n.plain) COV("class-specific operator new used and paired"); c.h = hstr(a.s.c_str()); c.interesting();
}
#define B(name, n, f, E) static void VF_CAT(hb_, __LINE__)(Case& c) { both(c, f<plain::E>, f<hostile::E>); } REG_SUITE(name, n, n * 8, &VF_CAT(hb_, __LINE__))
#if IN(1)
B("hostile.sv", 60, h_sv, El);
B("hostile.sv.nd", 60, h_sv, Nd);
B("hostile.sva", 40, h_sva, Nd);
B("hostile.xv", 60, h_xv, El);
B("hostile.xv.nd", 60, h_xv, Nd);
B("hostile.pv", 60, h_pv, Pod);
B("hostile.map", 60, h_map, El);
B("hostile.set", 60, h_set, Nd);
#endif
#if IN(2)
B("hostile.ex", 80, h_ex, Nd);
B("hostile.any", 60, h_any, Nd);
B("hostile.fn", 60, h_fn, Nd);
B("hostile.view", 60, h_view, Nd);
B("hostile.alg", 60, h_alg, Nd);
B("hostile.own", 60, h_own, Nd);
#if __cplusplus >= 202002L
B("hostile.gen", 60, h_gen, El);
#endif
#endif
