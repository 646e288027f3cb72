// sentry: the cleanup runs exactly once at scope exit, in reverse order of creation (C13)
#include "common.hpp"
#include <itlib/sentry.hpp>
#include <setjmp.h>
using namespace vf; using itlib::sentry; using itlib::make_sentry;
// Recorded events: 'e'nter scope, 'x' body end, positive ids cleanups
struct Ev { std::vector<int> log; void add(int i) { log.push_back(i); } };
static Ev& ev() { static Ev* e = new Ev; return *e; }
struct Boom { int id; };
struct Act { Tr t; explicit Act(int i) : t(i) {} void operator()() { t.alive("called"); ev().add(t.v); } };          // tracked
struct ActM { TrM t; explicit ActM(int i) : t(i) {} void operator()() { t.alive("called"); ev().add(t.v); } };        // move-only
static int g_free = 0; static void free_fn() { ev().add(g_free); }

// A random program of nested scopes with sentries; the model is a plain guard object before each sentry.
struct At { std::vector<int>& w; int m; At(std::vector<int>& w_, int m_) : w(w_), m(m_) {} ~At() { w.push_back(m); } };
enum Exit { Fall, Throw, Return, Jump, Goto };
#define LEAVE ev().add(1000000 + me); w.push_back(1000000 + me); if (ex == Throw) throw Boom{me}; if (ex == Return) return; if (ex == Jump) break; if (ex == Goto) goto out; ev().add(2000000 + me); w.push_back(2000000 + me)
struct Prog {
    Rng& r; std::vector<int> w; int next = 1; int depth = 0;
    explicit Prog(Rng& r_) : r(r_) {}
    int id() { return next++; }
    void inner() {
        if (depth >= 6 || !r.chance(65)) return;
        struct D { int& d; D(int& x) : d(x) { ++d; } ~D() { --d; } } dd(depth);
        int n = 1 + int(r.below(2)); bool handle = r.chance(50);
        while (n--) { if (!handle) { scope(); continue; } try { scope(); } catch (Boom& b) { ev().add(3000000 + b.id); w.push_back(3000000 + b.id); COV("exception caught between scopes"); } }
    }
    void scope() {
        int kind = int(r.below(10)), ex = int(r.below(5)); int me = id();
        op("scope%d kind%d exit%d", me, kind, ex); cov_dyn(ex == Throw ? "left by an exception" : ex == Return ? "left by a return" : ex == Jump ? "left by break or continue" : ex == Goto ? "left by goto" : "left at the end");
        switch (kind) {
        case 0: { At m(w, me); auto s = make_sentry(Act(me)); inner(); LEAVE; break; }
        case 1: { At m(w, me); auto s = make_sentry(ActM(me)); inner(); LEAVE; break; }
        case 2: { Act a(me); At m(w, me); auto s = make_sentry(a); inner(); LEAVE; break; } // refers to a
        case 3: { int local = me; At m(w, -me); auto s = make_sentry([&local] { ev().add(local); }); struct Set { int& l; ~Set() { l = -l; } } set{local}; inner(); LEAVE; break; }
        case 4: { At m(w, 4000000 + me); g_free = 0; struct Set { int i; ~Set() { g_free = i; } }; auto s = make_sentry(free_fn); Set set{4000000 + me}; inner(); LEAVE; break; }
        case 5: { int a = id(), b = id(); At m(w, me); auto s = make_sentry(Act(me)); At m2(w, a); auto s2 = make_sentry(ActM(a)); At m3(w, b); auto s3 = make_sentry(Act(b)); inner(); COV("several in a scope"); LEAVE; break; }
        case 6: { At m(w, me); sentry<Act> s{Act(me)}; inner(); LEAVE; break; }
        case 7: for (int k = 0; k < 4; ++k) { int i = id(); At m(w, i); auto s = make_sentry(Act(i)); inner(); if (k == 1) continue; if (k == 2) { LEAVE; break; } } break;
        case 8: { struct Holder { decltype(make_sentry(Act(0))) a; Holder(int i) : a(make_sentry(Act(i))) {} }; At m(w, me); Holder h(me); inner(); COV("member sentry"); LEAVE; break; }
        case 9: { std::unique_ptr<At> m(new At(w, me)); std::unique_ptr<sentry<ActM>> s(new sentry<ActM>(ActM(me))); if (r.chance(50)) { size_t n = ev().log.size(); s.reset(); m.reset(); VCHECK(ev().log.size() == n + 1, "value.late", "the cleanup doesn't run when the sentry is destroyed"); } inner(); COV("dynamic sentry"); LEAVE; break; }
        }
        out:;
    }
};
// every exit by exception at every depth of nested sentries
template <int N> struct Nest { static void go(int throw_at, int base) { auto s = make_sentry(Act(base + N)); if (throw_at == N) throw Boom{N}; Nest<N - 1>::go(throw_at, base); if (throw_at == -N) throw Boom{-N}; ev().add(500 + N); } };
template <> struct Nest<0> { static void go(int throw_at, int) { if (throw_at == 0) throw Boom{0}; ev().add(500); } };
SUITE("sentry.nest", 17, 17) {
    int at = int(c.idx) % 17 - 8; bool none = c.idx % 17 == 16; if (none) at = 99; op("throw at %d", at);
    ev().log.clear(); ev().log.reserve(200); std::vector<int> w; bool threw = false; uint64_t live = reg().live;
    try { Nest<7>::go(at, 100); } catch (Boom& b) { threw = true; VCHECK(b.id == at, "value.exception", "another exception"); }
    // model
    int deepest = at >= 0 && at <= 7 ? at : 0; bool inner_throw = at >= 0 && at <= 7;
    if (!inner_throw) w.push_back(500);
    for (int n = inner_throw ? (deepest ? deepest : 1) : 1; n <= 7; ++n) { bool unwinding = inner_throw || (at < 0 && n >= -at); if (!unwinding) w.push_back(500 + n); w.push_back(100 + n); }
    VCHECK(threw == (inner_throw || (at < 0 && at >= -7)), "value.exception", "threw %d", threw);
    VCHECK(ev().log == w, "value.order", "the cleanups ran %zu events, not as expected (%zu) or in another order", ev().log.size(), w.size());
    VCHECK(reg().live == live, "lifetime.leak", "callables left"); if (threw) COV("unwound by an exception"); c.h = c.idx % 17 + 1; c.interesting(); ev().log.clear();
}
SUITE("sentry.program", 2000, 50000) {
    ev().log.clear(); ev().log.reserve(4000);
    { Prog p(c.rng); for (int k = 0; k < 6; ++k) try { p.scope(); } catch (Boom&) {} auto& w = p.w;
      bool same = ev().log == w; if (!same) { size_t k = 0; while (k < w.size() && k < ev().log.size() && w[k] == ev().log[k]) ++k; VCHECK(false, "value.order", "event %zu of the recorded log is %d, should be %d (%zu events, %zu expected)", k, k < ev().log.size() ? ev().log[k] : -1, k < w.size() ? w[k] : -1, ev().log.size(), w.size()); } COVN("cleanup events compared", w.size()); }
    std::vector<int>().swap(ev().log); c.interesting();
}
// transfer: only the last holder runs the cleanup (moves exist before C++17; afterwards elision makes it one object)
static decltype(make_sentry(Act(0))) relay(int i) { return make_sentry(Act(i)); }
static decltype(make_sentry(Act(0))) relay2(int i) { return relay(i); }
SUITE("sentry.transfer", 50, 500) {
    int v = 1 + int(c.rng.below(1000)); op("transfer"); ev().log.clear(); ev().log.reserve(100);
    { auto s = relay2(v); VCHECK(ev().log.empty(), "value.early", "the cleanup ran while the sentry was returned"); }
    VCHECK(ev().log == std::vector<int>{v}, "value.once", "the cleanup of a returned sentry ran %zu times", ev().log.size());
    ev().log.clear();
#if __cplusplus < 201700
    { auto s = make_sentry(Act(v)); { auto t = std::move(s); VCHECK(ev().log.empty(), "value.early", "the cleanup ran while the sentry was moved"); } VCHECK(ev().log == std::vector<int>{v}, "value.once", "the moved-to sentry didn't run the cleanup once"); }
    VCHECK(ev().log == std::vector<int>{v}, "value.once", "the moved-from sentry ran the cleanup"); ev().log.clear();
    { auto s = make_sentry(Act(v)); auto t = std::move(s); auto u = std::move(t); auto w = std::move(s); (void)w; } // s was empty: w has nothing to run
    VCHECK(ev().log == std::vector<int>{v}, "value.once", "a chain of moves ran the cleanup %zu times", ev().log.size()); ev().log.clear(); COV("sentry moved");
    { std::vector<sentry<Act>> vec; for (int k = 0; k < 9; ++k) vec.push_back(make_sentry(Act(v + k))); VCHECK(ev().log.empty(), "value.early", "cleanups ran while a vector grew"); }
    VCHECK(ev().log.size() == 9, "value.once", "%zu cleanups of 9 sentries ran", ev().log.size()); ev().log.clear();
#else
    { sentry s([v] { ev().add(v); }); sentry t(Act(v + 1)); VCHECK(ev().log.empty(), "value.early", "early"); } VCHECK((ev().log == std::vector<int>{v + 1, v}), "value.order", "deduced sentries"); ev().log.clear();
    { auto s = sentry([v] { ev().add(v); }); VCHECK(ev().log.empty(), "value.early", "early"); } VCHECK((ev().log == std::vector<int>{v}), "value.once", "elided"); ev().log.clear();
#endif
    { int arr = 0; int* p = &arr; auto f = [p] { ++*p; }; { auto s = make_sentry(f); auto t = make_sentry(f); auto u = make_sentry(std::ref(f)); } VCHECK(arr == 3, "value.once", "%d calls of 3 sentries", arr); }
    { Act a(v); uint64_t cp = reg().copies, mv = reg().moves; { auto s = make_sentry(a); a.t = Tr(v + 1); } VCHECK(ev().log == std::vector<int>{v + 1} && a.t.v == v + 1, "value.lvalue", "a sentry made from an lvalue doesn't call that object"); VCHECK(reg().copies == cp && reg().moves == mv, "value.lvalue", "the function which was given as an lvalue was copied or moved"); ev().log.clear(); COV("lvalue function"); }
    { struct Cnt { int n = 0; void operator()() { ++n; } } f; { auto s = make_sentry(f); auto t = make_sentry(f); } VCHECK(f.n == 2, "value.lvalue", "the state of the function given as an lvalue shows %d calls, should be 2", f.n); }
    // inside of a catch handler and while another exception is active
    try { auto s = make_sentry([] { try { throw 5; } catch (int i) { ev().add(i); } }); throw Boom{1}; } catch (Boom&) { auto s = make_sentry(Act(v)); ev().add(1); }
    VCHECK((ev().log == std::vector<int>{5, 1, v}), "value.order", "sentries around exceptions");
    // the sentry's function is called before the sentry's function object dies, and destroyed once
    std::vector<int>().swap(ev().log); c.interesting();
}
