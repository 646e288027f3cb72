// ufunction: ownership and forwarding (C12)
#include "common.hpp"
#include <itlib/ufunction.hpp>
using namespace vf; using itlib::ufunction;
using UF = ufunction<int(int)>;
struct Thrown { int v; };
// callables; the identity is in a tracked member, the state counts the calls
template <typename Id, int Pad> struct Fn { Id id; int n = 0; char pad[Pad]; explicit Fn(int i) : id(i) {}
    int operator()(int a) { id.alive("called"); ++n; if (a == -1) throw Thrown{id.v}; return id.v * 1000 + n * 10 + a; } };
struct ConstFn { Tr id; explicit ConstFn(int i) : id(i) {} int operator()(int a) const { id.alive("called"); if (a == -1) throw Thrown{id.v}; return id.v * 1000 + a; } };
struct Overl { Tr id; int n = 0; explicit Overl(int i) : id(i) {} int operator()(int a) { ++n; if (a == -1) throw Thrown{id.v}; return id.v * 1000 + n * 10 + a; } int operator()(const char*) { return -5; } int operator()(int, int) { return -6; } };
static int plain(int a) { if (a == -1) throw Thrown{77}; return 77000 + a; }
static short plain2(long a) { if (a == -1) throw Thrown{20}; return short(20000 + a); }
enum { Empty, Kept, Stateless };
struct M { int kind = Empty, id = 0, n = 0; bool tracked = false; };
static int calls_of(M& m, int a) { if (m.kind == Kept) ++m.n; return m.id * 1000 + (m.kind == Kept ? m.n * 10 : 0) + a; }

struct H {
    static constexpr int K = 4; Case& c; Rng& r; std::unique_ptr<UF> x[K]; M m[K]; int nv = 1; int val() { return nv = nv % 60 + 1; }
    template <typename F> void store(int i, bool ctor, F&& f) { if (ctor) { x[i].reset(); x[i].reset(new UF(std::forward<F>(f))); } else { UF& ret = (*x[i] = std::forward<F>(f)); VCHECK(&ret == x[i].get(), "value.ret", "operator="); } }
    template <typename F> void from(int i, bool ctor, int how, int v, bool kept) {
        uint64_t cp = reg().copies;
        if (how == 0) { store(i, ctor, F(v)); VCHECK(reg().copies == cp, "value.copied", "an rvalue callable was copied"); }
        else { F f(v); f.id.alive("kept"); store(i, ctor, f); VCHECK(f.id.v == v, "value.source", "an lvalue callable was changed"); VCHECK(reg().copies == cp + 1, "value.copied", "an lvalue callable was copied %d times", int(reg().copies - cp)); COV("lvalue callable stored"); }
        m[i] = M{kept ? Kept : Stateless, v, 0, true};
    }
    void put(int i, bool ctor, int v) {
        int how = int(r.below(2)), kind = int(r.below(13)); if (r.chance(2)) kind = 13 + int(r.below(3)); op("x%d %s kind%d %s id %d", i, ctor ? "ctor" : "=", kind, how ? "lvalue" : "rvalue", v);
        switch (kind) {
        case 0: from<Fn<Tr, 1>>(i, ctor, how, v, true); break;
        case 1: from<Fn<Tr, 200>>(i, ctor, how, v, true); break;
        case 2: store(i, ctor, Fn<TrM, 8>(v)); m[i] = M{Kept, v, 0, true}; COV("move-only callable stored"); break;
        case 3: { Fn<TrM, 300> f(v); store(i, ctor, std::move(f)); VCHECK(f.id.v == MOVED, "value.source", "a move-only callable wasn't moved from"); m[i] = M{Kept, v, 0, true}; COV("move-only callable stored"); break; }
        case 4: from<ConstFn>(i, ctor, how, v, false); break;
        case 5: from<Overl>(i, ctor, how, v, true); break;
        case 11: from<Fn<TrTM, 4>>(i, ctor, how, v, true); COV("callable whose move may throw"); break;
        case 12: from<Fn<TrTM, 300>>(i, ctor, how, v, true); break;
        case 13: from<Fn<Tr, 5000>>(i, ctor, how, v, true); COV("large callables"); break;
        case 14: from<Fn<Tr, 70000>>(i, ctor, how, v, true); COV("large callables"); break;
        case 15: from<Fn<TrTM, 33000>>(i, ctor, how, v, true); COV("large callables"); break;
        case 6: if (how) store(i, ctor, plain); else store(i, ctor, &plain); m[i] = M{Stateless, 77, 0, false}; break;
        case 7: { if (how) store(i, ctor, plain2); else store(i, ctor, &plain2); m[i] = M{Stateless, 20, 0, false}; break; }
        case 8: { int (*n)(int) = nullptr; short (*n2)(long) = nullptr; if (how) store(i, ctor, n); else store(i, ctor, n2); m[i] = M{}; COV("null function pointer"); break; }
        case 9: if (how) store(i, ctor, nullptr); else if (ctor) { x[i].reset(); x[i].reset(new UF()); } else { UF e; *x[i] = std::move(e); } m[i] = M{}; break;
        case 10: { std::unique_ptr<Tr> p(new Tr(v)); struct L { std::unique_ptr<Tr> p; int operator()(int a) { if (a == -1) throw Thrown{p->v}; return p->v * 1000 + a; } }; store(i, ctor, L{std::move(p)}); m[i] = M{Stateless, v, 0, true}; COV("move-only callable stored"); break; }
        }
    }
    void call(int i) {
        int a = int(r.below(9)); bool thr = r.chance(10); op("x%d(%d)", i, thr ? -1 : a); UF& w = *x[i];
        if (m[i].kind == Empty) { bool bad = false; try { w(a); } catch (std::bad_function_call&) { bad = true; } VCHECK(bad, "value.empty", "calling an empty ufunction didn't throw bad_function_call"); COV("empty called"); return; }
        uint64_t cp = reg().copies + reg().moves;
        if (thr) { int got = -1; try { w(-1); } catch (Thrown& t) { got = t.v; } VCHECK(got == m[i].id, "value.exception", "the callable's exception was lost"); if (m[i].kind == Kept) ++m[i].n; COV("callable threw"); return; }
        int got = w(a); int want = calls_of(m[i], a);
        VCHECK(got == want, "value.call", "returned %d, should return %d", got, want); VCHECK(reg().copies + reg().moves == cp, "value.call", "the callable was copied or moved by a call"); COV("called");
    }
    void step() {
        int i = int(r.below(K)), j = int(r.below(K)); uint64_t cp = reg().copies;
        switch (r.below(12)) {
        case 0: case 1: put(i, true, val()); break;
        case 2: case 3: put(i, false, val()); break;
        case 4: case 5: op("x%d=move x%d", i, j); *x[i] = std::move(*x[j]); if (i != j) { m[i] = m[j]; m[j] = M{}; } else { COV("self move assignment"); if (!*x[i]) m[i] = M{}; } VCHECK(reg().copies == cp, "value.copied", "move assignment copied the callable"); COV("move assigned"); break;
        case 6: if (i != j) { op("x%d=UF(move x%d)", i, j); x[i].reset(); x[i].reset(new UF(std::move(*x[j]))); m[i] = m[j]; m[j] = M{}; VCHECK(reg().copies == cp, "value.copied", "move construction copied the callable"); COV("move constructed"); } break;
        case 7: op("x%d=nullptr", i); *x[i] = nullptr; m[i] = M{}; break;
        case 8: if (i != j) { op("swap x%d x%d", i, j); std::swap(*x[i], *x[j]); std::swap(m[i], m[j]); VCHECK(reg().copies == cp, "value.copied", "swap copied the callable"); COV("swapped"); } break;
        case 9: { op("through a vector"); std::vector<UF> v; for (int k = 0; k < K; ++k) v.push_back(std::move(*x[k])); v.insert(v.begin() + long(r.below(K)), UF()); size_t o = 0; std::vector<UF> nonnull; for (auto& f : v) if (f) nonnull.push_back(std::move(f)); for (int k = 0; k < K; ++k) if (m[k].kind != Empty) { VCHECK(o < nonnull.size(), "value.state", "a ufunction lost its callable"); *x[k] = std::move(nonnull[o++]); } VCHECK(o == nonnull.size() && reg().copies == cp, "value.state", "ufunctions in a vector"); COV("moved by a vector"); break; }
        default: call(i);
        }
        size_t n = 0; for (int k = 0; k < K; ++k) { VCHECK(bool(*x[k]) == (m[k].kind != Empty), "value.state", "ufunction %d converts to %d", k, bool(*x[k])); n += m[k].tracked; }
        VCHECK(reg().live == n, "lifetime.count", "%llu callables alive in %zu ufunctions", (unsigned long long)reg().live, n);
    }
    static void run(Case& c) { { H h{c, c.rng}; for (int i = 0; i < K; ++i) h.x[i].reset(new UF()); int steps = 20 + int(c.rng.below(60)); while (steps--) h.step(); } c.interesting(); }
};
static_assert(!std::is_copy_constructible<UF>::value && !std::is_copy_assignable<UF>::value, "ufunction is move-only");
static_assert(std::is_nothrow_move_constructible<UF>::value, "ufunction is documented as noexcept move constructible");
REG_SUITE("uf.history", 400, 20000, &H::run);

// arguments and results of all kinds
struct Get { int v; int operator()(int a) { return v += a; } };
static int free_ref(int& a, const int& b, int&& c_) { a += b; c_ += 1; return a + c_; }
SUITE("uf.forward", 200, 5000) {
    Rng& r = c.rng; int v = 1 + int(r.below(1000)); op("forward %d", v);
    { ufunction<int(int&, const int&, int&&)> f([](int& a, const int& b, int&& d) { a += b; d += 1; return a + d; }); int a = v, b = 3, d = 5; int got = f(a, b, std::move(d)); VCHECK(got == v + 3 + 6 && a == v + 3 && d == 6, "value.forward", "references"); f = free_ref; a = v; got = f(a, b, std::move(d)); VCHECK(got == v + 3 + 7 && a == v + 3 && d == 7, "value.forward", "references to a free function"); }
    { ufunction<int&(int&)> f([](int& a) -> int& { return a; }); int a = v; VCHECK(&f(a) == &a, "value.forward", "returned reference refers to another object"); }
    { ufunction<const std::string&(const std::string&)> f([](const std::string& s) -> const std::string& { return s; }); std::string s = "some long enough string for the heap"; VCHECK(&f(s) == &s, "value.forward", "returned const reference"); }
    { uint64_t cp = reg().copies; ufunction<TrM(TrM)> f([](TrM t) { return TrM(t.v + 1); }); TrM t = f(TrM(v)); VCHECK(t.v == v + 1, "value.forward", "move-only by value: %d", t.v); ufunction<TrM&&(TrM&&)> g([](TrM&& t2) -> TrM&& { return std::move(t2); }); VCHECK(&static_cast<TrM const&>(g(std::move(t))) == &t && t.v == v + 1, "value.forward", "rvalue reference"); TrM u(g(std::move(t))); VCHECK(u.v == v + 1 && t.v == MOVED && reg().copies == cp, "value.forward", "rvalue reference result"); }
    { uint64_t cp = reg().copies; Tr t(v); int seen = 0; ufunction<void(const Tr&)> f([&](const Tr& x) { seen = x.v; }); f(t); VCHECK(seen == v && reg().copies == cp, "value.forward", "a const reference argument was copied"); ufunction<void(Tr)> g([&](Tr x) { seen = -x.v; }); g(t); VCHECK(seen == -v && reg().copies == cp + 1 && t.v == v, "value.forward", "an lvalue argument passed by value was copied %d times", int(reg().copies - cp)); g(std::move(t)); VCHECK(seen == -v && reg().copies == cp + 1 && t.v == MOVED, "value.forward", "an rvalue argument was copied"); }
    { ufunction<void()> f([&] { v += 1; return v; }); int w = v; f(); VCHECK(v == w + 1, "value.forward", "discarded result"); }
    { ufunction<long(short)> f([](int a) { return short(a + 1); }); VCHECK(f(short(v)) == v + 1, "value.forward", "converted argument and result"); ufunction<std::string(const char*)> g([](std::string s) { return s + "!"; }); VCHECK(g("hey") == "hey!", "value.forward", "converted string"); }
    { ufunction<std::unique_ptr<int>(std::unique_ptr<int>, int)> f([](std::unique_ptr<int> p, int k) { *p += k; return p; }); auto p = f(std::unique_ptr<int>(new int(v)), 4); VCHECK(*p == v + 4, "value.forward", "unique_ptr through a call"); }
    { Get g{v}; ufunction<int(int)> f(std::ref(g)); VCHECK(f(2) == v + 2 && g.v == v + 2, "value.forward", "reference_wrapper"); }
    { ufunction<int(int)> f([a = v](int b) mutable { return a += b; }); int acc = v; for (int k = 0; k < 5; ++k) { acc += k; int got = f(k); VCHECK(got == acc, "value.call", "the state of the callable isn't kept"); } auto g = std::move(f); VCHECK(!f && g(1) == acc + 1, "value.call", "the state isn't moved with the callable"); }
    { ufunction<int(ufunction<int(int)>)> f([](ufunction<int(int)> g) { return g(1) + g(2); }); VCHECK(f([v](int a) { return a * v; }) == 3 * v, "value.forward", "ufunction as an argument"); }
    { const ufunction<int(int)> f([v](int a) { return a + v; }); VCHECK(f && f(1) == v + 1, "value.call", "const ufunction"); }
    { ufunction<int(int)> fib; fib = [&fib](int n) -> int { return n < 2 ? n : fib(n - 1) + fib(n - 2); }; VCHECK(fib(10) == 55, "value.call", "recursion"); }
    { // wrapping a ufunction of another signature
        ufunction<int(int)> in([t = TrM(v)](int a) { return t.v + a; }); ufunction<long(short)> out(std::move(in)); VCHECK(!in && out && out(2) == v + 2 && reg().live == 1, "value.call", "wrapped ufunction"); }
    COV("forwarding checks"); c.interesting();
}
// the callable is destroyed when replaced, and its destructor sees a consistent ufunction
SUITE("uf.replace", 50, 1000) {
    op("replace"); std::vector<int> log; struct Log { std::vector<int>* l; int id; Log(std::vector<int>* l_, int i) : l(l_), id(i) {} Log(Log&& o) noexcept : l(o.l), id(o.id) { o.l = nullptr; } ~Log() { if (l) l->push_back(id); } void operator()() { l->push_back(100 + id); } };
    { ufunction<void()> f(Log(&log, 1)); VCHECK(log.empty(), "lifetime.early", "destroyed on construction"); f(); f = Log(&log, 2); VCHECK((log == std::vector<int>{101, 1}), "lifetime.order", "replacing doesn't destroy the previous callable exactly once"); f = nullptr; VCHECK((log == std::vector<int>{101, 1, 2}), "lifetime.order", "clearing doesn't destroy the callable"); f = Log(&log, 3); ufunction<void()> g(Log(&log, 4)); g = std::move(f); VCHECK((log == std::vector<int>{101, 1, 2, 4}), "lifetime.order", "move assignment doesn't destroy the previous callable"); g(); }
    VCHECK((log == std::vector<int>{101, 1, 2, 4, 103, 3}), "lifetime.order", "the callable isn't destroyed with the ufunction"); c.interesting();
}
