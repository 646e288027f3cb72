// generator (C16)
#include "common.hpp"
#include <itlib/generator.hpp>
#include <deque>
using namespace vf;
#define CK(c, ...) VCHECK(c, "value.generator", __VA_ARGS__)
// what the body does: a script, plus a record of how far it got
enum Act { Yield, YieldTemp, Local, Throw, Return, Nested, Caught, Rethrow };
struct Step { Act a; int v; };
struct Boom { int v; };
struct Body { // shared with the running coroutine
    std::vector<Step> script; int pulled = 0; size_t at = 0; bool started = false, ended = false; int yields = 0; // yields: values given out
    std::vector<int> expect; int throws = -1; // computed: values, then an exception or the end
};
template <typename T> struct Val { // T by value
    static T make(int v) { return El<T>::make(v); } static int get(const T& x) { return El<T>::get(x); }
};
template <typename T> itlib::generator<T> values(Body* b, Tr param, int depth);
template <typename T> itlib::generator<T> sub(Body* b, int first, int n) { Tr local(first); for (int i = 0; i < n; ++i) { T x = Val<T>::make(first + i); co_yield std::move(x); } }
template <typename T> itlib::generator<T> values(Body* b, Tr param) {
    b->started = true; struct End { Body* b; ~End() { b->ended = true; } } end{b}; Tr first(5); std::vector<int> keep{1, 2, 3};
    for (b->at = 0; b->at < b->script.size(); ++b->at) {
        Step s = b->script[b->at]; param.alive("used by the coroutine"); first.alive("used by the coroutine");
        switch (s.a) {
        case Yield: { T x = Val<T>::make(s.v); if constexpr (El<T>::copy) { co_yield x; if (Val<T>::get(x) != s.v) fail("value.generator", "co_yield of a variable modified it"); } else co_yield std::move(x); break; }
        case YieldTemp: co_yield Val<T>::make(s.v); break;
        case Local: { Tr l(s.v); co_yield Val<T>::make(s.v); l.alive("used by the coroutine"); break; }
        case Caught: try { Tr l(s.v); throw Boom{s.v}; } catch (Boom& e) { if (e.v != s.v) fail("value.generator", "wrong exception"); } co_yield Val<T>::make(s.v); break;
        case Nested: if (s.v & 1) { for (auto& x : sub<T>(b, s.v, s.v % 4)) co_yield std::move(x); } else { auto g = sub<T>(b, s.v, s.v % 4); while (auto x = g.next()) co_yield std::move(*x); } break;
        case Throw: { Tr l(s.v); throw Boom{s.v}; }
        case Rethrow: throw std::runtime_error(std::to_string(s.v));
        case Return: co_return;
        }
    }
}
static void plan(Rng& r, Body& b, bool refs) {
    bool lng = r.below(150) == 0; size_t n = lng ? 100 + r.below(1500) : r.below(12); int v = 1 + int(r.below(1000)); bool over = false; if (lng) COV("large histories");
    for (size_t i = 0; i < n; ++i) {
        int k = int(r.below(lng && i + 1 < n ? 92 : 100)); Act a = k < 35 ? Yield : k < 55 ? YieldTemp : k < 70 ? Local : k < 80 ? Caught : k < 92 ? Nested : k < 94 ? Throw : k < 97 ? Rethrow : Return;
        if (refs && a != Throw && a != Rethrow && a != Return) a = Yield;
        v += 1 + int(r.below(5)); b.script.push_back({a, v}); if (over) continue;
        switch (a) { case Nested: for (int j = 0; j < v % 4; ++j) b.expect.push_back(v + j); COV("nested generators"); break; case Throw: case Rethrow: b.throws = v; over = true; COV("bodies which throw"); break; case Return: over = true; COV("bodies which return early"); break; default: b.expect.push_back(v); }
        v += 4;
    }
    if (b.expect.empty() && b.throws < 0) COV("bodies without yields");
}
template <typename T> struct Ref;
template <typename E> struct Ref<E&> { using elem = E; };
template <typename T> itlib::generator<T> refs(Body* b, Tr param, std::deque<typename std::remove_const<typename std::remove_reference<T>::type>::type>* data) {
    b->started = true; struct End { Body* b; ~End() { b->ended = true; } } end{b}; Tr first(5); size_t i = 0;
    for (b->at = 0; b->at < b->script.size(); ++b->at) { Step s = b->script[b->at]; param.alive("used"); if (s.a == Yield) { co_yield (*data)[i]; ++i; } else if (s.a == Throw) throw Boom{s.v}; else if (s.a == Rethrow) throw std::runtime_error(std::to_string(s.v)); else co_return; }
}
// the consumer: works on one live generator, moving it around
template <typename T, bool R> struct Consumer {
    using G = itlib::generator<T>; using V = typename std::remove_const<typename std::remove_reference<T>::type>::type;
    Rng& r; Body& b; std::deque<V>& data; std::unique_ptr<G> g; size_t pos = 0; bool over = false; // pos: values delivered
    void at(const V& x, size_t i, const char* how) { CK(i < b.expect.size(), "%s delivers more than the %zu values yielded", how, b.expect.size()); CK(El<V>::get(x) == b.expect[i], "%s: value %zu is %d, yielded %d", how, i, El<V>::get(x), b.expect[i]); if (R) CK((const void*)&x == (const void*)&data[i], "%s: value %zu isn't the object yielded", how, i); COV("values delivered"); }
    // a pull at the end: must be an exception (first time, if the body throws) or the end
    template <typename F> bool pull(F f, const char* how) { // returns whether a value came; f pulls and returns it
        bool past = over; bool got = false; int thrown = -1; CK(past || b.started == (pos > 0), "%s: the body ran ahead of the consumer", how);
        try { got = f(); } catch (Boom& e) { thrown = e.v; } catch (std::runtime_error& e) { thrown = atoi(e.what()); }
        if (past) { CK(!got && thrown < 0, "%s: a finished generator %s", how, got ? "delivers another value" : "throws again"); COV("pulled after the end"); return false; }
        CK(b.started, "%s: the body wasn't run", how);
        if (pos < b.expect.size()) { CK(thrown < 0, "%s: exception %d before value %zu", how, thrown, pos); CK(got, "%s: ended before value %zu of %zu", how, pos, b.expect.size()); CK(!b.ended, "%s: the body is over", how); ++pos; CK(!g->done(), "done() after a value"); return true; }
        CK(!got, "%s: more values than yielded", how); over = true; if (b.throws >= 0) { CK(thrown == b.throws, "%s: exception %d, thrown %d", how, thrown, b.throws); COV("exceptions delivered"); } else { CK(thrown < 0, "%s: an exception which wasn't thrown", how); COV("ends reached"); }
        CK(b.ended, "%s: the locals of a finished body are still alive", how); CK(g->done(), "done() is false after the end"); return false;
    }
    void run() {
        int steps = int(r.below(20)) * (b.expect.size() > 60 ? 60 : 1); CK(bool(*g), "operator bool"); if (!b.started) CK(!g->done(), "done before it began");
        while (steps--) {
            int how = int(r.below(12)); op("step%d at %zu", how, pos); tick();
            switch (how) {
            case 0: case 1: case 2: case 3: { pull([&] { auto v = g->next(); if (v.has_value()) { at(*v, pos, "next"); if (!R && r.chance(50)) { auto w = std::move(v); at(*w, pos, "next, moved"); } return true; } CK(!v, "operator bool of an empty result"); return false; }, "next"); COV("pulled by next"); break; }
            case 4: case 5: case 6: { // iterate for a while
                size_t most = r.below(6); bool adv = false; auto it = typename G::pseudo_iterator(); if (over) COV("iteration of a finished generator");
                pull([&] { it = g->begin(); bool e = it == g->end(); CK(e == !(it != g->end()) && (g->end() == it) == e && (g->end() != it) == !e, "comparisons with the end"); if (!e) { for (int k = 0; k < 3; ++k) at(*it, pos, "iterator"); adv = true; } return !e; }, "begin");
                COV("iterated");
                while (adv && most--) { if (!R && r.chance(30)) { if constexpr (!R) { V taken = std::move(*it); at(taken, pos - 1, "taken out of the iterator"); } } adv = false; pull([&] { ++it; bool e = it == g->end(); if (!e) { at(*it, pos, "iterator"); at(*it, pos, "iterator again"); adv = true; } return !e; }, "++"); }
                break; }
            case 7: { if (over || steps % 3) break; // to the end, as a range
                size_t i = pos; bool threw = false; if (pos == 0) CK(!b.started, "started"); try { for (auto&& x : *g) { at(x, i, "range for"); ++i; if (r.chance(10)) { pos = i; goto stopped; } } } catch (Boom& e) { threw = true; CK(e.v == b.throws, "exception"); } catch (std::runtime_error& e) { threw = true; CK(atoi(e.what()) == b.throws, "exception"); }
                CK(i == b.expect.size(), "range for visits %zu of %zu", i, b.expect.size()); CK(threw == (b.throws >= 0), "range for: exception %s", threw ? "which wasn't thrown" : "lost"); pos = i; over = true; CK(b.ended && g->done(), "the end of a range for"); COV("range for to the end"); if (threw) COV("exceptions delivered");
                stopped: break; }
            case 8: { G h(std::move(*g)); CK(!*g && bool(h), "operator bool after a move"); g.reset(new G(std::move(h))); COV("moved"); break; }
            case 9: { Body b2; Rng r2(r.next()); b2.script.push_back({Yield, 3}); b2.script.push_back({Yield, 4}); // assigned over another generator, which may be in the middle
                G h = other(b2); int k = int(r.below(4)); for (int i = 0; i < k; ++i) { auto v = h.next(); CK(v.has_value() == (i < 2), "another generator"); } bool st = b2.started; h = std::move(*g); CK(b2.ended == st, "the replaced generator's body wasn't destroyed"); CK(!*g && bool(h), "operator bool after an assignment"); *g = std::move(h); COV("assigned over another"); break; }
            case 10: { G& s = *g; s = std::move(*g); COV("self move"); if (!*g) { CK(b.ended == b.started, "self move lost the body"); return; } break; }
            case 11: if (r.chance(20)) { bool st = b.started; if (r.chance(50)) { g->reset(); CK(!*g, "operator bool after reset"); g->reset(); } else g.reset(); CK(b.ended == st, "the body of an abandoned generator wasn't destroyed"); if (st && !over) COV("abandoned in the middle"); if (!st) COV("abandoned before it began"); return; } break;
            }
        }
        bool st = b.started; g.reset(); CK(b.ended == st, "the body of a destroyed generator wasn't destroyed"); if (st && !over) COV("abandoned in the middle");
    }
    std::deque<V> data2; G other(Body& b2) { data2.clear(); data2.emplace_back(El<V>::make(3)); data2.emplace_back(El<V>::make(4)); Tr p(1); if constexpr (R) return refs<T>(&b2, p, &data2); else return values<T>(&b2, p); }
};
template <typename T> void gen_case(Case& c) {
    constexpr bool R = std::is_reference<T>::value; using V = typename std::remove_const<typename std::remove_reference<T>::type>::type;
    Body b; plan(c.rng, b, R); std::deque<V> data; for (int v : b.expect) data.emplace_back(El<V>::make(v)); op("body of %zu steps, %zu values, throws %d", b.script.size(), b.expect.size(), b.throws);
    Consumer<T, R> k{c.rng, b, data}; { Tr p(9); if constexpr (R) k.g.reset(new itlib::generator<T>(refs<T>(&b, p, &data))); else k.g.reset(new itlib::generator<T>(values<T>(&b, p))); } CK(!b.started, "the body began before the first value was asked for"); k.run();
    c.interesting(); uint64_t h = hcomb(b.expect.size(), b.throws); for (auto& s : b.script) h = hcomb(h, s.a); state(h);
}
REG_SUITE("gen.int", 1500, 60000, &gen_case<int>);
REG_SUITE("gen.tr", 1500, 60000, &gen_case<Tr>);
REG_SUITE("gen.moveonly", 1000, 60000, &gen_case<TrM>);
REG_SUITE("gen.str", 1000, 60000, &gen_case<std::string>);
REG_SUITE("gen.uptr", 1000, 60000, &gen_case<std::unique_ptr<int>>);
REG_SUITE("gen.int&", 1500, 60000, &gen_case<int&>);
REG_SUITE("gen.tr&", 1500, 60000, &gen_case<Tr&>);
REG_SUITE("gen.const tr&", 1000, 60000, &gen_case<const Tr&>);
// tens of thousands of values, and generators in large numbers
static itlib::generator<int> count_to(int n, int* at, Tr t) { for (int i = 0; i < n; ++i) { *at = i; co_yield i; t.alive("used by the coroutine"); } *at = n; }
static itlib::generator<Tr&> same(Tr& x, int n) { for (int i = 0; i < n; ++i) { x = Tr(i); co_yield x; } }
SUITE("gen.long", 3, 60) {
    Rng& r = c.rng; static const int ns[] = {255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000}; int n = r.chance(30) ? int(r.below(80000)) : ns[r.below(9)], at = -1, i = 0; op("%d values", n); auto tk = [&] { if (i % 1000 == 0) tick(); };
    { Tr t(1); auto g = count_to(n, &at, t); CK(at == -1, "began"); int half = int(r.below(size_t(n) + 1)); for (; i < half; ++i) { auto v = g.next(); CK(v && *v == i && at == i, "next: value %d", i); tk(); } auto h = std::move(g); for (int& v : h) { CK(v == i && at == i, "iterated: value %d is %d, the body is at %d", i, v, at); ++i; tk(); } CK(i == n && at == n && h.done() && !h.next(), "%d values of %d", i, n); }
    { Tr x(0); auto g = same(x, n); i = 0; while (auto v = g.next()) { CK(&*v == &x && x.v == i, "reference %d", i); ++i; tk(); } CK(i == n, "%d references of %d", i, n); }
    { std::vector<itlib::generator<int>> gs; std::vector<int> ats(2000, -1); int m = 300 + int(r.below(1700)); { Tr t(2); for (int k = 0; k < m; ++k) gs.push_back(count_to(k % 7, &ats[size_t(k)], t)); } for (int round = 0; round < 7; ++round) for (int k = 0; k < m; ++k) { auto v = gs[size_t(k)].next(); CK(bool(v) == (round < k % 7) && (!v || *v == round), "generator %d of %d, value %d", k, m, round); tk(); } tick(); }
    COV("long runs"); COVN("values delivered", n); c.interesting(); c.h = uint64_t(n); state(c.h);
}
