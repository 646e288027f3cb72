// expected: every transition between value and error, every specialisation (C10)
#include "common.hpp"
#include <itlib/expected.hpp>
using namespace vf; using itlib::expected; using itlib::unexpected;
constexpr int ANY = -424242; // content unspecified (moved-from library type)
template <typename T> struct P { // payloads
    static constexpr bool copy = El<T>::copy;
    static int moved(int i) { if constexpr (std::is_arithmetic<T>::value) return i; else if constexpr (std::is_same<T, std::string>::value) return ANY; else if constexpr (std::is_same<T, std::unique_ptr<int>>::value) return 0; else if constexpr (std::is_same<T, TrC>::value) return i; else return MOVED; }
};
template <typename T> void content(const T& t, int want, const char* what) { int got = El<T>::get(t); if (want != ANY) VCHECK(got == want, "value.content", "%s is %d, should be %d", what, got, want); }
template <typename X, typename T> void inside(const X& x, const T* p) { VCHECK((const char*)p >= (const char*)&x && (const char*)(p + 1) <= (const char*)(&x + 1), "value.address", "the payload isn't inside of the expected"); }
struct St { bool has = true; int v = 0; };
template <typename X> void flags(const X& x, const St& s) {
    VCHECK(x.has_value() == s.has && x.has_error() == !s.has && bool(x) == s.has, "value.state", "has_value %d has_error %d bool %d, should %s a value", x.has_value(), x.has_error(), bool(x), s.has ? "have" : "not have");
}
static int nv = 1; static int val() { return nv = nv % 100 + 1; }
static void transition(bool a, bool b) { if (a && b) COV("value = value"); else if (a) COV("value = error"); else if (b) COV("error = value"); else COV("error = error"); }

// ---------------------------------------------------------------- expected<T, E>
template <typename T, typename E> struct Full {
    using X = expected<T, E>; static constexpr int K = 3; static constexpr bool cv = P<T>::copy, ce = P<E>::copy;
    Case& c; Rng& r; std::unique_ptr<X> x[K]; St m[K];
    void check(int i) {
        X& w = *x[i]; const X& cw = w; flags(cw, m[i]);
        if (m[i].has) { content(w.value(), m[i].v, "value()"); content(cw.value(), m[i].v, "const value()"); content(*w, m[i].v, "operator*"); content(*cw, m[i].v, "const operator*"); VCHECK(w.operator->() == &w.value() && cw.operator->() == &cw.value() && &w.value() == &cw.value() && &*w == &w.value(), "value.address", "accessors refer to different objects"); inside(w, &w.value()); }
        else { content(w.error(), m[i].v, "error()"); content(cw.error(), m[i].v, "const error()"); VCHECK(&w.error() == &cw.error(), "value.address", "error() accessors refer to different objects"); inside(w, &w.error()); }
    }
    void construct(int i) {
        x[i].reset(); int v = val(); int how = int(r.below(8));
        uint64_t cp = reg().copies;
        switch (how) {
        case 0: op("x%d=X()", i); x[i].reset(new X()); m[i] = {true, 0}; break;
        case 1: op("x%d=X(value %d)", i, v); x[i].reset(new X(El<T>::make(v))); m[i] = {true, v}; if (cv && El<T>::tracked && !std::is_same<T, TrC>::value) VCHECK(reg().copies == cp, "value.operand", "construction from an rvalue copied"); break;
        case 2: op("x%d=unexpected(%d)", i, v); x[i].reset(new X(unexpected(El<E>::make(v)))); m[i] = {false, v}; if (El<E>::tracked && !std::is_same<E, TrC>::value) VCHECK(reg().copies == cp, "value.operand", "construction from an rvalue error copied"); break;
        case 3: op("x%d=unexpected()", i); x[i].reset(new X(unexpected())); m[i] = {false, 0}; break;
        case 4: if constexpr (ce) { E e = El<E>::make(v); op("x%d=unexpected(lvalue %d)", i, v); x[i].reset(new X(unexpected(e))); m[i] = {false, v}; content(e, v, "the lvalue passed to unexpected"); COV("unexpected(lvalue)"); break; } // fallthrough
        case 5: if constexpr (ce) { const E e = El<E>::make(v); op("x%d=unexpected(const %d)", i, v); x[i].reset(new X(unexpected(e))); m[i] = {false, v}; content(e, v, "the const lvalue passed to unexpected"); break; } // fallthrough
        case 6: if constexpr (El<E>::tracked) { op("x%d=unexpected(convertible %d)", i, v); x[i].reset(new X(unexpected(int(v)))); m[i] = {false, v}; break; } // fallthrough
        default: { int j = (i + 1) % K; op("x%d=X(move x%d)", i, j); x[i].reset(new X(std::move(*x[j]))); m[i] = m[j]; m[j].v = m[j].has ? P<T>::moved(m[j].v) : P<E>::moved(m[j].v); if (!std::is_same<T, TrC>::value && !std::is_same<E, TrC>::value) VCHECK(reg().copies == cp, "value.operand", "move construction copied"); if (m[i].has) COV("move construction of a value"); else COV("move construction of an error"); break; }
        }
    }
    void step() {
        int i = int(r.below(K)), j = int(r.below(K)); X& w = *x[i]; int v = val();
        switch (r.below(10)) {
        case 0: case 1: construct(i); break;
        case 2: case 3: case 4: { op("x%d=move x%d", i, j); uint64_t cp = reg().copies + reg().copy_asgn; transition(m[i].has, m[j].has); if (i == j) COV("self move assignment"); X& ret = (w = std::move(*x[j])); VCHECK(&ret == &w, "value.ret", "operator= returned another object");
            if (i == j) { if (P<T>::moved(m[i].v) == ANY || P<E>::moved(m[i].v) == ANY) m[i].v = ANY; if (std::is_same<T, std::unique_ptr<int>>::value || std::is_same<E, std::unique_ptr<int>>::value) m[i].v = ANY; }
            else { m[i] = m[j]; m[j].v = m[j].has ? P<T>::moved(m[j].v) : P<E>::moved(m[j].v); }
            if (!std::is_same<T, TrC>::value && !std::is_same<E, TrC>::value) VCHECK(reg().copies + reg().copy_asgn == cp, "value.operand", "move assignment copied"); break; }
        case 5: op("x%d=rvalue %d", i, v); if (r.chance(50)) { w = X(El<T>::make(v)); m[i] = {true, v}; } else { w = X(unexpected(El<E>::make(v))); m[i] = {false, v}; } break;
        case 6: if (m[i].has) { op("x%d write value", i); int how = int(r.below(3)); T t = El<T>::make(v); if (how == 0) w.value() = std::move(t); else if (how == 1) *w = std::move(t); else *w.operator->() = std::move(t); m[i].v = v; } else { op("x%d write error", i); w.error() = El<E>::make(v); m[i].v = v; } break;
        case 7: { op("x%d take", i); if (m[i].has) { int ov = m[i].v; bool star = r.chance(50); T&& ref = star ? *std::move(w) : std::move(w).value(); VCHECK(&ref == &w.value(), "value.address", "rvalue accessor refers to another object"); T t(std::move(ref)); content(t, ov, "the value taken"); m[i].v = P<T>::moved(ov); } else { int ov = m[i].v; E&& ref = std::move(w).error(); VCHECK(&ref == &w.error(), "value.address", "rvalue error() refers to another object"); E e(std::move(ref)); content(e, ov, "the error taken"); m[i].v = P<E>::moved(ov); } COV("payload taken"); break; }
        case 8: if constexpr (cv) { op("x%d value_or", i); const X& cw = w; T alt = El<T>::make(v); T got = cw.value_or(alt); content(got, m[i].has ? m[i].v : v, "value_or()"); content(alt, v, "the lvalue passed to value_or"); uint64_t cp = reg().copies, made = m[i].has ? 1 : 0; T alt2 = El<T>::make(v); T g2 = cw.value_or(std::move(alt2)); content(g2, m[i].has ? m[i].v : v, "value_or(rvalue)"); if (El<T>::tracked && !std::is_same<T, TrC>::value) VCHECK(reg().copies - cp == made, "value.operand", "value_or of an rvalue made %d copies", int(reg().copies - cp)); if (m[i].has) content(alt2, v, "the unused rvalue passed to value_or"); if (m[i].has) COV("value_or with value"); else COV("value_or with error"); break; } // fallthrough
        case 9: { op("x%d rvalue value_or", i); T alt = El<T>::make(v); bool lv = false; uint64_t cp = reg().copies; if constexpr (cv) lv = r.chance(50); T got = [&]() -> T { if constexpr (cv) if (lv) return std::move(w).value_or(alt); return std::move(w).value_or(std::move(alt)); }(); content(got, m[i].has ? m[i].v : v, "rvalue value_or()"); if (lv || m[i].has) content(alt, v, "the argument of rvalue value_or"); if (El<T>::tracked && !std::is_same<T, TrC>::value) VCHECK(reg().copies - cp == uint64_t(lv && !m[i].has), "value.operand", "rvalue value_or made %d copies", int(reg().copies - cp)); if (m[i].has) m[i].v = P<T>::moved(m[i].v); break; }
        }
        for (int k = 0; k < K; ++k) check(k);
        if (El<T>::tracked && El<E>::tracked) VCHECK(reg().live == K, "lifetime.count", "%llu payloads alive in %d expecteds", (unsigned long long)reg().live, K);
        state(hcomb(m[0].has * 4 + m[1].has * 2 + m[2].has, hstr(prog()->suite)));
    }
    static void run(Case& c) {
        VCHECK((!std::is_copy_constructible<X>::value && !std::is_copy_assignable<X>::value), "value.traits", "expected<T,E> is documented as move-only");
        { Full h{c, c.rng}; for (int i = 0; i < K; ++i) h.x[i].reset(new X()); int steps = 20 + int(c.rng.below(40)); while (steps--) h.step(); }
        c.interesting();
    }
};
// ---------------------------------------------------------------- expected<T&, E> and expected<void, E>
template <typename V, typename E> struct NoVal { // V is T& or void
    static constexpr bool ref = std::is_reference<V>::value; using X = expected<V, E>; static constexpr int K = 3; using T = std::conditional_t<ref, std::remove_reference_t<V>, int>;
    Case& c; Rng& r; std::unique_ptr<X> x[K]; St m[K]; T* tgt[K] = {}; std::vector<std::remove_const_t<T>> objs;
    void check(int i) {
        X& w = *x[i]; const X& cw = w; flags(cw, m[i]);
        if (m[i].has) { if constexpr (ref) { VCHECK(&w.value() == tgt[i] && &cw.value() == tgt[i] && &*cw == tgt[i] && cw.operator->() == tgt[i], "value.address", "refers to another object"); } }
        else { content(w.error(), m[i].v, "error()"); content(cw.error(), m[i].v, "const error()"); inside(w, &w.error()); }
        if constexpr (ref) { T& o = objs[r.below(objs.size())]; VCHECK(&cw.value_or(o) == (m[i].has ? tgt[i] : &o), "value.address", "value_or refers to another object"); }
    }
    void construct(int i) {
        x[i].reset(); int v = val();
        switch (r.below(6)) {
        case 0: case 1: op("x%d=X(value)", i); if constexpr (ref) { tgt[i] = &objs[r.below(objs.size())]; x[i].reset(new X(*tgt[i])); } else x[i].reset(new X()); m[i] = {true, 0}; break;
        case 2: op("x%d=unexpected(%d)", i, v); x[i].reset(new X(unexpected(El<E>::make(v)))); m[i] = {false, v}; break;
        case 3: op("x%d=unexpected()", i); x[i].reset(new X(unexpected())); m[i] = {false, 0}; break;
        case 4: if constexpr (P<E>::copy) { E e = El<E>::make(v); op("x%d=unexpected(lvalue %d)", i, v); x[i].reset(new X(unexpected(e))); m[i] = {false, v}; content(e, v, "the lvalue passed to unexpected"); break; }
        default: { int j = (i + 1) % K; op("x%d=X(move x%d)", i, j); x[i].reset(new X(std::move(*x[j]))); m[i] = m[j]; tgt[i] = tgt[j]; if (!m[j].has) m[j].v = P<E>::moved(m[j].v); break; }
        }
    }
    void step() {
        int i = int(r.below(K)), j = int(r.below(K)); X& w = *x[i]; int v = val();
        switch (r.below(8)) {
        case 0: case 1: construct(i); break;
        case 2: case 3: case 4: case 5: { op("x%d=move x%d", i, j); transition(m[i].has, m[j].has); X& ret = (w = std::move(*x[j])); VCHECK(&ret == &w, "value.ret", "operator= returned another object"); if (i == j) { if (!m[i].has && (P<E>::moved(1) == ANY || P<E>::moved(1) == 0)) m[i].v = ANY; } else { m[i] = m[j]; tgt[i] = tgt[j]; if (!m[j].has) m[j].v = P<E>::moved(m[j].v); } break; }
        case 6: if (!m[i].has) { op("x%d write error", i); w.error() = El<E>::make(v); m[i].v = v; } break;
        case 7: if (!m[i].has) { op("x%d take error", i); E e(std::move(w).error()); content(e, m[i].v, "the error taken"); m[i].v = P<E>::moved(m[i].v); } break;
        }
        for (int k = 0; k < K; ++k) check(k);
        if (El<E>::tracked) { size_t n = 0; for (auto& s : m) n += !s.has; VCHECK(reg().live == n + (El<T>::tracked ? objs.size() : 0), "lifetime.count", "%llu errors alive, should be %zu", (unsigned long long)reg().live, n); }
    }
    static void run(Case& c) { { NoVal h{c, c.rng}; for (int i = 0; i < 4; ++i) h.objs.push_back(std::remove_const_t<T>(i + 1)); for (int i = 0; i < K; ++i) { if constexpr (ref) { h.tgt[i] = &h.objs[i]; h.x[i].reset(new X(h.objs[i])); } else h.x[i].reset(new X()); } int steps = 20 + int(c.rng.below(40)); while (steps--) h.step(); } c.interesting(); }
};
// ---------------------------------------------------------------- expected<T, void>
template <typename T> struct Opt {
    using X = expected<T, void>; static constexpr int K = 3; static constexpr bool cp = P<T>::copy;
    Case& c; Rng& r; std::unique_ptr<X> x[K]; St m[K];
    void check(int i) { X& w = *x[i]; const X& cw = w; flags(cw, m[i]); if (m[i].has) { content(w.value(), m[i].v, "value()"); content(cw.value(), m[i].v, "const value()"); content(*w, m[i].v, "*"); content(*cw, m[i].v, "const *"); VCHECK(w.operator->() == &w.value() && cw.operator->() == &cw.value(), "value.address", "accessors refer to different objects"); inside(w, &w.value()); } }
    void construct(int i) {
        x[i].reset(); int v = val(), j = (i + 1) % K;
        switch (r.below(5)) {
        case 0: op("x%d=X()", i); x[i].reset(new X()); m[i] = {true, 0}; break;
        case 1: op("x%d=X(%d)", i, v); x[i].reset(new X(El<T>::make(v))); m[i] = {true, v}; break;
        case 2: op("x%d=unexpected", i); x[i].reset(new X(unexpected())); m[i] = {false, 0}; break;
        case 3: if constexpr (cp) { op("x%d=X(x%d)", i, j); x[i].reset(new X(static_cast<const X&>(*x[j]))); m[i] = m[j]; break; }
        default: op("x%d=X(move x%d)", i, j); x[i].reset(new X(std::move(*x[j]))); m[i] = m[j]; if (m[j].has) m[j].v = P<T>::moved(m[j].v); break;
        }
    }
    void step() {
        int i = int(r.below(K)), j = int(r.below(K)); X& w = *x[i]; int v = val();
        switch (r.below(11)) {
        case 0: construct(i); break;
        case 1: case 2: op("x%d=move x%d", i, j); transition(m[i].has, m[j].has); w = std::move(*x[j]); if (i == j) { if (P<T>::moved(1) == ANY || P<T>::moved(1) == 0) m[i].v = ANY; } else { m[i] = m[j]; if (m[j].has) m[j].v = P<T>::moved(m[j].v); } break;
        case 3: case 4: if constexpr (cp) { op("x%d=x%d", i, j); transition(m[i].has, m[j].has); w = static_cast<const X&>(*x[j]); m[i] = m[j]; COV("copy assignment"); } break;
        case 5: op("x%d.clear", i); w.clear(); m[i] = {false, 0}; break;
        case 6: op("x%d.emplace(%d)", i, v); if constexpr (cp) if (r.chance(50)) { T a = El<T>::make(v); w.emplace(a); content(a, v, "the lvalue passed to emplace"); m[i] = {true, v}; break; } w.emplace(El<T>::make(v)); m[i] = {true, v}; break;
        case 7: if constexpr (El<T>::tracked) { op("x%d.emplace(int %d)", i, v); w.emplace(v); m[i] = {true, v}; } break;
        case 8: if constexpr (El<T>::tracked) { // the payload's constructor or assignment throws
            bool cpy = cp && r.chance(60); op("x%d throwing %s", i, cpy ? "copy assignment" : "emplace"); bool before = m[i].has; fault().elem = 0;
            bool thrown = false;
            try { if (cpy) { if constexpr (cp) w = static_cast<const X&>(*x[j]); } else w.emplace(v); } catch (Injected&) { thrown = true; }
            bool fired = fault().fired; fault().off(); VCHECK(thrown == fired, "value.exception", "an exception was swallowed");
            if (fired) { COV("payload exception"); if (!cpy) { m[i] = {false, 0}; } else if (before) { /* assignment failed: the value stays */ } else m[i] = {false, 0}; }
            else if (cpy) { if (i != j) m[i] = m[j]; } else m[i] = {true, v};
        } break;
        case 9: if constexpr (cp) { op("x%d value_or", i); const X& cw = w; T alt = El<T>::make(v); T g = cw.value_or(alt); content(g, m[i].has ? m[i].v : v, "value_or"); content(alt, v, "value_or's argument"); } break;
        case 10: { op("x%d rvalue access", i); if (m[i].has && r.chance(50)) { int ov = m[i].v; T t(r.chance(50) ? *std::move(w) : std::move(w).value()); content(t, ov, "the value taken"); m[i].v = P<T>::moved(ov); } else { T alt = El<T>::make(v); bool lv = false; if constexpr (cp) lv = r.chance(50); T g = [&]() -> T { if constexpr (cp) if (lv) return std::move(w).value_or(alt); return std::move(w).value_or(std::move(alt)); }(); content(g, m[i].has ? m[i].v : v, "rvalue value_or"); if (lv || m[i].has) content(alt, v, "the argument of rvalue value_or"); if (m[i].has) m[i].v = P<T>::moved(m[i].v); } break; }
        }
        for (int k = 0; k < K; ++k) check(k);
        if (El<T>::tracked) { size_t n = 0; for (auto& s : m) n += s.has; VCHECK(reg().live == n, "lifetime.count", "%llu values alive, should be %zu", (unsigned long long)reg().live, n); }
    }
    static void run(Case& c) { { Opt h{c, c.rng}; for (int i = 0; i < K; ++i) h.x[i].reset(new X()); int steps = 20 + int(c.rng.below(40)); while (steps--) h.step(); } c.interesting(); }
};
#define H(name, q, ...) static void VF_CAT(hf_, __LINE__)(Case& c) { __VA_ARGS__::run(c); } REG_SUITE(name, q, q * 40, &VF_CAT(hf_, __LINE__))
using UP = std::unique_ptr<int>;
#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
H("ex.tr.trm", 150, Full<Tr, TrM>);
H("ex.trm.tr", 150, Full<TrM, Tr>);
H("ex.tr.tr", 150, Full<Tr, Tr>);
H("ex.int.str", 100, Full<int, std::string>);
H("ex.str.int", 100, Full<std::string, int>);
#endif
#if PART == 0 || PART == 2
H("ex.up.tr", 100, Full<UP, Tr>);
H("ex.trc.trtm", 100, Full<TrC, TrTM>);
H("ex.ref.tr", 150, NoVal<int&, Tr>);
H("ex.ref.trm", 100, NoVal<const int&, TrM>);
H("ex.ref.str", 50, NoVal<Tr&, std::string>);
H("ex.void.tr", 150, NoVal<void, Tr>);
H("ex.void.trm", 100, NoVal<void, TrM>);
H("ex.void.str", 50, NoVal<void, std::string>);
H("ex.void.int", 50, NoVal<void, int>);
H("ex.opt.tr", 200, Opt<Tr>);
H("ex.opt.trm", 100, Opt<TrM>);
H("ex.opt.trc", 100, Opt<TrC>);
H("ex.opt.str", 50, Opt<std::string>);
// the remaining ones hold no object
SUITE("ex.plain", 50, 500) {
    int a = 1, b = 2; using R = expected<int&, void>; using V = expected<void, void>; Rng& r = c.rng;
    R x(a); int* m = &a; V v; bool mv = true; VCHECK(v.has_value(), "value.state", "a default expected<void,void> has no value");
    for (int k = 0; k < 30; ++k) switch (r.below(9)) {
    case 0: op("clear"); x.clear(); m = nullptr; v.clear(); mv = false; break;
    case 1: op("emplace"); x.emplace(b); m = &b; v.emplace(); mv = true; break;
    case 2: op("assign"); { R y(r.chance(50) ? a : b); int* t = &*y; x = y; m = t; V w; v = w; mv = true; } break;
    case 3: op("unexpected"); x = R(unexpected()); m = nullptr; v = V(unexpected()); mv = false; break;
    case 4: op("copy"); { R y(x); V w(v); VCHECK(y.has_value() == !!m && w.has_value() == mv, "value.state", "a copy has another state"); if (m) VCHECK(&y.value() == m, "value.address", "a copy refers to another object"); x = std::move(y); v = std::move(w); } break;
    default: { const R& cx = x; VCHECK(cx.has_value() == !!m && cx.has_error() == !m && bool(cx) == !!m, "value.state", "expected<T&,void> state"); if (m) VCHECK(&cx.value() == m && &*cx == m && cx.operator->() == m, "value.address", "expected<T&,void> refers to another object"); VCHECK(&cx.value_or(a) == (m ? m : &a), "value.address", "value_or"); const V& cv = v; VCHECK(cv.has_value() == mv && cv.has_error() == !mv && bool(cv) == mv, "value.state", "expected<void,void> state"); COV("plain checks"); }
    }
    c.interesting();
}
// value_or with an alternative of another type gives the value, as if converted separately
SUITE("ex.value_or", 50, 500) {
    Rng& r = c.rng; long long big = (long long)(r.next() >> 2); op("value_or %lld", big);
    { expected<long long, int> x((long long)big); long long g = x.value_or(0.5); VCHECK(g == big, "value.value_or", "value_or(double) changed the value %lld to %lld", big, g); VCHECK(std::move(x).value_or(1.5f) == big, "value.value_or", "rvalue value_or(float) changed the value"); }
    { expected<long long, void> x((long long)big); const auto& cx = x; VCHECK(cx.value_or(2.5) == big && std::move(x).value_or(0.5f) == big, "value.value_or", "value_or(double) changed the value of an eoptional"); }
    { expected<long long, int> x = unexpected(1); VCHECK(x.value_or(7.5) == 7, "value.value_or", "value_or(7.5) as long long"); }
    { expected<std::string, int> x(std::string("abc")); VCHECK(x.value_or("zz") == "abc" && std::move(x).value_or("y") == "abc", "value.value_or", "value_or(C string)"); expected<std::string, int> y = unexpected(3); VCHECK(y.value_or("zz") == "zz" && y.error() == 3, "value.value_or", "value_or(C string) of an error"); }
    { expected<UP, int> x(UP(new int(4))); UP p = std::move(x).value_or(nullptr); VCHECK(p && *p == 4, "value.value_or", "value_or(nullptr)"); expected<UP, int> y = unexpected(3); VCHECK(!std::move(y).value_or(nullptr), "value.value_or", "value_or(nullptr) of an error"); }
    COV("value_or of another type"); c.interesting();
}
#endif
