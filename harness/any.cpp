// any: ownership, exact types, allocators (C11)
#include "common.hpp"
#include <itlib/any.hpp>
#include <itlib/any.hpp> // headers can be included twice
#if __cplusplus >= 201703L
#include <itlib/pmr_allocator.hpp>
#include <itlib/pmr_allocator.hpp>
#include <memory_resource>
#endif
using namespace vf; using itlib::any; using itlib::any_cast;

// byte allocators over the ledger
struct LBytes { // stateful
    int arena = 0; LBytes() = default; explicit LBytes(int a) : arena(a) {}
    void* allocate_bytes(size_t n, size_t a) { fault().alloc_point(); void* p = nullptr; if (posix_memalign(&p, a < 8 ? 16 : 2 * a, n + a)) throw std::bad_alloc(); p = (char*)p + a; memset(p, 0xcd, n); ledger().add(p, n, a, arena); return p; } // aligned to a and not to more
    void deallocate_bytes(void* p, size_t n, size_t a) noexcept { ledger().remove(p, n, a, arena); free((char*)p - a); }
    friend bool operator==(const LBytes& a, const LBytes& b) { return a.arena == b.arena; }
    friend bool operator!=(const LBytes& a, const LBytes& b) { return a.arena != b.arena; }
};
struct LEmpty { // stateless
    void* allocate_bytes(size_t n, size_t a) { return LBytes(7).allocate_bytes(n, a); }
    void deallocate_bytes(void* p, size_t n, size_t a) noexcept { LBytes(7).deallocate_bytes(p, n, a); }
};
#if __cplusplus >= 201703L
struct LRes : std::pmr::memory_resource {
    int arena; explicit LRes(int a) : arena(a) {}
    void* do_allocate(size_t n, size_t a) override { return LBytes(arena).allocate_bytes(n, a); }
    void do_deallocate(void* p, size_t n, size_t a) override { LBytes(arena).deallocate_bytes(p, n, a); }
    bool do_is_equal(const memory_resource& o) const noexcept override { auto l = dynamic_cast<const LRes*>(&o); return l && l->arena == arena; }
};
static LRes& res(int a) { static LRes r[4] = {LRes(0), LRes(1), LRes(2), LRes(3)}; return r[a]; }
#endif
template <typename A> struct AA;
template <> struct AA<LBytes> { static LBytes make(int a) { return LBytes(a); } static int arena(const LBytes& a) { return a.arena; } static constexpr bool steal(int a, int b) { return a == b; } static constexpr int fresh = 0; static constexpr bool led = true; };
template <> struct AA<LEmpty> { static LEmpty make(int) { return {}; } static int arena(const LEmpty&) { return 7; } static constexpr bool steal(int, int) { return true; } static constexpr int fresh = 7; static constexpr bool led = true; };
template <> struct AA<itlib::anyimpl::default_allocator> { using D = itlib::anyimpl::default_allocator; static D make(int) { return {}; } static int arena(const D&) { return 7; } static constexpr bool steal(int, int) { return true; } static constexpr int fresh = 7; static constexpr bool led = false; };
#if __cplusplus >= 201703L
template <> struct AA<itlib::pmr_allocator<>> { using D = itlib::pmr_allocator<>; static D make(int a) { return D(&res(a)); } static int arena(const D& d) { return static_cast<LRes*>(d.resource())->arena; } static constexpr bool steal(int a, int b) { return a == b; } static constexpr int fresh = 0; static constexpr bool led = true; };
#endif

enum Ty { None, Int, Str, TTr, TTrM, TTrC, TTrTM, TBig, TUp, TShared, NTy };
using UP = std::unique_ptr<int>; using SP = std::shared_ptr<int>;
namespace vf { template <> struct El<SP> { static SP make(int i) { return std::make_shared<int>(i); } static int get(const SP& p) { return p ? *p : 0; } static constexpr bool copy = true, tracked = false, by_value = false; }; }
template <int T> struct Ty_; template <> struct Ty_<Int> { using t = int; }; template <> struct Ty_<Str> { using t = std::string; }; template <> struct Ty_<TTr> { using t = Tr; }; template <> struct Ty_<TTrM> { using t = TrM; }; template <> struct Ty_<TTrC> { using t = TrC; };
template <> struct Ty_<TTrTM> { using t = TrTM; }; template <> struct Ty_<TBig> { using t = Big; }; template <> struct Ty_<TUp> { using t = UP; }; template <> struct Ty_<TShared> { using t = SP; };
template <typename F> void with_type(int ty, F f) {
    switch (ty) { case Int: f(int()); break; case Str: f(std::string()); break; case TTr: f(Tr()); break; case TTrM: f(TrM()); break; case TTrC: f(TrC()); break; case TTrTM: f(TrTM()); break; case TBig: f(Big()); break; case TUp: f(UP()); break; case TShared: f(SP()); break; }
}
static bool copyable(int ty) { return ty != TTrM && ty != TUp; }
static bool tracked(int ty) { return ty == TTr || ty == TTrM || ty == TTrC || ty == TTrTM; }
static const std::type_info& type_of(int ty) { switch (ty) { case Int: return typeid(int); case Str: return typeid(std::string); case TTr: return typeid(Tr); case TTrM: return typeid(TrM); case TTrC: return typeid(TrC); case TTrTM: return typeid(TrTM); case TBig: return typeid(Big); case TUp: return typeid(UP); case TShared: return typeid(SP); } return typeid(void); }

template <typename A> struct H {
    using X = any<A>; static constexpr int K = 3;
    Case& c; Rng& r; std::unique_ptr<X> x[K]; struct M { int ty = None, v = 0, arena = 0; const void* at = nullptr; } m[K];
    int nv = 1; int val() { return nv = nv % 100 + 1; }
    template <typename T> static int get(const T& t) { return El<T>::get(t); }
    template <typename T> void cast_check(X& w, const M& s, bool is) {
        const X& cw = w; T* p = any_cast<T>(&w); const T* q = any_cast<T>(&cw);
        VCHECK(!!p == is && !!q == is, "value.cast", "any_cast of a pointer %s", is ? "failed for the type held" : "succeeded for another type");
        VCHECK(any_cast<const T>(&cw) == q && any_cast<const T>(&w) == p, "value.cast", "any_cast to const differs");
        if (is) {
            VCHECK((const void*)p == w.data() && (const void*)q == cw.data() && w.template tdata<T>() == p && cw.template tdata<T>() == p, "value.cast", "any_cast and data differ");
            VCHECK(&any_cast<T&>(w) == p && &any_cast<const T&>(cw) == p && &any_cast<const T&>(w) == p, "value.cast", "any_cast to a reference refers to another object");
            VCHECK(get(*p) == s.v, "value.content", "holds %d, should hold %d", get(*p), s.v);
            VCHECK(reinterpret_cast<uintptr_t>(p) % alignof(T) == 0, "value.align", "the value is misaligned");
        } else {
            int thrown = 0; try { any_cast<T&>(w); } catch (std::bad_cast&) { ++thrown; } try { any_cast<const T&>(cw); } catch (std::bad_cast&) { ++thrown; } try { any_cast<T&&>(std::move(w)); } catch (std::bad_cast&) { ++thrown; }
            VCHECK(thrown == 3, "value.cast", "any_cast of a reference to another type didn't throw bad_cast"); COV("casts to another type");
        }
    }
    void check(int i) {
        X& w = *x[i]; const X& cw = w; auto& s = m[i]; bool has = s.ty != None;
        VCHECK(cw.has_value() == has && bool(cw) == has && !w.data() == !has && !cw.data() == !has, "value.state", "has_value %d, should be %d", cw.has_value(), has);
        VCHECK(cw.type() == (has ? type_of(s.ty) : typeid(void)), "value.type", "type() is %s, should be %s", cw.type().name(), type_of(s.ty).name());
        VCHECK(AA<A>::arena(cw.get_allocator()) == s.arena || AA<A>::fresh == 7, "value.allocator", "the allocator changed to %d from %d", AA<A>::arena(cw.get_allocator()), s.arena);
        int probe = has && r.chance(70) ? s.ty : 1 + int(r.below(NTy - 1));
        with_type(probe, [&](auto t) { using T = decltype(t); cast_check<T>(w, s, probe == s.ty); });
        if (has && AA<A>::led) { auto e = ledger().owner(w.data()); VCHECK(e, "alloc.outside", "the value isn't in a block of the allocator"); VCHECK(e->arena == (AA<A>::fresh == 7 ? 7 : s.arena), "alloc.wrong-arena", "the value is in a block of allocator %d, not of %d", e->arena, s.arena); }
        if (has && s.at) VCHECK(w.data() == s.at, "value.address", "the value moved without cause");
        if (has) s.at = w.data();
    }
    int moved(int ty, int v) { switch (ty) { case TTr: case TTrM: case TTrTM: return MOVED; case TUp: case TShared: return 0; case Str: return -1; default: return v; } } // -1: unspecified
    void put(int i, int ty, int how, int v, bool ctor) { // a value of type ty in x[i]
        auto& s = m[i]; const char* hn[] = {"rvalue", "lvalue", "const lvalue", "emplace", "allocator_arg rvalue", "allocator_arg lvalue"};
        if ((how == 1 || how == 2 || how == 5) && !copyable(ty)) how = 0;
        if (ctor && how == 3) how = 4;
        if (!ctor && how > 3) how -= 4;
        op("x%d %s %s type%d=%d", i, ctor ? "ctor" : "=", hn[how], ty, v);
        if (ctor) x[i].reset();
        with_type(ty, [&](auto t0) { using T = decltype(t0);
            T t = El<T>::make(v); const T& ct = t; int a = s.arena; (void)a;
            if constexpr (El<T>::copy) {
                switch (how) {
                case 1: if (ctor) { x[i].reset(new X(t)); a = AA<A>::fresh; } else { auto& ret = (*x[i] = t); VCHECK(&ret == x[i].get(), "value.ret", "operator="); } COV("lvalue stored"); break;
                case 2: if (ctor) { x[i].reset(new X(ct)); a = AA<A>::fresh; } else *x[i] = ct; COV("lvalue stored"); break;
                case 5: a = int(r.below(3)); x[i].reset(new X(std::allocator_arg, AA<A>::make(a), t)); break;
                }
                if (how == 1 || how == 2 || how == 5) { VCHECK(x[i]->data() != (void*)&t, "value.own", "refers to the lvalue it was made from"); VCHECK(get(t) == v, "value.source", "the lvalue was changed"); }
            }
            switch (how) {
            case 0: if (ctor) { x[i].reset(new X(std::move(t))); a = AA<A>::fresh; } else *x[i] = std::move(t); break;
            case 3: { uint64_t mv = reg().copies + reg().moves; T& ref = x[i]->template emplace<T>(std::move(t)); VCHECK((void*)&ref == x[i]->data(), "value.emplace", "emplace returned another object"); break; }
            case 4: a = int(r.below(3)); x[i].reset(new X(std::allocator_arg, AA<A>::make(a), std::move(t))); break;
            }
            s = {ty, v, a, nullptr};
        });
    }
    size_t live_expected() { size_t n = 0; for (auto& s : m) n += tracked(s.ty); return n; }
    void step() {
        int i = int(r.below(K)), j = int(r.below(K)); X& w = *x[i]; auto& s = m[i]; int v = val(), ty = 1 + int(r.below(NTy - 1));
        switch (r.below(14)) {
        case 0: case 1: put(i, ty, int(r.below(6)), v, true); break;
        case 2: case 3: case 4: put(i, ty, int(r.below(4)), v, false); break;
        case 5: { op("x%d.reset", i); w.reset(); s.ty = None; s.at = nullptr; break; }
        case 6: { int a = int(r.below(3)); op("x%d=X(alloc %d)", i, a); x[i].reset(); x[i].reset(r.chance(50) ? new X(static_cast<const A&>(AA<A>::make(a))) : new X(std::allocator_arg, AA<A>::make(a))); s = {None, 0, a, nullptr}; break; }
        case 7: { op("x%d=X(copy x%d)", i, j); M src = m[j]; X* p = nullptr; bool bad = false; int a = AA<A>::fresh; try { if (r.chance(50)) p = new X(static_cast<const X&>(*x[j])); else { a = int(r.below(3)); p = new X(static_cast<const X&>(*x[j]), AA<A>::make(a)); } } catch (std::bad_cast&) { bad = true; }
            VCHECK(bad == (src.ty != None && !copyable(src.ty)), "value.copy", "copying a type%d %s", src.ty, bad ? "threw bad_cast" : "didn't throw bad_cast"); if (bad) { COV("copy of a non-copyable"); break; }
            x[i].reset(p); s = src; s.arena = a; s.at = nullptr; COV("copied"); break; }
        case 8: { op("x%d=x%d", i, j); M src = m[j]; bool bad = false; try { auto& ret = (w = static_cast<const X&>(*x[j])); VCHECK(&ret == &w, "value.ret", "operator="); } catch (std::bad_cast&) { bad = true; }
            if (i == j) { COV("self copy assignment"); if (!bad) s.at = nullptr; break; } // stays as it is in any case
            VCHECK(bad == (src.ty != None && !copyable(src.ty)), "value.copy", "copy-assigning a type%d %s", src.ty, bad ? "threw bad_cast" : "didn't throw bad_cast");
            if (bad) { COV("copy of a non-copyable"); break; }
            int a = s.arena; s = src; s.arena = a; s.at = nullptr; COV("copied"); break; }
        case 9: if (i != j) { op("x%d=X(move x%d)", i, j); int al = ledger().allocs; x[i].reset(); x[i].reset(new X(std::move(*x[j]))); VCHECK(int(ledger().allocs) == al, "alloc.move", "move construction allocated"); s = m[j]; m[j].ty = None; m[j].at = nullptr; COV("moved"); } break;
        case 10: { op("x%d=move x%d", i, j); bool st = AA<A>::steal(s.arena, m[j].arena); auto& ret = (w = std::move(*x[j])); VCHECK(&ret == &w, "value.ret", "operator=");
            if (i == j) { COV("self move assignment"); break; }
            if (!st) COV("move assignment between allocators"); int a = s.arena; s = m[j]; s.arena = a; if (!st) s.at = nullptr; m[j].ty = None; m[j].at = nullptr; COV("moved"); break; }
        case 11: if (s.ty != None) { op("x%d take type%d", i, s.ty); with_type(s.ty, [&](auto t0) { using T = decltype(t0); int how = int(r.below(3)); int ov = s.v;
                if (how == 0) { if constexpr (El<T>::copy) { T t = any_cast<T>(w); VCHECK(get(t) == ov, "value.cast", "any_cast gave %d not %d", get(t), ov); const X& cw = w; T u = any_cast<T>(cw); VCHECK(get(u) == ov, "value.cast", "any_cast"); } }
                else if (how == 1) { T t = any_cast<T>(std::move(w)); VCHECK(get(t) == ov, "value.cast", "any_cast of an rvalue gave %d not %d", get(t), ov); s.v = moved(s.ty, ov); }
                else { any_cast<T&>(w) = El<T>::make(v); s.v = v; }
                if (how == 1 && s.v == -1) { any_cast<T&>(w) = El<T>::make(v); s.v = v; } }); } break;
        case 12: { // a value whose construction or an allocation fails
            int what = int(r.below(4)); M before = s; bool al = r.chance(40); op("x%d fault %d %s", i, what, al ? "alloc" : "element"); bool thrown = false;
            if (what == 0) { Tr t(v); al ? fault().alloc = 0 : fault().elem = 0; try { w = static_cast<const Tr&>(t); } catch (Injected&) { thrown = true; } catch (std::bad_alloc&) { thrown = true; } bool f = fault().fired; fault().off(); VCHECK(thrown == f, "value.exception", "swallowed"); if (!f) s = {TTr, v, s.arena, nullptr}; else if (w.has_value()) s = before; else s.ty = None; }
            else if (what == 1) { al ? fault().alloc = 0 : fault().elem = 0; try { w.template emplace<Tr>(v); } catch (Injected&) { thrown = true; } catch (std::bad_alloc&) { thrown = true; } bool f = fault().fired; fault().off(); VCHECK(thrown == f, "value.exception", "swallowed"); if (!f) s = {TTr, v, s.arena, nullptr}; else { VCHECK(!w.has_value(), "value.emplace", "has a value after a failed emplace"); s.ty = None; s.at = nullptr; } }
            else if (what == 2 && i != j && copyable(m[j].ty)) { al ? fault().alloc = 0 : fault().elem = 0; try { w = static_cast<const X&>(*x[j]); } catch (Injected&) { thrown = true; } catch (std::bad_alloc&) { thrown = true; } bool f = fault().fired; fault().off(); VCHECK(thrown == f, "value.exception", "swallowed"); int a = s.arena; if (!f) { s = m[j]; s.arena = a; s.at = nullptr; } else if (w.has_value()) s = before; else { s.ty = None; s.at = nullptr; } }
            else if (what == 3) { Tr t(v); al ? fault().alloc = 0 : fault().elem = 0; try { X y(std::allocator_arg, w.get_allocator(), static_cast<const Tr&>(t)); X z(y); } catch (Injected&) { thrown = true; } catch (std::bad_alloc&) { thrown = true; } bool f = fault().fired; fault().off(); VCHECK(thrown == f, "value.exception", "swallowed"); }
            if (thrown) COV("faults"); break; }
        case 13: { // a part of the own value is assigned
            int how = int(r.below(4)); op("x%d aliased %d", i, how);
            if (how == 0) { w = Tr(v); s = {TTr, v, s.arena, nullptr}; w = any_cast<Tr&>(w); }
            else if (how == 1) { std::string str = El<std::string>::make(v); w = str; w = std::move(any_cast<std::string&>(w)); s = {Str, v, s.arena, nullptr}; }
            else if (how == 2) { std::vector<X> vec; vec.emplace_back(Tr(v)); vec.emplace_back(); w = std::move(vec); w = static_cast<const X&>(any_cast<std::vector<X>&>(w)[0]); s = {TTr, v, s.arena, nullptr}; }
            else { std::vector<X> vec(1); vec[0] = Tr(v); w = std::move(vec); w = std::move(any_cast<std::vector<X>&>(w)[0]); s = {TTr, v, s.arena, nullptr}; }
            COV("own value assigned"); break; }
        }
        for (int k = 0; k < K; ++k) check(k);
        VCHECK(reg().live == live_expected(), "lifetime.count", "%llu values alive, should be %zu", (unsigned long long)reg().live, live_expected());
        if (AA<A>::led) { int blocks = 0; for (auto& q : m) blocks += q.ty != None; VCHECK(ledger().live() == blocks, "alloc.count", "%d blocks for %d values", ledger().live(), blocks); }
        state(hcomb(m[0].ty * 100 + m[1].ty * 10 + m[2].ty, hstr(prog()->suite)));
    }
    static void run(Case& c) {
#if __cplusplus >= 201703L
        std::pmr::set_default_resource(&res(0));
#endif
        { H h{c, c.rng}; for (int i = 0; i < K; ++i) { h.x[i].reset(new X()); h.m[i].arena = AA<A>::fresh; } int steps = 20 + int(c.rng.below(40)); while (steps--) h.step(); }
        c.interesting();
    }
};
#define S(name, q, ...) static void VF_CAT(hf_, __LINE__)(Case& c) { __VA_ARGS__::run(c); } REG_SUITE(name, q, q * 40, &VF_CAT(hf_, __LINE__))
#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
S("any.stateful", 200, H<LBytes>);
S("any.stateless", 150, H<LEmpty>);
#endif
#if PART == 0 || PART == 2
S("any.default", 150, H<itlib::anyimpl::default_allocator>);
S("any.pmr", 200, H<itlib::pmr_allocator<>>);
static int fn1(int i) { return i + 1; }
struct NoMove { int v; explicit NoMove(int i) : v(i) {} NoMove(const NoMove&) = delete; NoMove& operator=(const NoMove&) = delete; };
template <size_t N> struct Large { char b[N]; explicit Large(int v) { for (size_t i = 0; i < N; ++i) b[i] = char(size_t(v) + i * 7); } bool is(int v) const { for (size_t i = 0; i < N; ++i) if (b[i] != char(size_t(v) + i * 7)) return false; return true; } };
template <size_t N, typename A1, typename A2> void large(int v, A1 a1, A2 a2) { typedef Large<N> L; op("%zu bytes", N); any<A1> a(std::allocator_arg, a1, L(v)); any<A1> b(a); any<A2> d(a, a2); VCHECK(any_cast<L&>(a).is(v) && any_cast<L&>(b).is(v) && any_cast<L&>(d).is(v), "value.content", "a large value"); b.template emplace<L>(v + 1); any<A1> e(std::move(b)); a = std::move(e); VCHECK(any_cast<L&>(a).is(v + 1) && any_cast<L&>(d).is(v), "value.content", "a large value"); L l(v + 2); d = l; d = 5; d = std::move(l); VCHECK(any_cast<L&>(d).is(v + 2), "value.content", "a large value"); COV("large values"); }
struct Base { virtual ~Base() {} int b = 1; }; struct Derived : Base { int d = 2; };
SUITE("any.types", 50, 500) {
    Rng& r = c.rng; op("types");
    { any<> a("abc"); VCHECK(a.type() == typeid(const char*) && !strcmp(any_cast<const char*>(a), "abc"), "value.type", "an array isn't stored as a pointer"); char buf[4] = "xy"; a = buf; VCHECK(any_cast<char*>(&a) && any_cast<char*>(a) == buf, "value.type", "an array isn't stored as a pointer"); }
    { any<> a(fn1); VCHECK(any_cast<int (*)(int)>(&a) && any_cast<int (*)(int)>(a)(4) == 5, "value.type", "a function isn't stored as a pointer"); }
    { const int ci = int(r.below(1000)); any<> a(ci); VCHECK(any_cast<int>(&a) && any_cast<int>(a) == ci, "value.type", "const int"); const std::string cs = "const"; a = std::move(cs); VCHECK(any_cast<std::string>(a) == "const" && cs == "const", "value.type", "const string"); volatile int vi = 3; a = vi; VCHECK(a.type() == typeid(int) && any_cast<int>(a) == 3, "value.type", "volatile int"); }
    { any<> a; auto& nm = a.emplace<NoMove>(7); VCHECK(&nm == any_cast<NoMove>(&a) && nm.v == 7, "value.emplace", "immovable"); any<> b(std::move(a)); VCHECK(!a.has_value() && any_cast<NoMove>(&b) == &nm, "value.move", "immovable value moved"); bool bad = false; try { a = b; } catch (std::bad_cast&) { bad = true; } VCHECK(bad && any_cast<NoMove>(&b), "value.copy", "copy of an immovable");
      any<LBytes> c(std::allocator_arg, LBytes(1)), d(std::allocator_arg, LBytes(2)); c.emplace<NoMove>(8); if (r.chance(50)) d = Tr(5); const int was = d.has_value() ? 5 : 0; bad = false; try { d = std::move(c); } catch (std::bad_cast&) { bad = true; } // it can't be moved into a block of another allocator
      VCHECK(bad && any_cast<NoMove>(&c) && any_cast<NoMove&>(c).v == 8 && (!d.has_value() || (was && any_cast<Tr&>(d).v == was)), "value.move", "move of an immovable to another allocator"); any<LBytes> e(std::allocator_arg, LBytes(1)); e = std::move(c); VCHECK(any_cast<NoMove&>(e).v == 8 && !c.has_value(), "value.move", "move of an immovable"); COV("immovable values"); }
    { any<> a{Derived()}; VCHECK(!any_cast<Base>(&a) && any_cast<Derived>(&a) && any_cast<Derived&>(a).d == 2, "value.cast", "cast to a base succeeded"); a = static_cast<Base&&>(Base()); VCHECK(!any_cast<Derived>(&a), "value.cast", "cast to a derived"); }
    { any<> a(true); VCHECK(!any_cast<int>(&a) && !any_cast<char>(&a) && any_cast<bool>(a), "value.cast", "bool as int"); a = 1u; VCHECK(!any_cast<int>(&a) && any_cast<unsigned>(a) == 1, "value.cast", "unsigned as int"); a = 5LL; VCHECK(!any_cast<long>(&a), "value.cast", "long long as long"); }
    { any<> in(Tr(4)); any<> out; out.template emplace<any<>>(in); VCHECK(out.type() == typeid(any<>) && any_cast<Tr&>(any_cast<any<>&>(out)).v == 4, "value.nested", "nested any"); any<> o2 = out; VCHECK(any_cast<Tr&>(any_cast<any<>&>(o2)).v == 4 && reg().live == 3, "value.nested", "copy of a nested any"); }
    { VCHECK(!any_cast<int>(nullptr), "value.cast", "cast of nullptr"); any<>* n = nullptr; const any<>* cn = nullptr; VCHECK(!any_cast<int>(n) && !any_cast<int>(cn), "value.cast", "cast of null pointers"); }
    { // between allocators of different types
        any<LBytes> a(std::allocator_arg, LBytes(2), Tr(6)); any<LEmpty> b(a); any<> d(b); any<LBytes> e(d, LBytes(1)); VCHECK(any_cast<Tr&>(b).v == 6 && any_cast<Tr&>(d).v == 6 && any_cast<Tr&>(e).v == 6 && any_cast<Tr&>(a).v == 6 && reg().live == 4, "value.copy", "copy to another allocator");
        b.copy_from(e); d.copy_from(any<LEmpty>()); VCHECK(any_cast<Tr&>(b).v == 6 && !d.has_value(), "value.copy", "copy_from another allocator"); COV("copies between allocator types"); }
    { int v = int(r.below(99)); typedef itlib::anyimpl::default_allocator D; large<255>(v, LBytes(1), LBytes(2)); large<256>(v, D(), LBytes(2)); large<4099>(v, LBytes(0), LBytes(0)); large<70000>(v, LBytes(1), D()); large<65536>(v, LEmpty(), LBytes(3)); large<33000>(v, D(), D()); VCHECK(ledger().live() == 0, "alloc.leak", "%d blocks left", ledger().live()); }
    { struct alignas(128) Huge { char b[1000]; int v = 9; }; any<> a{Huge()}; VCHECK(uintptr_t(any_cast<Huge>(&a)) % 128 == 0 && any_cast<Huge&>(a).v == 9, "value.align", "over-aligned value"); }
    c.interesting();
}
#endif
