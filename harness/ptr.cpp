// make_shared / make_unique / make_aliased / enable_shared_from: ownership histories (C26)
#include "common.hpp"
#include <itlib/make_ptr.hpp>
#include <itlib/shared_from.hpp>
using namespace vf;
struct Sub { Tr t; int arr[3]; Sub(int i) : t(i) { arr[0] = arr[1] = arr[2] = i; } };
struct Obj : public itlib::enable_shared_from {
    Tr id; Sub sub; explicit Obj(int i) : id(i), sub(i + 1) {} virtual ~Obj() {}
    using enable_shared_from::shared_from; using enable_shared_from::weak_from; using enable_shared_from::shared_from_this; using enable_shared_from::weak_from_this;
};
struct Other { Tr o; explicit Other(int i) : o(i) {} virtual ~Other() {} };
struct MI : Other, Obj { Tr last; explicit MI(int i) : Other(i), Obj(i), last(i) {} };
struct VB : virtual Obj { Tr vb; explicit VB(int i) : Obj(i), vb(i) {} };
enum { TObj = 4 - 1, TMI = 5, TVB = 4 }; // tracked parts per type: Obj id+sub = 2
static int parts_of(int kind) { return kind == 0 ? 2 : kind == 1 ? 4 : 3; }
using SPV = std::shared_ptr<const void>; using WPV = std::weak_ptr<const void>;
template <typename A, typename B> bool same_owner(const A& a, const B& b) { return !a.owner_before(b) && !b.owner_before(a); }

struct H {
    static constexpr int K = 6; Case& c; Rng& r;
    struct Own { int kind; int v; int strong; Obj* o; };
    std::vector<Own> own; struct S { SPV p; int owner = -1; const void* at = nullptr; } s[K]; struct W { WPV p; int owner = -1; const void* at = nullptr; } w[K];
    int nv = 1; int val() { return nv = nv % 1000 + 3; }
    H(Case& c_) : c(c_), r(c_.rng) {}
    void drop(int i) { if (s[i].owner >= 0) --own[size_t(s[i].owner)].strong; s[i].p.reset(); s[i].owner = -1; s[i].at = nullptr; }
    void hold(int i, SPV p, int owner, const void* at) { ++own[size_t(owner)].strong; drop(i); s[i].p = std::move(p); s[i].owner = owner; s[i].at = at; }
    template <typename P> void taken(int i, int owner, const P& p, const void* at) { // a strong pointer given by the code
        VCHECK((const void*)p.get() == at, "value.address", "the pointer refers to another object"); for (int k = 0; k < K; ++k) if (s[k].owner == owner) { VCHECK(same_owner(p, s[k].p), "value.owner", "the pointer doesn't share ownership with the object's owner"); break; } hold(i, p, owner, at);
    }
    int find() { int n = int(r.below(K)); for (int k = 0; k < K; ++k) { int i = (n + k) % K; if (s[i].owner >= 0) return i; } return -1; }
    void create(int i) {
        int kind = int(r.below(3)), how = int(r.below(5)), v = val(); op("s%d=create kind%d how%d v%d", i, kind, how, v); uint64_t cp = reg().copies;
        if (how == 4) { int j = find(); if (j < 0) how = 0; else { Obj* o = own[size_t(s[j].owner)].o; VCHECK(o->id.v == own[size_t(s[j].owner)].v, "value.content", "content"); std::shared_ptr<Obj> p = r.chance(50) ? itlib::make_shared(*o) : std::shared_ptr<Obj>(itlib::make_unique(*o)); VCHECK(p.get() != o && !same_owner(p, s[j].p), "value.owner", "a copy shares ownership with the original"); own.push_back({0, o->id.v, 0, p.get()}); int id = int(own.size()) - 1; const void* at = p.get(); hold(i, p, id, at); COV("copied object"); return; } }
        if (kind == 0) { std::shared_ptr<Obj> p; if (how == 0) p = itlib::make_shared(Obj(v)); else if (how == 1) p = itlib::make_unique(Obj(v)); else if (how == 2) { Obj o(v); p = itlib::make_shared(o); VCHECK(o.id.v == v, "value.source", "the lvalue was moved from"); VCHECK(reg().copies == cp + 2, "value.copy", "copies"); } else { Obj o(v); p = itlib::make_shared(std::move(o)); VCHECK(o.id.v == v || o.id.v == MOVED, "value.source", "source"); } own.push_back({0, v, 0, p.get()}); hold(i, p, int(own.size()) - 1, p.get()); }
        else if (kind == 1) { std::shared_ptr<MI> p = how & 1 ? std::make_shared<MI>(v) : std::shared_ptr<MI>(new MI(v)); own.push_back({1, v, 0, p.get()}); hold(i, p, int(own.size()) - 1, p.get()); }
        else { std::shared_ptr<VB> p = how & 1 ? std::make_shared<VB>(v) : std::shared_ptr<VB>(new VB(v)); own.push_back({2, v, 0, p.get()}); hold(i, p, int(own.size()) - 1, p.get()); }
        COV("created");
    }
    void from(int i, int j) { // a strong pointer from the object slot j owns
        int id = s[j].owner; Own& ow = own[size_t(id)]; Obj* o = ow.o; const Obj* co = o; int how = int(r.below(12)); op("s%d=from(s%d) how%d", i, j, how); COV("shared from an object");
        switch (how) {
        case 0: taken(i, id, o->shared_from(o), o); break;
        case 1: taken(i, id, o->shared_from(&o->sub), &o->sub); break;
        case 2: taken(i, id, co->shared_from(&o->sub.arr[2]), &o->sub.arr[2]); break;
        case 3: { std::shared_ptr<const Obj> p = co->shared_from(co); taken(i, id, p, co); break; }
        case 4: { auto p = o->shared_from_this(); static_assert(std::is_same<decltype(p), std::shared_ptr<void>>::value, ""); const void* at = p.get(); bool inside = at == (void*)static_cast<itlib::enable_shared_from*>(o) || at == dynamic_cast<void*>(o) || at == (void*)o; VCHECK(inside, "value.address", "shared_from_this refers to another object"); taken(i, id, p, at); break; }
        case 5: { auto p = co->shared_from_this(); static_assert(std::is_same<decltype(p), std::shared_ptr<const void>>::value, ""); taken(i, id, p, p.get()); break; }
        case 6: { if (ow.kind == 1) { MI* m = static_cast<MI*>(o); taken(i, id, o->shared_from(static_cast<Other*>(m)), static_cast<Other*>(m)); taken(i, id, m->shared_from(m), m); } else if (ow.kind == 2) { VB* m = dynamic_cast<VB*>(o); taken(i, id, o->shared_from(m), m); taken(i, id, o->shared_from(&m->vb), &m->vb); } COV("shared as a derived or a base"); break; }
        case 7: { std::weak_ptr<Obj> p = o->weak_from(o); VCHECK(p.lock().get() == o && same_owner(p, s[j].p), "value.owner", "weak_from"); w[i].p = p; w[i].owner = id; w[i].at = o; break; }
        case 8: { std::weak_ptr<const Sub> p = co->weak_from(static_cast<const Sub*>(&o->sub)); VCHECK(p.lock().get() == &o->sub && same_owner(p, s[j].p), "value.owner", "weak_from"); w[i].p = p; w[i].owner = id; w[i].at = &o->sub; break; }
        case 9: { std::weak_ptr<void> p = o->weak_from_this(); VCHECK(same_owner(p, s[j].p) && !p.expired(), "value.owner", "weak_from_this"); w[i].p = p; w[i].owner = id; w[i].at = p.lock().get(); break; }
        case 10: { std::weak_ptr<const void> p = co->weak_from_this(); VCHECK(same_owner(p, s[j].p) && !p.expired(), "value.owner", "weak_from_this"); w[i].p = p; w[i].owner = id; w[i].at = p.lock().get(); break; }
        case 11: { static int outside[4]; taken(i, id, o->shared_from(outside + 1), outside + 1); auto e = o->shared_from(static_cast<int*>(nullptr)); VCHECK(!e, "value.address", "null"); break; }
        }
    }
    void aliased(int i, int j) {
        op("s%d=aliased(s%d)", i, j); static int outside[4]; int* q = &outside[r.below(4)]; SPV owner = s[j].p;
        std::shared_ptr<const void> weird(SPV(), q); // non-null without an owner
        std::shared_ptr<int> none = itlib::make_aliased(weird, q); VCHECK(!none && none.use_count() == 0, "value.alias", "make_aliased of a pointer without owner isn't null"); none = itlib::make_aliased(std::shared_ptr<Obj>(), q); VCHECK(!none && none.use_count() == 0, "value.alias", "make_aliased of a null pointer isn't null");
        if (s[j].owner < 0) { auto p = itlib::make_aliased(owner, q); VCHECK(!p && p.use_count() == 0, "value.alias", "make_aliased of an empty owner isn't null"); COV("aliased without an owner"); return; }
        auto p = itlib::make_aliased(owner, q); int id = s[j].owner; owner.reset(); taken(i, id, p, q); COV("aliased");
    }
    void step() {
        int i = int(r.below(K)), j = int(r.below(K));
        switch (r.below(12)) {
        case 0: case 1: create(i); break;
        case 2: case 3: case 4: case 5: { int f = find(); if (f >= 0) from(i, f); break; }
        case 6: aliased(i, j); break;
        case 7: op("s%d.reset", i); drop(i); break;
        case 8: op("s%d=s%d", i, j); if (s[j].owner >= 0) hold(i, s[j].p, s[j].owner, s[j].at); else drop(i); break;
        case 9: op("s%d=move s%d", i, j); if (i != j) { drop(i); s[i] = s[j]; s[j].p.reset(); s[j].owner = -1; s[j].at = nullptr; } break;
        case 10: { op("s%d=lock w%d", i, j); SPV p = w[j].p.lock(); bool alive = w[j].owner >= 0 && own[size_t(w[j].owner)].strong > 0; VCHECK(!!p == (alive && w[j].at), "value.weak", "a weak pointer of %s object gave %p", alive ? "a live" : "a dead", p.get()); if (alive) { int o = w[j].owner; const void* at = w[j].at; VCHECK(p.get() == at, "value.address", "a weak pointer gave another address"); hold(i, p, o, at); COV("weak locked"); } else COV("weak expired"); break; }
        case 11: { int f = find(); if (f >= 0) { Obj* o = own[size_t(s[f].owner)].o; Obj tmp(5); op("assign objects"); int v = o->id.v; *o = tmp; VCHECK(same_owner(o->shared_from(o), s[f].p), "value.owner", "assigning an object changed its owner"); *o = Obj(v); o->sub = Sub(v + 1); COV("object assigned"); } break; }
        }
        size_t live = 0; for (auto& o : own) if (o.strong > 0) { live += size_t(parts_of(o.kind)); VCHECK(o.o->id.v == o.v && o.o->sub.t.v == o.v + 1, "value.content", "the object's content changed"); }
        VCHECK(reg().live == live, "lifetime.count", "%llu parts of objects alive, should be %zu", (unsigned long long)reg().live, live);
        for (int k = 0; k < K; ++k) { long want = s[k].owner >= 0 ? own[size_t(s[k].owner)].strong : 0; VCHECK(s[k].p.use_count() == want, "value.use_count", "use_count %ld, should be %ld", s[k].p.use_count(), want); VCHECK(s[k].p.get() == s[k].at, "value.address", "address"); if (w[k].owner >= 0) VCHECK(w[k].p.expired() == (own[size_t(w[k].owner)].strong == 0), "value.weak", "weak pointer expired() %d", w[k].p.expired()); }
    }
    static void run(Case& c) { { H h(c); int steps = 30 + int(c.rng.below(60)); while (steps--) h.step(); } c.interesting(); }
};
REG_SUITE("ptr.history", 300, 20000, &H::run);
SUITE("ptr.make", 50, 1000) {
    int v = 1 + int(c.rng.below(1000)); op("make %d", v); uint64_t cp = reg().copies, mv = reg().moves;
    { Tr t(v); auto p = itlib::make_shared(t); auto q = itlib::make_unique(t); static_assert(std::is_same<decltype(p), std::shared_ptr<Tr>>::value && std::is_same<decltype(q), std::unique_ptr<Tr>>::value, ""); VCHECK(p->v == v && q->v == v && t.v == v && reg().copies == cp + 2 && reg().moves == mv, "value.make", "from an lvalue: %d copies %d moves", int(reg().copies - cp), int(reg().moves - mv)); VCHECK(p.use_count() == 1 && reg().live == 3, "lifetime.count", "count"); }
    { cp = reg().copies; auto p = itlib::make_shared(Tr(v)); auto q = itlib::make_unique(Tr(v)); VCHECK(p->v == v && q->v == v && reg().copies == cp, "value.make", "from an rvalue copied"); Tr t(v); auto u = itlib::make_shared(std::move(t)); VCHECK(u->v == v && t.v == MOVED, "value.make", "rvalue not moved"); }
    { const Tr t(v); auto p = itlib::make_shared(t); auto q = itlib::make_unique(t); VCHECK(p->v == v && q->v == v && t.v == v, "value.make", "from a const lvalue"); }
    { TrM t(v); auto p = itlib::make_shared(std::move(t)); auto q = itlib::make_unique(std::move(*p)); VCHECK(q->v == v && p->v == MOVED && t.v == MOVED, "value.make", "move-only"); }
    { struct Js { int depth = 0; Js() {} Js(const Js&) = default; Js(std::initializer_list<Js> l) { for (auto& j : l) depth = j.depth + 1; } } a; a.depth = v; auto p = itlib::make_unique(a); auto q = itlib::make_shared(a); auto x = itlib::make_unique(std::move(*p)); auto y = itlib::make_shared(std::move(*q)); VCHECK(p->depth == v && q->depth == v && x->depth == v && y->depth == v, "value.make", "a type constructible from a list of itself isn't copied but put in a list"); }
    { auto p = itlib::make_shared(v); auto q = itlib::make_unique(std::string("abc")); auto n = itlib::make_unique(std::unique_ptr<int>(new int(v))); VCHECK(*p == v && *q == "abc" && **n == v, "value.make", "plain types"); }
    { fault().elem = 1; Tr* leak = nullptr; (void)leak; Tr t(v); bool thrown = false; try { auto q = itlib::make_unique(t); } catch (Injected&) { thrown = true; } bool fired = fault().fired; fault().off(); fault().elem = 0; bool th2 = false; try { auto q = itlib::make_shared(t); } catch (Injected&) { th2 = true; } fault().off(); VCHECK(thrown && fired && th2, "value.exception", "an exception of the copy was swallowed"); COV("throwing copies"); }
    { // an object without an owner
        Obj o(v); bool bad = false; try { o.shared_from(&o); } catch (std::bad_weak_ptr&) { bad = true; } bool bad2 = false; try { o.shared_from_this(); } catch (std::bad_weak_ptr&) { bad2 = true; } VCHECK(bad && bad2, "value.owner", "an object without an owner gave a pointer");
#if __cplusplus >= 201703L
        VCHECK(o.weak_from_this().expired() && const_cast<const Obj&>(o).weak_from_this().expired(), "value.owner", "weak_from_this without an owner");
#endif
        COV("objects without owner"); }
    c.interesting();
}
