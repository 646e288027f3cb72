// pmr_allocator (C25)
#include "common.hpp"
#include <itlib/pmr_allocator.hpp>
#include <itlib/small_vector.hpp>
#include <vector>
#include <list>
#include <map>
#include <deque>
#include <unordered_map>
#include <string>
#include <memory>
#include <tuple>
using namespace vf;
#define CK(c, ...) VCHECK(c, "value.pmr", __VA_ARGS__)
#define CA(c, ...) VCHECK(c, "alloc.pmr", __VA_ARGS__)
namespace pmr = std::pmr;
struct Ev { int kind, id; size_t size, align; bool operator==(const Ev& o) const { return kind == o.kind && id == o.id && size == o.size && align == o.align; } }; // kind 0 allocate, 1 deallocate, 2 failed
struct Block { size_t size, align; int group, id; };
struct Side { std::vector<Ev> log; std::map<void*, Block> blocks; long fail_in = -1; };
struct MR final : pmr::memory_resource {
    Side& s; int id, group; MR(Side& s, int id, int group) : s(s), id(id), group(group) {}
    void* do_allocate(size_t n, size_t a) override {
        if (s.fail_in >= 0 && s.fail_in-- == 0) { s.log.push_back({2, id, n, a}); COV("allocation faults"); throw std::bad_alloc(); }
        if (n > (size_t(1) << 28)) { s.log.push_back({2, id, n, a}); throw std::bad_alloc(); }
        CA(a && !(a & (a - 1)), "alignment %zu is asked for", a); s.log.push_back({0, id, n, a}); void* p = nullptr; size_t al = a < sizeof(void*) ? sizeof(void*) : a; if (posix_memalign(&p, al, n ? n : 1)) harness_error("no memory"); memset(p, 0xa5, n); s.blocks[p] = {n, a, group, id}; COV("blocks"); return p;
    }
    void do_deallocate(void* p, size_t n, size_t a) override {
        s.log.push_back({1, id, n, a}); auto f = s.blocks.find(p); if (f == s.blocks.end()) VSOFT("alloc.pmr", "a block which isn't allocated is returned to resource %d", id);
        auto b = f->second; if (b.group != group) VSOFT("alloc.pmr", "a block of resource %d is returned to %d", b.id, id); if (b.size != n || b.align != a) VSOFT("alloc.pmr", "a block of %zu bytes aligned at %zu is returned as %zu at %zu", b.size, b.align, n, a); s.blocks.erase(f); free(p); COV("blocks returned");
    }
    bool do_is_equal(const pmr::memory_resource& o) const noexcept override { auto* m = dynamic_cast<const MR*>(&o); return m && m->group == group; }
};
struct Res { Side s; MR a, b, c, d; Res() : a(s, 0, 0), b(s, 1, 1), c(s, 2, 0), d(s, 3, 3) {} MR& get(size_t i) { switch (i) { case 0: return a; case 1: return b; case 2: return c; default: return d; } } void done(const char* who) { if (s.blocks.size()) VSOFT("alloc.pmr", "%zu blocks of %s are left", s.blocks.size(), who); } ~Res() { for (auto& x : s.blocks) free(x.first); } };
struct DefRes { pmr::memory_resource* old; explicit DefRes(pmr::memory_resource* r) : old(pmr::set_default_resource(r)) {} ~DefRes() { pmr::set_default_resource(old); } };
// ---------------------------------------------------------------- containers in step with std::pmr ones
template <typename T> using IA = itlib::pmr_allocator<T>;
template <typename T> using SA = pmr::polymorphic_allocator<T>;
struct alignas(64) Wide { int v; Wide(int v = 0) : v(v) {} bool operator==(const Wide& o) const { return v == o.v; } };
template <template <typename> class A> struct Str { typedef std::basic_string<char, std::char_traits<char>, A<char>> type; };
template <template <typename> class A> struct VInt { typedef std::vector<int, A<int>> C; static void add(C& c, Rng& r) { c.push_back(int(r.below(100))); } static void misc(C& c, Rng& r) { if (r.chance(50)) c.reserve(r.below(40)); else c.shrink_to_fit(); } static uint64_t sum(const C& c) { uint64_t h = c.size(); for (int x : c) h = hcomb(h, uint64_t(x)); return h; } };
template <template <typename> class A> struct VWide { typedef std::vector<Wide, A<Wide>> C; static void add(C& c, Rng& r) { c.emplace_back(int(r.below(100))); } static void misc(C& c, Rng& r) { c.insert(c.begin() + long(r.below(c.size() + 1)), Wide(3)); } static uint64_t sum(const C& c) { uint64_t h = c.size(); for (auto& x : c) { if (uintptr_t(&x) % 64) fail("alloc.pmr", "a misaligned element"); h = hcomb(h, uint64_t(x.v)); } return h; } };
template <template <typename> class A> struct VStr { typedef typename Str<A>::type S; typedef std::vector<S, A<S>> C; static void add(C& c, Rng& r) { c.emplace_back(r.below(60), 'a'); if (c.back().get_allocator() != c.get_allocator()) fail("alloc.pmr", "an element doesn't use the resource of its container"); } static void misc(C& c, Rng& r) { if (c.size()) c[r.below(c.size())] += "a few more characters"; } static uint64_t sum(const C& c) { uint64_t h = c.size(); for (auto& x : c) h = hcomb(h, x.size()); return h; } };
template <template <typename> class A> struct LInt { typedef std::list<int, A<int>> C; static void add(C& c, Rng& r) { if (r.chance(50)) c.push_back(int(r.below(9))); else c.push_front(3); } static void misc(C& c, Rng& r) { if (c.size()) c.erase(c.begin()); (void)r; } static uint64_t sum(const C& c) { uint64_t h = c.size(); for (int x : c) h = hcomb(h, uint64_t(x)); return h; } };
template <template <typename> class A> struct DInt { typedef std::deque<short, A<short>> C; static void add(C& c, Rng& r) { for (size_t k = r.below(200); k--;) c.push_back(short(r.below(9))); } static void misc(C& c, Rng& r) { for (size_t k = r.below(100); k-- && c.size();) c.pop_front(); } static uint64_t sum(const C& c) { uint64_t h = c.size(); for (int x : c) h = hcomb(h, uint64_t(x)); return h; } };
template <template <typename> class A> struct MVec { typedef std::vector<int, A<int>> V; typedef std::map<int, V, std::less<int>, A<std::pair<const int, V>>> C; static void add(C& c, Rng& r) { auto& v = c[int(r.below(10))]; v.push_back(int(r.below(5))); if (v.get_allocator() != c.get_allocator()) fail("alloc.pmr", "a mapped container doesn't use the resource of its map"); } static void misc(C& c, Rng& r) { if (c.size()) c.erase(c.begin()); (void)r; } static uint64_t sum(const C& c) { uint64_t h = c.size(); for (auto& x : c) h = hcomb(hcomb(h, uint64_t(x.first)), VInt<A>::sum(x.second)); return h; } };
template <template <typename> class A> struct UStr { typedef typename Str<A>::type S; struct H { size_t operator()(const S& s) const { return s.size(); } }; typedef std::unordered_map<S, int, H, std::equal_to<S>, A<std::pair<const S, int>>> C; static void add(C& c, Rng& r) { c.emplace(S(r.below(50), 'k', c.get_allocator()), int(r.below(5))); } static void misc(C& c, Rng& r) { c.rehash(r.below(50)); } static uint64_t sum(const C& c) { uint64_t h = c.size(); for (auto& x : c) h += mix(x.first.size() * 7 + uint64_t(x.second)); return h; } };
template <template <typename> class A> struct VV { typedef std::vector<int, A<int>> V; typedef std::vector<V, A<V>> C; static void add(C& c, Rng& r) { c.emplace_back(r.below(5), 3); if (c.back().get_allocator() != c.get_allocator()) fail("alloc.pmr", "an inner container doesn't use the resource of the outer one"); } static void misc(C& c, Rng& r) { if (c.size()) c[r.below(c.size())].push_back(1); } static uint64_t sum(const C& c) { uint64_t h = c.size(); for (auto& x : c) h = hcomb(h, VInt<A>::sum(x)); return h; } };
template <template <template <typename> class> class K> struct Twin {
    template <template <typename> class A> struct Half { typedef typename K<A>::C C; Res res; std::vector<std::unique_ptr<C>> v; int threw = 0; MR* of(const C& c) { auto* m = c.get_allocator().resource(); return dynamic_cast<MR*>(m); } };
    template <template <typename> class A> static void step(Half<A>& h, Rng r, int how, size_t i, size_t j, size_t res, long fault) { // r by value: both halves draw the same
        typedef typename K<A>::C C; typedef typename C::allocator_type Al; DefRes def(&h.res.d); auto& p = h.v[i]; auto& q = h.v[j]; h.res.s.fail_in = fault; h.threw = 0; Al al(&h.res.get(res));
        try {
            switch (how) {
            case 0: p.reset(new C(al)); break; case 1: p.reset(new C()); break; case 2: K<A>::add(*p, r); break; case 3: K<A>::add(*p, r); K<A>::add(*p, r); break; case 4: K<A>::misc(*p, r); break; case 5: p->clear(); break;
            case 6: { std::unique_ptr<C> n(new C(*q)); p = std::move(n); break; } case 7: { std::unique_ptr<C> n(new C(*q, al)); p = std::move(n); break; } case 8: { std::unique_ptr<C> n(new C(std::move(*q))); p = std::move(n); q->clear(); break; } case 9: { std::unique_ptr<C> n(new C(std::move(*q), al)); p = std::move(n); q->clear(); break; }
            case 10: *p = *q; break; case 11: if (i != j) { *p = std::move(*q); q->clear(); } break; case 12: if (p->get_allocator() == q->get_allocator()) { using std::swap; swap(*p, *q); } break; case 13: { C t(q->get_allocator()); t = *p; *q = std::move(t); break; } case 14: { C t(*p, p->get_allocator()); K<A>::add(t, r); break; }
            }
        } catch (std::bad_alloc&) { h.threw = 1; }
        h.res.s.fail_in = -1;
    }
    static void run(Case& c) {
        Rng& r = c.rng; Half<IA> a; Half<SA> b; { DefRes d(&a.res.d); for (int i = 0; i < 3; ++i) a.v.emplace_back(new typename Half<IA>::C(&a.res.get(r.below(1) + size_t(i)))); } { DefRes d(&b.res.d); for (int i = 0; i < 3; ++i) b.v.emplace_back(new typename Half<SA>::C(&b.res.get(size_t(i)))); }
        int n = 10 + int(r.below(40)); while (n--) {
            tick(); int how = int(r.below(15)); if (r.chance(40)) how = 2 + int(r.below(3)); size_t i = r.below(3), j = r.below(3), res = r.below(4); long fault = r.chance(10) ? long(r.below(4)) : -1; Rng seed(r.next()); op("how%d %zu %zu res%zu fault%ld", how, i, j, res, fault); a.res.s.log.clear(); b.res.s.log.clear();
            step<IA>(a, seed, how, i, j, res, fault); step<SA>(b, seed, how, i, j, res, fault);
            auto &la = a.res.s.log, &lb = b.res.s.log; CA(la == lb, "%zu calls of the resources instead of %zu as with std::pmr's allocator, or others", la.size(), lb.size()); CK(a.threw == b.threw, "throws differently from std::pmr's");
            for (size_t k = 0; k < 3; ++k) { auto *x = a.of(*a.v[k]), *y = b.of(*b.v[k]); CA(x && y && x->id == y->id, "a container has resource %d, should have %d", x ? x->id : -1, y ? y->id : -1); CK(K<IA>::sum(*a.v[k]) == K<SA>::sum(*b.v[k]), "contents"); for (size_t l = 0; l < 3; ++l) CK((a.v[k]->get_allocator() == a.v[l]->get_allocator()) == (b.v[k]->get_allocator() == b.v[l]->get_allocator()), "equality of allocators"); }
            CK(a.res.s.blocks.size() == b.res.s.blocks.size(), "blocks"); COV("container operations compared"); if (how >= 6 && how <= 7) COV("containers copied"); if (how == 8 || how == 9 || how == 11) COV("containers moved"); if (how == 11) { auto *x = a.of(*a.v[i]), *y = a.of(*a.v[j]); if (x != y) COV("moved between resources"); } state(la.size() * 31 + size_t(how));
        }
        a.v.clear(); b.v.clear(); a.res.done("pmr_allocator"); c.interesting();
    }
};
REG_SUITE("pmr.vector", 1500, 50000, &Twin<VInt>::run);
REG_SUITE("pmr.wide", 1000, 50000, &Twin<VWide>::run);
REG_SUITE("pmr.strings", 1000, 50000, &Twin<VStr>::run);
REG_SUITE("pmr.list", 1000, 50000, &Twin<LInt>::run);
REG_SUITE("pmr.deque", 700, 30000, &Twin<DInt>::run);
REG_SUITE("pmr.map", 1000, 50000, &Twin<MVec>::run);
REG_SUITE("pmr.umap", 1000, 50000, &Twin<UStr>::run);
REG_SUITE("pmr.nested", 1000, 50000, &Twin<VV>::run);
// ---------------------------------------------------------------- direct use
template <int N, int AL> struct alignas(AL) Blob { char c[N]; };
struct Trail { typedef itlib::pmr_allocator<char> allocator_type; pmr::memory_resource* m; int v; Tr t; Trail(allocator_type a = {}) : m(a.resource()), v(0) {} Trail(int v, allocator_type a = {}) : m(a.resource()), v(v) {} Trail(const Trail& o, allocator_type a = {}) : m(a.resource()), v(o.v) {} };
struct Lead { typedef pmr::polymorphic_allocator<std::byte> allocator_type; pmr::memory_resource* m; std::unique_ptr<int> u; Lead(std::allocator_arg_t, allocator_type a, std::unique_ptr<int> u) : m(a.resource()), u(std::move(u)) {} };
struct SelfA { typedef itlib::pmr_allocator<SelfA> allocator_type; pmr::memory_resource* m; int v; SelfA(int v, allocator_type a = {}) : m(a.resource()), v(v) {} };
struct Direct {
    Case& c; Rng& r; Res res; DefRes def; Direct(Case& c) : c(c), r(c.rng), def(&res.d) {}
    size_t mark = 0; void begin() { res.s.log.clear(); }
    void one(const char* what, int kind, MR& m, size_t n, size_t a) { CA(res.s.log.size() == 1 && res.s.log[0] == (Ev{kind, m.id, n, a}), "%s: %zu calls, the first %d(%zu, %zu) of resource %d; should be %d(%zu, %zu) of %d", what, res.s.log.size(), res.s.log.empty() ? -1 : res.s.log[0].kind, res.s.log.empty() ? 0 : res.s.log[0].size, res.s.log.empty() ? 0 : res.s.log[0].align, res.s.log.empty() ? -1 : res.s.log[0].id, kind, n, a, m.id); COV("requests checked"); }
    template <typename F> void throws(const char* what, F f) { bool t = false; begin(); try { f(); } catch (std::bad_alloc&) { t = true; } CA(t, "%s: a request which can't be represented is granted", what); CA(res.s.log.empty() || (res.s.log.size() == 1 && res.s.log[0].kind == 2), "%s: a request which wraps around reaches the resource", what); CA(res.s.log.empty() || res.s.log[0].size >= (size_t(1) << 62), "%s: the size wraps around to %zu", what, res.s.log[0].size); COV("overflowing requests"); }
    template <typename F> void refused(const char* what, MR& m, size_t n, size_t a, F f) { if (n <= size_t(1) << 28 || n >> 63) return; bool t = false; begin(); try { f(); } catch (std::bad_alloc&) { t = true; } CA(t, "%s of %zu bytes: the resource's exception isn't passed on", what, n); one(what, 2, m, n, a); COV("huge requests"); }
    template <typename T, typename A> void object(A& al, MR& m) {
        { size_t big = (size_t(1) << (28 + r.below(31))) + r.below(9); refused("allocate_object", m, big * sizeof(T), alignof(T), [&] { T* q = al.template allocate_object<T>(big); (void)q; }); size_t al8 = size_t(1) << r.below(7); refused("allocate_bytes", m, big, al8, [&] { void* q = al.allocate_bytes(big, al8); (void)q; }); }
        size_t n = r.chance(50) ? 1 : r.chance(2) ? r.below(90000) : r.below(20); begin(); T* p = n == 1 && r.chance(50) ? al.template allocate_object<T>() : al.template allocate_object<T>(n); one("allocate_object", 0, m, n * sizeof(T), alignof(T)); CA(uintptr_t(p) % alignof(T) == 0, "misaligned"); memset((void*)p, 1, n * sizeof(T)); begin(); if (n == 1 && r.chance(50)) al.deallocate_object(p); else al.deallocate_object(p, n); one("deallocate_object", 1, m, n * sizeof(T), alignof(T));
        if (sizeof(T) > 1 && r.chance(30)) { size_t huge = ~size_t(0) / sizeof(T) + 1 + r.below(5); throws("allocate_object", [&] { T* q = al.template allocate_object<T>(huge); (void)q; }); throws("allocate_object", [&] { T* q = al.template allocate_object<T>(~size_t(0) / sizeof(T) / (r.chance(50) ? 1 : 2)); (void)q; }); }
    }
    template <typename T> void typed(itlib::pmr_allocator<T> al, MR& m) {
        size_t n = 1 + (r.chance(2) ? r.below(90000) : r.below(30)); begin(); T* p = al.allocate(n); one("allocate", 0, m, n * sizeof(T), alignof(T)); memset((void*)p, 1, n * sizeof(T)); begin(); itlib::pmr_allocator<T> other(r.chance(50) ? (m.group == 0 ? &res.get(r.chance(50) ? 0 : 2) : &m) : &m); CA(other == al && !(other != al), "equal resources, unequal allocators"); MR& om = *dynamic_cast<MR*>(other.resource()); other.deallocate(p, n); one("deallocate", 1, om, n * sizeof(T), alignof(T));
        { size_t big = size_t(1) << (28 + r.below(31)); big += r.below(9); if (r.chance(20)) big = (~size_t(0) >> 1) / sizeof(T) - r.below(3); refused("allocate", m, big * sizeof(T), alignof(T), [&] { T* q = al.allocate(big); (void)q; }); }
        if (sizeof(T) > 1 && r.chance(30)) throws("allocate", [&] { T* q = al.allocate(~size_t(0) / sizeof(T) + 1 + r.below(9)); (void)q; });
        typedef std::allocator_traits<itlib::pmr_allocator<T>> Tr8; static_assert(!Tr8::propagate_on_container_copy_assignment::value && !Tr8::propagate_on_container_move_assignment::value && !Tr8::propagate_on_container_swap::value && !Tr8::is_always_equal::value, "propagation"); static_assert(std::is_same<typename Tr8::value_type, T>::value && std::is_same<typename Tr8::template rebind_alloc<char>, itlib::pmr_allocator<char>>::value, "types"); static_assert(std::is_convertible<itlib::pmr_allocator<T>, pmr::polymorphic_allocator<T>>::value && std::is_convertible<pmr::memory_resource*, itlib::pmr_allocator<T>>::value && !std::is_copy_assignable<pmr::polymorphic_allocator<T>>::value == !std::is_copy_assignable<itlib::pmr_allocator<T>>::value, "conversions"); CA(Tr8::select_on_container_copy_construction(al).resource() == &res.d, "copies of containers use the default resource");
    }
    template <typename A> void act(A al, MR& m) {
        tick(); CA(al.resource() == &m, "the resource of an allocator"); int how = int(r.below(9)); op("how%d on %d", how, m.id);
        switch (how) {
        case 0: { size_t n = r.below(100); begin(); if (r.chance(50)) { void* p = al.allocate_bytes(n); one("allocate_bytes", 0, m, n, alignof(std::max_align_t)); begin(); al.deallocate_bytes(p, n); one("deallocate_bytes", 1, m, n, alignof(std::max_align_t)); } else { size_t a = size_t(1) << r.below(8); void* p = al.allocate_bytes(n, a); one("allocate_bytes", 0, m, n, a); CA(uintptr_t(p) % a == 0, "misaligned"); begin(); al.deallocate_bytes(p, n, a); one("deallocate_bytes", 1, m, n, a); } break; }
        case 1: switch (r.below(5)) { case 0: object<char>(al, m); break; case 1: object<int>(al, m); break; case 2: object<Blob<24, 8>>(al, m); break; case 3: object<Wide>(al, m); break; case 4: object<Blob<3, 1>>(al, m); break; } break;
        case 2: { uint64_t l = reg().live; begin(); Tr* p = al.template new_object<Tr>(int(5)); one("new_object", 0, m, sizeof(Tr), alignof(Tr)); CK(p->v == 5 && reg().live == l + 1, "new_object"); begin(); al.delete_object(p); one("delete_object", 1, m, sizeof(Tr), alignof(Tr)); CK(reg().live == l, "delete_object destroys one object"); COV("objects made"); break; }
        case 3: { uint64_t l = reg().live; fault().elem = 0; begin(); bool t = false; try { Tr* p = al.template new_object<Tr>(7); (void)p; } catch (Injected&) { t = true; } fault().off(); CK(t && reg().live == l, "a constructor's exception isn't passed on"); CA(res.s.log.size() == 2 && res.s.log[0] == (Ev{0, m.id, sizeof(Tr), alignof(Tr)}) && res.s.log[1] == (Ev{1, m.id, sizeof(Tr), alignof(Tr)}), "new_object with a constructor which throws: the memory isn't returned properly"); COV("constructors which threw"); break; }
        case 4: { begin(); auto* p = al.template new_object<Trail>(9); CA(p->m == &m && p->v == 9, "an object which uses allocators doesn't get this one"); Trail q(11); auto* z = al.template new_object<Trail>(q); CA(z->m == &m && z->v == 11, "a copy doesn't get the allocator"); al.delete_object(z); al.delete_object(p); COV("objects which use allocators"); break; }
        case 5: { std::unique_ptr<int> u(new int(4)); auto* p = al.template new_object<Lead>(std::move(u)); CA(p->m == &m && *p->u == 4 && !u, "an object with a leading allocator argument"); al.delete_object(p); COV("objects which use allocators"); break; }
        case 6: { std::string s = "a string longer than the short ones, copied and not moved", keep = s; auto* p = al.template new_object<std::string>(s); CK(*p == keep && s == keep, "an lvalue argument"); auto* q = al.template new_object<std::string>(std::move(s)); CK(*q == keep, "an rvalue argument"); al.delete_object(p); al.delete_object(q); break; }
        case 7: { auto* p = al.template new_object<SelfA>(3); CA(p->m == &m && p->v == 3, "an object which uses this kind of allocator doesn't get it"); al.delete_object(p); typedef std::vector<typename A::value_type, A> V; auto* v = al.template new_object<V>(); CA(v->get_allocator().resource() == &m, "a container with the same allocator doesn't get it"); v->emplace_back(); CA(res.s.blocks.size() == 2, "blocks"); al.delete_object(v); break; }
        case 8: { begin(); res.s.fail_in = 0; bool t = false; try { auto* p = al.template new_object<Tr>(1); (void)p; } catch (std::bad_alloc&) { t = true; } res.s.fail_in = -1; CK(t && res.s.log.size() == 1, "a resource's exception isn't passed on"); break; }
        }
        CA(res.s.blocks.empty(), "%zu blocks are left", res.s.blocks.size());
    }
    void run() {
        int n = 8 + int(r.below(20)); while (n--) {
            MR& m = res.get(r.below(4)); pmr::memory_resource* mp = &m; itlib::pmr_allocator<> al(mp); itlib::pmr_allocator<int> ai(al); itlib::pmr_allocator<Wide> aw = ai; itlib::pmr_allocator<> back(aw); const pmr::polymorphic_allocator<int> sp(mp); itlib::pmr_allocator<int> fs(sp), cp(fs); itlib::pmr_allocator<long> fl(sp); pmr::polymorphic_allocator<int> sl = cp;
            CA(ai.resource() == mp && aw.resource() == mp && back.resource() == mp && fs.resource() == mp && cp.resource() == mp && fl.resource() == mp && sl.resource() == mp, "copies and conversions share the resource"); itlib::pmr_allocator<short> dd; CA(dd.resource() == &res.d, "a new allocator has the default resource"); for (size_t k = 0; k < 4; ++k) { itlib::pmr_allocator<char> o(&res.get(k)); CA((ai == itlib::pmr_allocator<int>(o)) == (m.group == res.get(k).group) && (fs != itlib::pmr_allocator<int>(o)) == (m.group != res.get(k).group), "equality isn't interchangeability"); }
            switch (r.below(7)) { case 0: act(al, m); break; case 1: act(ai, m); break; case 2: act(aw, m); break; case 3: act(fs, m); break; case 4: typed(ai, m); break; case 5: typed(aw, m); break; case 6: typed(itlib::pmr_allocator<Blob<3, 1>>(back), m); break; }
        }
        res.done("pmr_allocator"); c.interesting();
    }
};
SUITE("pmr.direct", 4000, 150000) { Direct d(c); d.run(); }
