// atomic_shared_ptr_storage (C22)
#include "lin.hpp"
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <signal.h>
#include <algorithm>
using namespace vf;
#define CK(c, ...) VCHECK(c, "value.asps", __VA_ARGS__)
enum { IDS = 1 << 14 };
static std::atomic<uint8_t> born_[IDS], gone[IDS]; static std::atomic<int> ids{1};
struct Base { virtual ~Base() {} virtual long sum() const = 0; };
struct Obj : Base {
    int id; long payload[6]; const char* text; // plain data: published only by the storage
    Obj(int i) : id(i), text("alive") { for (int k = 0; k < 6; ++k) payload[k] = i * 10 + k; born_[i % IDS].fetch_add(1, std::memory_order_relaxed); }
    ~Obj() { check("destroyed"); text = nullptr; for (auto& p : payload) p = -1; if (gone[id % IDS].fetch_add(1, std::memory_order_relaxed)) fail("value.asps.destroyed-twice", "object %d was destroyed twice", id); }
    void check(const char* what) const { if (!text || text[0] != 'a') fail("value.asps.dangling", "object %d is %s after its end", id, what); for (int k = 0; k < 6; ++k) if (payload[k] != id * 10 + k) fail("value.asps.torn", "object %d is %s with torn contents", id, what); }
    long sum() const override { return id; }
};
using P = std::shared_ptr<Obj>;
struct Cell : public itlib::atomic_shared_ptr_storage<Obj> { // may be more aligned than new before C++17 knows
    using itlib::atomic_shared_ptr_storage<Obj>::atomic_shared_ptr_storage; Cell() = default;
    static void* operator new(size_t n) { void* p = nullptr; if (posix_memalign(&p, alignof(Cell) < 16 ? 16 : alignof(Cell), n)) harness_error("no memory"); return p; } static void operator delete(void* p) { free(p); }
};
static P fresh() { int i = ids.fetch_add(1, std::memory_order_relaxed); if (i >= IDS) harness_error("too many objects in a case"); return (i & 1) ? std::make_shared<Obj>(i) : P(new Obj(i)); }
static int id_of(const P& p) { if (!p) return 0; p->check("read"); return p->id; }
static void begin_case() { for (int i = 0, n = ids.load(); i < n && i < IDS; ++i) { born_[i] = 0; gone[i] = 0; } ids = 1; }
static void end_case() { int n = ids.load(); for (int i = 1; i < n; ++i) CK(gone[i].load() == born_[i].load() && gone[i].load() == 1, "object %d was created %d times and destroyed %d times", i, born_[i].load(), gone[i].load()); COVN("objects accounted for", n - 1); }
enum { Load, Store, Xchg, Cas };
struct Op { uint64_t from, to; int kind, a, b, r; bool ok; }; // a: value given, b: expected, r: value returned
struct Spec { using State = int; static bool apply(int& s, const Op& o) { switch (o.kind) { case Load: return o.r == s; case Store: s = o.a; return true; case Xchg: if (o.r != s) return false; s = o.a; return true; default: if (o.ok) { if (s != o.b) return false; s = o.a; return true; } return s != o.b && o.r == s; } } static uint64_t hash(int s) { return uint64_t(s) + 77; } };
static void describe(const std::vector<std::vector<Op>>& l) { std::vector<std::pair<Op, int>> all; for (size_t t = 0; t < l.size(); ++t) for (auto& o : l[t]) all.push_back({o, int(t)}); std::sort(all.begin(), all.end(), [](auto& x, auto& y) { return x.first.from < y.first.from; }); uint64_t z = all.empty() ? 0 : all[0].first.from; for (auto& x : all) { auto& o = x.first; const char* k[] = {"load", "store", "exchange", "cas"}; op("t%d [%llu,%llu] %s a%d exp%d -> %d%s", x.second, (unsigned long long)(o.from - z), (unsigned long long)(o.to - z), k[o.kind], o.a, o.b, o.r, o.kind == Cas ? (o.ok ? " ok" : " failed") : ""); } }
// one call, recorded; 'mine' are pointers the thread has
template <typename S> static void call(S& s, Rng& tr, std::vector<P>& mine, std::vector<Op>& log, int mix) {
    Op o{}; int k = int(tr.below(10)); o.kind = mix == 0 ? (k < 4 ? Load : k < 6 ? Store : k < 8 ? Xchg : Cas) : mix == 1 ? (k < 3 ? Load : Cas) : mix == 2 ? (k < 5 ? Store : Load) : (k < 5 ? Xchg : k < 7 ? Cas : Load);
    P v; if (o.kind != Load) { int h = int(tr.below(10)); v = h == 0 ? P() : h < 4 && !mine.empty() ? mine[tr.below(mine.size())] : fresh(); } o.a = id_of(v); P e; if (o.kind == Cas) { e = tr.chance(10) || mine.empty() ? P() : tr.chance(70) ? mine.back() : mine[tr.below(mine.size())]; o.b = id_of(e); }
    P got; o.from = stamp();
    switch (o.kind) { case Load: got = s.load(); break; case Store: if (tr.chance(50)) s.store(std::move(v)); else s.store(v); break; case Xchg: got = tr.chance(50) ? s.exchange(std::move(v)) : s.exchange(v); break; case Cas: { P was = e; o.ok = s.compare_exchange(e, tr.chance(50) ? std::move(v) : v); if (o.ok && e != was) fail("value.asps.expected", "a successful compare-exchange changed the expected value"); got = e; break; } }
    o.to = stamp(); o.r = id_of(got); log.push_back(o); if (got) { mine.push_back(std::move(got)); if (mine.size() > 4) mine.erase(mine.begin() + long(tr.below(3))); }
}
// short histories: checked completely
SUITE_NOLEAK("as.short", 250, 20000) {
    begin_case(); Rng& r = c.rng; int n = 2 + int(r.below(4)), rounds = 12, per = 2 + int(r.below(6)), mix = int(r.below(4)); uint32_t lv = some_level(r); op("%d threads, %d calls, mix %d, delays %u", n, per, mix, lv);
    std::vector<std::unique_ptr<Cell>> st; std::vector<int> init; std::vector<std::vector<std::vector<Op>>> logs(static_cast<size_t>(rounds)); for (int i = 0; i < rounds; ++i) { P p = r.chance(30) ? P() : fresh(); init.push_back(id_of(p)); if (!p && r.chance(50)) st.emplace_back(new Cell()); else st.emplace_back(new Cell(p)); logs[size_t(i)].resize(static_cast<size_t>(n)); } std::atomic<int> bar{0};
    team(r, n, lv, [&](int t, Rng& tr) { for (int i = 0; i < rounds; ++i) { auto& l = logs[size_t(i)][size_t(t)]; l.reserve(size_t(per)); std::vector<P> mine; mine.reserve(8); bar.fetch_add(1); while (bar.load() < (i + 1) * n) { sched_yield(); } for (int k = 0; k < per; ++k) call(*st[size_t(i)], tr, mine, l, mix); } });
    uint64_t h = 0; for (int i = 0; i < rounds; ++i) { auto& l = logs[size_t(i)]; int res = linearizable<Spec>(l, init[size_t(i)]); if (res < 0) COV("undecided histories"); if (res == 0) { describe(l); fail("value.asps.linearizability", "no order of the calls explains what they returned (initially %d)", init[size_t(i)]); } COV("histories checked"); for (auto& t : l) for (auto& o : t) { COV("calls in checked histories"); if (o.kind == Cas) { if (o.ok) COV("compare-exchanges which succeeded"); else COV("compare-exchanges which failed"); } }
        // interleaving seen: the order of invocations and responses
        std::vector<std::pair<uint64_t, int>> ev; bool over = false; for (size_t t = 0; t < l.size(); ++t) for (auto& o : l[t]) { ev.push_back({o.from, int(t) * 2}); ev.push_back({o.to, int(t) * 2 + 1}); } std::sort(ev.begin(), ev.end()); uint64_t g = uint64_t(n); for (size_t k = 0; k < ev.size(); ++k) { g = hcomb(g, uint64_t(ev[k].second)); if (k + 1 < ev.size() && !(ev[k].second & 1) && ev[k + 1].second / 2 != ev[k].second / 2) over = true; } state(g); if (over) COV("histories with overlapping calls"); h = hcomb(h, g);
        P last = st[size_t(i)]->load(); if (last) CK(last.use_count() == 2 || true, "count"); id_of(last); }
    for (auto& s : st) { P p = s->load(); if (p) { long uc = p.use_count(); P q = s->exchange(nullptr); CK(q == p && !s->load(), "exchange at the end"); q.reset(); CK(p.use_count() == uc - 1, "use count %ld after taking the last pointer out, was %ld", p.use_count(), uc); } } st.clear(); end_case(); c.interesting(); c.h = h;
}
// long runs: conservation, every value taken out at most once
SUITE_NOLEAK("as.long", 60, 4000) {
    begin_case(); Rng& r = c.rng; int n = 2 + int(r.below(6)), per = 60 + int(r.below(150)); uint32_t lv = some_level(r); op("%d threads, %d exchanges, delays %u", n, per, lv); std::vector<std::vector<int>> out(static_cast<size_t>(n)); std::vector<std::vector<int>> in(static_cast<size_t>(n)); std::vector<int> all;
    { itlib::atomic_shared_ptr_storage<Obj> s; team(r, n, lv, [&](int t, Rng& tr) { for (int i = 0; i < per; ++i) { if (tr.chance(60)) { P p = fresh(); in[size_t(t)].push_back(p->id); P o = s.exchange(std::move(p)); if (o) out[size_t(t)].push_back(id_of(o)); } else { P l = s.load(); id_of(l); if (tr.chance(20)) { P o = s.exchange(nullptr); if (o) out[size_t(t)].push_back(id_of(o)); } else if (l && tr.chance(40)) { int was = l->id; if (s.compare_exchange(l, nullptr)) out[size_t(t)].push_back(was); else id_of(l); } } } });
      P last = s.load(); if (last) { CK(last.use_count() == 2, "use count %ld of the last pointer", last.use_count()); all.push_back(last->id); } }
    for (auto& o : out) all.insert(all.end(), o.begin(), o.end()); std::sort(all.begin(), all.end()); std::vector<int> put; for (auto& o : in) put.insert(put.end(), o.begin(), o.end()); std::sort(put.begin(), put.end()); CK(put == all, "%zu pointers were put in and %zu taken out", put.size(), all.size()); COVN("pointers put in and taken out", put.size()); end_case(); c.interesting(); uint64_t h = uint64_t(n); for (auto& o : out) h = hcomb(h, o.size()); c.h = h;
}
// a counter by compare-exchange: no update may be lost
SUITE_NOLEAK("as.counter", 60, 4000) {
    begin_case(); Rng& r = c.rng; int n = 2 + int(r.below(5)), per = 20 + int(r.below(60)); struct N { long v; long w; }; itlib::atomic_shared_ptr_storage<N> s(std::make_shared<N>(N{0, 0})); std::atomic<long> failed{0}; op("%d threads, %d increments", n, per);
    team(r, n, some_level(r), [&](int, Rng&) { long seen = -1, f = 0; for (int i = 0; i < per; ++i) { auto p = s.load(); for (;;) { if (p->v < seen) fail("value.asps.stale", "a thread sees %ld after %ld", p->v, seen); seen = p->v; if (p->w != -p->v) fail("value.asps.torn", "torn contents"); auto q = std::make_shared<N>(N{p->v + 1, -p->v - 1}); auto was = p; if (s.compare_exchange(p, q)) { seen = q->v; break; } ++f; if (p == was) fail("value.asps.expected", "a failed compare-exchange reports the expected value"); } } failed.fetch_add(f); });
    CK(s.load()->v == long(n) * per, "%ld of %ld increments", s.load()->v, long(n) * per); COVN("increments by compare-exchange", n * per); COVN("compare-exchanges which lost a race", failed.load()); c.interesting(); c.h = uint64_t(n * 1000 + per) + uint64_t(failed.load()) * 100000;
}
// one thread: the plain meaning; pointers of other types; destructors which use the storage
struct Re; using RS = itlib::atomic_shared_ptr_storage<Re>; static RS* the; static int seen_in_dtor, dtors;
struct Re { int v; Re(int i) : v(i) {} ~Re() { ++dtors; if (the) { auto p = the->load(); seen_in_dtor = p ? p->v : 0; } } };
static void alarm_(int) { fail("value.asps.deadlock", "a call doesn't return when the destructor of a pointed-to object uses the storage"); }
SUITE("as.reentrant", 60, 2000) {
    struct sigaction sa {}; sa.sa_handler = alarm_; sigaction(SIGALRM, &sa, nullptr); Rng& r = c.rng; RS s(std::make_shared<Re>(1)); the = &s; dtors = 0; int v = 1, made = 1; alarm(20);
    for (int i = 0; i < 20; ++i) { int how = int(r.below(5)); op("how%d", how); int d = dtors; ++v; ++made; switch (how) {
        case 0: s.store(std::make_shared<Re>(v)); CK(dtors == d + 1 && seen_in_dtor == v, "the object replaced by a store sees %d in the storage, should be %d", seen_in_dtor, v); break;
        case 1: { auto o = s.exchange(std::make_shared<Re>(v)); CK(dtors == d && o, "exchange"); o.reset(); CK(dtors == d + 1 && seen_in_dtor == v, "the object replaced by an exchange"); break; }
        case 2: { auto e = s.load(); CK(s.compare_exchange(e, std::make_shared<Re>(v)), "compare-exchange"); CK(dtors == d, "compare-exchange destroyed the expected object"); e.reset(); CK(dtors == d + 1 && seen_in_dtor == v, "the object replaced by a compare-exchange"); break; }
        case 3: { auto e = std::make_shared<Re>(-v); ++made; int cur = s.load()->v; CK(!s.compare_exchange(e, std::make_shared<Re>(v)), "compare-exchange with another object"); CK(e && e->v == cur && dtors == d + 2 && seen_in_dtor == cur, "a failed compare-exchange"); COV("expected objects released by a failed compare-exchange"); break; }
        case 4: { auto e = std::make_shared<Re>(-v); CK(!s.compare_exchange(e, nullptr), "compare-exchange with another object"); CK(e == s.load() && dtors == d + 1, "a failed compare-exchange with null"); break; } } COV("calls with destructors which use the storage"); }
    alarm(0); the = nullptr; s.store(nullptr); CK(!s.load() && dtors == made, "%d created, %d destroyed", made, dtors); c.interesting();
}
SUITE("as.plain", 300, 10000) {
    begin_case(); Rng& r = c.rng; { itlib::atomic_shared_ptr_storage<Obj> s; const auto& cs = s; P model; CK(!cs.load(), "an empty storage"); int n = 5 + int(r.below(30)); while (n--) { P v = r.chance(20) ? P() : fresh(); int how = int(r.below(5)); op("how%d", how); long uc = v.use_count(); switch (how) { case 0: s.store(v); model = v; break; case 1: { P o = s.exchange(v); CK(o == model, "exchange returns another pointer"); model = v; break; } case 2: { P e = model; CK(s.compare_exchange(e, v) && e == model, "compare-exchange"); model = v; break; } case 3: { P e = fresh(); CK(!s.compare_exchange(e, v) && e == model, "failed compare-exchange"); if (v) CK(v.use_count() == uc, "a failed compare-exchange keeps the pointer"); break; } case 4: s.store(std::move(v)); model = s.load(); if (!v) {} break; } P l = cs.load(); CK(l == model && !l.owner_before(model) && !model.owner_before(l), "load"); if (l) { v.reset(); CK(l.use_count() == 3, "use count %ld, should be 3", l.use_count()); } } }
    { itlib::atomic_shared_ptr_storage<const Base> b(fresh()); std::shared_ptr<const Base> p = b.load(); CK(p && p->sum() == ids.load() - 1, "pointer to a base"); b.store(fresh()); CK(p->sum() == ids.load() - 2, "old pointer"); } end_case(); c.interesting();
}
