// data_mutex (C20: suites dm.*) and strong_try_rec_mutex (C21: suites rm.*)
#include "mt.hpp"
#include <itlib/data_mutex.hpp>
#include <itlib/mutex.hpp>
#include <system_error>
#include <optional>
#include <shared_mutex>
#include <algorithm>
using namespace vf;

// ---------------------------------------------------------------- data_mutex, one thread, a mutex which watches
#define CK(c, ...) VCHECK(c, "value.data-mutex", __VA_ARGS__)
struct Watch { int ex = 0, sh = 0; long locks = 0, unlocks = 0, refused = 0, thrown = 0, tries = 0; int fail_next = 0; bool refuse = false; }; // fail_next: 1 = the next acquisition throws
static Watch* watch;
struct WMutex { // not recursive, shared
    Watch& w = *watch;
    void boom() { if (w.fail_next) { w.fail_next = 0; ++w.thrown; throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); } }
    void lock() { boom(); if (w.ex || w.sh) fail("value.data-mutex", "lock() of a mutex which is held"); ++w.ex; ++w.locks; }
    bool try_lock() { ++w.tries; boom(); if (w.refuse || w.ex || w.sh) { ++w.refused; return false; } ++w.ex; ++w.locks; return true; }
    void unlock() { if (w.ex != 1) fail("value.data-mutex", "unlock() of a mutex which isn't held (exclusive %d, shared %d)", w.ex, w.sh); --w.ex; ++w.unlocks; }
    void lock_shared() { boom(); if (w.ex) fail("value.data-mutex", "lock_shared() of a mutex which is held"); ++w.sh; ++w.locks; }
    bool try_lock_shared() { ++w.tries; boom(); if (w.refuse || w.ex) { ++w.refused; return false; } ++w.sh; ++w.locks; return true; }
    void unlock_shared() { if (w.sh < 1) fail("value.data-mutex", "unlock_shared() of a mutex which isn't shared (exclusive %d)", w.ex); --w.sh; ++w.unlocks; }
};
struct Data { Tr t; int calls = 0; Data(int a, Tr b) : t(a + b.v) {} Data() : t(1) {} Data(const Data&) = delete; int get() const { return t.v; } void set(int i) { t = Tr(i); } int& ref() { return t.v; } };
struct DM {
    using M = itlib::data_mutex<Data, WMutex>;
    struct Holder { virtual ~Holder() {} virtual void use(DM&) = 0; virtual std::unique_ptr<Holder> moved(DM&) = 0; bool shared, owns; };
    template <typename L, bool Const, bool Try> struct H : Holder {
        L l; H(L&& x, bool sh, bool ow) : l(std::move(x)) { shared = sh; owns = ow; }
        void use(DM& d) override {
            if constexpr (Try) CK(bool(l) == owns, "operator bool of a lock is %d", bool(l)); if (!owns) return;
            const L& cl = l; CK(&*l == d.addr && l.operator->() == d.addr && &*cl == d.addr && cl.operator->() == d.addr, "the lock refers to another object"); static_assert(std::is_const<typename std::remove_reference<decltype(*l)>::type>::value == Const && std::is_const<typename std::remove_reference<decltype(*cl)>::type>::value, "constness");
            CK(l->get() == d.val && (*l).get() == d.val, "the data is %d, should be %d", l->get(), d.val); if constexpr (!Const) { d.val = int(d.r.below(1000)); l->set(d.val); } COV("data accessed");
        }
        std::unique_ptr<Holder> moved(DM& d) override { auto p = std::unique_ptr<Holder>(new H(std::move(l), shared, owns)); owns = false; if constexpr (Try) CK(!l, "a lock which was moved from has access"); COV("locks moved"); return p; }
    };
    Rng& r; M m; const M& cm; const Data* addr = nullptr; int val; std::vector<std::unique_ptr<Holder>> held; // held: locks, also those without access
    DM(Rng& r_, int a) : r(r_), m(a, Tr(5)), cm(m), val(a + 5) { auto l = m.unique_lock(); addr = &*l; }
    int ex() { int n = 0; for (auto& h : held) n += h->owns && !h->shared; return n; } int sh() { int n = 0; for (auto& h : held) n += h->owns && h->shared; return n; }
    void compare(const char* what) { CK(watch->ex == ex() && watch->sh == sh(), "%s: the mutex is held %d times exclusively and %d times shared, should be %d and %d", what, watch->ex, watch->sh, ex(), sh()); COV("mutex states compared"); }
    template <bool Const, bool Try, typename F> void acquire(F f, bool shared, const char* what) { // as the documentation names them
        bool can = shared ? !ex() : !ex() && !sh(); if (!Try && !can) return; bool thr = r.chance(15); watch->fail_next = thr; watch->refuse = Try && r.chance(20); bool ok = can && !watch->refuse; long n = watch->locks, u = watch->unlocks, t = watch->tries; op("%s%s%s", what, thr ? " throwing" : "", watch->refuse ? " refused" : "");
        int e = watch->ex, s = watch->sh; bool threw = false; try { using L = decltype(f()); std::unique_ptr<Holder> h(new H<L, Const, Try>(f(), shared, ok)); if (watch->refuse || !can) COV("refused"); held.push_back(std::move(h)); } catch (std::system_error&) { threw = true; }
        watch->refuse = false; watch->fail_next = 0; CK(watch->tries - t == Try, "%s: %ld tries to lock", what, watch->tries - t); CK(threw == thr, "%s: the exception of the mutex was %s", what, threw ? "invented" : "swallowed"); if (threw) { CK(watch->ex == e && watch->sh == s && watch->unlocks == u, "%s which threw changed the mutex", what); COV("acquisitions which threw"); return; }
        CK(watch->locks == n + (ok ? 1 : 0) && watch->unlocks == u, "%s: %ld acquisitions, %ld releases", what, watch->locks - n, watch->unlocks - u); held.back()->use(*this); compare(what); COV("acquired");
    }
    void step() {
        switch (r.below(12)) {
        case 0: acquire<false, false>([&] { return m.unique_lock(); }, false, "unique_lock"); break;
        case 1: acquire<true, false>([&] { return cm.unique_lock(); }, false, "const unique_lock"); break;
        case 2: acquire<false, true>([&] { return m.try_unique_lock(); }, false, "try_unique_lock"); break;
        case 3: acquire<true, true>([&] { return cm.try_unique_lock(); }, false, "const try_unique_lock"); break;
        case 4: acquire<true, false>([&] { return cm.shared_lock(); }, true, "shared_lock"); break;
        case 5: acquire<true, true>([&] { return m.try_shared_lock(); }, true, "try_shared_lock"); break;
        case 6: case 7: case 8: if (!held.empty()) { size_t i = r.below(held.size()); bool o = held[i]->owns; long u = watch->unlocks; op("release %zu", i); held.erase(held.begin() + long(i)); CK(watch->unlocks == u + o, "a lock which %s released %ld times", o ? "has access" : "has no access", watch->unlocks - u); compare("release"); COV("released"); } break;
        case 9: if (!held.empty()) { size_t i = r.below(held.size()); op("move %zu", i); long u = watch->unlocks; auto p = held[i]->moved(*this); CK(watch->unlocks == u, "a move released the mutex"); held.push_back(std::move(p)); compare("move"); held[i]->use(*this); held.back()->use(*this); } break;
        case 10: case 11: if (!held.empty()) held[r.below(held.size())]->use(*this); break;
        }
    }
    static void run(Case& c) { Watch w; watch = &w; { DM d(c.rng, int(c.rng.below(100))); d.held.reserve(100); CK(w.locks == 1 && w.unlocks == 1, "the first lock"); int n = 10 + int(c.rng.below(50)); while (n--) d.step(); d.held.clear(); d.compare("end"); } { itlib::data_mutex<Data, WMutex> dm; CK(dm.unique_lock()->get() == 1, "default data"); } CK(w.locks == w.unlocks, "%ld acquisitions and %ld releases", w.locks, w.unlocks); c.interesting(); state(hcomb(uint64_t(w.locks), hcomb(uint64_t(w.refused), uint64_t(w.thrown)))); }
};
// 'moved' leaves the source in the list without access: the comparison above has both
REG_SUITE("dm.watch", 3000, 100000, &DM::run);

// what the data is made of: arguments are forwarded
struct Made { std::string s; std::unique_ptr<int> p; std::vector<int> v; int& ext; Made(std::string a, std::unique_ptr<int> b, std::vector<int> c, int& e) : s(std::move(a)), p(std::move(b)), v(std::move(c)), ext(e) {} };
SUITE("dm.made", 1000, 30000) {
    Rng& r = c.rng; Watch w; watch = &w; std::string s(r.below(60), char('a' + r.below(26))), s0 = s; std::unique_ptr<int> p(new int(int(r.below(100)))); int* raw = p.get(); std::vector<int> v(r.below(9), int(r.below(100))), v0 = v; int e = 1; bool mv = r.chance(50); op("made, %d", mv); COV("arguments forwarded");
    auto look = [&](itlib::data_mutex<Made, WMutex>& d) { auto l = d.unique_lock(); CK(l->s == s0 && l->p.get() == raw && l->v == v0 && &l->ext == &e, "the data isn't made of the arguments"); l->ext = 7; };
    if (mv) { const int* at = v.data(); itlib::data_mutex<Made, WMutex> d(s, std::move(p), std::move(v), e); look(d); CK(v.empty() && (v0.empty() || d.unique_lock()->v.data() == at), "an rvalue argument was copied"); }
    else { const auto& kv = v; itlib::data_mutex<Made, WMutex> d(std::move(s), std::move(p), kv, e); look(d); s = s0; CK(v == v0, "an lvalue argument was taken"); }
    CK(s == s0 && e == 7 && !p, "an lvalue argument was taken"); CK(w.ex == 0 && w.locks == w.unlocks, "the mutex is held at the end"); c.interesting();
}

// ---------------------------------------------------------------- data_mutex, many threads
struct Plain { long a = 0, b = 0; std::vector<int> v; };
struct Inside { std::atomic<int> ex{0}, sh{0}; std::atomic<uint64_t> both{0}; }; // relaxed: orders nothing
template <typename M> constexpr bool has_shared() { return std::is_same<M, std::shared_mutex>::value || std::is_same<M, std::shared_timed_mutex>::value; }
template <typename M> void dm_threads(Case& c) {
    Rng& r = c.rng; itlib::data_mutex<Plain, M> dm; const auto& cdm = dm; Inside in; int n = 2 + int(r.below(6)); std::vector<long> done(size_t(n), 0); std::atomic<long> overlaps{0}, refused{0}, reads{0}; uint32_t lv = some_level(r); long per = 20 + long(r.below(60)); op("%d threads, %ld each, delays %u", n, per, lv);
    auto rlx = std::memory_order_relaxed;
    auto write = [&](auto& l, Rng& tr) { if (in.ex.fetch_add(1, rlx) != 0 || in.sh.load(rlx) != 0) fail("value.data-mutex.exclusion", "an exclusive lock overlaps another access"); long x = l->a; l->v.push_back(int(x)); if (tr.chance(20)) sched_yield(); l->a = x + 1; l->b = -l->a; in.ex.fetch_sub(1, rlx); };
    auto read = [&](auto& l, Rng& tr) { int k = in.sh.fetch_add(1, rlx); if (in.ex.load(rlx) != 0) fail("value.data-mutex.exclusion", "a shared lock overlaps an exclusive one"); if (k) overlaps.fetch_add(1, rlx); long a = l->a, b = l->b; if (tr.chance(20)) sched_yield(); if (a + b != 0 || l->a != a || (long)l->v.size() != a) fail("value.data-mutex.exclusion", "torn data under a shared lock: %ld %ld", a, b); in.sh.fetch_sub(1, rlx); reads.fetch_add(1, rlx); };
    team(r, n, lv, [&](int t, Rng& tr) {
        for (long i = 0; i < per; ++i) switch (tr.below(has_shared<M>() ? 6 : 3)) {
            case 0: { auto l = dm.unique_lock(); if (tr.chance(30)) { auto k = std::move(l); write(k, tr); } else write(l, tr); ++done[size_t(t)]; break; }
            case 1: { auto l = dm.try_unique_lock(); if (l) { write(l, tr); ++done[size_t(t)]; } else refused.fetch_add(1, rlx); break; }
            case 2: { auto l = cdm.unique_lock(); if (l->a + l->b != 0) fail("value.data-mutex.exclusion", "torn data"); break; }
            default: if constexpr (has_shared<M>()) { if (tr.chance(70)) { auto l = cdm.shared_lock(); read(l, tr); } else { auto l = cdm.try_shared_lock(); if (l) read(l, tr); else refused.fetch_add(1, rlx); } } break;
        }
    });
    long sum = 0; for (long d : done) sum += d; auto l = dm.unique_lock(); CK(l->a == sum && l->b == -sum && long(l->v.size()) == sum, "%ld updates under locks, %ld seen", sum, l->a); for (long i = 0; i < sum; ++i) CK(l->v[size_t(i)] == i, "update %ld", i);
    COVN("exclusive accesses", sum); COVN("shared accesses", reads.load()); COVN("shared accesses together", overlaps.load()); COVN("refused in threads", refused.load()); c.interesting(); uint64_t h = 0; for (long d : done) h = hcomb(h, uint64_t(d)); c.h = hcomb(h, uint64_t(refused.load())); state(c.h);
}
#define NOLEAK(nm, q, t, fn) static ::vf::Suite VF_CAT(suite_reg_, __LINE__)(nm, q, t, fn, false)
NOLEAK("dm.threads.mutex", 60, 4000, &dm_threads<std::mutex>);
NOLEAK("dm.threads.shared", 60, 4000, &dm_threads<std::shared_mutex>);
NOLEAK("dm.threads.timed", 30, 4000, &dm_threads<std::shared_timed_mutex>);
// a data_mutex over the library's own mutex: only try locks
SUITE_NOLEAK("dm.threads.own", 30, 4000) {
    Rng& r = c.rng; itlib::data_mutex<Plain, itlib::strong_try_rec_mutex> dm; int n = 2 + int(r.below(6)); std::atomic<long> sum{0}; uint32_t lv = some_level(r); op("%d threads", n);
    team(r, n, lv, [&](int, Rng& tr) { for (int i = 0; i < 40; ++i) { auto l = dm.try_unique_lock(); if (!l) continue; ++l->a; if (tr.chance(50)) { auto k = dm.try_unique_lock(); if (!k) fail("value.rec-mutex.recursion", "the owner is refused"); ++k->b; --k->b; } --l->b; sum.fetch_add(1, std::memory_order_relaxed); } });
    auto l = dm.try_unique_lock(); CK(bool(l), "refused at the end"); CK(l->a == sum.load() && l->b == -l->a, "lost updates"); COVN("exclusive accesses", sum.load()); c.interesting(); c.h = uint64_t(sum.load()); state(c.h);
}
#undef CK

// ---------------------------------------------------------------- strong_try_rec_mutex
#define CK(c, ...) VCHECK(c, "value.rec-mutex", __VA_ARGS__)
struct Ev { uint64_t from, to; int thread; int kind; int depth; }; // kind: 0 refused, 1 first lock, 2 lock by the owner, 3 unlock, 4 last unlock
// what is recorded must be explained by intervals of ownership
static void judge(std::vector<std::vector<Ev>>& logs) {
    struct Hold { uint64_t maybe_from, sure_from, sure_to, maybe_to; int thread; }; std::vector<Hold> holds;
    for (auto& l : logs) for (size_t i = 0; i < l.size(); ++i) if (l[i].kind == 1) { Hold h{l[i].from, l[i].to, 0, 0, l[i].thread}; size_t j = i + 1; while (j < l.size() && l[j].kind != 4) ++j; if (j == l.size()) harness_error("unfinished log"); h.sure_to = l[j].from; h.maybe_to = l[j].to; holds.push_back(h); }
    std::sort(holds.begin(), holds.end(), [](const Hold& a, const Hold& b) { return a.sure_from < b.sure_from; });
    for (size_t i = 1; i < holds.size(); ++i) CK(holds[i].thread == holds[i - 1].thread || holds[i - 1].sure_to < holds[i].sure_from, "threads %d and %d own the mutex at the same time", holds[i - 1].thread, holds[i].thread);
    for (auto& l : logs) for (auto& e : l) if (e.kind == 0) { bool ok = false; for (auto& h : holds) if (h.thread != e.thread && h.maybe_from < e.to && e.from < h.maybe_to) { ok = true; break; } CK(ok, "try_lock is refused while no other thread has the mutex"); COV("refusals explained"); }
    COVN("ownerships", holds.size()); uint64_t o = 0; for (auto& h : holds) o = hcomb(o, uint64_t(h.thread)); state(o); // the order of owners
}
SUITE_NOLEAK("rm.threads", 150, 10000) {
    Rng& r = c.rng; itlib::strong_try_rec_mutex m; int n = 2 + int(r.below(6)); long shared_a = 0; std::vector<long> shared_v; std::atomic<int> inside{-1}; auto rlx = std::memory_order_relaxed; std::vector<std::vector<Ev>> logs(static_cast<size_t>(n)); uint32_t lv = some_level(r); long per = 20 + long(r.below(100)); int wait = int(r.below(3)); op("%d threads, %ld each, delays %u", n, per, lv);
    team(r, n, lv, [&](int t, Rng& tr) {
        auto& log = logs[size_t(t)]; log.reserve(size_t(per) * 14);
        for (long i = 0; i < per; ++i) {
            uint64_t a = stamp(); bool ok = m.try_lock(); uint64_t b = stamp();
            if (!ok) { log.push_back({a, b, t, 0, 0}); if (wait == 1) sched_yield(); else if (wait == 2 && tr.chance(50)) for (volatile int k = 0; k < 200; k = k + 1) {} continue; }
            int was = inside.exchange(t, rlx); if (was != -1) fail("value.rec-mutex.exclusion", "thread %d got the mutex which thread %d holds", t, was);
            log.push_back({a, b, t, 1, 1}); int depth = 1; long x = shared_a; shared_v.push_back(t);
            int deeper = tr.chance(50) ? 0 : int(tr.below(5));
            for (int k = 0; k < deeper; ++k) { // up and down, never to the ground
                if (depth > 1 && tr.chance(40)) { a = stamp(); m.unlock(); b = stamp(); --depth; log.push_back({a, b, t, 3, depth}); }
                else { a = stamp(); ok = m.try_lock(); b = stamp(); if (!ok) fail("value.rec-mutex.recursion", "the owner is refused at depth %d", depth); ++depth; log.push_back({a, b, t, 2, depth}); }
                if (inside.load(rlx) != t) fail("value.rec-mutex.exclusion", "another thread got in at depth %d", depth); if (tr.chance(20)) sched_yield();
            }
            while (depth > 1) { m.unlock(); --depth; if (inside.load(rlx) != t) fail("value.rec-mutex.exclusion", "another thread got in at depth %d", depth); }
            shared_a = x + 1; inside.store(-1, rlx); a = stamp(); m.unlock(); b = stamp(); log.push_back({a, b, t, 4, 0});
        }
    });
    judge(logs); long sum = 0; for (auto& l : logs) for (auto& e : l) { sum += e.kind == 1; if (e.kind == 2) COV("recursive locks"); } CK(shared_a == sum && long(shared_v.size()) == sum, "%ld updates under the mutex, %ld seen", sum, shared_a); CK(m.try_lock(), "not free at the end"); m.unlock(); c.interesting(); c.h = hcomb(uint64_t(sum), uint64_t(n)); for (long t : shared_v) c.h = hcomb(c.h, uint64_t(t));
}
// phases: one thread holds, everyone else must be refused; then nobody holds, the first one must get it
SUITE_NOLEAK("rm.phases", 150, 6000) {
    Rng& r = c.rng; itlib::strong_try_rec_mutex m; int n = 2 + int(r.below(5)), phases = 4 + int(r.below(8)); std::vector<int> owner, depth; for (int p = 0; p < phases; ++p) { owner.push_back(int(r.below(size_t(n)))); depth.push_back(1 + int(r.below(r.chance(5) ? (r.chance(20) ? 70000 : 300) : 6))); } std::atomic<int> bar{0}; auto barrier = [&](int k) { bar.fetch_add(1); while (bar.load() < k * n) sched_yield(); }; op("%d threads, %d phases", n, phases); long data = 0;
    team(r, n, some_level(r), [&](int t, Rng& tr) {
        int k = 0; for (int p = 0; p < phases; ++p) {
            bool me = owner[size_t(p)] == t; barrier(++k);
            if (me) { for (int d = 0; d < depth[size_t(p)]; ++d) if (!m.try_lock()) fail("value.rec-mutex", "try_lock number %d is refused although the mutex is %s", d + 1, d ? "the caller's" : "free"); ++data; }
            barrier(++k); // everyone tries, the owner goes up and down
            int tries = 3 + int(tr.below(10)); while (tries--) { if (me) { if (!m.try_lock()) fail("value.rec-mutex.recursion", "the owner is refused"); m.unlock(); } else if (m.try_lock()) fail("value.rec-mutex.exclusion", "a mutex which another thread holds was locked"); }
            barrier(++k); if (me) for (int d = 1; d < depth[size_t(p)]; ++d) m.unlock(); // still held once
            barrier(++k); if (!me && m.try_lock()) fail("value.rec-mutex.exclusion", "unlocked fewer times than locked, yet free");
            barrier(++k); if (me) m.unlock();
        }
    });
    CK(data == phases, "data"); COVN("phases", phases); c.interesting(); c.h = uint64_t(phases) * 10 + uint64_t(n); for (int o : owner) c.h = hcomb(c.h, uint64_t(o)); for (int d : depth) c.h = hcomb(c.h, uint64_t(d));
}
// handing the mutex over: written by one owner, seen by the next, with nothing else between them
SUITE_NOLEAK("rm.handover", 60, 4000) {
    Rng& r = c.rng; itlib::strong_try_rec_mutex m; int n = 2 + int(r.below(4)); long cells[4] = {}; long goal = 50 + long(r.below(200)); op("%d threads to %ld", n, goal); std::atomic<long> order{0};
    team(r, n, some_level(r), [&](int, Rng& tr) { for (;;) { if (!m.try_lock()) { sched_yield(); continue; } long x = cells[0]; bool stop = x >= goal; if (!stop) { bool twice = tr.chance(30); if (twice && !m.try_lock()) fail("value.rec-mutex.recursion", "the owner is refused"); if (cells[1] != x * 2 || cells[2] != x * 3) fail("value.rec-mutex.visibility", "the previous owner's writes aren't visible"); cells[0] = x + 1; cells[1] = (x + 1) * 2; cells[2] = (x + 1) * 3; if (twice) m.unlock(); } m.unlock(); if (stop) break; } });
    CK(cells[0] == goal, "%ld of %ld", cells[0], goal); COVN("handed over", goal); c.interesting(); c.h = uint64_t(goal) * 10 + uint64_t(n);
}
