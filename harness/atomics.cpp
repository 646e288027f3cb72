// atomic_relaxed_counter (C23)
#include "lin.hpp"
#include <limits>
#include <algorithm>
#include <itlib/atomic.hpp>
using namespace vf;
#define CK(c, ...) VCHECK(c, "value.atomic", __VA_ARGS__)
template <typename I> struct Plain { // against the plain type
    static I any(Rng& r) { switch (r.below(6)) { case 0: return std::numeric_limits<I>::max(); case 1: return std::numeric_limits<I>::min(); case 2: return I(0); case 3: return I(r.below(10)); default: return I(r.next()); } }
    static bool fits(I a, I b, bool minus) { if (std::is_unsigned<I>::value || sizeof(I) < sizeof(int)) return true; I o; return minus ? !__builtin_sub_overflow(a, b, &o) : !__builtin_add_overflow(a, b, &o); } // signed overflow is not asked for
    static void run(Case& c) {
        using A = itlib::atomic_relaxed_counter<I>; Rng& r = c.rng; I m = any(r), m2 = any(r); A a{m}, b(m2); const A& ca = a; int n = 10 + int(r.below(60)); op("from %lld", (long long)m);
        while (n--) {
            I x = any(r); if (!std::is_unsigned<I>::value && r.chance(50)) x = I(long(r.below(2000)) - 1000); int how = int(r.below(14)); op("how%d %lld", how, (long long)x);
            switch (how) {
            case 0: if (fits(m, 1, false)) { I v = ++a; m = I(m + 1); CK(v == m, "++x is %lld, should be %lld", (long long)v, (long long)m); } break;
            case 1: if (fits(m, 1, false)) { I v = a++; CK(v == m, "x++ is %lld, should be %lld", (long long)v, (long long)m); m = I(m + 1); } break;
            case 2: if (fits(m, 1, true)) { I v = --a; m = I(m - 1); CK(v == m, "--x is %lld, should be %lld", (long long)v, (long long)m); } break;
            case 3: if (fits(m, 1, true)) { I v = a--; CK(v == m, "x-- is %lld, should be %lld", (long long)v, (long long)m); m = I(m - 1); } break;
            case 4: if (fits(m, x, false)) { I v = (a += x); m = I(m + x); CK(v == m, "x += y is %lld, should be %lld", (long long)v, (long long)m); } break;
            case 5: if (fits(m, x, true)) { I v = (a -= x); m = I(m - x); CK(v == m, "x -= y is %lld, should be %lld", (long long)v, (long long)m); } break;
            case 6: a.store(x); m = x; break;
            case 7: { I v = (a = x); m = x; CK(v == x, "x = y is another value"); break; }
            case 8: { A d(a); CK(d.load() == m && ca.load() == m, "a copy has another value"); if (fits(m, 1, false)) ++d; else --d; CK(ca.load() == m, "a copy isn't independent"); COV("copied"); break; }
            case 9: { A& q = (b = ca); CK(&q == &b && b.load() == m && ca.load() == m, "assigned another value"); m2 = m; COV("assigned"); break; }
            case 10: { std::swap(m, m2); A t(a); a = b; b = t; break; }
            case 11: { A& self = a; a = self; break; }
            case 12: { if (fits(m, x, false)) CK(I(a + x) == I(m + x), "x + y"); CK((a < x) == (m < x) && (a == x) == (m == x) && (x > a) == (x > m) && !a == !m && (a && true) == (m && true), "conversion to the value"); if (fits(m, x, true)) CK(I(a - x) == I(m - x), "x - y"); break; }
            case 13: { I v = ca; CK(v == m && a.a.load() == m, "conversion"); break; }
            }
            CK(ca.load() == m && I(ca) == m && b.load() == m2, "the value is %lld, should be %lld", (long long)ca.load(), (long long)m); COV("values compared");
        }
        if (std::is_unsigned<I>::value) { A w{I(0)}; CK(--w == std::numeric_limits<I>::max() && ++w == 0 && w-- == 0 && w++ == std::numeric_limits<I>::max() && (w -= 1) == std::numeric_limits<I>::max() && (w += 1) == 0, "unsigned wrap-around"); COV("wrapped around"); }
        static_assert(std::is_same<decltype(++a), I>::value && std::is_same<decltype(a += m), I>::value && std::is_same<decltype(a.load()), I>::value && std::is_convertible<A, I>::value && !std::is_convertible<I, A>::value, "types");
        c.interesting(); state(uint64_t(m));
    }
};
REG_SUITE("at.i8", 300, 10000, &Plain<signed char>::run);
REG_SUITE("at.u8", 300, 10000, &Plain<unsigned char>::run);
REG_SUITE("at.i16", 300, 10000, &Plain<short>::run);
REG_SUITE("at.u16", 300, 10000, &Plain<unsigned short>::run);
REG_SUITE("at.i32", 300, 10000, &Plain<int>::run);
REG_SUITE("at.u32", 300, 10000, &Plain<unsigned>::run);
REG_SUITE("at.i64", 300, 10000, &Plain<long long>::run);
REG_SUITE("at.u64", 300, 10000, &Plain<size_t>::run);
// ---------------------------------------------------------------- threads
struct Op { uint64_t from, to; int kind; uint64_t x, r; };
enum { PreInc, PostInc, PreDec, PostDec, AddOp, SubOp, LoadOp, StoreOp, AsgnOp, CopyOp };
template <typename I> struct Spec { using State = uint64_t; static bool apply(uint64_t& s, const Op& o) { I v = I(s), x = I(o.x), r = I(o.r); typedef typename std::make_unsigned<I>::type U; switch (o.kind) { case PreInc: v = I(U(v) + 1); if (r != v) return false; break; case PostInc: if (r != v) return false; v = I(U(v) + 1); break; case PreDec: v = I(U(v) - 1); if (r != v) return false; break; case PostDec: if (r != v) return false; v = I(U(v) - 1); break; case AddOp: v = I(U(v) + U(x)); if (r != v) return false; break; case SubOp: v = I(U(v) - U(x)); if (r != v) return false; break; case StoreOp: case AsgnOp: v = x; break; default: return r == v; } s = uint64_t(v); return true; } static uint64_t hash(uint64_t s) { return s * 31 + 5; } };
template <typename I> void lin_case(Case& c) {
    using A = itlib::atomic_relaxed_counter<I>; Rng& r = c.rng; int n = 2 + int(r.below(4)), rounds = 16, per = 2 + int(r.below(7)); bool stores = r.chance(30); uint32_t lv = some_level(r); op("%d threads, %d calls, delays %u", n, per, lv); std::vector<std::unique_ptr<A>> as; std::vector<I> init; std::vector<std::vector<std::vector<Op>>> logs(static_cast<size_t>(rounds)); for (int i = 0; i < rounds; ++i) { I v = std::is_unsigned<I>::value || sizeof(I) < sizeof(int) ? I(r.chance(50) ? r.next() : r.below(3)) : I(r.below(1000)); init.push_back(v); as.emplace_back(new A(v)); logs[size_t(i)].resize(static_cast<size_t>(n)); } std::atomic<int> bar{0};
    team(r, n, lv, [&](int t, Rng& tr) { for (int i = 0; i < rounds; ++i) { A& a = *as[size_t(i)]; auto& l = logs[size_t(i)][size_t(t)]; l.reserve(size_t(per)); bar.fetch_add(1); while (bar.load() < (i + 1) * n) sched_yield(); for (int k = 0; k < per; ++k) { Op o{}; do o.kind = int(tr.below(10)); while (!stores && (o.kind == StoreOp || o.kind == AsgnOp)); I x = I(tr.below(50)), v{}; o.x = uint64_t(x); o.from = stamp(); switch (o.kind) { case PreInc: v = ++a; break; case PostInc: v = a++; break; case PreDec: v = --a; break; case PostDec: v = a--; break; case AddOp: v = a += x; break; case SubOp: v = a -= x; break; case LoadOp: v = a.load(); break; case StoreOp: a.store(x); break; case AsgnOp: v = a = x; break; case CopyOp: if (tr.chance(50)) { A b(a); v = b; } else { A b(I(0)); b = a; v = b; } break; } o.to = stamp(); o.r = uint64_t(v); l.push_back(o); } } });
    uint64_t h = 0; for (int i = 0; i < rounds; ++i) { auto& l = logs[size_t(i)]; { std::vector<Op> fin{Op{stamp(), 0, LoadOp, 0, uint64_t(as[size_t(i)]->load())}}; fin[0].to = stamp(); l.push_back(fin); } int res = linearizable<Spec<I>>(l, uint64_t(init[size_t(i)])); if (res < 0) COV("undecided histories"); COV("histories checked"); bool over = false; uint64_t g = uint64_t(n); std::vector<std::pair<uint64_t, int>> ev; for (size_t t = 0; t < l.size(); ++t) for (auto& o : l[t]) { ev.push_back({o.from, int(t) * 2}); ev.push_back({o.to, int(t) * 2 + 1}); COV("calls in checked histories"); } std::sort(ev.begin(), ev.end()); for (size_t k = 0; k < ev.size(); ++k) { g = hcomb(g, uint64_t(ev[k].second)); if (k + 1 < ev.size() && !(ev[k].second & 1) && ev[k + 1].second / 2 != ev[k].second / 2) over = true; } if (over) COV("histories with overlapping calls"); state(g); h = hcomb(h, g);
        if (res == 0) { for (size_t t = 0; t < l.size(); ++t) for (auto& o : l[t]) op("t%zu [%llu,%llu] k%d x%lld -> %lld", t, (unsigned long long)o.from, (unsigned long long)o.to, o.kind, (long long)I(o.x), (long long)I(o.r)); fail("value.atomic.linearizability", "no order of the calls explains what they returned (initially %lld)", (long long)init[size_t(i)]); } }
    c.interesting(); c.h = h;
}
#define NOLEAK(nm, q, t, fn) static ::vf::Suite VF_CAT(suite_reg_, __LINE__)(nm, q, t, fn, false)
NOLEAK("at.lin.u8", 60, 5000, &lin_case<unsigned char>);
NOLEAK("at.lin.i16", 60, 5000, &lin_case<short>);
NOLEAK("at.lin.i32", 60, 5000, &lin_case<int>);
NOLEAK("at.lin.u64", 60, 5000, &lin_case<unsigned long>);
// many updates: none lost, each result once
SUITE_NOLEAK("at.many", 60, 4000) {
    Rng& r = c.rng; int n = 2 + int(r.below(6)), per = 200 + int(r.below(1000)); itlib::atomic_relaxed_counter<long> up{0}, sum{5}; itlib::atomic_relaxed_counter<unsigned char> wrap{0}; itlib::atomic_relaxed_counter<unsigned long> halves{0}; std::vector<std::vector<long>> got(static_cast<size_t>(n)); std::vector<long> net(static_cast<size_t>(n), 0); op("%d threads, %d updates", n, per);
    team(r, n, some_level(r), [&](int t, Rng& tr) { auto& g = got[size_t(t)]; long last = 0; for (int i = 0; i < per; ++i) { long v = tr.chance(50) ? ++up : up++ + 1; if (v <= last) fail("value.atomic.monotonic", "a thread increments to %ld after %ld", v, last); last = v; g.push_back(v); long d = long(tr.below(100)); if (tr.chance(50)) { sum += d; net[size_t(t)] += d; } else { sum -= d; net[size_t(t)] -= d; } ++wrap; if (tr.chance(30)) { --wrap; wrap += 1; } unsigned long h = halves.load(); if ((h >> 32) != (h & 0xffffffff)) fail("value.atomic.torn", "a torn value is seen"); halves += (1ul << 32) + 1; itlib::atomic_relaxed_counter<unsigned long> snap(halves); h = snap; if ((h >> 32) != (h & 0xffffffff)) fail("value.atomic.torn", "a torn copy"); } });
    std::vector<long> all; long s = 5; for (auto& g : got) all.insert(all.end(), g.begin(), g.end()); for (long x : net) s += x; std::sort(all.begin(), all.end()); for (size_t i = 0; i < all.size(); ++i) CK(all[i] == long(i) + 1, "result %ld instead of %zu among all increments", all[i], i + 1); CK(up == long(n) * per && sum == s && wrap == (unsigned char)(n * per) && halves.load() == ((1ul << 32) + 1) * (unsigned long)(n * per), "lost updates: %ld of %ld", up.load(), long(n) * per); COVN("updates", n * per); c.interesting(); c.h = uint64_t(n * 10000 + per);
}
