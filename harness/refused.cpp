// Refused and failing operations of pod_vector, dynamic_bitset, mem_ostreambuf, flat_set and flat_map (C35)
#include "common.hpp"
#include <itlib/pod_vector.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/mem_streambuf.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/flat_map.hpp>
#include <ostream>
#include <map>
using namespace vf;
#define CK(c, ...) VCHECK(c, "value.refused", __VA_ARGS__)

#ifndef PART
#define PART 0
#endif
// ------------------------------------------------------------------ pod_vector
// Mode: 0 realloc, 1 realloc which is never considered wasteful, 2 expand which works now and then, 3 expand which never works
static Rng arng(1);
static struct ResetA { ResetA() { case_reset() = [] { arng = Rng(mix(prog()->idx + 77) + hstr(prog()->suite)); fault().off(); }; } } reset_a;
template <size_t Align, int Mode> struct TA {
    using size_type = size_t; int arena = 0; TA() = default; explicit TA(int a) : arena(a) {}
    static constexpr size_type max_size() { return ~size_type(0); } static constexpr bool zero_fill_new() { return true; } static constexpr size_type alloc_align() { return Align; }
    static constexpr bool has_expand() { return Mode >= 2; } static constexpr size_type realloc_wasteful_copy_size() { return Mode == 1 ? ~size_t(0) : 8; }
    // no better aligned than promised; some room in front and behind
    void* malloc(size_type n) {
        if (n > size_t(1) << 32) throw std::bad_alloc(); fault().alloc_point(); char* real = nullptr; if (posix_memalign((void**)&real, 256, n + 512)) throw std::bad_alloc();
        const size_t off = 256 - Align * (2 * arng.below(4) + 1); char* u = real + off; size_t h[2] = {n, off}; memcpy(u - 16, h, 16); memset(u, 0xcd, n); ledger().add(u, n, Align, arena); return u;
    }
    void free(void* p) { if (!p) return; auto o = ledger().owner_exact(p); bool known = o; ledger().remove(p, o ? o->n : 0, Align, arena); if (known) { size_t h[2]; memcpy(h, (char*)p - 16, 16); ::free((char*)p - h[1]); } }
    void* realloc(void* p, size_type n) { VCHECK(Mode < 2, "alloc.interface", "realloc called"); size_t old = 0; if (p) { auto o = ledger().owner_exact(p); VCHECK(o, "alloc.unknown-block", "realloc of %p", p); old = o->n; } void* q = malloc(n); if (p) { memcpy(q, p, std::min(old, n)); free(p); } return q; }
    static size_t first(void* p) { size_t n; memcpy(&n, (char*)p - 16, sizeof n); return n; }
    bool expand(void* p, size_type n) { VCHECK(Mode >= 2, "alloc.interface", "expand called"); auto o = ledger().owner_exact(p); VCHECK(o, "alloc.unknown-block", "expand of %p", p); if (Mode == 3 || n > first(p) + 200 || arng.chance(50)) return false; ledger().remove(p, o->n, Align, arena); ledger().add(p, n, Align, arena); return true; }
};
#if PART == 0 || PART == 1
template <typename T, typename A> struct PodFaults {
    using V = itlib::pod_vector<T, A>; using M = std::vector<int>;
    Case& c; size_t size, spare, k = 0, p = 0;
    static T mk(int i) { T t; memset(&t, 0, sizeof t); memcpy(&t, &i, std::min(sizeof t, sizeof i)); return t; }
    static int get(const T& t) { int i = 0; memcpy(&i, &t, std::min(sizeof t, sizeof i)); return i; }
    static void fill(V& v, size_t n, size_t sp, int base) { if (n + sp) v.reserve(n + sp); for (size_t i = 0; i < n; ++i) v.push_back(mk(base + int(i))); }
    static void probe(V& v, const char* what, long at) {
        CK(v.size() <= v.capacity() && v.size() < 1000, "%s failing at %ld left size %zu with capacity %zu", what, at, v.size(), v.capacity());
        if (v.capacity()) { CK(v.data() && uintptr_t(v.data()) % alignof(T) == 0, "%s failing at %ld left data at %p", what, at, (void*)v.data()); auto o = ledger().owner(v.data()); CK(o && (const char*)o->p + o->n >= (const char*)(v.data() + v.capacity()), "%s failing at %ld left a block smaller than the capacity of %zu", what, at, v.capacity()); }
    }
    void reuse(V& v) {
        size_t n = v.size(); v.push_back(mk(5)); CK(v.size() == n + 1 && get(v.back()) == 5, "push_back after a failure"); probe(v, "push_back afterwards", 0);
        v.assign(3, mk(9)); CK(v.size() == 3 && get(v[0]) == 9 && get(v[2]) == 9, "assign after a failure"); v.insert(v.begin() + 1, mk(4)); CK(v.size() == 4 && get(v[1]) == 4 && get(v[2]) == 9, "insert after a failure");
        v.resize(40); CK(v.size() == 40 && get(v[1]) == 4 && get(v[39]) == 0, "resize after a failure"); probe(v, "use afterwards", 0); if (c.rng.chance(50)) { v.erase(v.begin(), v.end()); v.shrink_to_fit(); CK(v.capacity() == 0 && v.empty(), "shrink_to_fit"); }
    }
    // strong: unchanged after a failure; takes: o may be taken from
    template <typename F> void go(const char* what, bool strong, F f, bool takes = false) {
        for (long at = 0; at < 20; ++at) {
            fault().off(); int blocks = ledger().live(); bool fired;
            {
                V v{A(1)}, o{A(2)}; fill(v, size, spare, 1); fill(o, 1 + k, 1, 50); size_t cap = v.capacity(); const T* d = v.data(); op("%s k %zu p %zu fail %ld", what, k, p, at);
                bool thrown = false; fault().alloc = at; try { f(v, o); } catch (std::bad_alloc&) { thrown = true; } fired = fault().fired; fault().off();
                CK(thrown == fired, "%s failing at %ld: the exception didn't reach the caller", what, at); probe(v, what, at); probe(o, what, at);
                if (fired) {
                    COV("pod allocation faults");
                    if (strong) { CK(v.size() == size && v.capacity() == cap && v.data() == d, "%s failing at %ld changed the vector of %zu elements: %zu now", what, at, size, v.size()); for (size_t i = 0; i < size; ++i) CK(get(v[i]) == int(1 + i), "%s failing at %ld changed element %zu", what, at, i); COV("pod unchanged after a fault"); }
                    if (!takes) { CK(o.size() == 1 + k, "%s failing at %ld changed its argument", what, at); for (size_t i = 0; i <= k; ++i) CK(get(o[i]) == int(50 + i), "%s failing at %ld changed its argument", what, at); }
                }
                CK(ledger().live() - blocks == (v.capacity() > 0) + (o.capacity() > 0), "%s failing at %ld: %d blocks for capacities %zu and %zu", what, at, ledger().live() - blocks, v.capacity(), o.capacity());
                reuse(v); reuse(o);
            }
            CK(ledger().live() == blocks, "%s failing at %ld left %d blocks", what, at, ledger().live() - blocks); if (!fired) break;
        }
    }
    void run() {
        std::vector<T> src; for (int i = 0; i < 12; ++i) src.push_back(mk(200 + i));
        for (k = 0; k <= size + spare + 3; ++k) {
            go("reserve", true, [&](V& v, V&) { v.reserve(k); }); go("resize", true, [&](V& v, V&) { v.resize(k); }); go("resize(n,x)", true, [&](V& v, V&) { v.resize(k, src[0]); });
            go("assign(n,x)", false, [&](V& v, V&) { v.assign(k, src[0]); }); if (k <= src.size()) go("assign(range)", false, [&](V& v, V&) { v.assign(src.begin(), src.begin() + ptrdiff_t(k)); });
            go("copy assign", false, [&](V& v, V& o) { v = static_cast<const V&>(o); }); go("move assign", false, [&](V& v, V& o) { v = std::move(o); }, true);
            go("V(n)", false, [&](V&, V&) { V x(k, A(3)); }); go("V(n,x)", false, [&](V&, V&) { V x(k, src[0], A(3)); }); go("V(copy)", false, [&](V& v, V&) { V x(v); V y(v, A(3)); });
            go("recast_copy_from", false, [&](V& v, V& o) { itlib::pod_vector<uint16_t, TA<16, 0>> s; (void)o; s.resize(k * sizeof(T) / 2); v.recast_copy_from(s); });
        }
        k = 1; go("push_back", true, [&](V& v, V&) { v.push_back(src[0]); }); go("push_back(own)", true, [&](V& v, V&) { if (v.size()) v.push_back(v[0]); }); go("emplace_back", true, [&](V& v, V&) { v.emplace_back(); }); go("shrink_to_fit", true, [&](V& v, V&) { v.shrink_to_fit(); }); go("swap", false, [&](V& v, V& o) { v.swap(o); }, true);
        go("assign list", false, [&](V& v, V&) { v.assign({src[0], src[1], src[2]}); });
        for (p = 0; p <= size; ++p) { go("insert", true, [&](V& v, V&) { v.insert(v.begin() + ptrdiff_t(p), src[0]); }); for (k = 0; k < 5; ++k) { go("insert(n,x)", true, [&](V& v, V&) { v.insert(v.begin() + ptrdiff_t(p), k, src[0]); }); go("insert(range)", true, [&](V& v, V&) { v.insert(v.begin() + ptrdiff_t(p), src.begin(), src.begin() + ptrdiff_t(k)); }); } }
    }
};
template <typename T, typename A> void pod_faults(Case& c) { PodFaults<T, A> f{c, c.idx % 10, c.idx / 10 % 4}; op("size %zu spare %zu", f.size, f.spare); f.run(); c.h = hcomb(f.size, f.spare); state(c.h); c.interesting(); }
template <typename U, typename T, typename A> void pod_take(Case& c) {
    size_t n = c.idx % 7, spare = c.idx / 7 % 4, own = c.idx / 28 % 3; int blocks = ledger().live();
    for (int round = 0; round < 8; ++round) for (long at = -1; at < 3; ++at) { // each round at other addresses
        fault().off(); { itlib::pod_vector<U, A> u{A(1)}; itlib::pod_vector<T, A> t{A(2)}; if (n + spare) u.reserve(n + spare); for (size_t i = 0; i < n; ++i) { U x; memset(&x, int(i) + 1, sizeof x); u.push_back(x); } t.resize(own); op("take %zu spare %zu own %zu fail %ld", n, spare, own, at);
            bool thrown = false; fault().alloc = at; try { t.recast_take_from(std::move(u)); } catch (std::bad_alloc&) { thrown = true; } bool fired = fault().fired; fault().off(); CK(fired == thrown, "recast_take_from: the exception didn't reach the caller");
            if (fired) COV("refused recasts"); else { CK(u.empty() && u.capacity() == 0 && t.size() == n * sizeof(U) / sizeof(T), "recast_take_from %zu elements: %zu", n, t.size()); for (size_t i = 0; i < t.size() * sizeof(T); ++i) CK(((unsigned char*)t.data())[i] == 1 + i / sizeof(U), "byte %zu after recast_take_from", i); }
            PodFaults<U, A>::probe(u, "recast_take_from", at); PodFaults<T, A>::probe(t, "recast_take_from", at); CK(ledger().live() - blocks == !!u.data() + !!t.data(), "%d blocks after recast_take_from failing at %ld", ledger().live() - blocks, at);
            PodFaults<U, A> fu{c, 0, 0}; PodFaults<T, A> ft{c, 0, 0}; fu.reuse(u); ft.reuse(t); }
        CK(ledger().live() == blocks, "recast_take_from failing at %ld left %d blocks", at, ledger().live() - blocks);
    }
    c.h = hcomb(n, spare); state(c.h); c.interesting();
}
struct alignas(32) P32 { int a; };
struct P24 { int a; char b[20]; }; struct alignas(64) P64 { int a; };
#define PF(name, ...) static void VF_CAT(pf_, __LINE__)(Case& c) { pod_faults<__VA_ARGS__>(c); } REG_SUITE(name, 40, 400, &VF_CAT(pf_, __LINE__))
PF("refused.pod.0", int, TA<16, 0>);
PF("refused.pod.1", P24, TA<16, 1>);
PF("refused.pod.2", int, TA<16, 2>);
PF("refused.pod.3", P24, TA<16, 3>);
PF("refused.pod.a0", P64, TA<16, 0>);
PF("refused.pod.a1", P64, TA<8, 1>);
PF("refused.pod.a2", P64, TA<16, 2>);
PF("refused.pod.a3", P64, TA<8, 3>);
#define PT(name, ...) static void VF_CAT(pt_, __LINE__)(Case& c) { pod_take<__VA_ARGS__>(c); } REG_SUITE(name, 84, 84, &VF_CAT(pt_, __LINE__))
PT("refused.take.0", P32, P64, TA<16, 0>);
PT("refused.take.1", P64, P32, TA<16, 1>);
PT("refused.take.2", P32, P64, TA<16, 2>);
PT("refused.take.3", P32, P64, TA<8, 3>);
#endif
#if PART == 0 || PART == 2

// ------------------------------------------------------------------ dynamic_bitset
template <typename B> struct BufBound { static constexpr size_t bits = ~size_t(0); static constexpr bool alloc = true; };
template <typename B> struct StrongAssign { static constexpr bool value = false; }; template <typename T, typename A> struct StrongAssign<std::vector<T, A>> { static constexpr bool value = true; }; // an assignment which fails leaves the buffer as it was
template <typename W, size_t N> struct BufBound<itlib::static_vector<W, N>> { static constexpr size_t bits = N * sizeof(W) * 8; static constexpr bool alloc = false; };
template <typename Buf> void bits_refused(Case& c) {
    using S = itlib::dynamic_bitset<Buf>; using M = std::vector<bool>; Rng& r = c.rng; constexpr size_t bound = BufBound<Buf>::bits, W = sizeof(typename Buf::value_type) * 8; int blocks = ledger().live();
    {
        S s, o; M m, mo; auto same = [&](const S& a, const M& b, const char* what) { CK(a.size() == b.size() && a.word_size() >= (b.size() + W - 1) / W && a.word_size() == a.buffer().size(), "%s: %zu bits in %zu words, should be %zu", what, a.size(), size_t(a.word_size()), b.size()); for (size_t i = 0; i < b.size(); ++i) CK(a.test(i) == b[i], "%s: bit %zu", what, i); };
        // what a failing operation must not change; and what it does when nothing fails
        auto go = [&](const char* what, bool refused, auto f, auto g, bool faults = true) {
            bool thrown = false; fault().alloc = !refused && faults && BufBound<Buf>::alloc && r.chance(40) ? long(r.below(3)) : -1; op("%s%s size %zu", what, fault().alloc >= 0 ? " with a fault" : refused ? " refused" : "", m.size());
            try { f(); } catch (std::bad_alloc&) { thrown = true; } catch (std::length_error&) { thrown = true; } catch (std::out_of_range&) { thrown = true; } bool fired = fault().fired; fault().off();
            CK(thrown == (fired || refused), "%s of %zu bits %s", what, m.size(), thrown ? "failed" : refused ? "of an impossible size was accepted" : "swallowed an exception");
            if (thrown) { if (refused) COV("bitsets: refused"); else COV("bitsets: allocation faults"); } else g();
            same(s, m, what); same(o, mo, what);
        };
        int steps = 10 + int(r.below(40)); while (steps--) {
            tick(); size_t n = m.size(); size_t to = r.chance(30) ? r.below(300) : n + r.below(2 * W + 2); if (to > bound && r.chance(50)) to = r.below(bound + 1);
            switch (r.below(10)) {
            case 0: case 1: go("resize", to > bound, [&] { s.resize(to); }, [&] { m.resize(to); }); break;
            case 2: { bool b = r.chance(50); go("push_back", n + 1 > bound, [&] { s.push_back(b); }, [&] { m.push_back(b); }); break; }
            case 3: go("append", n + mo.size() > bound && (mo.size() > 0), [&] { s.append(o); }, [&] { m.insert(m.end(), mo.begin(), mo.end()); }); break;
            case 4: go("copy", false, [&] { s = static_cast<const S&>(o); }, [&] { m = mo; }, StrongAssign<Buf>::value); break;
            case 5: go("construct", false, [&] { S t(s); S u(to <= bound ? to : 0); if (to <= bound && to) u.set(to - 1); S v(std::move(t)); same(v, m, "copy of a bitset"); }, [] {}); break;
            case 6: if constexpr (BufBound<Buf>::alloc) go("reserve", false, [&] { s.reserve(to); }, [] {}); break;
            case 7: { size_t k = ~size_t(0) - r.below(3 * W); size_t e = r.chance(50) ? k : size_t(1) << (60 + r.below(4)); if (BufBound<Buf>::alloc || r.chance(50)) switch (r.below(2)) { case 0: go("resize", true, [&] { s.resize(e); }, [] {}); break; default: go("construct", true, [&] { S t(e); }, [] {}); } break; }
            case 8: { size_t k = r.below(4); if (k * W > bound) break; Buf b(k, typename Buf::value_type(0x5a)); go("assign", false, [&] { s.assign(b); }, [&] { m.clear(); for (size_t i = 0; i < k * W; ++i) m.push_back(uint64_t(0x5a) >> (i % W) & 1 & (i % W < 8)); }, StrongAssign<Buf>::value); break; }
            default: std::swap(m, mo); { S t(std::move(s)); s = std::move(o); o = std::move(t); } same(s, m, "swap"); same(o, mo, "swap");
            }
            for (int k = 0; k < 3 && m.size(); ++k) { size_t i = r.below(m.size()); bool b = r.chance(50); s.set(i, b); m[i] = b; }
        }
        state(hcomb(m.size(), s.word_size()));
    }
    CK(ledger().live() == blocks, "%d blocks left", ledger().live() - blocks); c.h = hstr(prog()->log); c.interesting();
}
#define BR(name, ...) static void VF_CAT(br_, __LINE__)(Case& c) { bits_refused<__VA_ARGS__>(c); } REG_SUITE(name, 1500, 60000, &VF_CAT(br_, __LINE__))
BR("refused.bits.u32", std::vector<uint32_t, LAlloc<uint32_t>>);
BR("refused.bits.u8", std::vector<uint8_t, LAlloc<uint8_t>>);
BR("refused.bits.u64", itlib::small_vector<uint64_t, 2, 0, LAlloc<uint64_t>>);
BR("refused.bits.x8", itlib::static_vector<uint8_t, 5>);
BR("refused.bits.x32", itlib::static_vector<uint32_t, 3>);
#endif
#if PART == 0 || PART == 3

// ------------------------------------------------------------------ mem_ostreambuf
template <typename C> struct Room { static constexpr size_t n = ~size_t(0); static constexpr bool alloc = true; };
template <typename T, size_t N> struct Room<itlib::static_vector<T, N>> { static constexpr size_t n = N; static constexpr bool alloc = false; };
template <typename C> void os_refused(Case& c) {
    using Ch = typename C::value_type; using Tr_ = std::char_traits<Ch>; using S = std::basic_string<Ch>; Rng& r = c.rng; int blocks = ledger().live(); constexpr size_t room = Room<C>::n;
    {
        std::unique_ptr<itlib::mem_ostreambuf<C>> b; long want = r.chance(50) ? long(r.below(20)) : 0; if (size_t(want) > room) want = 0;
        { fault().alloc = want && r.chance(30) ? 0 : -1; bool thrown = false; try { b.reset(new itlib::mem_ostreambuf<C>(size_t(want))); } catch (std::bad_alloc&) { thrown = true; } bool fired = fault().fired; fault().off(); CK(thrown == fired, "constructor"); if (thrown) { COV("streams: allocation faults"); b.reset(new itlib::mem_ostreambuf<C>()); } }
        std::basic_ostream<Ch> o(b.get()); S m; size_t pos = 0; // m: everything written up to the greatest position
        int steps = 5 + int(r.below(30)); while (steps--) {
            tick(); int k = int(r.below(10));
            if (k < 7) {
                size_t n = k < 3 ? 1 : r.below(40); S s; for (size_t i = 0; i < n; ++i) s.push_back(Ch('a' + r.below(26))); if (Room<C>::alloc && r.chance(40)) fault().alloc = long(r.below(2));
                op("write %zu at %zu of %zu%s", n, pos, m.size(), fault().alloc >= 0 ? " with a fault" : ""); bool direct = r.chance(30), thrown = false; // through the stream, which catches what is thrown, or not
                if (direct) { try { if (k < 3) { if (Tr_::eq_int_type(b->sputc(s[0]), Tr_::eof())) thrown = true; } else if (size_t(b->sputn(s.data(), std::streamsize(n))) != n) thrown = true; } catch (std::bad_alloc&) { thrown = true; } catch (std::out_of_range&) { thrown = true; } }
                else { if (k < 3) o.put(s[0]); else o.write(s.data(), std::streamsize(n)); thrown = !o.good(); }
                bool fired = fault().fired; fault().off(); bool over = n > room || pos > room - n;
                if (!direct && thrown) CK(o.bad() && !o.eof(), "state after a failed write"); if (fired || over) CK(thrown, "a failed write of %zu at %zu was successful", n, pos); if (thrown) CK(fired || over, "a write of %zu at %zu failed", n, pos); o.clear();
                size_t put = b->poff() - pos; if (thrown) { COV("streams: failed writes"); if (fired) COV("streams: allocation faults"); if (over) COV("streams: written over the capacity"); CK(put <= n && b->poff() >= pos, "a failed write of %zu at %zu moved to %zu", n, pos, b->poff()); } else CK(put == n, "a write of %zu moved by %zu", n, put);
                if (pos + put > m.size()) m.resize(pos + put); for (size_t i = 0; i < put; ++i) m[pos + i] = s[i]; pos += put;
            } else if (k == 7) { size_t to = r.below(m.size() + 1); op("seek %zu of %zu", to, m.size()); auto q = b->pubseekpos(std::streampos(std::streamoff(to)), std::ios_base::out); CK(std::streamoff(q) == std::streamoff(to), "seek to %zu of %zu gave %lld", to, m.size(), (long long)std::streamoff(q)); pos = to; }
            else if (k == 8) { auto q = b->pubseekoff(0, std::ios_base::end, std::ios_base::out); op("end %zu", m.size()); CK(std::streamoff(q) == std::streamoff(m.size()), "the end of %zu is at %lld", m.size(), (long long)std::streamoff(q)); pos = m.size(); }
            else if (r.chance(20)) { C got = b->get_container(); op("get %zu of %zu", pos, m.size()); m.resize(pos); CK(got.size() == m.size() && std::equal(m.begin(), m.end(), got.begin()), "the container holds something else after failed writes"); CK(b->poff() == 0, "poff() after get_container"); m.clear(); pos = 0; }
            else if (r.chance(10)) { b->clear(); m.clear(); pos = 0; op("clear"); }
            CK(b->poff() == pos, "poff %zu, should be %zu", b->poff(), pos); for (size_t i = 0; i < m.size(); ++i) CK(b->peek_container().data()[i] == m[i], "character %zu after a failed write", i);
        }
        b->pubseekoff(0, std::ios_base::end, std::ios_base::out); C got = b->get_container(); CK(got.size() == m.size() && std::equal(m.begin(), m.end(), got.begin()), "the container holds something else after failed writes"); state(hcomb(m.size(), pos));
    }
    CK(ledger().live() == blocks, "%d blocks left", ledger().live() - blocks); c.h = hstr(prog()->log); c.interesting();
}
#define OR(name, ...) static void VF_CAT(or_, __LINE__)(Case& c) { os_refused<__VA_ARGS__>(c); } REG_SUITE(name, 1500, 60000, &VF_CAT(or_, __LINE__))
OR("refused.os.vector", std::vector<char, LAlloc<char, 15>>);
OR("refused.os.string", std::basic_string<wchar_t, std::char_traits<wchar_t>, LAlloc<wchar_t>>);
OR("refused.os.small", itlib::small_vector<char, 12, 4, LAlloc<char>>);
OR("refused.os.pod", itlib::pod_vector<char, TA<16, 1>>);
OR("refused.os.pod2", itlib::pod_vector<wchar_t, TA<16, 2>>);
OR("refused.os.static", itlib::static_vector<char, 25>);
OR("refused.os.wstatic", itlib::static_vector<char16_t, 60>);
#endif
#if PART == 0 || PART == 4

// ------------------------------------------------------------------ flat_set, flat_map
static long cmp_fault = -1; static bool cmp_fired; struct CmpError {};
struct TCmp { template <typename A, typename B> bool operator()(const A& a, const B& b) const { if (cmp_fault >= 0 && cmp_fault-- == 0) { cmp_fired = true; throw CmpError(); } return key(a) < key(b); } static int key(const Tr& t) { t.alive("compared"); return t.v; } static int key(int i) { return i; } };
template <bool Map, typename V> struct FlatRefused {
    using F = typename std::conditional<Map, itlib::flat_map<Tr, Tr, TCmp, typename std::conditional<Map, V, std::vector<std::pair<Tr, Tr>>>::type>, itlib::flat_set<Tr, TCmp, typename std::conditional<Map, std::vector<Tr>, V>::type>>::type;
    using M = std::map<int, int>;
    static int key(const Tr& t) { t.alive("read"); return t.v; } static int key(const std::pair<Tr, Tr>& p) { return key(p.first); } static int val(const Tr&) { return 0; } static int val(const std::pair<Tr, Tr>& p) { p.second.alive("read"); return p.second.v; }
    static typename F::value_type mk(int k, int v) { if constexpr (Map) return {Tr(k), Tr(v)}; else return Tr(k); }
    static void run(Case& c) {
        Rng& r = c.rng; int blocks = ledger().live(); uint64_t before = reg().live; constexpr bool strong_elems = !Bounded<V>::value && !Small<V>::value;
        {
            F f{TCmp(), alloc(1)}; M m; auto same = [&](const char* what) { CK(f.size() == m.size(), "%s left %zu elements, should be %zu", what, f.size(), m.size()); auto i = m.begin(); for (auto& e : f) { CK(key(e) == i->first && (!Map || val(e) == i->second), "%s: an element is %d, should be %d", what, key(e), i->first); ++i; } };
            int steps = 10 + int(r.below(40)); while (steps--) {
                tick(); int k = int(r.below(24)), v = int(r.below(1000)); bool has = m.count(k); int kind = int(r.below(4)); // what fails: nothing, allocation, comparison, elements
                auto go = [&](const char* what, auto g, auto h) {
                    typename F::value_type x = mk(k, v); cmp_fired = false; long at = long(r.below(4)); op("%s %d of %zu fail %d %ld", what, k, m.size(), kind, at);
                    if (kind == 1) fault().alloc = 0; else if (kind == 2) cmp_fault = at; else if (kind == 3 && strong_elems) fault().elem = at;
                    int thrown = 0; try { g(x); } catch (std::bad_alloc&) { thrown = 1; } catch (CmpError&) { thrown = 2; } catch (Injected&) { thrown = 3; } catch (std::out_of_range&) { thrown = 4; }
                    int fired = cmp_fired ? 2 : fault().fired ? kind : 0; fault().off(); cmp_fault = -1; if (thrown == 4) { CK(Bounded<V>::value && m.size() == Bounded<V>::n && !has && !fired, "%s: out_of_range", what); COV("flat: over the capacity"); } else CK(thrown == fired, "%s with the failure %d threw %d", what, fired, thrown);
                    if (thrown) { if (thrown == 1) COV("flat: allocation faults"); if (thrown == 2) COV("flat: failing comparisons"); if (thrown == 3) COV("flat: failing elements"); } else h(); same(what);
                };
                auto put = [&] { m.insert({k, Map ? v : 0}); };
                switch (r.below(11)) {
                case 0: go("insert(const&)", [&](auto& x) { auto p = f.insert(static_cast<const typename F::value_type&>(x)); CK(p.second == !has && key(*p.first) == k, "insert"); }, put); break;
                case 1: go("insert(&&)", [&](auto& x) { auto p = f.insert(std::move(x)); CK(p.second == !has && key(*p.first) == k, "insert"); }, put); break;
                case 2: go("emplace", [&](auto& x) { std::pair<typename F::iterator, bool> p; if constexpr (Map) p = f.emplace(k, v); else p = f.emplace(k); (void)x; CK(p.second == !has && key(*p.first) == k, "emplace"); }, put); break;
                case 3: if constexpr (Map) go("operator[]", [&](auto& x) { f[x.first]; }, [&] { m.insert({k, 0}); }); break;
                case 4: if constexpr (Map) { if (has) go("at", [&](auto& x) { CK(f.at(x.first).v == m[k], "at"); }, [] {}); } break;
                case 5: go("erase(key)", [&](auto& x) { size_t n; if constexpr (Map) n = f.erase(x.first); else n = f.erase(x); CK(n == size_t(has), "erase gave %zu", n); }, [&] { m.erase(k); }); break;
                case 6: go("find", [&](auto&) { CK((f.find(k) != f.end()) == has && (static_cast<const F&>(f).find(k) != f.end()) == has && f.count(k) == size_t(has), "find"); }, [] {}); break;
                case 7: go("bounds", [&](auto&) { auto p = f.equal_range(k); CK(size_t(p.second - p.first) == size_t(has) && f.lower_bound(k) == p.first && f.upper_bound(k) == p.second, "equal_range"); }, [] {}); break;
                case 8: go("copy", [&](auto&) { F g(f); CK(g.size() == m.size(), "copy"); F h(std::move(g)); CK(h.size() == m.size(), "copy moved"); }, [] {}); break;
                case 9: if constexpr (!Bounded<V>::value) go("reserve", [&](auto&) { f.reserve(m.size() + r.below(10)); }, [] {}); break;
                default: go("construct", [&](auto& x) { V s(alloc(3)); if (Bounded<V>::value ? Bounded<V>::n >= 3 : true) { s.push_back(x); s.push_back(mk(k + 1, v)); s.push_back(x); F g(std::move(s)); CK(g.size() == 2, "construction from a container"); F h(g.begin(), g.end(), TCmp(), alloc(4)); CK(h.size() == 2, "construction from a range"); } }, [] {});
                }
            }
            state(hcomb(m.size(), f.capacity()));
        }
        CK(reg().live == before, "%lld elements left", (long long)(reg().live - before)); CK(ledger().live() == blocks, "%d blocks left", ledger().live() - blocks); c.h = hstr(prog()->log); c.interesting();
    }
    template <typename X> struct Bounded { static constexpr bool value = false; static constexpr size_t n = ~size_t(0); }; template <typename T, size_t N> struct Bounded<itlib::static_vector<T, N>> { static constexpr bool value = true; static constexpr size_t n = N; };
    template <typename X> struct Small { static constexpr bool value = false; }; template <typename T, size_t N, size_t R, typename A> struct Small<itlib::small_vector<T, N, R, A>> { static constexpr bool value = true; };
    static typename F::allocator_type alloc(int a) { if constexpr (Bounded<V>::value) return {}; else return typename F::allocator_type(a); }
};
using TrP = std::pair<Tr, Tr>;
#define FR(name, ...) REG_SUITE(name, 1500, 60000, (&FlatRefused<__VA_ARGS__>::run))
FR("refused.set", false, std::vector<Tr, LAlloc<Tr>>);
FR("refused.map", true, std::vector<TrP, LAlloc<TrP, 15>>);
FR("refused.set.small", false, itlib::small_vector<Tr, 4, 2, LAlloc<Tr>>);
FR("refused.map.small", true, itlib::small_vector<TrP, 3, 0, LAlloc<TrP>>);
FR("refused.set.static", false, itlib::static_vector<Tr, 9>);
FR("refused.map.static", true, itlib::static_vector<TrP, 6>);
#endif
