// Shared machinery of all harnesses: seeded cases, operation log, violation reports, coverage
// counters, life registry, allocator ledger. One harness = one translation unit including this once.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <new>
#include <memory>
#include <string>
#include <vector>
#include <utility>
#include <type_traits>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <mutex>

#if defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define VF_ASAN 1
#  endif
#  if __has_feature(thread_sanitizer)
#    define VF_TSAN 1
#  endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#  define VF_ASAN 1
#endif
#if defined(__SANITIZE_THREAD__)
#  define VF_TSAN 1
#endif
#if VF_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace vf {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
inline uint64_t hcomb(uint64_t h, uint64_t v) { return mix(h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6))); }
inline uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char)*s++) * 1099511628211ull; return h; }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    // uniform in [0, n)
    size_t below(size_t n) { return n ? size_t(next() % n) : 0; }
    // uniform in [a, b]
    long range(long a, long b) { return a + long(next() % uint64_t(b - a + 1)); }
    bool chance(int pct) { return int(next() % 100) < pct; }
};

// ---------------------------------------------------------------- progress, shared with the driver
struct Progress {
    uint64_t ticks;       // number of operations started: the driver's watchdog looks at it
    uint64_t idx;         // current case
    char suite[64];
    uint32_t loglen;
    uint32_t pad;
    char log[60000];      // operations of the current case
};
inline Progress*& prog() { static Progress* p = nullptr; return p; }
inline const char*& pending_key() { static const char* k = nullptr; return k; } // category hint for crashes

struct Global {
    uint64_t seed = 1; uint64_t shard = 0, shards = 1; double scale = 1; bool thorough = false;
    const char* only_suite = nullptr; bool has_only = false; uint64_t only_idx = 0;
    const char* out = nullptr; const char* hashes = nullptr; const char* suites = nullptr; const char* ignore = nullptr;
    uint64_t cases = 0, ops = 0, nontrivial = 0, abandoned = 0, ignored_reports = 0;
};
inline Global& G() { static Global g; return g; }

inline bool& quiet_log() { static bool q = false; return q; }
__attribute__((format(printf, 1, 2)))
inline void op(const char* fmt, ...) {
    auto p = prog(); if (!p) return;
    ++p->ticks; ++G().ops;
    if (p->loglen + 400 >= sizeof(p->log)) {
        // keep the tail: drop the first half
        uint32_t half = p->loglen / 2;
        memmove(p->log, p->log + half, p->loglen - half); p->loglen -= half;
    }
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(p->log + p->loglen, 300, fmt, ap); va_end(ap);
    if (n > 299) n = 299;
    p->loglen += uint32_t(n); p->log[p->loglen++] = ';'; p->log[p->loglen++] = ' '; p->log[p->loglen] = 0;
}
inline void tick() { if (prog()) ++prog()->ticks; }

void write_stats(bool ok);

// Reports a violation and ends the process.
[[noreturn]] __attribute__((format(printf, 2, 3)))
inline void fail(const char* key, const char* fmt, ...) {
    static std::mutex* m = new std::mutex; m->lock(); // first reporter wins
    char msg[2000]; va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    for (char* c = msg; *c; ++c) if (*c == '\n') *c = ' ';
    auto p = prog();
    printf("FAIL key=%s suite=%s idx=%llu msg=%s\n", key, p ? p->suite : "?", (unsigned long long)(p ? p->idx : 0), msg);
    if (p && getenv("VF_TRACE")) printf("TRACE %s\n", p->loglen > 600 ? p->log + p->loglen - 600 : p->log);
    fflush(stdout);
    write_stats(false);
    fflush(nullptr);
    _exit(10);
}
// Categories which another property's check decides (--ignore a,b): seen, counted, not reported here.
inline bool ignored(const char* key) {
    const char* l = G().ignore; if (!l) return false;
    while (*l) { size_t n = strcspn(l, ","); if (n && !strncmp(key, l, n) && (key[n] == '.' || !key[n])) return true; l += n; if (*l == ',') ++l; }
    return false;
}
struct Abandon {}; // ends a case whose state is no longer comparable
// in monitors: report, or note and go on
#define VSOFT(key, ...) do { if (::vf::ignored(key)) { ++::vf::G().ignored_reports; ::vf::dirty() = true; return; } ::vf::fail(key, __VA_ARGS__); } while (0)
inline bool& dirty() { static bool d = false; return d; }
// in harnesses: report, or give up on the case
#define VCHECK(cond, key, ...) do { if (!(cond)) { if (::vf::ignored(key)) { ++::vf::G().ignored_reports; throw ::vf::Abandon(); } ::vf::fail(key, __VA_ARGS__); } } while (0)

// Something the harness itself got wrong (not the code under test).
[[noreturn]] inline void harness_error(const char* what) {
    fprintf(stderr, "HARNESS-ERROR: %s\n", what); fflush(nullptr); _exit(12);
}

// ---------------------------------------------------------------- coverage counters
struct Counter {
    const char* name; uint64_t n = 0; Counter* next;
    static Counter*& head() { static Counter* h = nullptr; return h; }
    explicit Counter(const char* nm) : name(nm), next(head()) { head() = this; }
};
#define COV(name) do { static ::vf::Counter vf_c_(name); ++vf_c_.n; } while (0)
#define COVN(name, k) do { static ::vf::Counter vf_c_(name); vf_c_.n += uint64_t(k); } while (0)
struct DynCounters { // names made at run time; fixed storage, no heap
    static constexpr int N = 4096;
    struct E { char name[88]; uint64_t n; };
    E e[N];
};
inline DynCounters& dynctr() { static DynCounters* d = (DynCounters*)mmap(nullptr, sizeof(DynCounters), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return *d; }
inline void cov_dyn(const char* name, uint64_t k = 1) {
    auto& d = dynctr(); uint64_t h = hstr(name) % DynCounters::N;
    for (int i = 0; i < DynCounters::N; ++i) {
        auto& e = d.e[(h + i) % DynCounters::N];
        if (!e.name[0]) { snprintf(e.name, sizeof e.name, "%s", name); e.n = k; return; }
        if (!strncmp(e.name, name, sizeof(e.name) - 1)) { e.n += k; return; }
    }
}
// distinct observations (hash set in anonymous memory)
struct HashSet {
    static constexpr uint64_t N = 1 << 20; uint64_t* t; uint64_t used = 0;
    HashSet() { t = (uint64_t*)mmap(nullptr, N * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    bool add(uint64_t h) {
        if (!h) h = 1; if (used > N * 3 / 4) return false;
        for (uint64_t i = h % N;; i = (i + 1) % N) { if (t[i] == h) return false; if (!t[i]) { t[i] = h; ++used; return true; } }
    }
};
inline HashSet& distinct_cases() { static HashSet s; return s; }
inline HashSet& distinct_states() { static HashSet s; return s; }
inline void state(uint64_t h) { distinct_states().add(h); }

// ---------------------------------------------------------------- samples
struct Sample { char suite[64]; uint64_t idx; char log[1200]; };
struct Samples { static constexpr int N = 8; Sample s[N]; int n = 0; };
inline Samples& samples() { static Samples s; return s; }

// ---------------------------------------------------------------- cases and suites
struct Case {
    uint64_t idx; Rng rng; uint64_t h = 0; bool nontrivial = false;
    Case(uint64_t i, Rng r) : idx(i), rng(r) {}
    // cases may set a hash of what they did; the log's hash is used otherwise
    void interesting() { nontrivial = true; }
};
struct Suite {
    const char* name; uint64_t count; uint64_t thorough_count; void (*fn)(Case&); bool leakcheck; Suite* next;
    static Suite*& head() { static Suite* h = nullptr; return h; }
    Suite(const char* n, uint64_t c, uint64_t tc, void (*f)(Case&), bool leak = true) : name(n), count(c), thorough_count(tc), fn(f), leakcheck(leak), next(nullptr) {
        Suite** p = &head(); while (*p) p = &(*p)->next; *p = this;
    }
};
#define VF_CAT_(a, b) a##b
#define VF_CAT(a, b) VF_CAT_(a, b)
// SUITE(name, quick count, thorough count) { body using Case& c }
#define SUITE(nm, q, t) static void VF_CAT(suite_fn_, __LINE__)(::vf::Case&); \
    static ::vf::Suite VF_CAT(suite_reg_, __LINE__)(nm, q, t, &VF_CAT(suite_fn_, __LINE__), true); \
    static void VF_CAT(suite_fn_, __LINE__)(::vf::Case& c)
#define SUITE_NOLEAK(nm, q, t) static void VF_CAT(suite_fn_, __LINE__)(::vf::Case&); \
    static ::vf::Suite VF_CAT(suite_reg_, __LINE__)(nm, q, t, &VF_CAT(suite_fn_, __LINE__), false); \
    static void VF_CAT(suite_fn_, __LINE__)(::vf::Case& c)
#define REG_SUITE(nm, q, t, fn) static ::vf::Suite VF_CAT(suite_regc_, __COUNTER__)(nm, q, t, fn, true)

// ---------------------------------------------------------------- life registry
// Addresses of live tracked objects. Not thread safe on purpose (single-threaded suites only).
struct Registry {
    static constexpr uint64_t N = 1 << 17;
    struct E { const void* p; uint32_t type; uint32_t pad; };
    E* t; uint64_t live = 0;
    uint64_t ctors = 0, dtors = 0, copies = 0, moves = 0, copy_asgn = 0, move_asgn = 0;
    Registry() { t = (E*)mmap(nullptr, N * sizeof(E), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    static uint64_t slot(const void* p) { return mix(uint64_t(uintptr_t(p))) & (N - 1); }
    E* find(const void* p) { for (uint64_t i = slot(p);; i = (i + 1) & (N - 1)) { if (t[i].p == p) return &t[i]; if (!t[i].p) return nullptr; } }
    void born(const void* p, uint32_t type) {
        if (live > N / 2) fail("lifetime.flood", "too many live objects");
        if (find(p)) VSOFT("lifetime.double-construct", "object constructed over a live object at %p", p);
        uint64_t i = slot(p); while (t[i].p) i = (i + 1) & (N - 1);
        t[i] = {p, type, 0}; ++live; ++ctors;
    }
    void died(const void* p, uint32_t type) {
        E* e = find(p);
        if (!e) VSOFT("lifetime.destroy-dead", "destructor of an object that is not alive at %p", p);
        if (e->type != type) VSOFT("lifetime.destroy-type", "object destroyed as another type");
        --live; ++dtors;
        uint64_t i = uint64_t(e - t); // backward shift deletion
        for (uint64_t j = (i + 1) & (N - 1); t[j].p; j = (j + 1) & (N - 1)) {
            uint64_t k = slot(t[j].p);
            if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j)) continue;
            t[i] = t[j]; i = j;
        }
        t[i].p = nullptr;
    }
    void reset() { memset((void*)t, 0, N * sizeof(E)); live = 0; }
    void use(const void* p, const char* what) { if (!find(p)) VSOFT("lifetime.use-dead", "%s an object that is not alive at %p", what, p); }
    uint64_t live_in(const void* b, const void* e) { uint64_t n = 0; for (uint64_t i = 0; i < N; ++i) if (t[i].p && t[i].p >= b && t[i].p < e) ++n; return n; }
};
inline Registry& reg() { static Registry r; return r; }

// ---------------------------------------------------------------- fault injection
struct Injected : std::exception { const char* what() const noexcept override { return "injected"; } };
struct Fault {
    long elem = -1;   // throw at the elem-th element operation from now (0 = next); -1 = never
    long alloc = -1;  // same for allocations
    long seen_elem = 0, seen_alloc = 0; // since arm()
    bool fired = false;
    bool moves_throw = false;
    void off() { elem = alloc = -1; moves_throw = false; fired = false; seen_elem = seen_alloc = 0; }
    void elem_point() { ++seen_elem; if (elem >= 0 && elem-- == 0) { fired = true; throw Injected(); } }
    void alloc_point() { ++seen_alloc; if (alloc >= 0 && alloc-- == 0) { fired = true; throw std::bad_alloc(); } }
};
inline Fault& fault() { static Fault f; return f; }

// ---------------------------------------------------------------- tracked element
enum { MOVED = -777 };
// Kind bit 0: copyable, bit 1: movable (declared move ops), bit 2: move is potentially throwing, bit 3: but move assignment isn't
template <int Kind> struct TrT {
    int v; int check; // check = ~v while alive
    static constexpr uint32_t tag = 100 + Kind;
    static constexpr bool can_copy = Kind & 1, can_move = Kind & 2, nothrow_move = !(Kind & 4), nothrow_assign = nothrow_move || (Kind & 8);
    TrT() : v(0), check(~0) { fault().elem_point(); reg().born(this, tag); }
    explicit TrT(int i) : v(i), check(~i) { fault().elem_point(); reg().born(this, tag); }
    TrT(int a, int b) : v(a + b), check(~(a + b)) { fault().elem_point(); reg().born(this, tag); }
    TrT(std::initializer_list<TrT>) : v(-31337), check(~-31337) { reg().born(this, tag); } // T{x} isn't T(x)
    TrT(const TrT& o) : v(o.v), check(~o.v) { static_assert(can_copy, ""); o.alive("copied from"); fault().elem_point(); reg().born(this, tag); ++reg().copies; }
    TrT(TrT&& o) noexcept(nothrow_move && can_move) : v(o.v), check(~o.v) {
        o.alive("moved from");
        if (!can_move || fault().moves_throw) { if (!nothrow_move || !can_move) fault().elem_point(); }
        reg().born(this, tag);
        if (can_move) { ++reg().moves; o.v = MOVED; o.check = ~MOVED; } else ++reg().copies;
    }
    TrT& operator=(const TrT& o) { static_assert(can_copy, ""); alive("assigned to"); o.alive("assigned from"); fault().elem_point(); v = o.v; check = ~v; ++reg().copy_asgn; return *this; }
    TrT& operator=(TrT&& o) noexcept(nothrow_assign && can_move) {
        alive("move-assigned to"); o.alive("move-assigned from");
        if (!can_move || fault().moves_throw) { if (!nothrow_assign || !can_move) fault().elem_point(); }
        int t = o.v; if (can_move) { o.v = MOVED; o.check = ~MOVED; ++reg().move_asgn; } else ++reg().copy_asgn;
        v = t; check = ~t; return *this;
    }
    ~TrT() { reg().died(this, tag); if (check != ~v) VSOFT("lifetime.clobbered", "object at %p was overwritten while alive", (void*)this); check = v = 0x5ead; }
    void alive(const char* what) const { reg().use(this, what); if (check != ~v) VSOFT("lifetime.clobbered", "object at %p was overwritten while alive", (const void*)this); }
    friend bool operator==(const TrT& a, const TrT& b) { a.alive("compared"); b.alive("compared"); return a.v == b.v; }
    friend bool operator!=(const TrT& a, const TrT& b) { return !(a == b); }
    friend bool operator<(const TrT& a, const TrT& b) { a.alive("compared"); b.alive("compared"); return a.v < b.v; }
};
using Tr = TrT<3>;          // copyable, nothrow movable
using TrTM = TrT<7>;        // copyable, move may throw
using TrTA = TrT<15>;       // copyable, move construction may throw, move assignment doesn't
// copy only: no move operations declared
struct TrC {
    int v; int check; static constexpr uint32_t tag = 200;
    TrC() : v(0), check(~0) { fault().elem_point(); reg().born(this, tag); }
    explicit TrC(int i) : v(i), check(~i) { fault().elem_point(); reg().born(this, tag); }
    TrC(std::initializer_list<TrC>) : v(-31337), check(~-31337) { reg().born(this, tag); }
    TrC(const TrC& o) : v(o.v), check(~o.v) { o.alive("copied from"); fault().elem_point(); reg().born(this, tag); ++reg().copies; }
    TrC& operator=(const TrC& o) { alive("assigned to"); o.alive("assigned from"); fault().elem_point(); v = o.v; check = ~v; ++reg().copy_asgn; return *this; }
    ~TrC() { reg().died(this, tag); if (check != ~v) VSOFT("lifetime.clobbered", "object at %p was overwritten while alive", (void*)this); check = v = 0x5ead; }
    void alive(const char* what) const { reg().use(this, what); if (check != ~v) VSOFT("lifetime.clobbered", "object at %p was overwritten while alive", (const void*)this); }
    friend bool operator==(const TrC& a, const TrC& b) { a.alive("compared"); b.alive("compared"); return a.v == b.v; }
    friend bool operator<(const TrC& a, const TrC& b) { a.alive("compared"); b.alive("compared"); return a.v < b.v; }
};
// move only
struct TrM {
    int v; int check; static constexpr uint32_t tag = 300;
    TrM() : v(0), check(~0) { fault().elem_point(); reg().born(this, tag); }
    explicit TrM(int i) : v(i), check(~i) { fault().elem_point(); reg().born(this, tag); }
    TrM(std::initializer_list<TrM>) : v(-31337), check(~-31337) { reg().born(this, tag); }
    TrM(TrM&& o) noexcept : v(o.v), check(~o.v) { o.alive("moved from"); reg().born(this, tag); ++reg().moves; o.v = MOVED; o.check = ~MOVED; }
    TrM& operator=(TrM&& o) noexcept { alive("move-assigned to"); o.alive("move-assigned from"); int t = o.v; o.v = MOVED; o.check = ~MOVED; v = t; check = ~t; ++reg().move_asgn; return *this; }
    TrM(const TrM&) = delete; TrM& operator=(const TrM&) = delete;
    ~TrM() { reg().died(this, tag); if (check != ~v) VSOFT("lifetime.clobbered", "object at %p was overwritten while alive", (void*)this); check = v = 0x5ead; }
    void alive(const char* what) const { reg().use(this, what); if (check != ~v) VSOFT("lifetime.clobbered", "object at %p was overwritten while alive", (const void*)this); }
    friend bool operator==(const TrM& a, const TrM& b) { a.alive("compared"); b.alive("compared"); return a.v == b.v; }
    friend bool operator<(const TrM& a, const TrM& b) { a.alive("compared"); b.alive("compared"); return a.v < b.v; }
};
// trivially copyable, over-aligned
struct alignas(32) Big { int v; char pad[28]; Big() = default; explicit Big(int i) : v(i) {} friend bool operator==(const Big& a, const Big& b) { return a.v == b.v; } friend bool operator<(const Big& a, const Big& b) { return a.v < b.v; } };

// make / get: the integer an element stands for
template <typename T> struct El { // numbers
    static T make(int i) { return T(i); }
    static int get(const T& t) { return int(t); }
    static constexpr bool copy = true, tracked = false, by_value = true;
};
template <> struct El<std::string> {
    static std::string make(int i) { if (!i) return {}; std::string s = "#" + std::to_string(i); if (i % 3 == 0) s += "-a-string-too-long-for-the-small-buffer"; return s; }
    static int get(const std::string& s) { return s.empty() ? 0 : s[0] != '#' ? -999999 : atoi(s.c_str() + 1); }
    static constexpr bool copy = true, tracked = false, by_value = true;
};
template <> struct El<std::unique_ptr<int>> {
    static std::unique_ptr<int> make(int i) { return std::unique_ptr<int>(new int(i)); }
    static int get(const std::unique_ptr<int>& p) { return p ? *p : 0; }
    static constexpr bool copy = false, tracked = false, by_value = false;
};
template <typename T, bool C> struct ElTr { static T make(int i) { return T(i); } static int get(const T& t) { t.alive("read"); return t.v; } static constexpr bool copy = C, tracked = true, by_value = true; };
template <int K> struct El<TrT<K>> : ElTr<TrT<K>, true> {};
template <> struct El<TrC> : ElTr<TrC, true> {};
template <> struct El<TrM> : ElTr<TrM, false> {};
template <> struct El<Big> { static Big make(int i) { return Big(i); } static int get(const Big& b) { return b.v; } static constexpr bool copy = true, tracked = false, by_value = true; };

// ---------------------------------------------------------------- allocator ledger
struct Ledger {
    static constexpr int N = 1 << 14;
    struct E { void* p; size_t n; size_t align; int arena; };
    E e[N]; int used = 0;
    uint64_t allocs = 0, deallocs = 0; size_t live_bytes = 0; size_t last_alloc_bytes = 0;
    void add(void* p, size_t n, size_t align, int arena) {
        for (int i = 0; i < N; ++i) if (!e[i].p) { e[i] = {p, n, align, arena}; if (i >= used) used = i + 1; ++allocs; live_bytes += n; last_alloc_bytes = n; return; }
        fail("alloc.flood", "too many live blocks");
    }
    void remove(void* p, size_t n, size_t align, int arena) {
        for (int i = 0; i < used; ++i) if (e[i].p == p) {
            if (e[i].arena != arena) VSOFT("alloc.wrong-arena", "block of allocator %d returned to allocator %d", e[i].arena, arena);
            if (e[i].n != n) VSOFT("alloc.wrong-size", "block of %zu bytes returned as %zu bytes", e[i].n, n);
            if (e[i].align != align) VSOFT("alloc.wrong-align", "block of alignment %zu returned with alignment %zu", e[i].align, align);
            e[i].p = nullptr; ++deallocs; live_bytes -= n;
            while (used && !e[used - 1].p) --used;
            return;
        }
        VSOFT("alloc.unknown-block", "block %p returned which is not allocated", p);
    }
    void reset() { for (int i = 0; i < used; ++i) e[i].p = nullptr; used = 0; live_bytes = 0; }
    int live() const { int n = 0; for (int i = 0; i < used; ++i) if (e[i].p) ++n; return n; }
    const E* owner_exact(const void* p) const { for (int i = 0; i < used; ++i) if (e[i].p == p) return &e[i]; return nullptr; }
    const E* owner(const void* p) const { for (int i = 0; i < used; ++i) if (e[i].p && p >= e[i].p && (const char*)p < (const char*)e[i].p + e[i].n) return &e[i]; return nullptr; }
};
inline Ledger& ledger() { static Ledger* l = (Ledger*)mmap(nullptr, sizeof(Ledger), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return *l; }

// Flags: 1 POCCA, 2 POCMA, 4 POCS, 8 select_on_copy gives a fresh arena
inline int& next_arena() { static int a = 1000; return a; }
template <typename T, int Flags = 0> struct LAlloc {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, (Flags & 1) != 0>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, (Flags & 2) != 0>;
    using propagate_on_container_swap = std::integral_constant<bool, (Flags & 4) != 0>;
    using is_always_equal = std::false_type;
    template <typename U> struct rebind { using other = LAlloc<U, Flags>; };
    int arena = 0;
    LAlloc() = default;
    explicit LAlloc(int a) : arena(a) {}
    template <typename U> LAlloc(const LAlloc<U, Flags>& o) : arena(o.arena) {}
    LAlloc select_on_container_copy_construction() const { return (Flags & 8) ? LAlloc(arena + 100) : *this; }
    T* allocate(size_t n) {
        fault().alloc_point();
        if (n > (size_t(1) << 32) / sizeof(T)) throw std::bad_alloc();
        if (n == 0) { void* z = ::operator new(1); ledger().add(z, 0, alignof(T), arena); return (T*)z; }
        void* p = nullptr;
        if (alignof(T) > 16) { if (posix_memalign(&p, alignof(T), n * sizeof(T))) throw std::bad_alloc(); }
        else p = malloc(n * sizeof(T));
        memset(p, 0xcd, n * sizeof(T));
        ledger().add(p, n * sizeof(T), alignof(T), arena);
        return (T*)p;
    }
    void deallocate(T* p, size_t n) {
        ledger().remove(p, n * sizeof(T), alignof(T), arena);
        if (n == 0) ::operator delete((void*)p); else free((void*)p);
    }
    template <typename U> friend bool operator==(const LAlloc& a, const LAlloc<U, Flags>& b) { return a.arena == b.arena; }
    template <typename U> friend bool operator!=(const LAlloc& a, const LAlloc<U, Flags>& b) { return a.arena != b.arena; }
};

// ---------------------------------------------------------------- main
inline void json_str(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
inline void write_stats(bool ok) {
    if (!G().out) return;
    FILE* f = fopen(G().out, "w"); if (!f) return;
    fprintf(f, "{\"ok\":%s,\"cases\":%llu,\"ops\":%llu,\"nontrivial\":%llu,\"abandoned\":%llu,\"registry\":{\"constructions\":%llu,\"destructions\":%llu,\"copies\":%llu,\"moves\":%llu,\"assignments\":%llu},\"ledger\":{\"allocations\":%llu,\"deallocations\":%llu},",
        ok ? "true" : "false", (unsigned long long)G().cases, (unsigned long long)G().ops, (unsigned long long)G().nontrivial, (unsigned long long)G().abandoned,
        (unsigned long long)reg().ctors, (unsigned long long)reg().dtors, (unsigned long long)reg().copies, (unsigned long long)reg().moves, (unsigned long long)(reg().copy_asgn + reg().move_asgn),
        (unsigned long long)ledger().allocs, (unsigned long long)ledger().deallocs);
    fprintf(f, "\"counters\":{");
    bool first = true;
    for (auto c = Counter::head(); c; c = c->next) for (auto d = c->next; d; d = d->next) if (!strcmp(c->name, d->name)) { d->n += c->n; c->name = ""; break; } // templates have one each
    for (auto c = Counter::head(); c; c = c->next) { if (!c->name[0]) continue; if (!first) fputc(',', f); first = false; json_str(f, c->name); fprintf(f, ":%llu", (unsigned long long)c->n); }
    for (auto& e : dynctr().e) if (e.name[0]) { if (!first) fputc(',', f); first = false; json_str(f, e.name); fprintf(f, ":%llu", (unsigned long long)e.n); }
    fprintf(f, "},\"samples\":[");
    for (int i = 0; i < samples().n; ++i) { auto& s = samples().s[i]; fprintf(f, "%s{\"suite\":", i ? "," : ""); json_str(f, s.suite); fprintf(f, ",\"idx\":%llu,\"log\":", (unsigned long long)s.idx); json_str(f, s.log); fputc('}', f); }
    fprintf(f, "]}\n"); fclose(f);
    if (G().hashes) {
        f = fopen(G().hashes, "wb"); if (!f) return;
        uint64_t nc = distinct_cases().used, ns = distinct_states().used;
        fwrite(&nc, 8, 1, f); fwrite(&ns, 8, 1, f);
        for (auto set : { &distinct_cases(), &distinct_states() }) for (uint64_t i = 0; i < HashSet::N; ++i) if (set->t[i]) fwrite(&set->t[i], 8, 1, f);
        fclose(f);
    }
}

inline size_t heap_bytes() {
#if VF_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

inline void (*&case_reset())() { static void (*f)() = nullptr; return f; }

inline void run_one(Suite* s, uint64_t idx) {
    auto p = prog();
    snprintf(p->suite, sizeof p->suite, "%s", s->name); p->idx = idx;
    for (int attempt = 0; ; ++attempt) {
        p->loglen = 0; p->log[0] = 0;
        fault().off();
        if (case_reset()) case_reset()();
        Case c{idx, Rng(mix(G().seed * 1000003 + hstr(s->name)) + mix(idx + 1))};
        uint64_t live0 = reg().live; int blocks0 = ledger().live(); size_t heap0 = heap_bytes();
        dirty() = false;
        try { s->fn(c); }
        catch (Abandon&) { ++G().abandoned; dirty() = true; }
        fault().off();
        if (dirty()) { reg().reset(); ledger().reset(); dirty() = false; ++G().cases; return; }
        if (reg().live != live0) { if (!ignored("lifetime")) fail("lifetime.leak", "%lld tracked objects left alive at the end of the case", (long long)(reg().live - live0)); reg().reset(); }
        if (ledger().live() != blocks0) { if (!ignored("alloc")) fail("alloc.leak", "%d allocated blocks left at the end of the case", ledger().live() - blocks0); ledger().reset(); }
        if (s->leakcheck && !ignored("memory") && heap_bytes() > heap0) {
            if (attempt < 2) continue; // caches may be filled once; a leak repeats
            fail("memory.leak", "%zu heap bytes left at the end of the case", heap_bytes() - heap0);
        }
        ++G().cases;
        if (c.nontrivial) { ++G().nontrivial; distinct_cases().add(hcomb(hstr(s->name), c.h ? c.h : hstr(p->log))); }
        // keep the first nontrivial case of each suite (up to N) as a sample
        if (c.nontrivial && samples().n < Samples::N) {
            bool have = false; for (int i = 0; i < samples().n; ++i) if (!strcmp(samples().s[i].suite, s->name)) have = true;
            if (!have) { auto& sm = samples().s[samples().n++]; snprintf(sm.suite, sizeof sm.suite, "%s", s->name); sm.idx = idx; snprintf(sm.log, sizeof sm.log, "%.1100s", p->log); }
        }
        return;
    }
}

} // namespace vf

// library assertions firing on in-contract calls are violations (harness for misuse overrides this)
#ifndef VF_OWN_ASSERT
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) noexcept {
    const char* b = strrchr(file, '/');
    vf::fail("assert", "assertion failed: %s at %s:%u in %s", expr, b ? b + 1 : file, line, fn);
}
#endif

#ifndef VF_OWN_MAIN
int main(int argc, char** argv) {
    auto& g = vf::G(); const char* progf = nullptr;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i]; const char* v = argv[i + 1];
        if (a == "--seed") g.seed = strtoull(v, nullptr, 10);
        else if (a == "--shard") g.shard = strtoull(v, nullptr, 10);
        else if (a == "--shards") g.shards = strtoull(v, nullptr, 10);
        else if (a == "--scale") g.scale = atof(v);
        else if (a == "--thorough") g.thorough = atoi(v) != 0;
        else if (a == "--out") g.out = v;
        else if (a == "--hashes") g.hashes = v;
        else if (a == "--prog") progf = v;
        else if (a == "--suites") g.suites = v;
        else if (a == "--ignore") g.ignore = v;
        else if (a == "--only-suite") g.only_suite = v;
        else if (a == "--only-idx") { g.has_only = true; g.only_idx = strtoull(v, nullptr, 10); }
        else { fprintf(stderr, "HARNESS-ERROR: bad argument %s\n", argv[i]); return 12; }
    }
    vf::Progress* p;
    if (progf) {
        int fd = open(progf, O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(vf::Progress))) return 12;
        p = (vf::Progress*)mmap(nullptr, sizeof(vf::Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) return 12;
    } else p = (vf::Progress*)mmap(nullptr, sizeof(vf::Progress), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    vf::prog() = p;
    vf::distinct_cases(); vf::distinct_states(); vf::reg(); vf::ledger(); vf::dynctr();
    for (auto s = vf::Suite::head(); s; s = s->next) {
        if (g.only_suite && strcmp(g.only_suite, s->name)) continue;
        if (g.suites) { // comma separated list of prefixes
            bool hit = false; std::string l = g.suites; size_t b = 0;
            while (b <= l.size()) { size_t e = l.find(',', b); if (e == std::string::npos) e = l.size(); if (e > b && !strncmp(s->name, l.c_str() + b, e - b)) hit = true; b = e + 1; }
            if (!hit) continue;
        }
        uint64_t base = g.thorough ? s->thorough_count : s->count;
        uint64_t n = uint64_t(double(base) * g.scale); if (!n) n = 1;
        if (g.has_only) { vf::run_one(s, g.only_idx); continue; }
        for (uint64_t i = g.shard; i < n; i += g.shards) vf::run_one(s, i);
    }
    vf::write_stats(true);
    if (g.has_only && p->loglen) printf("TRACE %s\n", p->log);
    return 0;
}
#endif
