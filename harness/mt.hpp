// Threads, injected delays, timestamps for the concurrent harnesses.
// Built with -finstrument-functions, every function boundary of the code under test (std::atomic's and
// std::mutex's inline functions included) is a point where a thread may be delayed.
#pragma once
#include "common.hpp"
#include <atomic>
#include <thread>
#include <functional>
#include <sched.h>
#include <time.h>
#define VF_NOINST __attribute__((no_instrument_function))
namespace vf {
struct Inj { uint64_t s = 0; uint32_t level = 0; uint64_t points = 0, delays = 0; }; // level: delays per 4096 points
VF_NOINST inline Inj& inj() { static thread_local Inj i; return i; }
}
extern "C" {
VF_NOINST inline void vf_point() {
    auto& i = vf::inj(); if (!i.level) return; ++i.points;
    i.s = i.s * 6364136223846793005ull + 1442695040888963407ull; uint32_t x = uint32_t(i.s >> 40);
    if ((x & 4095) >= i.level) return; ++i.delays;
    switch ((x >> 12) & 15) { case 0: { struct timespec t{0, 20000}; nanosleep(&t, nullptr); break; } case 1: case 2: case 3: case 4: case 5: sched_yield(); break; default: for (volatile int k = 0, n = int((x >> 16) & 255) * 4; k < n; k = k + 1) {} }
}
#ifdef VF_INSTRUMENTED
VF_NOINST void __cyg_profile_func_enter(void*, void*) { vf_point(); }
VF_NOINST void __cyg_profile_func_exit(void*, void*) { vf_point(); }
#endif
}
namespace vf {
// A point in real time. Within TSan builds relaxed, so that the stamps order nothing.
inline std::atomic<uint64_t>& clock_word() { static std::atomic<uint64_t> c{1}; return c; }
#if VF_TSAN
constexpr std::memory_order stamp_order = std::memory_order_relaxed;
#else
constexpr std::memory_order stamp_order = std::memory_order_seq_cst;
#endif
VF_NOINST inline uint64_t stamp() { return clock_word().fetch_add(1, stamp_order); }
inline std::atomic<uint64_t>& delays_injected() { static std::atomic<uint64_t> c{0}; return c; }
// Runs f(thread index, rng) in n threads which begin together.
template <typename F> void team(Rng& r, int n, uint32_t level, F f) {
    std::atomic<int> ready{0}; std::vector<std::thread> ts; uint64_t seed = r.next();
    for (int t = 0; t < n; ++t) ts.emplace_back([&, t] {
        Rng tr(mix(seed + uint64_t(t)));
        ready.fetch_add(1); while (ready.load() < n) sched_yield();
        auto& i = inj(); i.s = tr.next(); i.level = level; uint64_t d0 = i.delays;
        f(t, tr);
        i.level = 0; delays_injected().fetch_add(i.delays - d0, std::memory_order_relaxed);
    });
    for (auto& t : ts) t.join();
    COVN("delays injected", delays_injected().exchange(0)); COVN("threads run", n); tick();
}
inline uint32_t some_level(Rng& r) { static const uint32_t l[] = {0, 4, 20, 100, 400, 1500}; return l[r.below(6)]; }
}
