// Development stand-in for doctest-util (not available offline): enough to run the upstream tests
// that the baseline leaves out, so that fixes to the headers can be tried against them too.
#pragma once
#include <doctest/doctest.h>
#include <ostream>
namespace doctest { namespace util {
struct lifetime_stats {
    int d_ctr = 0, copies = 0, c_ctr = 0, c_asgn = 0, m_ctr = 0, m_asgn = 0, total = 0, living = 0;
    lifetime_stats checkpoint() { lifetime_stats r = *this; *this = lifetime_stats{}; return r; }
    friend bool operator==(const lifetime_stats& a, const lifetime_stats& b) {
        return a.d_ctr == b.d_ctr && a.c_ctr == b.c_ctr && a.c_asgn == b.c_asgn && a.m_ctr == b.m_ctr
            && a.m_asgn == b.m_asgn && a.total == b.total && a.living == b.living;
    }
    friend std::ostream& operator<<(std::ostream& o, const lifetime_stats& s) { return o << "stats " << s.total << "/" << s.living; }
};
struct lifetime_counter_sentry {
    lifetime_stats& s; int living;
    lifetime_counter_sentry(lifetime_stats& s) : s(s), living(s.living) {}
    ~lifetime_counter_sentry() { CHECK(s.living == living); }
};
template <typename T> struct lifetime_counter {
    static util::lifetime_stats& root_lifetime_stats() { static util::lifetime_stats s; return s; }
    struct lifetime_stats : util::lifetime_stats {
        lifetime_stats* prev;
        lifetime_stats() : prev(top()) { top() = this; }
        ~lifetime_stats() { top() = prev; }
        static lifetime_stats*& top() { static lifetime_stats* t = nullptr; return t; }
        lifetime_stats(const lifetime_stats&) = delete;
    };
    template <typename F> static void each(F f) {
        f(root_lifetime_stats());
        for (auto p = lifetime_stats::top(); p; p = p->prev) f(*p);
    }
    lifetime_counter() { each([](util::lifetime_stats& s) { ++s.d_ctr; ++s.total; ++s.living; }); }
    lifetime_counter(const lifetime_counter&) { each([](util::lifetime_stats& s) { ++s.c_ctr; ++s.copies; ++s.total; ++s.living; }); }
    lifetime_counter(lifetime_counter&&) noexcept { each([](util::lifetime_stats& s) { ++s.m_ctr; ++s.total; ++s.living; }); }
    lifetime_counter& operator=(const lifetime_counter&) { each([](util::lifetime_stats& s) { ++s.c_asgn; ++s.copies; }); return *this; }
    lifetime_counter& operator=(lifetime_counter&&) noexcept { each([](util::lifetime_stats& s) { ++s.m_asgn; }); return *this; }
    ~lifetime_counter() { each([](util::lifetime_stats& s) { --s.living; }); }
};
}}
