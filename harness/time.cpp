// time_t and strftime (C24)
#include "mt.hpp"
#include <itlib/time_t.hpp>
#include <clocale>
using namespace vf;
#define CK(c, ...) VCHECK(c, "value.time", __VA_ARGS__)
typedef itlib::time_t T; typedef long long ll;
static bool same_tm(const std::tm& a, const std::tm& b) {
    return a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon && a.tm_year == b.tm_year && a.tm_wday == b.tm_wday && a.tm_yday == b.tm_yday && a.tm_isdst == b.tm_isdst && a.tm_gmtoff == b.tm_gmtoff && (a.tm_zone == b.tm_zone || (a.tm_zone && b.tm_zone && !strcmp(a.tm_zone, b.tm_zone)));
}
static const char* show(const std::tm& t) { static thread_local char b[4][160]; static thread_local int k = 0; char* s = b[k++ & 3]; snprintf(s, 160, "%d-%d-%d %d:%d:%d wd%d yd%d dst%d off%ld %s", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_wday, t.tm_yday, t.tm_isdst, t.tm_gmtoff, t.tm_zone ? t.tm_zone : "-"); return s; }
static const char* const ZONES[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "XYZ11:45:30", "<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45", "AAA-24"};
static void zone(Rng& r) { const char* z = ZONES[r.below(8)]; setenv("TZ", z, 1); ::tzset(); op("TZ=%s", z); }
static int64_t some_time(Rng& r) { // gmtime can hold years which fit into an int
    switch (r.below(8)) {
    case 0: return int64_t(r.below(200)) - 100; case 1: return int64_t(r.below(4000000000u)); case 2: return -int64_t(r.below(4000000000u));
    case 3: return (r.chance(50) ? 1ll : -1ll) * ((1ll << 31) - 3 + int64_t(r.below(6))); case 4: return int64_t(r.next() % 60000000000000000ull) - 30000000000000000ll;
    case 5: { int64_t y = 1583 + int64_t(r.below(900)); return (y - 1970) * 31556952 + int64_t(r.below(20000)) - 10000; } // around new years
    case 6: return 1700000000 + int64_t(r.below(63)) * 604800 + int64_t(r.below(7200)); // around daylight saving changes
    default: return (r.chance(50) ? 1ll : -1ll) * (int64_t(1) << r.below(54));
    }
}
// days to date, independent of the C library
static void civil(int64_t z, int64_t& y, int& m, int& d) { z += 719468; int64_t era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = unsigned(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = int64_t(yoe) + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = int(doy - (153 * mp + 2) / 5 + 1); m = int(mp < 10 ? mp + 3 : mp - 9); y += m <= 2; }
SUITE_NOLEAK("tm.conversions", 4000, 200000) {
    Rng& r = c.rng; zone(r); int n = 4 + int(r.below(12));
    while (n--) {
        tick(); int64_t s = some_time(r); op("%lld", (ll)s); std::time_t st = std::time_t(s); T t = T::from_seconds(s); const T ct(st); CK(t == ct && t.seconds_since_epoch() == s && static_cast<std::time_t>(ct) == st, "the number of seconds isn't kept"); T cp(ct), as; as = cp; CK(as == t && !(as != t), "copy");
        int64_t other = s + int64_t(r.below(100000)) - 50000; std::time_t ot = std::time_t(other);
        std::tm want = {}; gmtime_r(&st, &want); std::tm* hold = std::gmtime(&ot); std::tm held = *hold; std::tm got = ct.gmtime(); CK(same_tm(got, want), "gmtime of %lld: %s, should be %s", (ll)s, show(got), show(want)); CK(same_tm(*hold, held), "gmtime changed what the C function returned before"); COV("broken down as UTC");
        { int64_t day = s >= 0 ? s / 86400 : -((-s + 86399) / 86400), y; int m, d, sec = int(s - day * 86400); civil(day, y, m, d); CK(got.tm_year + 1900ll == y && got.tm_mon + 1 == m && got.tm_mday == d && got.tm_hour == sec / 3600 && got.tm_min == sec / 60 % 60 && got.tm_sec == sec % 60 && got.tm_wday == int(((day + 4) % 7 + 7) % 7) && got.tm_isdst == 0, "gmtime of %lld is %s", (ll)s, show(got)); }
        std::tm wantl = {}; localtime_r(&st, &wantl); hold = std::localtime(&ot); held = *hold; std::tm gotl = ct.localtime(); CK(same_tm(gotl, wantl), "localtime of %lld: %s, should be %s", (ll)s, show(gotl), show(wantl)); CK(same_tm(*hold, held), "localtime changed what the C function returned before"); COV("broken down as local time"); if (gotl.tm_isdst > 0) COV("daylight saving time"); if (s < 0) COV("before the epoch"); if (s > 0x7fffffff || s < -0x7fffffffll) COV("beyond 32 bits");
        { std::tm a = got, b = got; std::time_t w = timegm(&b); T x = T::from_gmtime(a); CK(x.seconds_since_epoch() == w && w == s && same_tm(a, b), "from_gmtime"); }
        { std::tm a = gotl, b = gotl; std::time_t w = mktime(&b); T x = T::from_localtime(a); CK(x.seconds_since_epoch() == w && same_tm(a, b), "from_localtime"); }
        { std::tm a = r.chance(50) ? got : gotl; a.tm_mon += int(r.below(40)) - 20; a.tm_mday += int(r.below(800)) - 400; a.tm_hour += int(r.below(100)) - 50; a.tm_min += int(r.below(1000)) - 500; a.tm_sec += int(r.below(100000)) - 50000; a.tm_isdst = int(r.below(3)) - 1; if (a.tm_year > 1000000000 || a.tm_year < -1000000000) a.tm_year /= 4; a.tm_wday = a.tm_yday = 99; std::tm g1 = a, g2 = a, l1 = a, l2 = a; std::time_t w = timegm(&g2); T x = T::from_gmtime(g1); CK(x.seconds_since_epoch() == w && same_tm(g1, g2), "from_gmtime of an unnormalised time: %lld %s, should be %lld %s", (ll)x.seconds_since_epoch(), show(g1), (ll)w, show(g2)); w = mktime(&l2); x = T::from_localtime(l1); CK(x.seconds_since_epoch() == w && same_tm(l1, l2), "from_localtime of an unnormalised time: %lld %s, should be %lld %s", (ll)x.seconds_since_epoch(), show(l1), (ll)w, show(l2)); COV("normalised"); }
        { std::time_t a = std::time(nullptr); T now = T::now(); std::time_t b = std::time(nullptr); CK(now.seconds_since_epoch() >= a && now.seconds_since_epoch() <= b, "now"); }
    }
    CK(T().seconds_since_epoch() == 0, "a new time isn't the epoch"); c.interesting();
}
template <typename Rep, typename Per> static void dur(Rng& r, T& t, int64_t& m, const char* nm) {
    typedef std::chrono::duration<Rep, Per> D; typedef std::ratio_divide<Per, std::ratio<1>> Q; Rep cnt; ll whole;
    if (std::is_floating_point<Rep>::value) { ll q = ll(r.below(4000000)) - 2000000; cnt = Rep(q) / 4; whole = ll(__int128(q) * Q::num / (__int128(4) * Q::den)); }
    else { ll k = ll(r.next() >> (20 + r.below(40))); if (!std::is_unsigned<Rep>::value && r.chance(50)) k = -k; if (sizeof(Rep) == 1) k %= 100; if (sizeof(Rep) == 4) k = int(k) / 2; if (Q::num > 1) k %= 100000000; cnt = Rep(k); whole = ll(__int128(cnt) * Q::num / Q::den); }
    D d(cnt); int how = int(r.below(4)); op("%s %g how%d", nm, double(cnt), how); int64_t was = m;
    switch (how) { case 0: { T& q = (t += d); m += whole; CK(&q == &t, "+= doesn't return the time"); break; } case 1: { T x = t + d; m += whole; CK(t.seconds_since_epoch() == was, "+ changes its operand"); t = x; break; } case 2: { T& q = (t -= d); m -= whole; CK(&q == &t, "-= doesn't return the time"); break; } case 3: { const T& ct = t; T x = ct - d; m -= whole; CK(t.seconds_since_epoch() == was, "- changes its operand"); t = x; break; } }
    CK(t.seconds_since_epoch() == m, "%lld %c %g %s is %lld, should be %lld", (ll)was, how < 2 ? '+' : '-', double(cnt), nm, (ll)t.seconds_since_epoch(), (ll)m); COV("durations added"); if (__int128(whole) * Q::den != __int128(cnt) * Q::num) COV("durations with fractions of seconds");
}
SUITE_NOLEAK("tm.arithmetic", 4000, 200000) {
    Rng& r = c.rng; int64_t m = some_time(r); T t = T::from_seconds(m); int n = 5 + int(r.below(30)); op("from %lld", (ll)m);
    while (n--) {
        tick(); using namespace std;
        switch (r.below(14)) {
        case 0: dur<int64_t, nano>(r, t, m, "ns"); break; case 1: dur<int64_t, micro>(r, t, m, "us"); break; case 2: dur<int64_t, milli>(r, t, m, "ms"); break; case 3: dur<int64_t, ratio<1>>(r, t, m, "s"); break; case 4: dur<int, ratio<60>>(r, t, m, "min"); break; case 5: dur<int, ratio<3600>>(r, t, m, "h"); break; case 6: dur<int, ratio<86400>>(r, t, m, "days"); break; case 7: dur<double, ratio<1>>(r, t, m, "double s"); break; case 8: dur<double, ratio<60>>(r, t, m, "double min"); break; case 9: dur<int, ratio<1, 3>>(r, t, m, "thirds"); break; case 10: dur<signed char, ratio<604800>>(r, t, m, "char weeks"); break; case 11: dur<int, ratio<7, 2>>(r, t, m, "7/2 s"); break; case 12: dur<unsigned, ratio<1>>(r, t, m, "unsigned s"); break; case 13: dur<int64_t, pico>(r, t, m, "ps"); break; }
        if (m > (1ll << 60) || m < -(1ll << 60)) { m = some_time(r); t = T::from_seconds(m); }
        int64_t o = r.chance(20) ? m : r.chance(40) ? m + int64_t(r.below(5)) - 2 : some_time(r); const T a(static_cast<std::time_t>(m)), b = T::from_seconds(o); CK((a == b) == (m == o) && (a != b) == (m != o) && (a < b) == (m < o) && (a <= b) == (m <= o) && (a > b) == (m > o) && (a >= b) == (m >= o), "comparison of %lld and %lld", (ll)m, (ll)o); CK((a - b).count() == m - o, "the difference of %lld and %lld", (ll)m, (ll)o); CK(b + (a - b) == a && a - (a - b) == b, "differences don't add up"); COV("times compared");
        static_assert(is_same<decltype(a - b), chrono::duration<int64_t>>::value && !is_convertible<std::time_t, T>::value && !is_convertible<T, std::time_t>::value, "types");
    }
    c.interesting(); state(uint64_t(m));
}
static std::string by_c(const std::string& f, const std::tm& tm) { std::string x = f + "x"; static std::vector<char> buf(1 << 20); size_t n = std::strftime(buf.data(), buf.size(), x.c_str(), &tm); if (!n) harness_error("the C function has no answer"); return std::string(buf.data(), n - 1); }
static std::string pad(size_t n, Rng& r) { std::string s; while (s.size() < n) s += char('a' + r.below(26)); return s; }
SUITE_NOLEAK("tm.strftime", 6000, 200000) {
    Rng& r = c.rng; zone(r); const char* loc = r.chance(30) ? "en_US.utf8" : r.chance(50) ? "C.utf8" : "C"; setlocale(LC_TIME, loc); op("%s", loc);
    int n = 3 + int(r.below(8));
    while (n--) {
        tick(); T t = T::from_seconds(some_time(r)); std::tm tm = r.chance(50) ? t.gmtime() : t.localtime(); if (tm.tm_year > 100000000 || tm.tm_year < -100000000) tm.tm_year = 120; if (r.chance(10)) tm.tm_zone = ""; std::string f;
        static const char* const specs[] = {"%a", "%A", "%b", "%B", "%c", "%C", "%d", "%D", "%e", "%F", "%g", "%G", "%h", "%H", "%I", "%j", "%m", "%M", "%n", "%p", "%r", "%R", "%S", "%t", "%T", "%u", "%U", "%V", "%w", "%W", "%x", "%X", "%y", "%Y", "%z", "%Z", "%%", "%Ey", "%Od", "%p%P", "text", "\xc3\xa9"};
        int how = int(r.below(6));
        switch (how) {
        case 0: for (size_t k = r.below(5); k--;) f += specs[r.below(42)]; break;
        case 1: for (size_t k = r.below(80); k--;) f += specs[r.below(42)]; break;
        case 2: { static const size_t e[] = {126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513, 1023, 1024, 2047, 2048, 4095, 4096}; f = pad(e[r.below(18)], r); COV("around powers of two"); break; } // the lengths around a buffer's
        case 3: { static const size_t e[] = {127, 128, 255, 256, 511, 512}; size_t want = e[r.below(6)]; f = "%Y%m%d"; size_t have = by_c(f, tm).size(); f += pad(want > have ? want - have : 1, r); break; }
        case 4: { static const char* const em[] = {"", "%p", "%Z", "%p%Z", "%EZ"}; f = em[r.below(5)]; if (f != "") tm.tm_zone = ""; if (r.chance(50)) setlocale(LC_TIME, loc = "C.utf8"); break; } // may be nothing at all
        case 5: f = pad(r.below(20000), r) + specs[r.below(42)]; break;
        }
        op("strftime of %zu characters, how%d", f.size(), how); std::string want = by_c(f, tm), in = f; std::tm ctm = tm; std::string got = itlib::strftime(f.c_str(), ctm);
        CK(got == want, "strftime gives %zu characters \"%.60s\", should be %zu \"%.60s\"", got.size(), got.c_str(), want.size(), want.c_str()); CK(same_tm(ctm, tm) && in == f, "strftime changes its arguments"); COV("texts compared"); if (want.empty()) COV("empty texts"); if (want.size() > 127) COV("long texts");
    }
    setlocale(LC_TIME, "C"); c.interesting();
}
SUITE_NOLEAK("tm.threads", 25, 1500) {
    Rng& r = c.rng; zone(r); int n = 2 + int(r.below(5)), per = 100; op("%d threads", n); struct W { int64_t s; std::tm g, l; std::string f; }; std::vector<std::vector<W>> want(static_cast<size_t>(n)); const std::string fmt = "%Y-%m-%d %H:%M:%S %z " + pad(r.below(300), r);
    for (auto& v : want) for (int i = 0; i < per; ++i) { W w; w.s = some_time(r) % 100000000000ll; std::time_t st = std::time_t(w.s); w.g = w.l = std::tm{}; gmtime_r(&st, &w.g); localtime_r(&st, &w.l); w.f = by_c(fmt, w.l); v.push_back(w); }
    team(r, n, some_level(r), [&](int t, Rng& tr) { for (int i = 0; i < per * 3; ++i) { const W& w = want[size_t(t)][tr.below(size_t(per))]; T x = T::from_seconds(w.s); switch (tr.below(5)) {
        case 0: { std::tm g = x.gmtime(); if (!same_tm(g, w.g)) fail("value.time.threads", "gmtime with other threads is %s, should be %s", show(g), show(w.g)); break; }
        case 1: { std::tm g = x.localtime(); if (!same_tm(g, w.l)) fail("value.time.threads", "localtime with other threads is %s, should be %s", show(g), show(w.l)); break; }
        case 2: { std::tm g = w.g; if (T::from_gmtime(g) != x || !same_tm(g, w.g)) fail("value.time.threads", "from_gmtime with other threads"); break; }
        case 3: { std::string s = itlib::strftime(fmt.c_str(), w.l); if (s != w.f) fail("value.time.threads", "strftime with other threads gives \"%.60s\", should be \"%.60s\"", s.c_str(), w.f.c_str()); break; }
        case 4: { std::tm g = w.l; T y = T::from_localtime(g); if (w.l.tm_isdst == 0 && y != x) fail("value.time.threads", "from_localtime with other threads"); break; } } } });
    COVN("concurrent conversions", n * per * 3); c.interesting(); c.h = uint64_t(n) * 77 + fmt.size();
}
