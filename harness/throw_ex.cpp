// throw_ex (C31)
#include "common.hpp"
#include <itlib/throw_ex.hpp>
#include <iomanip>
#include <typeinfo>
#include <stdexcept>
#include <limits>
#include <memory>
#include <complex>
#include <bitset>
using namespace vf;
#define CK(c, ...) VCHECK(c, "value.throw_ex", __VA_ARGS__)
static int made; // exceptions made from a message
struct Mine : Tr { std::string m; explicit Mine(std::string s) : Tr(int(s.size())), m(std::move(s)) { ++made; } };
struct ByRef { std::string m; Tr t; ByRef(const std::string& s) : m(s), t(1) { ++made; } };
struct Derived : std::invalid_argument { explicit Derived(const std::string& s) : std::invalid_argument(s) { ++made; } };
struct More : Derived { using Derived::Derived; };
struct NotStd { const std::string m; NotStd(std::string s) : m(std::move(s)) { ++made; } };
struct Own { int v; Own(int v) : v(v) {} Own(const Own&) = delete; friend std::ostream& operator<<(std::ostream& o, const Own& w) { return o << "<own " << w.v << ">"; } };
struct Fmt { int v; friend std::ostream& operator<<(std::ostream& o, const Fmt& w) { auto f = o.flags(); o << std::hex << std::showbase << w.v; o.flags(f); return o; } };
enum Plain { plain = 7 };
template <typename E> auto msg_of(const E& e, int) -> decltype(std::string(e.m)) { return e.m; }
inline std::string msg_of(const std::exception& e, long) { return e.what(); }
inline std::string msg_of(const std::string& e, long) { return e; }
template <typename E> struct Counted { static constexpr bool v = true; }; template <> struct Counted<std::runtime_error> { static constexpr bool v = false; }; template <> struct Counted<std::logic_error> { static constexpr bool v = false; }; template <> struct Counted<std::out_of_range> { static constexpr bool v = false; }; template <> struct Counted<std::string> { static constexpr bool v = false; };
template <typename E> constexpr bool Counted<E>::v;
struct Pieces { std::vector<int> kind; std::vector<uint64_t> x; std::vector<std::string> s; };
// streams the pieces into anything; used for the exception and for the reference
template <typename O> void put(O& o, const Pieces& p, size_t i) {
    uint64_t x = p.x[i]; const std::string& s = p.s[i];
    switch (p.kind[i]) {
    case 0: o << int(x); break; case 1: o << "literal"; break; case 2: o << s; break; case 3: o << s.c_str(); break; case 4: o << char(32 + x % 90); break; case 5: o << (unsigned char)(x % 256); break; case 6: o << double(int64_t(x)) / 1e6; break; case 7: o << float(x % 1000) / 7; break; case 8: o << bool(x & 1); break; case 9: o << (void*)uintptr_t(x); break; case 10: o << (unsigned long long)x; break; case 11: o << short(x); break;
    case 12: o << Own(int(x % 100)); break; case 13: o << Fmt{int(x % 1000)}; break; case 14: o << plain; break; case 15: { char b[8] = "array"; b[5] = char('a' + x % 26); o << b; break; } case 16: { std::string t = s; char* q = &t[0]; o << q; break; } case 17: o << std::setw(int(x % 20)); break; case 18: o << std::setfill(char('*' + x % 5)); break; case 19: o << std::hex; break; case 20: o << std::dec; break; case 21: o << std::setprecision(int(x % 15)); break; case 22: o << std::fixed; break; case 23: o << std::boolalpha; break; case 24: o << (x & 1 ? std::numeric_limits<double>::infinity() : -0.0); break; case 25: o << std::complex<double>(double(x % 5), 2); break; case 26: o << std::bitset<9>(x); break; case 27: { const int ci = int(x % 77); const volatile bool vb = x & 1; o << ci << vb; break; } case 28: o << ""; break; case 29: o << (signed char)(65 + x % 20); break; case 30: o << std::left; break; case 31: o << std::showpos; break;
    }
}
static Pieces some(Rng& r) {
    Pieces p; size_t n = r.chance(10) ? 0 : r.chance(5) ? r.below(400) : r.below(12); bool huge = r.below(400) == 0; if (huge) { n = r.chance(50) ? 2000 + r.below(8000) : 1 + r.below(3); COV("large messages"); } for (size_t i = 0; i < n; ++i) { p.kind.push_back(int(r.below(32))); p.x.push_back(r.chance(30) ? r.below(50) : r.next()); size_t l = huge ? (n > 100 ? r.below(12) : 60000 + r.below(80000)) : r.chance(3) ? r.below(20000) : r.below(30); std::string s; while (s.size() < l) s += r.chance(4) ? char(0) : r.chance(5) ? char(0x80 + int(r.below(128))) : r.chance(5) ? '%' : char(32 + r.below(95)); p.s.push_back(s); } return p;
}
template <typename E> void named(const Pieces& p) { itlib::throw_ex<E> t; for (size_t i = 0; i < p.kind.size(); ++i) put(t, p, i); }
template <typename E> int expr(int n, const Pieces& p, int& steps) { // no return needed at the end
    auto q = [&](int v) { ++steps; return v; }; const std::string& s = p.s[0]; const char* z = s.c_str(); double d = double(p.x[0] % 1000) / 8; Own o(5);
    switch (n) { case 0: itlib::throw_ex<E>(); case 1: itlib::throw_ex<E>{} << q(1); case 2: itlib::throw_ex<E>() << s << q(2); case 3: itlib::throw_ex<E>() << "a" << q(3) << z << 'c' << o; case 4: itlib::throw_ex<E>() << d << " " << q(4) << std::hex << 255 << "; " << s << std::setw(6) << q(5) << "|" << true; default: (itlib::throw_ex<E>() << q(6) << ",") << q(7) << s.size(); }
}
static std::string expr_text(int n, const Pieces& p) { std::ostringstream t; const std::string& s = p.s[0]; const char* z = s.c_str(); double d = double(p.x[0] % 1000) / 8; Own o(5); switch (n) { case 0: break; case 1: t << 1; break; case 2: t << s << 2; break; case 3: t << "a" << 3 << z << 'c' << o; break; case 4: t << d << " " << 4 << std::hex << 255 << "; " << s << std::setw(6) << 5 << "|" << true; break; default: t << 6 << "," << 7 << s.size(); } return t.str(); }
template <typename E> void run(Case& c) {
    Rng& r = c.rng; Pieces p = some(r); uint64_t live = reg().live; bool ex = r.chance(40); std::string want; int n = int(r.below(6)), steps = 0; if (ex) { if (p.s.empty()) { p.s.push_back("x y"); p.x.push_back(5); p.kind.push_back(2); } want = expr_text(n, p); } else { std::ostringstream o; for (size_t i = 0; i < p.kind.size(); ++i) put(o, p, i); want = o.str(); } for (size_t i = 0; i < p.kind.size() && i < 15; ++i) op("k%d", p.kind[i]); op(ex ? "expression %d" : "%d pieces", ex ? n : int(p.kind.size()));
    bool handler = r.chance(25); int caught = 0; made = 0; std::string got; bool exact = false; int unwound = 0;
    auto go = [&] { struct U { int& u; ~U() { ++u; } } u{unwound}; Tr local(3); if (ex) expr<E>(n, p, steps); else named<E>(p); fail("value.throw_ex", "nothing is thrown"); };
    auto shoot = [&] { try { go(); } catch (E& e) { ++caught; exact = typeid(e) == typeid(E); got = msg_of(e, 0); } catch (std::exception& e) { fail("value.throw_ex", "another exception is thrown: %s", e.what()); } catch (...) { fail("value.throw_ex", "another exception is thrown"); } };
    if (handler) { try { throw std::runtime_error("first"); } catch (std::runtime_error& e) { shoot(); CK(std::string(e.what()) == "first", "the handled exception changes"); COV("thrown from a handler"); } } else shoot();
    bool cstr = std::is_base_of<std::exception, E>::value; std::string cmp = cstr ? std::string(want.c_str()) : want; CK(caught == 1 && exact, "another type is thrown"); CK(got == cmp, "the message has %zu characters \"%.80s\", should be %zu \"%.80s\"", got.size(), got.c_str(), cmp.size(), cmp.c_str()); if (Counted<E>::v) CK(made == 1, "%d exceptions are made", made); CK(unwound == 1, "scopes unwound %d times", unwound); CK(reg().live == live, "%ld objects are left", long(reg().live - live)); static const int st[] = {0, 1, 1, 1, 2, 2}; if (ex) CK(steps == st[n], "operands evaluated %d times", steps);
    COV("thrown"); if (want.empty()) COV("empty messages"); if (want.size() > 1000) COV("long messages"); if (want.find('\0') != std::string::npos && !cstr) COV("messages with zeros"); if (ex) COV("single expressions"); c.interesting(); c.h = hcomb(hstr(want.c_str()), want.size());
}
REG_SUITE("tx.runtime", 4000, 100000, &run<std::runtime_error>);
REG_SUITE("tx.logic", 2000, 100000, &run<std::logic_error>);
REG_SUITE("tx.derived", 3000, 100000, &run<Derived>);
REG_SUITE("tx.more", 2000, 100000, &run<More>);
REG_SUITE("tx.range", 2000, 100000, &run<std::out_of_range>);
REG_SUITE("tx.mine", 4000, 100000, &run<Mine>);
REG_SUITE("tx.byref", 3000, 100000, &run<ByRef>);
REG_SUITE("tx.notstd", 3000, 100000, &run<NotStd>);
REG_SUITE("tx.string", 3000, 100000, &run<std::string>);
