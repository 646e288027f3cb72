// mem_ostreambuf (C17: suites os.*) and mem_istreambuf (C18: suites is.*), compared with std string streams
#include "common.hpp"
#include <sstream>
#include <iomanip>
#include <itlib/mem_streambuf.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/pod_vector.hpp>
using namespace vf;
template <typename Ch> std::basic_string<Ch> text(Rng& r, size_t n) { std::basic_string<Ch> s; for (size_t i = 0; i < n; ++i) { int k = int(r.below(20)); s += k == 0 ? Ch('\n') : k == 1 ? Ch(' ') : k == 2 ? Ch(0) : k == 3 ? Ch(sizeof(Ch) == 1 ? 255 : 0xfdfd) : k < 9 ? Ch('0' + r.below(10)) : Ch('a' + r.below(26)); } return s; }
template <typename Ch> constexpr bool formats() { return std::is_same<Ch, char>::value || std::is_same<Ch, wchar_t>::value; } // has the standard facets
static const std::ios::seekdir dirs[] = {std::ios::beg, std::ios::cur, std::ios::end};
static const char* dirname(std::ios::seekdir d) { return d == std::ios::beg ? "beg" : d == std::ios::cur ? "cur" : "end"; }

// ---------------------------------------------------------------- output
#define CK(c, ...) VCHECK(c, "value.ostream", __VA_ARGS__)
template <typename C> struct Bound { static constexpr size_t value = size_t(-1); };
template <typename T, size_t N> struct Bound<itlib::static_vector<T, N>> { static constexpr size_t value = N; };
template <typename C> struct Out {
    using Ch = typename C::value_type; using Str = std::basic_string<Ch>; using Buf = itlib::mem_ostreambuf<C>; static constexpr size_t bound = Bound<C>::value;
    Rng& r; Buf buf; std::basic_ostream<Ch> out; std::basic_ostringstream<Ch> ref; // ref is the oracle
    size_t wrote = 0;
    Out(Rng& r_, size_t res) : r(r_), buf(res), out(&buf) {}
    size_t pos() { auto st = ref.rdstate(); ref.clear(); auto p = ref.tellp(); ref.setstate(st); return size_t(p); }
    void compare(const char* what) {
        Str all = ref.str(); size_t p = pos();
        CK(buf.poff() == p, "%s: the put position is %zu, should be %zu", what, buf.poff(), p);
        CK(out.rdstate() == ref.rdstate(), "%s: stream state %d, should be %d", what, int(out.rdstate()), int(ref.rdstate()));
        CK(std::streamoff(out.tellp()) == std::streamoff(ref.tellp()), "%s: tellp is %lld, should be %lld", what, (long long)out.tellp(), (long long)ref.tellp());
        auto& c = buf.peek_container(); CK(c.size() >= all.size(), "%s: %zu bytes in the container of %zu written", what, c.size(), all.size()); for (size_t i = 0; i < all.size(); ++i) CK(c.data()[i] == all[i], "%s: byte %zu of %zu differs (put position %zu)", what, i, all.size(), p);
        COVN("bytes compared", all.size());
    }
    // f writes text t to a stream
    template <typename F> void write(const Str& t, F f, const char* what) {
        size_t p = pos();
        if (out.good() && t.size() && p + t.size() > bound) {
            f(out); CK(!out.good(), "%s: %zu characters at %zu were written into a container of %zu", what, t.size(), p, bound); size_t q = buf.poff(); CK(q >= p && q <= bound, "%s: after a failure the put position went from %zu to %zu", what, p, q);
            ref.write(t.data(), std::streamsize(q - p)); ref.setstate(out.rdstate()); compare("over the bound"); out.clear(); ref.clear(); COV("over the bound");
        } else { f(out); f(ref); wrote += t.size(); }
        compare(what);
    }
    void step() {
        int how = int(r.below(20)); op("how%d at %zu", how, buf.poff());
        switch (how) {
        case 0: case 1: case 2: { Ch c = text<Ch>(r, 1)[0]; int k = 1 + int(r.below(8)); while (k--) write(Str(1, c), [&](std::basic_ostream<Ch>& o) { o.put(c); }, "put"); COV("put"); break; }
        case 3: case 4: case 5: case 6: { size_t n = r.below(8) ? r.below(30) : r.below(200); Str t = text<Ch>(r, n); write(t, [&](std::basic_ostream<Ch>& o) { o.write(t.data(), std::streamsize(n)); }, "write"); COV("blocks"); if (!n) COV("empty blocks"); break; }
        case 7: case 8: case 9: if constexpr (formats<Ch>()) { long v = long(r.next()); double d = double(v) / 1000; auto f = [&](std::basic_ostream<Ch>& o) { o << v << Ch(' ') << std::setw(12) << std::hex << d << Ch('|') << std::dec << std::boolalpha << true; o << std::setw(int(v & 15)) << std::left << "xyz" << std::endl; }; std::basic_ostringstream<Ch> tmp; f(tmp); Str t = tmp.str(); auto g = [&](std::basic_ostream<Ch>& o) { if (bound == size_t(-1)) f(o); else o << t; }; write(t, g, "formatted"); COV("formatted"); } break;
        case 10: case 11: case 12: { // seek within what was written
            size_t hw = ref.str().size(), p = pos(), to = r.below(hw + 1); auto d = dirs[r.below(3)]; long off = d == std::ios::beg ? long(to) : d == std::ios::cur ? long(to) - long(p) : long(to) - long(hw); op("seek %ld %s", off, dirname(d)); out.seekp(off, d); ref.seekp(off, d); compare(dirname(d)); if (d == std::ios::beg && r.chance(30)) { out.seekp(off); ref.seekp(off); compare("seekp"); } COV("seeks"); if (d == std::ios::end) COV("seeks from the end"); break; }
        case 13: { // seek outside of what was written
            size_t hw = ref.str().size(), p = pos(); static const long x[] = {1, 2, 10, 100, 1000, 100000, 1l << 31, 1l << 32, 1l << 40, 1l << 62}; long k = x[r.below(10)]; bool low = r.chance(50); auto d = dirs[r.below(3)]; long off = d == std::ios::beg ? (low ? -k : long(hw) + k) : d == std::ios::cur ? (low ? -long(p) - k : long(hw - p) + k) : (low ? -long(hw) - k : k); op("seek outside %ld %s", off, dirname(d));
            out.seekp(off, d); ref.seekp(off, d); CK(out.fail(), "a seek to %ld from %s of %zu written characters succeeds", off, dirname(d), hw); compare("failed seek"); Str t = text<Ch>(r, 3); if (r.chance(50)) { out.write(t.data(), 3); ref.write(t.data(), 3); compare("write to a failed stream"); } out.clear(); ref.clear(); compare("after a failed seek"); COV("seeks outside"); break; }
        case 14: { C c = buf.get_container(); size_t p = pos(); Str all = ref.str(); CK(c.size() == p, "get_container has %zu elements, put position %zu", c.size(), p); for (size_t i = 0; i < p; ++i) CK(c.data()[i] == all[i], "get_container: character %zu", i); ref.str(Str()); CK(buf.poff() == 0, "put position after get_container"); compare("after get_container"); COV("containers taken"); if (r.chance(20)) { C d = buf.get_container(); CK(d.size() == 0, "container taken twice"); compare("taken twice"); } break; }
        case 15: if (r.chance(50)) { buf.clear(); ref.str(Str()); compare("clear"); COV("cleared"); } break;
        case 16: { out.flush(); ref.flush(); compare("flush"); break; }
        case 17: { // the buffer's own interface
            if (!out.good()) break; Str t = text<Ch>(r, r.below(20)); if (pos() + t.size() + 1 > bound) break; CK(buf.sputn(t.data(), std::streamsize(t.size())) == std::streamsize(t.size()), "sputn"); ref.write(t.data(), std::streamsize(t.size())); Ch c = text<Ch>(r, 1)[0]; using Tr_ = std::char_traits<Ch>; auto x = buf.sputc(c); CK(Tr_::eq_int_type(x, Tr_::to_int_type(c)), "sputc returns another character"); ref.rdbuf()->sputc(c); auto s = buf.pubseekoff(0, std::ios::cur, std::ios::out); CK(size_t(std::streamoff(s)) == pos(), "pubseekoff"); compare("sputn"); COV("direct"); break; }
        case 18: { // large blocks
            if (bound != size_t(-1) || r.chance(90)) break; size_t n = 60000 + r.below(20000); Str t(n, Ch('q')); t[n / 2] = Ch('w'); write(t, [&](std::basic_ostream<Ch>& o) { o.write(t.data(), std::streamsize(n)); }, "large block"); COV("large blocks"); if (r.chance(80)) { buf.clear(); ref.str(Str()); compare("clear"); } break; }
        case 19: { int k = 1 + int(r.below(30)); for (int i = 0; i < k; ++i) { Ch c = Ch('A' + i % 26); if (pos() + 1 > bound) break; out.put(c); ref.put(c); } compare("puts"); break; }
        }
    }
    static void run(Case& c) {
        size_t res = c.rng.chance(50) ? 0 : c.rng.below(60); if (res > bound) res = bound; op("reserve %zu", res); Out o(c.rng, res); if (c.rng.chance(80)) o.compare("at the beginning"); if (!res) COV("no reserve"); int steps = 5 + int(c.rng.below(40)); while (steps--) o.step(); c.interesting(); state(hcomb(o.pos(), o.wrote));
    }
};
REG_SUITE("os.vector", 1500, 50000, &Out<std::vector<char>>::run);
REG_SUITE("os.string", 1500, 50000, &Out<std::string>::run);
#define C_ , 
REG_SUITE("os.small", 1000, 30000, &Out<itlib::small_vector<char C_ 24>>::run);
REG_SUITE("os.static", 1000, 30000, &Out<itlib::static_vector<char C_ 100>>::run);
REG_SUITE("os.static.tiny", 500, 30000, &Out<itlib::static_vector<char C_ 7>>::run);
REG_SUITE("os.pod", 1000, 30000, &Out<itlib::pod_vector<char>>::run);
REG_SUITE("os.wvector", 1000, 30000, &Out<std::vector<wchar_t>>::run);
REG_SUITE("os.wstring", 1000, 30000, &Out<std::wstring>::run);
REG_SUITE("os.u16", 1000, 30000, &Out<std::u16string>::run);
REG_SUITE("os.u32", 500, 30000, &Out<std::vector<char32_t>>::run);
// beyond 2^31 and 2^32; not in the ordinary runs. Pages nobody writes to cost nothing.
struct Zeros { char* p; size_t n; explicit Zeros(size_t n) : p((char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)), n(n) { if (p == MAP_FAILED) harness_error("no address space"); } ~Zeros() { munmap(p, n); } };
static void huge_os(Case& k) {
    size_t n = (size_t(1) << 32) + 1000; Zeros z(n); char* src = z.p; src[5] = 'a'; src[n - 5] = 'z'; src[size_t(1) << 31] = 'm';
    itlib::mem_ostreambuf<itlib::pod_vector<char>> buf; std::ostream out(&buf); out.put('x'); tick(); out.write(src, std::streamsize(n)); tick(); CK(buf.poff() == n + 1 && out.good(), "a write of %zu bytes: put position %zu", n, buf.poff());
    for (size_t to : {n, size_t(1) << 31, (size_t(1) << 31) + 7, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 9, size_t(100)}) { out.seekp(std::streamoff(to)); CK(out.good() && buf.poff() == to, "a seek to %zu", to); out << "end"; CK(size_t(out.tellp()) == to + 3, "tellp"); CK(buf.peek_container().data()[to + 2] == 'd', "contents at %zu", to); out.seekp(-std::streamoff(to) - 3, std::ios::cur); CK(out.good() && buf.poff() == 0, "a seek by -%zu", to + 3); out.seekp(std::streamoff(to) - std::streamoff(std::max(n + 1, to + 3)), std::ios::end); tick(); }
    auto& c = buf.peek_container(); CK(c.data()[0] == 'x' && c.data()[6] == 'a' && c.data()[n - 4] == 'z' && c.data()[n] == 'e' && c.data()[n + 2] == 'd', "contents");
    out.seekp(0, std::ios::end); size_t end = buf.poff(); CK(end == n + 3, "the end is %zu", end); out.put('y'); auto got = buf.get_container(); CK(got.size() == n + 4 && got.data()[n + 3] == 'y' && got.data()[n + 2] == 'd' && buf.poff() == 0, "the container taken"); COV("beyond 2 GB"); COV("beyond 4 GB"); k.interesting();
}
static ::vf::Suite huge_os_reg("huge.os", 1, 1, &huge_os, false);
SUITE_NOLEAK("huge.is", 1, 1) {
    size_t n = (size_t(1) << 33) + 1000; Zeros z(n); char* src = z.p; src[5] = 'a'; src[n - 5] = 'z';
    itlib::mem_istreambuf<char> buf(src, n); std::istream in(&buf); CK(buf.size() == n, "size"); in.seekg(std::streamoff(n - 5)); CK(in.get() == 'z' && size_t(in.tellg()) == n - 4 && buf.goff() == n - 4, "a seek to %zu", n); in.seekg(-std::streamoff(n - 5), std::ios::end); CK(in.get() == 'a', "a seek from the end"); char tmp[10]; in.seekg(-3, std::ios::end); in.read(tmp, 10); CK(in.gcount() == 3 && in.eof(), "gcount"); in.clear();
    for (size_t to : {size_t(1) << 31, (size_t(1) << 31) + 7, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 9, (size_t(1) << 33) + 1}) { src[to] = char('b' + to % 20); in.seekg(7); in.seekg(std::streamoff(to) - 7, std::ios::cur); CK(in.good() && size_t(in.tellg()) == to && in.peek() == src[to], "a seek to %zu", to); in.seekg(std::streampos(std::streamoff(to) + 1)); in.unget(); CK(in.get() == src[to] && buf.goff() == to + 1, "unget at %zu", to); in.seekg(-std::streamoff(to), std::ios::cur); CK(in.good() && in.tellg() == std::streampos(1), "back by %zu", to); in.seekg(std::streamoff(to) - std::streamoff(n), std::ios::end); CK(in.get() == src[to] && size_t(buf.in_avail()) == n - to - 1, "the end less %zu", n - to); tick(); }
    in.seekg(0); in.ignore(std::streamsize(size_t(1) << 31) + 100); CK(in.good() && size_t(in.tellg()) == (size_t(1) << 31) + 100 && size_t(in.gcount()) == (size_t(1) << 31) + 100, "ignore");
    COV("input beyond 2 GB"); COV("input beyond 4 GB"); c.interesting();
}
#undef CK

// ---------------------------------------------------------------- input
#define CK(c, ...) VCHECK(c, "value.istream", __VA_ARGS__)
template <typename Ch> struct In {
    using Str = std::basic_string<Ch>; using T = std::char_traits<Ch>;
    Rng& r; Ch* mem; size_t n; itlib::mem_istreambuf<Ch> buf; std::basic_istream<Ch> in; std::basic_istringstream<Ch> ref;
    In(Rng& r_, const Str& s) : r(r_), mem(s.empty() ? nullptr : static_cast<Ch*>(malloc(s.size() * sizeof(Ch)))), n(s.size()), in(&buf), ref(s) { if (n) memcpy(mem, s.data(), n * sizeof(Ch)); }
    ~In() { free(mem); }
    void compare(const char* what) {
        CK(in.rdstate() == ref.rdstate(), "%s: stream state %d, should be %d", what, int(in.rdstate()), int(ref.rdstate())); CK(in.gcount() == ref.gcount(), "%s: gcount %lld, should be %lld", what, (long long)in.gcount(), (long long)ref.gcount());
        std::streamoff a = in.tellg(), b = ref.tellg(); CK(in.rdstate() == ref.rdstate(), "%s: stream state after tellg", what); CK(a == b, "%s: tellg is %lld, should be %lld", what, (long long)a, (long long)b);
        auto p = ref.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in); CK(buf.goff() == size_t(std::streamoff(p)), "%s: goff is %zu, should be %lld", what, buf.goff(), (long long)p); CK(buf.size() == n, "size"); CK(!n || !memcmp(mem, ref.str().data(), n * sizeof(Ch)), "%s: the buffer was modified", what); COV("states compared");
    }
    template <typename V> void scan(const char* what) { V a{}, b{}; in >> a; ref >> b; CK(a == b || a != a, "operator>> %s", what); }
    void step() {
        if (!in.good() && r.chance(60)) { in.clear(); ref.clear(); }
        int how = int(r.below(22)); op("how%d at %zu", how, buf.goff());
        switch (how) {
        case 0: case 1: { int k = 1 + int(r.below(6)); while (k--) { auto a = in.get(), b = ref.get(); CK(T::eq_int_type(a, b), "get"); } compare("get"); if (in.eof()) COV("end of file"); break; }
        case 2: { auto a = in.peek(), b = ref.peek(); CK(T::eq_int_type(a, b), "peek"); compare("peek"); break; }
        case 3: { in.unget(); ref.unget(); compare("unget"); COV("putback"); break; }
        case 4: { Ch c = r.chance(70) && buf.goff() ? mem[buf.goff() - 1] : text<Ch>(r, 1)[0]; in.putback(c); ref.putback(c); compare("putback"); COV("putback"); break; }
        case 5: case 6: case 7: { static const size_t ls[] = {0, 1, 2, 5, 10, 50, 200}; size_t k = n > 300 && r.chance(40) ? r.below(n + 10) : ls[r.below(7)]; std::vector<Ch> a(k + 1), b(k + 1); in.read(a.data(), std::streamsize(k)); ref.read(b.data(), std::streamsize(k)); CK(a == b, "read of %zu", k); compare("read"); if (!k) COV("empty reads"); if (size_t(in.gcount()) < k) COV("reads over the end"); break; }
        case 8: case 9: if constexpr (formats<Ch>()) { Str a, b; std::getline(in, a); std::getline(ref, b); CK(a == b, "getline"); compare("getline"); COV("lines"); } break;
        case 10: if constexpr (formats<Ch>()) { Ch a[12] = {}, b[12] = {}; Ch d = text<Ch>(r, 1)[0]; if (r.chance(50)) { in.getline(a, 12, d); ref.getline(b, 12, d); } else { in.get(a, 12, d); ref.get(b, 12, d); } CK(!memcmp(a, b, sizeof a), "getline into an array"); compare("array getline"); } break;
        case 11: case 12: if constexpr (formats<Ch>()) { switch (r.below(5)) { case 0: scan<int>("int"); break; case 1: scan<Str>("word"); break; case 2: scan<double>("double"); break; case 3: scan<Ch>("char"); break; case 4: in >> std::ws; ref >> std::ws; break; } compare("formatted"); COV("formatted input"); } break;
        case 13: if constexpr (formats<Ch>()) { size_t k = n > 300 && r.chance(50) ? r.below(n) : r.below(10); in.ignore(std::streamsize(k), T::to_int_type(Ch('a'))); ref.ignore(std::streamsize(k), T::to_int_type(Ch('a'))); compare("ignore"); } break;
        case 14: case 15: case 16: { size_t to = r.below(n + 1); auto d = dirs[r.below(3)]; std::streamoff off = d == std::ios::beg ? long(to) : d == std::ios::cur ? long(to) - long(buf.goff()) : long(to) - long(n); op("seek %ld %s", long(off), dirname(d)); in.seekg(off, d); ref.seekg(off, d); compare(dirname(d)); if (r.chance(30)) { in.seekg(std::streampos(std::streamoff(to))); ref.seekg(std::streampos(std::streamoff(to))); compare("absolute seek"); } COV("input seeks"); break; }
        case 17: { static const long x[] = {1, 2, 10, 100, 1000, 1l << 31, 1l << 32, 1l << 40, 1l << 62}; long k = x[r.below(9)]; bool low = r.chance(50); auto d = dirs[r.below(3)]; long g = long(buf.goff()), off = d == std::ios::beg ? (low ? -k : long(n) + k) : d == std::ios::cur ? (low ? -g - k : long(n) - g + k) : (low ? -long(n) - k : k); op("seek outside %ld %s", off, dirname(d)); bool ok = !in.fail(); in.seekg(off, d); ref.seekg(off, d); CK(!ok || in.fail(), "a seek to %ld from %s of %zu characters succeeds", off, dirname(d), n); compare("failed seek"); COV("input seeks outside"); break; }
        case 18: { bool fail = in.fail(); std::streamoff a = in.tellg(), b = ref.tellg(); CK(a == b && (a == -1) == fail, "tellg"); if (!fail) { auto k = in.tellg(); in.get(); ref.get(); in.clear(); ref.clear(); in.seekg(k); ref.seekg(std::streampos(b)); compare("back to a remembered position"); } break; }
        case 19: { // the buffer's own interface
            auto av = buf.in_avail(); CK(size_t(av > 0 ? av : 0) == n - buf.goff(), "in_avail"); auto a = buf.sgetc(), b = ref.rdbuf()->sgetc(); CK(T::eq_int_type(a, b), "sgetc"); a = buf.snextc(); b = ref.rdbuf()->snextc(); CK(T::eq_int_type(a, b), "snextc"); Ch x[7] = {}, y[7] = {}; CK(buf.sgetn(x, 7) == ref.rdbuf()->sgetn(y, 7) && !memcmp(x, y, sizeof x), "sgetn"); a = buf.sbumpc(); b = ref.rdbuf()->sbumpc(); CK(T::eq_int_type(a, b), "sbumpc"); compare("buffer"); COV("direct input"); break; }
        case 20: if constexpr (formats<Ch>()) { std::vector<Ch> a(9), b(9); if (buf.goff() < n && in.good()) { CK(in.readsome(a.data(), 8) == ref.readsome(b.data(), 8) && a == b, "readsome"); compare("readsome"); } } break;
        case 21: if (r.chance(10)) { std::basic_ostringstream<Ch> a, b; if (in.good() && buf.goff() < n) { a << in.rdbuf(); b << ref.rdbuf(); CK(a.str() == b.str(), "copy of the rest"); compare("the rest"); } } break;
        }
    }
    static void run(Case& c) {
        size_t n = c.rng.below(6) ? c.rng.below(60) : c.rng.below(3); if (c.rng.below(100) == 0) { n = c.rng.chance(70) ? c.rng.below(3000) : 65000 + c.rng.below(6000); COV("large inputs"); } Str s = text<Ch>(c.rng, n); op("input of %zu", n); In i(c.rng, s); if (c.rng.chance(20) && n) { Ch other[] = {Ch('a'), Ch('b')}; i.buf.reset(other, 2); CK(T::eq_int_type(i.buf.sbumpc(), T::to_int_type(Ch('a'))) && i.buf.goff() == 1, "another buffer"); COV("reset"); }
        if (n || c.rng.chance(50)) i.buf.reset(i.mem, n); if (!n) COV("empty input"); i.compare("at the beginning"); int steps = 5 + int(c.rng.below(40)); while (steps--) i.step(); { itlib::mem_istreambuf<Ch> b(i.mem, n); CK(b.goff() == 0 && b.size() == n && size_t(b.in_avail() > 0 ? b.in_avail() : 0) == n, "constructed over a buffer"); } c.interesting(); state(hstr(prog()->log));
    }
};
REG_SUITE("is.char", 3000, 100000, &In<char>::run);
REG_SUITE("is.wchar", 2000, 100000, &In<wchar_t>::run);
REG_SUITE("is.u16", 1000, 100000, &In<char16_t>::run);
