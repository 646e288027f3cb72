// rstream, redirect_rstream (C19)
#define ITLIB_RSTREAM_OVERLOAD_RSHIFT 1
#include "common.hpp"
#include <sstream>
#include <fstream>
#include <itlib/rstream.hpp>
#include <itlib/mem_streambuf.hpp>
using namespace vf;
#define CK(c, ...) VCHECK(c, "value.rstream", __VA_ARGS__)
template <typename Stream> struct RS {
    using Ch = typename Stream::char_type; using Str = std::basic_string<Ch>;
    Rng& r; const Str& text; Stream& in; Stream& ref; bool thr; int depth = 0, deep = 4, left = 150; // ref: an equal stream which is read and sought by hand
    template <typename R> void agree(R& rin, const char* what) { CK(rin.good() == ref.good() && rin.eof() == ref.eof() && rin.fail() == ref.fail() && bool(rin) == !ref.fail(), "%s: good %d eof %d fail %d, should be %d %d %d", what, rin.good(), rin.eof(), rin.fail(), ref.good(), ref.eof(), ref.fail()); CK(in.rdstate() == ref.rdstate(), "%s: state of the wrapped stream", what); COV("states compared"); }
    long where() { auto st = ref.rdstate(); std::streamoff p = ref.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in); (void)st; return long(p); }
    long at() { return long(std::streamoff(in.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in))); }
    template <typename R> void reads(R& rin, int n) {
        while (n--) {
            tick();
            switch (r.below(thr ? 4 : 6)) {
            case 0: case 1: case 2: case 3: { size_t k = r.below(6) ? r.below(8) : r.below(text.size() + 20); op("read %zu", k); std::vector<Ch> a(k + 1, Ch('-')), b(k + 1, Ch('-')); bool t1 = false, t2 = false; try { CK((const void*)&rin.read(a.data(), std::streamsize(k)) == (const void*)&rin, "read returns another stream"); } catch (std::ios_base::failure&) { t1 = true; } try { ref.read(b.data(), std::streamsize(k)); } catch (std::ios_base::failure&) { t2 = true; } CK(t1 == t2, "read: exception"); CK(a == b, "read of %zu at %ld", k, where()); agree(rin, "read"); CK(at() == where(), "read: position %ld, should be %ld", at(), where()); if (ref.fail()) COV("over-reads"); COVN("characters read", k); if (t1) { COV("reads which threw"); throw std::runtime_error("read"); } break; }
            case 4: { op("number"); int a = 0, b = 0; rin >> a; ref >> b; CK(a == b, ">> int"); agree(rin, ">>"); COV("formatted reads"); break; }
            case 5: { op("word"); Str a, b; rin >> a; ref >> b; CK(a == b, ">> string"); agree(rin, ">>"); COV("formatted reads"); break; }
            }
            if (depth < deep && left > 0 && r.chance(deep > 4 ? 60 : 25)) { --left; redirect(); }
        }
    }
    void redirect() {
        long save = where(); bool failed = ref.fail(); std::streamoff pos = r.below(8) ? long(r.below(text.size() + 1)) : r.below(2) ? long(text.size() + 1 + r.below(20)) : -1 - long(r.below(3)); op("redirect to %ld from %ld", long(pos), save); ++depth;
        if (failed) COV("redirected a failed stream"); else if (ref.eof()) COV("redirected at the end"); if (depth > 1) COV("nested redirections"); bool bad = pos < 0 || size_t(pos) > text.size(); if (bad) { if (thr) { --depth; return; } COV("redirected outside"); }
        {
            itlib::basic_redirect_rstream<Stream> rin(in, pos); if (!failed) ref.clear(); ref.seekg(pos); agree(rin, "redirected"); itlib::basic_rstream<Stream>& base = rin;
            try { if (r.chance(50)) reads(base, int(r.below(5))); else reads(rin, int(r.below(5))); if (thr && r.chance(20)) { op("throw"); throw std::runtime_error("x"); } } catch (std::exception&) { COV("left by an exception"); }
        }
        --depth; CK(at() == save, "the stream is at %ld after a redirection, was at %ld", at(), save); bool f = ref.fail(); ref.exceptions(std::ios::goodbit); ref.clear(); ref.seekg(save); if (!f) CK(in.good(), "the stream is in state %d after a redirection without failures", int(in.rdstate())); COV("redirections ended");
        auto ex = in.exceptions(); in.exceptions(std::ios::goodbit); if (f && !failed && r.chance(30)) ref.setstate(std::ios::failbit); in.clear(ref.rdstate()); if (!in.fail()) { in.exceptions(ex); ref.exceptions(ex); CK(long(std::streamoff(in.tellg())) == save && long(std::streamoff(ref.tellg())) == save, "tellg after a redirection"); } else { in.exceptions(std::ios::goodbit); thr = false; }
    }
    void run() {
        int n = 2 + int(r.below(8)); if (r.below(60) == 0) { deep = 40; COV("deep redirections"); } while (n--) {
            if (!in.good()) { in.clear(); ref.clear(); }
            switch (r.below(5)) { case 0: { size_t to = r.below(text.size() + 1); in.seekg(std::streamoff(to)); ref.seekg(std::streamoff(to)); break; } case 1: if (!thr) { Str a, b; in >> a; ref >> b; CK(a == b, "word between redirections"); } break; case 2: case 3: redirect(); break; case 4: { itlib::basic_rstream<Stream> rin(in); try { reads(rin, int(r.below(4))); } catch (std::exception&) {} agree(rin, "plain"); COV("plain rstreams"); break; } }
        }
    }
};
template <typename Ch> std::basic_string<Ch> text(Rng& r) { std::basic_string<Ch> s; size_t n = r.below(80); if (r.below(60) == 0) { n = r.chance(50) ? r.below(5000) : 8000 + r.below(r.chance(30) ? 70000 : 2000); COV("large texts"); } while (n--) { int k = int(r.below(12)); s += k < 2 ? Ch(' ') : k < 6 ? Ch('0' + r.below(10)) : k == 11 ? Ch('\n') : Ch('a' + r.below(26)); } return s; }
template <typename S, typename T> void drive(Case& c, S& a, S& b, const T& t) { bool thr = c.rng.chance(25); if (thr) { a.exceptions(std::ios::failbit | std::ios::badbit); b.exceptions(std::ios::failbit | std::ios::badbit); COV("streams with exceptions"); } RS<S> x{c.rng, t, a, b, thr}; op("text of %zu%s", t.size(), thr ? " throwing" : ""); try { x.run(); } catch (std::exception&) { CK(thr, "an exception"); } c.interesting(); state(hcomb(t.size(), hstr(prog()->log))); }
SUITE("rs.string", 4000, 150000) { auto t = text<char>(c.rng); std::istringstream a(t), b(t); drive<std::istream>(c, a, b, t); }
SUITE("rs.typed", 2000, 150000) { auto t = text<char>(c.rng); std::istringstream a(t), b(t); drive<std::istringstream>(c, a, b, t); }
SUITE("rs.wide", 2000, 150000) { auto t = text<wchar_t>(c.rng); std::wistringstream a(t), b(t); drive<std::wistream>(c, a, b, t); }
SUITE("rs.mem", 2000, 150000) { auto t = text<char>(c.rng); itlib::mem_istreambuf<char> x(t.data(), t.size()), y(t.data(), t.size()); std::istream a(&x), b(&y); drive<std::istream>(c, a, b, t); }
SUITE_NOLEAK("rs.file", 600, 20000) {
    char nm[64]; snprintf(nm, sizeof nm, "/tmp/vf-rs-%d-%llu", int(getpid()), (unsigned long long)c.idx); auto t = text<char>(c.rng); struct Rm { const char* n; ~Rm() { unlink(n); } } rm{nm}; { std::ofstream o(nm, std::ios::binary); o << t; if (!o) harness_error("can't write a file"); }
    std::ifstream a(nm, std::ios::binary), b(nm, std::ios::binary); if (!a || !b) harness_error("can't read a file"); if (c.rng.chance(50)) drive<std::istream>(c, a, b, t); else drive<std::ifstream>(c, a, b, t); COV("files");
}
// a device some of whose blocks can't be read
template <typename Ch> struct Broken : std::basic_streambuf<Ch> {
    using B = std::basic_streambuf<Ch>; using Tr = typename B::traits_type; std::basic_string<Ch> text; uint64_t bad; static constexpr size_t blk = 4; size_t next = 0; // the position after the get area
    Broken(const std::basic_string<Ch>& t, uint64_t bad) : text(t), bad(bad) {}
    typename B::int_type underflow() override {
        if (this->gptr() < this->egptr()) return Tr::to_int_type(*this->gptr());
        size_t p = next; this->setg(nullptr, nullptr, nullptr); if (p >= text.size()) return Tr::eof();
        if (bad >> (p / blk % 64) & 1) { COV("blocks which can't be read"); throw std::ios_base::failure("block"); }
        size_t e = std::min(text.size(), (p / blk + 1) * blk); Ch* d = &text[0]; this->setg(d + p, d + p, d + e); next = e; return Tr::to_int_type(*this->gptr());
    }
    typename B::pos_type seekoff(typename B::off_type o, std::ios_base::seekdir w, std::ios_base::openmode m) override {
        auto cur = std::streamoff(next) - (this->egptr() - this->gptr()); if (w == std::ios_base::cur && o == 0) return typename B::pos_type(cur);
        return seekpos(typename B::pos_type((w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? cur : std::streamoff(text.size())) + o), m);
    }
    typename B::pos_type seekpos(typename B::pos_type p, std::ios_base::openmode) override { auto o = std::streamoff(p); if (o < 0 || size_t(o) > text.size()) return typename B::pos_type(typename B::off_type(-1)); this->setg(nullptr, nullptr, nullptr); next = size_t(o); return p; }
};
static uint64_t bad_blocks(Rng& r) { uint64_t m = r.next() & r.next(); return r.chance(50) ? m & r.next() : r.chance(50) ? uint64_t(1) << r.below(20) : m; }
SUITE("rs.broken", 3000, 150000) { auto t = text<char>(c.rng); auto bad = bad_blocks(c.rng); Broken<char> x(t, bad), y(t, bad); std::istream a(&x), b(&y); drive<std::istream>(c, a, b, t); }
SUITE("rs.broken wide", 1000, 50000) { auto t = text<wchar_t>(c.rng); auto bad = bad_blocks(c.rng); Broken<wchar_t> x(t, bad), y(t, bad); std::wistream a(&x), b(&y); drive<std::wistream>(c, a, b, t); }
// a device with more characters than any memory: positions beyond 2^31, 2^32, ...
template <typename Ch> static Ch far_char(std::streamoff p) { uint64_t h = mix(uint64_t(p)); return h % 9 == 0 ? Ch(' ') : h % 9 < 4 ? Ch('0' + h / 16 % 10) : Ch('a' + h / 16 % 26); }
template <typename Ch> struct Far : std::basic_streambuf<Ch> {
    using B = std::basic_streambuf<Ch>; using Tr = typename B::traits_type; std::streamoff size, next = 0; Ch win[16];
    explicit Far(std::streamoff size) : size(size) {}
    typename B::int_type underflow() override { if (this->gptr() < this->egptr()) return Tr::to_int_type(*this->gptr()); this->setg(nullptr, nullptr, nullptr); if (next >= size) return Tr::eof(); std::streamoff n = std::min<std::streamoff>(16 - next % 16, size - next); for (std::streamoff i = 0; i < n; ++i) win[i] = far_char<Ch>(next + i); this->setg(win, win, win + n); next += n; return Tr::to_int_type(*win); }
    typename B::pos_type seekoff(typename B::off_type o, std::ios_base::seekdir w, std::ios_base::openmode m) override { auto cur = next - (this->egptr() - this->gptr()); if (w == std::ios_base::cur && o == 0) return typename B::pos_type(cur); return seekpos(typename B::pos_type((w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? cur : size) + o), m); }
    typename B::pos_type seekpos(typename B::pos_type p, std::ios_base::openmode) override { auto o = std::streamoff(p); if (o < 0 || o > size) return typename B::pos_type(typename B::off_type(-1)); this->setg(nullptr, nullptr, nullptr); next = o; return p; }
};
template <typename Ch, typename S> static void far_run(Case& c, S& in, std::streamoff size) {
    Rng& r = c.rng; auto some = [&]() -> std::streamoff { int bits = 10 + int(r.below(53)); std::streamoff p = (std::streamoff(1) << bits) + std::streamoff(r.below(40)) - 20; return p < 0 || p > size ? std::streamoff(r.below(uint64_t(size) + 1)) : p; }; // often around a power of two
    auto reads = [&](auto& rin, std::streamoff& at) { int n = int(r.below(4)); while (n--) { size_t k = r.below(40); std::vector<Ch> b(k + 1); bool over = at + std::streamoff(k) > size; rin.read(b.data(), std::streamsize(k)); size_t got = over ? size_t(size - at) : k; for (size_t i = 0; i < got; ++i) CK(b[i] == far_char<Ch>(at + std::streamoff(i)), "character %lld of a large device", (long long)at + (long long)i); at += std::streamoff(got); CK(rin.fail() == over && rin.eof() == over, "state after a read"); COV("far characters read"); if (over) { in.clear(); in.seekg(at); } } };
    int steps = 3 + int(r.below(8)); while (steps--) {
        tick(); std::streamoff home = some(); in.clear(); in.seekg(home); if (home < size && r.chance(50)) { CK(in.get() == std::char_traits<Ch>::to_int_type(far_char<Ch>(home)), "get"); ++home; } op("at %lld", (long long)home);
        { std::streamoff a = some(), b = some(); op("to %lld and %lld", (long long)a, (long long)b); itlib::basic_redirect_rstream<S> x(in, a); std::streamoff ax = a; reads(x, ax); { itlib::basic_redirect_rstream<S> y(in, b); std::streamoff by = b; reads(y, by); if (r.chance(20) && !in.fail()) { CK(std::streamoff(in.tellg()) == by, "position within a redirection"); } } CK(in.good() && std::streamoff(in.tellg()) == ax, "the stream is at %lld after an inner redirection, was at %lld", (long long)in.tellg(), (long long)ax); reads(x, ax); }
        CK(in.good() && std::streamoff(in.tellg()) == home, "the stream is at %lld after a redirection, was at %lld", (long long)in.tellg(), (long long)home); itlib::basic_rstream<S> p(in); reads(p, home); COV("far redirections"); if (home >> 32) COV("redirected from beyond 4 GB");
    }
    c.interesting(); state(hstr(prog()->log));
}
static std::streamoff far_size(Rng& r) { return (std::streamoff(1) << (31 + r.below(31))) + std::streamoff(r.below(1000)); }
SUITE("rs.far", 1000, 50000) { auto n = far_size(c.rng); Far<char> b(n); std::istream in(&b); far_run<char>(c, in, n); }
SUITE("rs.far wide", 500, 50000) { auto n = far_size(c.rng); Far<wchar_t> b(n); std::wistream in(&b); far_run<wchar_t>(c, in, n); }
SUITE_NOLEAK("rs.sparse", 60, 2000) { // a file of more than 4 GB which takes no space
    Rng& r = c.rng; char nm[64]; snprintf(nm, sizeof nm, "/tmp/vf-rf-%d-%llu", int(getpid()), (unsigned long long)c.idx); struct Rm { const char* n; ~Rm() { unlink(n); } } rm{nm}; std::streamoff n = (std::streamoff(1) << 32) + 5000; static const std::streamoff marks[] = {9, 1ll << 31, (1ll << 31) + 77, (1ll << 32) - 30, 1ll << 32, (1ll << 32) + 4000};
    { std::ofstream o(nm, std::ios::binary); for (auto m : marks) { o.seekp(m); o << "mark" << m << ' '; } o.seekp(n); o << '!'; if (!o) { COV("no sparse files"); c.interesting(); return; } }
    std::ifstream in(nm, std::ios::binary); for (int k = 0; k < 6; ++k) { std::streamoff home = marks[r.below(6)] + std::streamoff(r.below(9)); in.seekg(home); if (r.chance(50)) in.peek(); for (int j = 0; j < 2; ++j) { auto m = marks[r.below(6)]; op("from %lld to %lld", (long long)home, (long long)m); itlib::basic_redirect_rstream<std::ifstream> x(in, m); char b[5] = {}; x.read(b, 4); CK(std::string(b) == "mark", "at %lld of a large file", (long long)m); if constexpr (true) { long long v = 0; in >> v; CK(v == (long long)m, "mark %lld", v); } } CK(in.good() && std::streamoff(in.tellg()) == home, "the file is at %lld after redirections, was at %lld", (long long)in.tellg(), (long long)home); COV("far redirections of files"); } c.interesting(); state(hstr(prog()->log));
}
