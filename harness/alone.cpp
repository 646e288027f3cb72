// Each header on its own and all of them in any order, for every standard they support, with two compilers (C36)
#include "common.hpp"
#include <algorithm>
#include <cstdlib>
using namespace vf;
struct Header { const char* name; int from; const char* use; };
// a use needs nothing but the header itself
static const Header headers[] = {
    {"any", 11, "itlib::any<> a(5); itlib::any<> b(a); b.emplace<long>(3L); a = std::move(b); return a.has_value() && itlib::any_cast<long>(a) == 3 && !itlib::any_cast<int>(&a);"},
    {"atomic", 11, "itlib::atomic_relaxed_counter<int> a(3); ++a; a += 2; return a == 6;"},
    {"atomic_shared_ptr_storage", 11, "itlib::atomic_shared_ptr_storage<int> s(std::make_shared<int>(5)); auto p = s.load(); s.store(nullptr); auto q = s.exchange(p); return !q && s.compare_exchange(p, nullptr);"},
    {"data_mutex", 11, "struct M { void lock() {} void unlock() {} bool try_lock() { return true; } void lock_shared() {} void unlock_shared() {} bool try_lock_shared() { return true; } }; itlib::data_mutex<int, M> d(4); *d.unique_lock() = 5; return *d.shared_lock() == 5 && *d.try_unique_lock() == 5;"},
    {"dynamic_bitset", 11, "itlib::dynamic_bitset<> b(70); b.set(3); b.push_back(true); itlib::dynamic_bitset<> c(b); c.append(b); c.copy(c.begin(), c.begin() + 5, static_cast<const itlib::dynamic_bitset<>&>(b).begin() + 2); return b.any() && !b.all() && c.size() == 142;"},
    {"expected", 11, "itlib::expected<int, long> e(5), f = itlib::unexpected(3L); e = std::move(f); return !e && e.error() == 3 && e.value_or(4) == 4;"},
    {"flat_map", 11, "itlib::flat_map<int, int> m = {{1, 2}, {0, 3}}; m[4] = 5; m.erase(1); auto n = m; n.swap(m); return n == m && m.at(4) == 5 && m.find(7) == m.end();"},
    {"flat_set", 11, "itlib::flat_set<int> m = {1, 0}; m.insert(4); m.erase(1); auto n = m; n.swap(m); return n == m && m.count(4) == 1 && m.find(7) == m.end();"},
    {"generator", 20, "auto g = []() -> itlib::generator<int> { co_yield 3; co_yield 4; }(); int s = 0; for (auto& i : g) s += i; return s == 7;"},
    {"make_ptr", 11, "auto p = itlib::make_shared(5); auto q = itlib::make_unique(6); auto a = itlib::make_aliased(p, q.get()); return *a == 6;"},
    {"mem_streambuf", 11, "itlib::mem_istreambuf<char> b(\"abc\", 3); itlib::mem_ostreambuf<std::vector<char>> o; o.sputn(\"xy\", 2); return b.sgetc() == 'a' && o.get_container().size() == 2;"},
    {"memory_view", 11, "int a[] = {1, 2, 3}; auto v = itlib::make_memory_view(a, 3); int s = 0; for (auto i : v) s += i; return s == 6;"},
    {"mutex", 11, "itlib::strong_try_rec_mutex m; bool l = m.try_lock() && m.try_lock(); m.unlock(); m.unlock(); return l;"},
    {"pmr_allocator", 17, "itlib::pmr_allocator<int> a; int* p = a.allocate(3); a.deallocate(p, 3); auto q = a.new_object<long>(4); a.delete_object(q); return a == itlib::pmr_allocator<int>();"},
    {"pod_vector", 11, "itlib::pod_vector<int> v = {1, 2, 3}; v.insert(v.begin(), 5); v.push_back(7); v.erase(v.begin() + 1); itlib::pod_vector<char> c; c.recast_take_from(std::move(v)); return c.size() == 4 * sizeof(int);"},
    {"poly_span", 11, "int a[] = {1, 2, 3}; itlib::poly_span<long> p(a, 3, [](int& i) { return long(i); }); long s = 0; for (auto i : p) s += i; return s == 6;"},
    {"qalgorithm", 11, "std::vector<int> c = {1, 2}; itlib::erase_all(c, 5); return itlib::qfind(c, 2) != c.end() && itlib::pfind(c, 1) == &c[0] && itlib::erase_first(c, 2) && itlib::qany_of(c, [](int i) { return i == 1; });"},
    {"rstream", 11, "struct Buf : std::streambuf {} b; std::istream in(&b); itlib::rstream r(in); char c; r.read(&c, 1); return r.fail();"},
    {"sentry", 11, "int n = 0; { auto f = [&] { ++n; }; auto s = itlib::make_sentry(f); } return n == 1;"},
    {"shared_from", 11, "struct S : itlib::enable_shared_from { std::shared_ptr<S> me() { return shared_from(this); } }; auto p = std::make_shared<S>(); return p->me() == p;"},
    {"small_vector", 11, "itlib::small_vector<int, 2> v = {1, 2, 3}; v.insert(v.begin(), 5); v.push_back(7); v.erase(v.begin() + 1); auto w = v; std::swap(w, v); w.resize(9); return v.size() == 4 && w != v;"},
    {"span", 11, "int a[] = {1, 2, 3}; itlib::span<int> s = itlib::make_span(a); itlib::span<const int> c(s); int n = 0; for (auto i : c.subspan(1)) n += i; return n == 5;"},
    {"static_vector", 11, "itlib::static_vector<int, 9> v = {1, 2, 3}; v.insert(v.begin(), 5); v.push_back(7); v.erase(v.begin() + 1); auto w = v; w.swap(v); w.resize(9); return v.size() == 4 && w != v;"},
    {"stride_span", 11, "int a[] = {1, 2, 3, 4}; auto s = itlib::make_stride_span_from_array(a, 4, 0, 2); int n = 0; for (auto i : s) n += i; return n == 4;"},
    {"strutil", 17, "const char* t = \"abc\"; auto v = itlib::make_string_view(t, t + 3); return itlib::starts_with(v, \"a\") && itlib::ends_with(v, \"bc\");"},
    {"tep_vector", 11, "itlib::tep_vector v; itlib::tep_vector w = v; (void)w; return true;"},
    {"throw_ex", 11, "struct E { std::string s; E(std::string m) : s(m) {} }; try { itlib::throw_ex<E>() << 5 << \"x\"; } catch (E& e) { return e.s == \"5x\"; } return false;"},
    {"time_t", 11, "auto t = itlib::time_t::from_seconds(100) + std::chrono::minutes(1); return t.seconds_since_epoch() == 160 && itlib::strftime(\"%Y\", t.gmtime()) == \"1970\";"},
    {"transparent_umap", 20, "struct H { using is_transparent = int; auto operator()(long i) const { return decltype(sizeof(0))(i); } }; struct Q { using is_transparent = int; bool operator()(long a, long b) const { return a == b; } }; itlib::transparent_umap<int, int, H, Q> m; m[5L] = 3; m.try_emplace(6L, 2); return m.at(5L) == 3 && m.find(7L) == m.end();"},
    {"type_traits", 11, "return itlib::is_instantiation_of<itlib::type_identity, itlib::type_identity<int>>::value;"},
    {"ufunction", 11, "int n = 0; itlib::ufunction<int(int)> f = [&n](int i) { n += i; return n; }; auto g = std::move(f); return g(3) == 3 && n == 3;"},
    {"utility", 11, "int i = 3; int j = itlib::force_move(i); struct S { int a, b; } s; s.b = j; return itlib::owner_from_member(s.b, &S::b) == &s;"},
};
static const int count = int(sizeof headers / sizeof *headers), stds[] = {11, 14, 17, 20, 23};
static std::string include() { const char* r = getenv("ITLIB_REPO"); return std::string(r ? r : "/repo") + "/include"; }
static void build(Case& c, const std::vector<int>& which, int std, bool clang) {
    std::string src, cmd = clang ? "clang++" : "g++"; char b[40]; snprintf(b, sizeof b, " -std=c++%s", std == 23 ? "2b" : std::to_string(std).c_str()); std::string names;
    for (int i : which) { src += std::string("#include <itlib/") + headers[i].name + ".hpp>\n"; names += std::string(" ") + headers[i].name; }
    src += "#include <vector>\n"; // the user's containers
    for (int i : which) src += std::string("bool use_") + headers[i].name + "() { " + headers[i].use + " }\n";
    op("%s%s:%.3000s", cmd.c_str(), b, names.c_str()); tick();
    std::string esc; for (char ch : src) { if (ch == '\'') esc += "'\\''"; else esc += ch; } // for the shell
    cmd = "printf '%s' '" + esc + "' | " + cmd + b + " -fsyntax-only -w -I'" + include() + "' -x c++ - 2>&1"; FILE* f = popen(cmd.c_str(), "r"); if (!f) harness_error("no compiler"); std::string out; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) { out.append(buf, n); tick(); } int rc = pclose(f); COV("translation units compiled");
    size_t at = out.find("error:"); std::string what = out.substr(at == std::string::npos ? 0 : at, 200); std::replace(what.begin(), what.end(), '\n', ' ');
    if (rc != 0 && at == std::string::npos) harness_error(("the compiler failed: " + what).c_str());
    VCHECK(rc == 0, "value.alone", "%s, c++%d: a unit which includes%s doesn't compile: %s", clang ? "clang" : "gcc", std, names.c_str(), what.c_str());
    c.interesting(); state(hstr((names + b + (clang ? "c" : "g")).c_str())); c.h = hstr((names + b + (clang ? "c" : "g")).c_str());
}
// every (header, standard, compiler)
static void alone(Case& c) { int i = int(c.idx % uint64_t(count)), s = stds[c.idx / uint64_t(count) % 5]; bool clang = c.idx / uint64_t(count * 5) % 2; if (headers[i].from > s) { c.h = c.idx; return; } build(c, {i}, s, clang); COV("headers alone"); }
REG_SUITE("alone", 32 * 10, 32 * 10, &alone);
static void order(Case& c) {
    Rng& r = c.rng; int s = stds[r.below(4)]; std::vector<int> v; int pct = r.chance(50) ? 100 : 10 + int(r.below(60)); for (int i = 0; i < count; ++i) if (headers[i].from <= s && r.chance(pct)) v.push_back(i);
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); if (v.empty()) return; build(c, v, s, r.chance(50)); COV("orders of headers");
}
REG_SUITE("alone.order", 40, 4000, &order);
