// The same operations compiled once more in each translation unit and each shared library (C36)
// Everything but the objects' types is local to the translation unit.
#pragma once
#define ITLIB_RSTREAM_OVERLOAD_RSHIFT 1
#ifdef CROSS_REVERSE // the order of the headers mustn't matter, nor what's included before them
#include <itlib/utility.hpp>
#include <itlib/ufunction.hpp>
#include <itlib/type_traits.hpp>
#include <itlib/transparent_umap.hpp>
#include <itlib/time_t.hpp>
#include <itlib/throw_ex.hpp>
#include <itlib/tep_vector.hpp>
#include <itlib/strutil.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/shared_from.hpp>
#include <itlib/sentry.hpp>
#include <itlib/rstream.hpp>
#include <itlib/qalgorithm.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/pmr_allocator.hpp>
#include <itlib/mutex.hpp>
#include <itlib/memory_view.hpp>
#include <itlib/mem_streambuf.hpp>
#include <itlib/make_ptr.hpp>
#include <itlib/generator.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/expected.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/data_mutex.hpp>
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <itlib/atomic.hpp>
#include <itlib/any.hpp>
#else
#include <itlib/any.hpp>
#include <itlib/atomic.hpp>
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <itlib/data_mutex.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/expected.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/generator.hpp>
#include <itlib/make_ptr.hpp>
#include <itlib/mem_streambuf.hpp>
#include <itlib/memory_view.hpp>
#include <itlib/mutex.hpp>
#include <itlib/pmr_allocator.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/qalgorithm.hpp>
#include <itlib/rstream.hpp>
#include <itlib/sentry.hpp>
#include <itlib/shared_from.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/strutil.hpp>
#include <itlib/tep_vector.hpp>
#include <itlib/throw_ex.hpp>
#include <itlib/time_t.hpp>
#include <itlib/transparent_umap.hpp>
#include <itlib/type_traits.hpp>
#include <itlib/ufunction.hpp>
#include <itlib/utility.hpp>
#endif
#include <functional>
#include <istream>
#include <map>
#include <memory>
#include <mutex>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <vector>

// types which all of them know
struct CrossPt { int a; std::string s; bool operator==(const CrossPt& o) const { return a == o.a && s == o.s; } };
struct CrossMO { std::unique_ptr<int> p; };
struct CrossErr : std::runtime_error { using std::runtime_error::runtime_error; };
struct CrossShared : itlib::enable_shared_from { int v; explicit CrossShared(int i) : v(i) {} std::shared_ptr<int> get() { return shared_from(&v); } std::shared_ptr<void> self() { return shared_from_this(); } };
struct CrossBase { int b; virtual ~CrossBase() = default; virtual int f() const { return b; } };
struct CrossDer : CrossBase { int d = 0; int f() const override { return b * 10 + d; } };
struct CrossHash { using is_transparent = void; size_t operator()(std::string_view s) const { return std::hash<std::string_view>()(s); } };

// op 0 makes an object, 1 destroys it; the others do something to it (and its twin kind o) and tell what they saw
using CrossFn = std::string (*)(int op, void*& self, void* o, int a);
struct CrossComp { const char* name; CrossFn f; int ops; };
struct CrossUnit { const CrossComp* comps; int n; };

namespace { // each translation unit its own
using std::string;
inline string S(long long i) { return std::to_string(i); }
inline string str(int a) { return string(size_t(a % 7) * 5, char('a' + a % 26)) + S(a); } // short and long ones
template <typename C> string list(const C& c) { string r; for (auto& e : c) { if constexpr (std::is_arithmetic<std::decay_t<decltype(e)>>::value) r += S(e); else r += e; r += ','; } return r; }
template <typename T> T& as(void* p) { return *static_cast<T*>(p); }
template <typename T, typename F> string obj(int op, void*& self, void* o, int a, F f) {
    if (op == 0) { self = new T(); return "made"; }
    if (op == 1) { delete static_cast<T*>(self); self = nullptr; return "destroyed"; }
    return f(op, as<T>(self), as<T>(o), a);
}
string c_any(int op, void*& self, void* o, int a) { return obj<itlib::any<>>(op, self, o, a, [](int op, itlib::any<>& x, itlib::any<>& y, int a) -> string {
    switch (op) {
    case 2: switch (a % 8) { case 0: x = a; break; case 1: x = str(a); break; case 2: x = CrossPt{a, str(a)}; break; case 3: x.emplace<CrossMO>(CrossMO{std::make_unique<int>(a)}); break; case 4: x = std::vector<int>(size_t(a % 9), a); break; case 5: x.emplace<std::shared_ptr<int>>(std::make_shared<int>(a)); break; case 6: x = double(a) / 4; break; default: x = itlib::small_vector<string, 2>{str(a), str(a + 1), str(a + 2)}; } return "set";
    case 3: { string r; if (auto p = itlib::any_cast<int>(&x)) r += "int " + S(*p); if (auto p = itlib::any_cast<string>(&x)) r += "string " + *p; if (auto p = itlib::any_cast<CrossPt>(&x)) r += "pt " + S(p->a) + p->s; if (auto p = itlib::any_cast<CrossMO>(&x)) r += "mo " + S(*p->p); if (auto p = itlib::any_cast<std::vector<int>>(&x)) r += "vec " + list(*p); if (auto p = itlib::any_cast<std::shared_ptr<int>>(&x)) r += "ptr " + S(**p); if (auto p = itlib::any_cast<double>(&x)) r += "double " + S((long long)(*p * 4)); if (auto p = itlib::any_cast<itlib::small_vector<string, 2>>(&x)) r += "small " + list(*p); return r; }
    case 4: return itlib::any_cast<CrossPt>(x).s; // may throw bad_cast
    case 5: return S(itlib::any_cast<int&>(x) += 3);
    case 6: x = static_cast<const itlib::any<>&>(y); return "copied"; // may throw bad_cast
    case 7: { itlib::any<> t(std::move(x)); x = std::move(y); y = std::move(t); return "swapped"; }
    case 8: return string(x.type().name()) + (x.has_value() ? "" : " empty") + (x.type() == typeid(CrossPt) ? " pt" : "");
    default: x.reset(); return "reset"; } }); }
template <typename V> string c_vec(int op, void*& self, void* o, int a) { return obj<V>(op, self, o, a, [](int op, V& x, V& y, int a) -> string {
    using E = typename V::value_type; auto e = [](int i) { if constexpr (std::is_same<E, string>::value) return str(i); else return E(i); }; size_t n = x.size();
    switch (op) {
    case 2: x.push_back(e(a)); break;
    case 3: x.insert(x.begin() + ptrdiff_t(n ? size_t(a) % n : 0), e(a)); break;
    case 4: if (n) x.erase(x.begin() + ptrdiff_t(size_t(a) % n)); break;
    case 5: if constexpr (!std::is_same<V, itlib::pod_vector<int>>::value) { if (size_t(a % 12) < n) { auto& r = x.at(size_t(a % 12)); return list(V(1, r)); } } break;
    case 6: x = static_cast<const V&>(y); break;
    case 7: { V t(std::move(x)); x = std::move(y); y = std::move(t); break; }
    case 8: x.resize(size_t(a % 9)); break;
    case 9: if constexpr (!std::is_same<V, itlib::static_vector<string, 8>>::value) { x.reserve(size_t(a % 12)); if (a % 3 == 0) x.shrink_to_fit(); } break;
    case 10: { const E z[] = {e(a), e(a + 1), e(a + 2)}; x.insert(x.begin(), z, z + a % 4); break; }
    default: x.clear(); }
    return list(x) + (x.size() > 2 ? " front " + list(V(1, x.front())) : ""); }); }
string c_map(int op, void*& self, void* o, int a) { using M = itlib::flat_map<string, int>; return obj<M>(op, self, o, a, [](int op, M& x, M& y, int a) -> string {
    string k = str(a % 15); switch (op) { case 2: x[k] = a; break; case 3: x.insert({k, a}); break; case 4: return S((long long)x.erase(k)); case 5: return S(x.at(k)); case 6: x = static_cast<const M&>(y); break; case 7: x.swap(y); break; case 8: { auto i = x.find(k.c_str()); return i == x.end() ? "none" : S(i->second); } default: x.clear(); }
    string r; for (auto& e : x) r += e.first + "=" + S(e.second) + ","; return r + (x == y ? " equal" : ""); }); }
string c_set(int op, void*& self, void* o, int a) { using M = itlib::flat_set<string>; return obj<M>(op, self, o, a, [](int op, M& x, M& y, int a) -> string {
    string k = str(a % 15); switch (op) { case 2: return S(x.insert(k).second); case 3: return S(x.emplace(k.c_str()).second); case 4: return S((long long)x.erase(k)); case 5: return S((long long)x.count(k)); case 6: x = static_cast<const M&>(y); break; case 7: x.swap(y); break; default: if (a % 5 == 0) x.clear(); } return list(x); }); }
string c_bits(int op, void*& self, void* o, int a) { using B = itlib::dynamic_bitset<>; return obj<B>(op, self, o, a, [](int op, B& x, B& y, int a) -> string {
    size_t n = x.size(); switch (op) { case 2: x.push_back(a % 2); break; case 3: if (n) x.flip(size_t(a) % n); break; case 4: x.resize(size_t(a % 100)); break; case 5: if (&x != &y && n < 300) x.append(y); break; case 6: x = static_cast<const B&>(y); break; case 7: std::swap(x, y); break; default: if (n) x[size_t(a) % n] = true; }
    string r; for (size_t i = 0; i < x.size(); ++i) r += x[i] ? '1' : '0'; return r + (x.any() ? " any" : ""); }); }
struct Exp { itlib::expected<string, CrossPt> e; itlib::expected<void, string> v; itlib::expected<int&, int> r = itlib::unexpected(0); int target = 0; };
string c_exp(int op, void*& self, void* o, int a) { return obj<Exp>(op, self, o, a, [](int op, Exp& x, Exp& y, int a) -> string {
    switch (op) { case 2: x.e = str(a); break; case 3: x.e = itlib::unexpected(CrossPt{a, str(a)}); break; case 4: if (x.v) x.v = itlib::unexpected(str(a)); else x.v = {}; break; case 5: if (x.e) *x.e += "+"; else x.e.error().a++; break; case 6: if (x.r) *x.r += a; else x.r = itlib::expected<int&, int>(x.target); break; default: if (&x != &y) { auto t = std::move(x.e); x.e = std::move(y.e); y.e = std::move(t); } }
    return (x.e ? "value " + *x.e : "error " + S(x.e.error().a) + x.e.error().s) + (x.v ? " ok " : " " + x.v.error()) + S(x.target) + x.e.value_or(string("other")); }); }
int plain_fn(int a) { return a * 3; }
string c_fun(int op, void*& self, void* o, int a) { using U = itlib::ufunction<string(int)>; return obj<U>(op, self, o, a, [](int op, U& x, U& y, int a) -> string {
    switch (op) { case 2: x = [k = str(a), n = 0](int i) mutable { return k + S(++n) + "/" + S(i); }; break; case 3: x = [p = std::make_unique<int>(a)](int i) { if (i % 5 == 0) throw CrossErr("called with " + S(i)); return S(*p + i); }; break; case 4: x = [](int i) { return S(plain_fn(i)); }; break; case 5: x = nullptr; break; case 6: { U t(std::move(x)); x = std::move(y); y = std::move(t); break; } default: return x(a); } // may throw bad_function_call
    return x ? "callable" : "empty"; }); }
itlib::generator<string> gen_strings(int n) { for (int i = 0; i < n; ++i) { string s = str(i + n); co_yield s; if (i == 11) throw CrossErr("the generator ended badly"); } }
using Gen = std::unique_ptr<itlib::generator<string>>;
string c_gen(int op, void*& self, void* o, int a) { return obj<Gen>(op, self, o, a, [](int op, Gen& x, Gen& y, int a) -> string {
    switch (op) { case 2: x = std::make_unique<itlib::generator<string>>(gen_strings(a % 20)); return "new"; case 3: x.swap(y); return "swapped"; case 4: if (x) { string r; for (auto& s : *x) { r += s; if (r.size() > 60) break; } return r; } return "none"; default: if (!x) return "null"; if (x->done()) return "done"; { auto p = x->next(); return p ? *p : "end"; } } }); }
struct Ptrs { std::shared_ptr<CrossPt> p; std::shared_ptr<CrossShared> s; std::weak_ptr<int> w; std::shared_ptr<int> q; std::shared_ptr<void> v; itlib::atomic_shared_ptr_storage<CrossPt> cell; itlib::atomic_relaxed_counter<int> n{0}; };
string c_ptr(int op, void*& self, void* o, int a) { return obj<Ptrs>(op, self, o, a, [](int op, Ptrs& x, Ptrs& y, int a) -> string {
    switch (op) { case 2: x.p = itlib::make_shared(CrossPt{a, str(a)}); break; case 3: x.s = std::make_shared<CrossShared>(a); break; case 4: if (x.s) { x.q = x.s->get(); x.w = x.q; x.v = x.s->self(); } break; case 5: if (x.p) x.q = itlib::make_aliased(x.p, &x.p->a); break; case 6: x.s.reset(); x.v.reset(); if (a % 2) x.q.reset(); break; case 7: x.cell.store(x.p); break; case 8: x.p = y.cell.exchange(x.p); break; case 9: { auto e = x.cell.load(); x.cell.compare_exchange(e, y.p); break; } default: ++x.n; x.p = y.cell.load(); }
    auto l = x.cell.load(); return (x.p ? S(x.p->a) + x.p->s : "-") + (x.s ? S(x.s->v) : "-") + (x.q ? S(*x.q) : "-") + (x.w.expired() ? "x" : "w") + (x.v ? "v" : "-") + (l ? l->s : "-") + S(int(x.n)); }); }
struct Locks { itlib::data_mutex<string, std::mutex> d{"data"}; itlib::strong_try_rec_mutex r; int depth = 0; ~Locks() { while (depth--) r.unlock(); } };
string c_lock(int op, void*& self, void* o, int a) { return obj<Locks>(op, self, o, a, [](int op, Locks& x, Locks&, int a) -> string {
    switch (op) { case 2: { auto l = x.d.unique_lock(); *l += S(a % 10); if (l->size() > 50) l->clear(); bool b = bool(x.d.try_unique_lock()); return *l + (b ? " locked twice" : ""); } case 3: { std::unique_lock<itlib::strong_try_rec_mutex> l(x.r, std::try_to_lock); return l ? "locked" : "not locked"; } case 4: if (x.depth < 20) { if (!x.r.try_lock()) return "not locked by the owner"; ++x.depth; } return S(x.depth); case 5: if (x.depth) { x.r.unlock(); --x.depth; } return S(x.depth); default: { bool b = false; std::thread([&] { if (x.r.try_lock()) { b = true; x.r.unlock(); } }).join(); return b ? "free" : "owned"; } } }); }
struct Strm { itlib::mem_ostreambuf<string> b; std::ostream o{&b}; string text = "12 345 some text 67"; itlib::mem_istreambuf<char> ib{text.data(), text.size()}; std::istream i{&ib}; };
string c_strm(int op, void*& self, void* o, int a) { return obj<Strm>(op, self, o, a, [](int op, Strm& x, Strm&, int a) -> string {
    switch (op) { case 2: x.o << str(a) << ' ' << a; return S((long long)x.o.tellp()); case 3: return x.b.get_container(); case 4: { string w; x.i >> w; if (!x.i) { x.i.clear(); x.i.seekg(0); } return w; } case 5: { itlib::redirect_rstream r(x.i, std::streampos(a % 10)); string w; r >> w; return w; } case 6: { itlib::rstream r(x.i); char c = 0; r.read(&c, 1); if (r.eof()) { x.i.clear(); x.i.seekg(3); } return string(1, c); } case 7: x.o.seekp(0); return S((long long)x.o.tellp()); default: return S((long long)x.i.tellg()) + S((long long)x.b.poff()); } }); }
struct Views { std::vector<int> v{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}; itlib::span<int> s; itlib::stride_span<int> t; std::vector<CrossDer> ds{3}; itlib::poly_span<CrossBase&> p; Views() : s(v.data(), v.size()), t(itlib::make_stride_span_from_array(v.data(), v.size(), 1, 2)) { for (int i = 0; i < 3; ++i) { ds[size_t(i)].b = i; ds[size_t(i)].d = i + 1; } p = itlib::poly_span<CrossBase&>(ds.data(), ds.size(), [](CrossDer& d) -> CrossBase& { return d; }); } };
string c_view(int op, void*& self, void* o, int a) { return obj<Views>(op, self, o, a, [](int op, Views& x, Views& y, int a) -> string {
    switch (op) { case 2: if (x.s.size()) x.s[size_t(a) % x.s.size()] += a; return list(x.v); case 3: x.s = itlib::make_span(x.v).subspan(size_t(a % 10)); return list(x.s); case 4: { string r; for (auto& e : x.t) r += S(e++) + " "; return r; } case 5: { string r; for (auto& e : x.p) r += S(e.f()) + " "; return r + S(x.p[size_t(a % 3)].f()); } case 6: { auto m = itlib::make_memory_view(x.v.data(), x.v.size()); return S((long long)m.size()); } default: { auto z = y.s; string r = list(z); return r + S((long long)z.size_bytes()); } } }); }
string c_util(int op, void*& self, void*, int a) { if (op == 0) { self = new int(a); return "made"; } if (op == 1) { delete static_cast<int*>(self); self = nullptr; return ""; }
    switch (op) { case 2: itlib::throw_ex<CrossErr>() << "number " << a << ' ' << str(a); break; case 3: itlib::throw_ex<std::out_of_range>() << str(a); break; case 4: { auto t = itlib::time_t::from_seconds(a * 100003LL); auto tm = t.gmtime(); return itlib::strftime("%Y-%m-%d %H:%M:%S", tm); } case 5: { int n = 0; { itlib::sentry s([&] { n += a; }); n = 1; } { auto s = itlib::make_sentry([&] { n *= 2; }); } return S(n); }
    case 6: return string(itlib::remove_prefix_all("aaab" + str(a), "a")) + (itlib::starts_with(str(a), "b") ? "y" : "n") + (itlib::ends_with(str(a), "7") ? "y" : "n") + string(itlib::remove_suffix_all("xyyy", "y")); case 7: { std::vector<int> v; for (int i = 0; i < a % 20; ++i) v.push_back(i * 7 % 5); size_t n = itlib::erase_all_if(v, [&](int i) { return i == a % 5; }); auto f = itlib::qfind_if(v, [](int i) { return i == 3; }); return S((long long)n) + list(v) + (f == v.end() ? "none" : "found"); }
    case 8: { std::vector<int, itlib::pmr_allocator<int>> v; for (int i = 0; i < a % 9; ++i) v.push_back(i); return list(v); } default: { CrossPt p{a, ""}; return S(itlib::owner_from_member(p.a, &CrossPt::a) == &p) + S(itlib::make_nullptr<int>() == nullptr) + S(itlib::bit_cast<int>(itlib::bit_cast<unsigned>(-a))); } } return "not thrown"; }
string c_um(int op, void*& self, void* o, int a) { using M = itlib::transparent_umap<string, int, CrossHash, std::equal_to<>>; return obj<M>(op, self, o, a, [](int op, M& x, M& y, int a) -> string {
    string ks = str(a % 15); std::string_view k = ks; switch (op) { case 2: x[k] = a; break; case 3: x.try_emplace(k, a); break; case 4: return S((long long)x.erase(ks)); case 5: return S(x.at(k)); case 6: x = static_cast<const M&>(y); break; case 7: x.swap(y); break; default: return S((long long)x.count(k)); }
    string r; for (auto& e : std::map<string, int>(x.begin(), x.end())) r += e.first + "=" + S(e.second) + ","; return r; }); }
const CrossComp comps[] = {{"any", c_any, 10}, {"small_vector", c_vec<itlib::small_vector<string, 3>>, 12}, {"static_vector", c_vec<itlib::static_vector<string, 8>>, 12}, {"pod_vector", c_vec<itlib::pod_vector<int>>, 12}, {"flat_map", c_map, 10}, {"flat_set", c_set, 9}, {"dynamic_bitset", c_bits, 9}, {"expected", c_exp, 8}, {"ufunction", c_fun, 8}, {"generator", c_gen, 7}, {"pointers", c_ptr, 11}, {"locks", c_lock, 7}, {"streams", c_strm, 9}, {"views", c_view, 8}, {"utilities", c_util, 10}, {"transparent_umap", c_um, 9}};
const CrossUnit unit = {comps, sizeof comps / sizeof *comps};
}
