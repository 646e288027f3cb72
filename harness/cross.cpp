// Objects made, changed and destroyed by different translation units and shared libraries (C36)
#include "common.hpp"
#include "cross.hpp"
#include <dlfcn.h>
#include <unistd.h>
using namespace vf;
#define CK(c, ...) VCHECK(c, "value.cross", __VA_ARGS__)
const CrossUnit* cross_unit_b();
static std::vector<const CrossUnit*>& units() {
    static auto* u = [] {
        auto* v = new std::vector<const CrossUnit*>{&unit, cross_unit_b()}; char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n <= 0) harness_error("no /proc/self/exe");
        for (auto lib : {"cross_lib", "cross_lib2"}) { std::string p = std::string(exe, size_t(n)) + "." + lib + ".so"; void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "HARNESS-ERROR: %s\n", dlerror()); exit(12); } auto f = (const CrossUnit* (*)())dlsym(h, "cross_unit"); if (!f) harness_error("no cross_unit"); v->push_back(f()); }
        return v; }();
    return *u;
}
// what was seen, or which exception came out
static std::string call(const CrossUnit* u, int comp, int op, void*& self, void* o, int a) {
    try { return u->comps[comp].f(op, self, o, a); }
    catch (CrossErr& e) { COV("exceptions from another unit"); return std::string("CrossErr ") + e.what(); }
    catch (std::bad_cast&) { COV("exceptions from another unit"); return "bad_cast"; }
    catch (std::bad_function_call&) { COV("exceptions from another unit"); return "bad_function_call"; }
    catch (std::out_of_range& e) { COV("exceptions from another unit"); return "out_of_range"; }
}
static void cross(Case& c, int comp) {
    Rng& r = c.rng; auto& us = units(); const auto& cc = us[0]->comps[comp]; auto any = [&] { return us[r.below(us.size())]; };
    void *x[2], *y[2]; const CrossUnit* made[2]; for (int i = 0; i < 2; ++i) { made[i] = any(); call(made[i], comp, 0, x[i], nullptr, i); call(us[0], comp, 0, y[i], nullptr, i); }
    int steps = 5 + int(r.below(30)); while (steps--) {
        tick(); int i = int(r.below(2)), op_ = 2 + int(r.below(uint64_t(cc.ops - 2))), a = int(r.below(200)), k = int(r.below(us.size())); op("%s %d.%d(%d) in %d", cc.name, i, op_, a, k);
        auto got = call(us[size_t(k)], comp, op_, x[i], x[1 - i], a); auto want = call(us[0], comp, op_, y[i], y[1 - i], a); COV("operations across units"); if (us[size_t(k)] != made[i]) COV("objects of another unit");
        CK(got == want, "%s: the operation %d in unit %d saw \"%.150s\", in one unit alone \"%.150s\"", cc.name, op_, k, got.c_str(), want.c_str()); state(hstr(got.c_str()));
    }
    for (int i = 0; i < 2; ++i) { call(any(), comp, 1, x[i], nullptr, 0); call(us[0], comp, 1, y[i], nullptr, 0); }
    c.h = hstr(prog()->log); c.interesting();
}
static void all(Case& c) { int n = units()[0]->n; int k = int(c.idx % uint64_t(n)); cov_dyn(units()[0]->comps[k].name); cross(c, k); }
REG_SUITE("cross", 8000, 400000, &all);
