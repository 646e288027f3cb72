// dynamic_bitset against std::vector<bool> (C09)
#include "common.hpp"
#include <itlib/dynamic_bitset.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
using namespace vf;
using M = std::vector<bool>;
template <typename B> struct Bound { static constexpr size_t bits = size_t(1) << 40; };
template <typename W, size_t N> struct Bound<itlib::static_vector<W, N>> { static constexpr size_t bits = N * sizeof(W) * 8; };

template <typename B> void same(const B& b, const M& m, const char* after) {
    constexpr size_t W = B::bits_per_word;
    VCHECK(b.size() == m.size() && b.empty() == m.empty(), "value.size", "%s: size %zu, should be %zu", after, b.size(), m.size());
    VCHECK(b.word_size() == (m.size() + W - 1) / W && b.byte_size() == (m.size() + 7) / 8 && b.buffer().size() == b.word_size() && b.data() == b.buffer().data(), "value.size", "%s: word or byte size", after);
    bool any = false, all = true;
    for (size_t i = 0; i < m.size(); ++i) { VCHECK(b.test(i) == m[i], "value.bit", "%s: bit %zu of %zu is %d, should be %d", after, i, m.size(), b.test(i), int(m[i])); any |= m[i]; all &= m[i]; }
    VCHECK(b.any() == any, "value.any", "%s: any() is %d with %zu bits", after, b.any(), m.size());
    VCHECK(b.none() == !any, "value.none", "%s: none() is %d with %zu bits", after, b.none(), m.size());
    if (!m.empty()) { VCHECK(b.all() == all, "value.all", "%s: all() is %d with %zu bits", after, b.all(), m.size()); if (all) COV("all bits set"); }
    if (!any) COV("no bits set");
}
template <typename B> void deep(B& b, const M& m) {
    const B& cb = b; size_t i = 0;
    for (auto it = b.begin(); it != b.end(); ++it, ++i) VCHECK(bool(*it) == m[i] && bool(b[i]) == m[i] && cb[i] == m[i], "value.iterator", "iteration or [] differs at %zu", i);
    VCHECK(i == m.size(), "value.iterator", "iteration ended after %zu of %zu", i, m.size());
    i = 0; for (auto it = cb.begin(); it != cb.end(); it++, ++i) VCHECK(*it == m[i], "value.iterator", "const iteration differs at %zu", i);
    VCHECK(i == m.size() && b.end() - b.begin() == ptrdiff_t(m.size()) && cb.end() - cb.begin() == ptrdiff_t(m.size()), "value.iterator", "iterator difference");
    for (auto it = b.end(); it != b.begin();) { if (i % 3) --it; else { auto was = it--; VCHECK(was - it == 1 && was != it, "value.iterator", "it-- gives another position"); } --i; const auto at = it; VCHECK(*at == m[i], "value.iterator", "backward iteration differs at %zu", i); VCHECK(bool(*it) == m[i], "value.iterator", "backward iteration differs at %zu", i); }
    for (auto it = cb.end(); i < m.size();) { if (i % 2) --it; else it--; ++i; VCHECK(*it == m[m.size() - i], "value.iterator", "const backward iteration differs"); }
    if (m.size() > 2) { auto it = b.begin() + ptrdiff_t(m.size() / 2); VCHECK(bool(*it) == m[m.size() / 2], "value.iterator", "begin()+n"); VCHECK(bool(*(b.end() - 1)) == m.back() && *(cb.end() - ptrdiff_t(m.size())) == m[0] && *(cb.begin() + 1) == m[1], "value.iterator", "iterator arithmetic"); }
}
template <typename B> struct Hist {
    static constexpr size_t W = B::bits_per_word, bound = Bound<typename B::buffer_type>::bits; static constexpr int K = 3;
    using word = typename B::word_type;
    Case& c; Rng& r; std::unique_ptr<B> b[K]; M m[K];
    int bias = 50; size_t f = 1; // f: how many times larger than usual
    size_t len() { size_t n; switch (r.below(5)) { case 0: n = W * r.below(4 * f); break; case 1: n = W * (1 + r.below(3 * f)) - 1; break; case 2: n = W * r.below(3 * f) + 1; break; default: n = r.below(4 * W * f + 3); } return n > bound ? bound : n; }
    word rw() { switch (r.below(4)) { case 0: return 0; case 1: return word(~word(0)); default: return word(r.next()); } }
    void construct(int i) {
        b[i].reset(); m[i].clear();
        switch (r.below(5)) {
        case 0: op("b%d=B()", i); b[i].reset(new B()); break;
        case 1: { size_t n = len(); word w = rw(); op("b%d=B(%zu,%llx)", i, n, (unsigned long long)w); b[i].reset(new B(n, w)); for (size_t k = 0; k < n; ++k) m[i].push_back((w >> (k % W)) & 1); break; }
        case 2: { size_t n = len(); op("b%d=B(%zu)", i, n); b[i].reset(new B(n)); m[i].resize(n); break; }
        case 3: { int j = (i + 1) % K; op("b%d=B(b%d)", i, j); b[i].reset(new B(*b[j])); m[i] = m[j]; break; }
        default: { int j = (i + 1) % K; op("b%d=B(move b%d)", i, j); b[i].reset(new B(std::move(*b[j]))); m[i] = m[j]; m[j].clear(); VCHECK(b[j]->size() == 0, "value.moved-from", "moved-from bitset has a size"); if (r.chance(50)) *b[j] = B(); else COV("moved-from reused"); break; }
        }
    }
    void step() {
        int i = int(r.below(K)), j = int(r.below(K)); B& w = *b[i]; M& mm = m[i]; size_t n = mm.size(), p = n ? r.below(n) : 0;
        switch (r.below(18)) {
        case 0: if (r.chance(40)) construct(i); break;
        case 1: if (n) { op("b%d.set(%zu)", i, p); w.set(p); mm[p] = true; } break;
        case 2: if (n) { op("b%d.reset(%zu)", i, p); w.reset(p); mm[p] = false; } break;
        case 3: if (n) { bool v = r.chance(50); op("b%d.set(%zu,%d)", i, p, v); w.set(p, v); mm[p] = v; } break;
        case 4: if (n) { op("b%d.flip(%zu)", i, p); w.flip(p); mm[p] = !mm[p]; } break;
        case 5: if (n) { bool v = r.chance(50); int how = int(r.below(6)); op("b%d[%zu] how %d", i, p, how);
            if (how == 0) { w[p] = v; mm[p] = v; } else if (how == 1) { *(w.begin() + ptrdiff_t(p)) = v; mm[p] = v; } else if (how == 2) { w[p].flip(); mm[p] = !mm[p]; } else if (how == 3) { w[p].set(); mm[p] = true; } else if (how == 4) { w[p].reset(); mm[p] = false; } else { w[p].set(v); mm[p] = v; VCHECK(w[p].test() == v, "value.bit", "bitref test"); } } break;
        case 6: { size_t t = len(); op("b%d.resize(%zu)", i, t); w.resize(t); mm.resize(t, false); if (t < n) COV("shrunk"); else COV("grown"); break; }
        case 7: case 8: { int k = r.chance(20) ? int(r.below(W + 2)) : 1; op("b%d.push_back x%d", i, k); while (k-- && mm.size() < bound) { bool v = r.chance(bias); w.push_back(v); mm.push_back(v); } break; }
        case 9: if (i != j && n + m[j].size() <= bound && n + m[j].size() < 20 * W * f) { op("b%d.append(b%d) %zu+%zu", i, j, n, m[j].size()); w.append(*b[j]); mm.insert(mm.end(), m[j].begin(), m[j].end()); COV("append"); } break;
        case 10: { typename B::buffer_type buf; size_t k = r.below(5 * f); if (k * W > bound) k = 0; mm.clear(); for (size_t q = 0; q < k; ++q) { word x = rw(); buf.push_back(x); for (size_t t = 0; t < W; ++t) mm.push_back((x >> t) & 1); } op("b%d.assign(%zu words)", i, k); w.assign(buf); break; }
        case 11: case 12: if (i != j && n && m[j].size()) {
            size_t f = r.below(n), l = r.below(std::min(n - f, m[j].size()) + 1), s = r.below(m[j].size() - l + 1);
            op("b%d.copy(%zu,%zu from b%d at %zu)", i, f, f + l, j, s);
            if (r.chance(50)) w.copy(w.begin() + ptrdiff_t(f), w.begin() + ptrdiff_t(f + l), static_cast<const B&>(*b[j]).begin() + ptrdiff_t(s)); else w.copy(w.begin() + ptrdiff_t(f), w.begin() + ptrdiff_t(f + l), b[j]->begin() + ptrdiff_t(s));
            for (size_t k = 0; k < l; ++k) mm[f + k] = m[j][s + k]; COV("copied ranges"); } break;
        case 16: if (n) { // within itself, as std::copy: the destination doesn't begin within the source
            size_t s = r.below(n), f = r.chance(60) ? r.below(s + 1) : r.below(n), l = r.below(n - std::max(s, f) + 1); if (f > s && l > f - s) l = f - s;
            op("b%d.copy(%zu,%zu from itself at %zu)", i, f, f + l, s);
            if (r.chance(50)) w.copy(w.begin() + ptrdiff_t(f), w.begin() + ptrdiff_t(f + l), static_cast<const B&>(w).begin() + ptrdiff_t(s)); else w.copy(w.begin() + ptrdiff_t(f), w.begin() + ptrdiff_t(f + l), w.begin() + ptrdiff_t(s));
            M old(mm); for (size_t k = 0; k < l; ++k) mm[f + k] = old[s + k]; COV("copied within itself"); } break;
        case 17: if (n && n + W <= bound && r.chance(30)) { op("b%d.assign(its own buffer)", i); size_t pad = w.word_size() * W; for (size_t q = n; q < pad; ++q) mm.push_back((w.data()[q / W] >> (q % W)) & 1); w.assign(w.buffer()); COV("assigned its own buffer"); } break;
        case 13: op("b%d=b%d", i, j); if (i != j || r.chance(50)) { w = static_cast<const B&>(*b[j]); mm = M(m[j]); } break;
        case 14: if (i != j) { op("b%d=move b%d", i, j); w = std::move(*b[j]); mm = m[j]; m[j].clear(); VCHECK(b[j]->size() == 0, "value.moved-from", "moved-from bitset has a size"); if (r.chance(50)) *b[j] = B(); else COV("moved-from reused"); } break;
        case 15: if constexpr (bound > 3000) { size_t t = len() + n; op("b%d.reserve(%zu)", i, t); w.reserve(t); const void* d = w.data(); if (t) { w.resize(t); mm.resize(t, false); VCHECK(w.data() == d, "value.reserve", "resize within the reserved size moved the data"); } } break;
        }
        for (int k = 0; k < K; ++k) same(*b[k], m[k], "step");
        if (r.chance(15)) deep(*b[i], m[i]);
        state(hcomb(n % (4 * W), m[j].size() % (4 * W)));
    }
    static void run(Case& c) {
        Hist h{c, c.rng}; static const int biases[] = {50, 95, 100, 5}; h.bias = biases[c.rng.below(4)]; if (bound > 3000 && c.rng.chance(4)) { h.f = c.rng.chance(8) ? 70000 / (4 * W) + 20 : c.rng.chance(50) ? 12 : 70; op("sizes x%zu", h.f); COV("large histories"); }
        for (int i = 0; i < K; ++i) h.b[i].reset(new B()); int steps = 10 + int(c.rng.below(40)); while (steps--) h.step(); for (int i = 0; i < K; ++i) deep(*h.b[i], h.m[i]);
        for (int i = 0; i < K; ++i) h.b[i].reset();
        c.interesting();
    }
};
// all (from, length) for every pair of offsets
template <typename B> void copies(Case& c) {
    constexpr size_t W = B::bits_per_word; size_t so = c.idx % W, extra = c.idx / W; Rng& r = c.rng;
    size_t n = 3 * W + 2; M md(n), ms(so + 2 * W + 3 + extra);
    B d(n), s(ms.size());
    int kind = int(r.below(3));
    for (size_t i = 0; i < n; ++i) { bool v = kind == 0 ? r.chance(50) : kind == 1; md[i] = v; d.set(i, v); }
    for (size_t i = 0; i < ms.size(); ++i) { bool v = kind == 0 ? r.chance(50) : kind == 2; ms[i] = v; s.set(i, v); }
    op("copy from offset %zu of %zu bits, kind %d", so, ms.size(), kind);
    const B& cs = s;
    for (size_t f = 0; f <= W; ++f) for (size_t l = 0; so + l <= ms.size() && f + l <= n; l += (W > 32 && l > 3 && l + 3 < W ? 3 : 1)) {
        B x(d); M mx(md);
        x.copy(x.begin() + ptrdiff_t(f), x.begin() + ptrdiff_t(f + l), cs.begin() + ptrdiff_t(so));
        for (size_t k = 0; k < l; ++k) mx[f + k] = ms[so + k];
        COV("enumerated copies");
        for (size_t i = 0; i < n; ++i) VCHECK(x.test(i) == mx[i], "value.copy", "copy of %zu bits from offset %zu to offset %zu (%zu-bit words): bit %zu is %d", l, so, f, W, i, x.test(i));
    }
    c.interesting();
}
#define H(name, q, ...) static void VF_CAT(hf_, __LINE__)(Case& c) { Hist<itlib::dynamic_bitset<__VA_ARGS__>>::run(c); } REG_SUITE(name, q, q * 40, &VF_CAT(hf_, __LINE__))
#define CP(name, q, ...) static void VF_CAT(hf_, __LINE__)(Case& c) { copies<itlib::dynamic_bitset<__VA_ARGS__>>(c); } REG_SUITE(name, q, q * 4, &VF_CAT(hf_, __LINE__))
H("bs.u8", 300, std::vector<uint8_t>);
H("bs.u16", 300, std::vector<uint16_t>);
H("bs.u32", 300, std::vector<uint32_t>);
H("bs.u64", 300, std::vector<uint64_t>);
H("bs.sv.u32", 200, itlib::small_vector<uint32_t, 2>);
H("bs.xv.u16", 200, itlib::static_vector<uint16_t, 12>);
CP("bs.copy.u8", 32, std::vector<uint8_t>);
CP("bs.copy.u16", 48, std::vector<uint16_t>);
CP("bs.copy.u32", 96, std::vector<uint32_t>);
CP("bs.copy.u64", 64, std::vector<uint64_t>);
