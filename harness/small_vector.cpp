// small_vector against std::vector, storage policy, lifetimes (C01, C02, C03)
#include "seq.hpp"
using namespace seq;
template <typename T, size_t N, size_t R, int F = 0> using SV = itlib::small_vector<T, N, R, LAlloc<T, F>>;
#define H(name, q, ...) static void VF_CAT(hf_, __LINE__)(Case& c) { history<__VA_ARGS__>(c, name); } REG_SUITE(name, q, q * 40, &VF_CAT(hf_, __LINE__))
#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
H("sv.int.4.0", 400, SV<int, 4, 0>);
H("sv.int.4.3", 400, SV<int, 4, 3>);
H("sv.int.1.0", 250, SV<int, 1, 0>);
H("sv.int.3.4", 400, SV<int, 3, 4>);
H("sv.u8.16.5", 250, SV<uint8_t, 16, 5>);
H("sv.std.int.2.2", 250, itlib::small_vector<int, 2, 2>);
static void am(Case& c) { amortised<SV<int, 4, 3>>(c); } REG_SUITE("sv.amortised", 10, 100, &am);
#endif
#if PART == 0 || PART == 2
H("sv.tr.4.0", 400, SV<Tr, 4, 0>);
H("sv.tr.3.3", 400, SV<Tr, 3, 3, 8>);
H("sv.tr.5.6", 400, SV<Tr, 5, 6>);
H("sv.tr.1.1", 250, SV<Tr, 1, 1, 15>);
H("sv.trtm.2.3", 250, SV<TrTM, 2, 3>);
static void am2(Case& c) { amortised<SV<Tr, 4, 0>>(c); } REG_SUITE("sv.tr.amortised", 5, 50, &am2);
#endif
#if PART == 0 || PART == 3
H("sv.str.3.2", 250, SV<std::string, 3, 2>);
H("sv.trm.4.2", 300, SV<TrM, 4, 2>);
H("sv.trc.3.2", 300, SV<TrC, 3, 2, 2>);
H("sv.big.2.3", 250, SV<Big, 2, 3>);
H("sv.uptr.2.0", 200, SV<std::unique_ptr<int>, 2, 0>);
#endif
// larger: sizes beyond 255 and 65535
#if PART == 0 || PART == 4
H("sv.large.int.200.100", 40, SV<int, 200, 100>);
H("sv.large.u8.300.257", 40, SV<uint8_t, 300, 257>);
H("sv.large.tr.130.0", 10, SV<Tr, 130, 0>);
H("sv.large.str.257.257", 10, SV<std::string, 257, 257>);
H("sv.large.u16.33000.32768", 1, SV<uint16_t, 33000, 32768>);
H("sv.large.u8.70000.65536", 1, SV<uint8_t, 70000, 65536>);
#endif
