// static_vector against a bounded std::vector (C03, C04)
#include "seq.hpp"
using namespace seq;
template <typename T, size_t N> using XV = itlib::static_vector<T, N>;
#define H(name, q, ...) static void VF_CAT(hf_, __LINE__)(Case& c) { history<__VA_ARGS__>(c, name); } REG_SUITE(name, q, q * 40, &VF_CAT(hf_, __LINE__))
#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
H("xv.int.4", 400, XV<int, 4>);
H("xv.int.1", 200, XV<int, 1>);
H("xv.u8.20", 300, XV<uint8_t, 20>);
H("xv.tr.6", 500, XV<Tr, 6>);
H("xv.tr.2", 250, XV<Tr, 2>);
#endif
#if PART == 0 || PART == 2
H("xv.trtm.5", 250, XV<TrTM, 5>);
H("xv.str.4", 250, XV<std::string, 4>);
H("xv.trm.5", 300, XV<TrM, 5>);
H("xv.trc.4", 300, XV<TrC, 4>);
H("xv.big.5", 200, XV<Big, 5>);
H("xv.uptr.4", 200, XV<std::unique_ptr<int>, 4>);
#endif
#if PART == 0 || PART == 3
H("xv.large.int.255", 40, XV<int, 255>);
H("xv.large.u8.256", 40, XV<uint8_t, 256>);
H("xv.large.tr.300", 10, XV<Tr, 300>);
H("xv.large.str.257", 10, XV<std::string, 257>);
H("xv.large.u16.65535", 1, XV<uint16_t, 65535>);
H("xv.large.u8.70000", 1, XV<uint8_t, 70000>);
#endif
