#include <array>
#include <cstddef>
#include <new>
#include "maidsafe/common/hash/algorithms/siphash.h"
using namespace maidsafe;
#define OFF(P, M) unsigned long off_##P(SipHash& h) { return reinterpret_cast<char*>(&h.M) - reinterpret_cast<char*>(&h); }
extern "C" {
unsigned long sip_size() { return sizeof(SipHash); }
OFF(v0, v0) OFF(v1, v1) OFF(v2, v2) OFF(v3, v3) OFF(rl, remainder_length_) OFF(rem, remainder_) OFF(b, b)
void sip_ctor(void* m, const std::array<byte, 16>& seed) { new (m) SipHash(seed); }
void sip_update(SipHash& h, const byte* in, std::uint64_t n) { h.Update(in, n); }
std::uint64_t sip_final(const SipHash& h) { return h.Finalize(); }
void sip_copy(void* m, const SipHash& h) { new (m) SipHash(h); }
}
