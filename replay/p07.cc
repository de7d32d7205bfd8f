#include "replay.h"
#include "maidsafe/common/hash/algorithms/siphash.h"
// Independent oracle: SipHash-2-4 written from the paper (checked against its published test vector below).
static uint64_t rotl(uint64_t x, int b) { return (x << b) | (x >> (64 - b)); }
struct Ref {
  uint64_t v[4];
  void round() {
    v[0] += v[1]; v[2] += v[3]; v[1] = rotl(v[1], 13) ^ v[0]; v[3] = rotl(v[3], 16) ^ v[2]; v[0] = rotl(v[0], 32);
    v[2] += v[1]; v[0] += v[3]; v[1] = rotl(v[1], 17) ^ v[2]; v[3] = rotl(v[3], 21) ^ v[0]; v[2] = rotl(v[2], 32);
  }
  void word(uint64_t m) { v[3] ^= m; round(); round(); v[0] ^= m; }
  static uint64_t le(const unsigned char* p, size_t n) { uint64_t r = 0; for (size_t i = 0; i < n; ++i) r |= static_cast<uint64_t>(p[i]) << (8 * i); return r; }
  static uint64_t hash(const std::string& key, const std::string& s) {
    auto k = reinterpret_cast<const unsigned char*>(key.data()); auto d = reinterpret_cast<const unsigned char*>(s.data());
    uint64_t k0 = le(k, 8), k1 = le(k + 8, 8);
    Ref r; r.v[0] = k0 ^ 0x736f6d6570736575ULL; r.v[1] = k1 ^ 0x646f72616e646f6dULL; r.v[2] = k0 ^ 0x6c7967656e657261ULL; r.v[3] = k1 ^ 0x7465646279746573ULL;
    size_t i = 0;
    for (; i + 8 <= s.size(); i += 8) r.word(le(d + i, 8));
    r.word(le(d + i, s.size() - i) | (static_cast<uint64_t>(s.size() & 255) << 56));
    r.v[2] ^= 0xff; for (int j = 0; j < 4; ++j) r.round();
    return r.v[0] ^ r.v[1] ^ r.v[2] ^ r.v[3];
  }
};
static void one(const std::string& key, const std::string& s, const std::vector<size_t>& cuts) {
  std::string d; for (size_t c : cuts) d += std::to_string(c) + ",";
  rp::input("SipHash key " + rp::show(key) + " message " + rp::show(s) + " (" + std::to_string(s.size()) + " bytes) in pieces of " + (d.size() > 200 ? d.substr(0, 200) : d));
  std::array<unsigned char, 16> k; memcpy(k.data(), key.data(), 16);
  maidsafe::SipHash h(k); size_t at = 0;
  for (size_t c : cuts) {
    std::vector<unsigned char> piece(s.begin() + at, s.begin() + at + c);
    h.Update(piece.data(), c); at += c;
    if (rp::R(4) == 0) rp::check(h.Finalize() == Ref::hash(key, s.substr(0, at)), "intermediate Finalize differs from SipHash-2-4");
  }
  const maidsafe::SipHash& ch = h;
  rp::check(ch.Finalize() == Ref::hash(key, s), "differs from SipHash-2-4");
  rp::check(ch.Finalize() == Ref::hash(key, s), "a second Finalize differs");
}
static void run(const std::string& key, const std::string& s) {
  one(key, s, {s.size()});
  for (int t = 0; t < 3; ++t) {
    std::vector<size_t> c; size_t left = s.size();
    while (left) { size_t n = t == 2 ? rp::len(left) : rp::R(std::min<size_t>(left, t == 0 ? 1 : 12) + 1); if (!n && rp::R(2)) n = 1; c.push_back(n); left -= n; }
    if (rp::R(2)) c.push_back(0);
    one(key, s, c);
  }
}
void vp_replay(const rp::Cands& c, rp::Clock clock) {
  std::string k; for (int i = 0; i < 16; ++i) k += static_cast<char>(i);
  rp::input("oracle self test");
  rp::check(Ref::hash(k, k.substr(0, 15)) == 0xa129ca6149be45e5ULL, "the oracle is wrong");
  for (auto& p : c.bytes) run(k, p.second);
  for (size_t n = 0; n < 300; ++n) run(rp::rnd(16), rp::rnd(n));
  while (clock.more()) run(rp::rnd(16), rp::rnd(rp::len(70000)));
}
