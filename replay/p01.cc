#include "replay.h"
#include "maidsafe/common/encode.h"
#include "maidsafe/common/error.h"
using namespace maidsafe;
typedef std::vector<unsigned char> Bytes;
static std::string ref_enc(const std::string& s) { return rp::hexs(s); }
static bool ref_dec(const std::string& s, std::string& out) {
  out.clear();
  if (s.size() % 2) return false;
  for (char c : s) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'))) return false;
  for (size_t i = 0; i < s.size(); i += 2) out += static_cast<char>(strtol(s.substr(i, 2).c_str(), nullptr, 16));
  return true;
}
static void enc(const std::string& s) {
  rp::input("hex::Encode(" + rp::show(s) + ")");
  rp::check(hex::Encode(s) == ref_enc(s), "wrong encoding " + hex::Encode(s));
  rp::check(hex::Encode(Bytes(s.begin(), s.end())) == ref_enc(s), "wrong encoding of the vector");
}
template <typename F> static void dec1(const std::string& s, const char* nm, F f) {
  rp::input(std::string(nm) + "(" + rp::show(s) + ")");
  std::string want; bool ok = ref_dec(s, want), got = true; std::string out;
  try { auto v = f(s); out.assign(v.begin(), v.end()); }
  catch (const maidsafe_error& e) { got = false; rp::check(e.code() == make_error_code(CommonErrors::invalid_conversion), "wrong error code"); }
  rp::check(ok == got, got ? "malformed input accepted, gives " + rp::show(out) : "well formed input rejected");
  if (ok) rp::check(out == want, "decodes to " + rp::show(out));
}
static void dec(const std::string& s) {
  dec1(s, "hex::DecodeToString", [](const std::string& x) { return hex::DecodeToString(x); });
  dec1(s, "hex::DecodeToBytes", [](const std::string& x) { return hex::DecodeToBytes(x); });
}
void vp_replay(const rp::Cands& c, rp::Clock clock) {
  for (auto& p : c.bytes) { enc(p.second); dec(p.second); }
  for (int a = 0; a < 256; ++a) {
    enc(std::string(1, static_cast<char>(a)));
    for (int p = 0; p < 4; ++p) { std::string t("0f3a"); t[p] = static_cast<char>(a); dec(t); }
    for (int b = 0; b < 256; ++b) dec(std::string(1, static_cast<char>(a)) + static_cast<char>(b));
  }
  while (clock.more()) {
    size_t n = rp::len(70000);
    enc(rp::rnd(n));
    std::string e = rp::pick(n, "0123456789abcdef");
    dec(e);
    if (n) { e[rp::R(n)] = static_cast<char>(rp::R(256)); dec(e); }
  }
}
