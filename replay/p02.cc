#include "replay.h"
#include "maidsafe/common/encode.h"
#include "maidsafe/common/error.h"
using namespace maidsafe;
typedef std::vector<unsigned char> Bytes;
static const std::string AL("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");
static std::string ref_enc(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    size_t m = std::min<size_t>(3, s.size() - i);
    uint32_t v = 0;
    for (size_t j = 0; j < 3; ++j) v = v * 256 + (j < m ? static_cast<unsigned char>(s[i + j]) : 0);
    for (size_t j = 0; j < 4; ++j) o += j <= m ? AL[(v / (j == 0 ? 262144 : j == 1 ? 4096 : j == 2 ? 64 : 1)) % 64] : '=';
  }
  return o;
}
static bool ref_dec(const std::string& s, std::string& out) {
  out.clear();
  if (s.size() % 4) return false;
  size_t pad = 0, n = s.size();
  if (n && s[n - 1] == '=') { pad = 1; if (s[n - 2] == '=') pad = 2; }
  std::vector<int> v;
  for (size_t i = 0; i < n - pad; ++i) { size_t k = AL.find(s[i]); if (k == std::string::npos) return false; v.push_back(static_cast<int>(k)); }
  for (size_t i = 0; i < n / 4 * 3 - pad; ++i) {
    size_t bit = i * 8; unsigned x = 0;
    for (size_t b = bit; b < bit + 8; ++b) x = x * 2 + ((v[b / 6] >> (5 - b % 6)) & 1);
    out += static_cast<char>(x);
  }
  return true;
}
static void enc(const std::string& s) {
  rp::input("base64::Encode(" + rp::show(s) + ")");
  rp::check(base64::Encode(s) == ref_enc(s), "wrong encoding " + base64::Encode(s));
  rp::check(base64::Encode(Bytes(s.begin(), s.end())) == ref_enc(s), "wrong encoding of the vector");
}
template <typename F> static void dec1(const std::string& s, const char* nm, F f) {
  rp::input(std::string(nm) + "(" + rp::show(s) + ")");
  std::string want; bool ok = ref_dec(s, want), got = true; std::string out;
  try { auto v = f(s); out.assign(v.begin(), v.end()); }
  catch (const maidsafe_error& e) { got = false; rp::check(e.code() == make_error_code(CommonErrors::invalid_conversion), "wrong error code"); }
  rp::check(ok == got, got ? "malformed input accepted, gives " + rp::show(out) : "well formed input rejected");
  if (ok) rp::check(out == want, "decodes to " + rp::show(out));
}
static void dec(const std::string& s) {
  dec1(s, "base64::DecodeToString", [](const std::string& x) { return base64::DecodeToString(x); });
  dec1(s, "base64::DecodeToBytes", [](const std::string& x) { return base64::DecodeToBytes(x); });
}
void vp_replay(const rp::Cands& c, rp::Clock clock) {
  for (auto& p : c.bytes) { enc(p.second); dec(p.second); }
  for (int a = 0; a < 256; ++a) {
    enc(std::string(1, static_cast<char>(a)));
    for (int b = 0; b < 256; ++b) enc(std::string(1, static_cast<char>(a)) + static_cast<char>(b));
    for (const char* base : {"QUJD", "QUI=", "QQ==", "QUJDREVG", "QUJDREU=", "QUJDRA=="})
      for (size_t p = 0; p < strlen(base); ++p) { std::string t(base); t[p] = static_cast<char>(a); dec(t); }
  }
  while (clock.more()) {
    size_t n = rp::len(70000);
    std::string s = rp::rnd(n);
    enc(s);
    std::string e = ref_enc(s);
    dec(e);
    if (e.empty()) continue;
    std::string f = e;
    f[rp::R(f.size())] = static_cast<char>(rp::R(256)); dec(f);
    f = e; f[f.size() - 1 - rp::len(f.size() - 1)] = "=A+/"[rp::R(4)]; dec(f);
    f = e; f[f.size() - 1 - rp::R(std::min<size_t>(4, f.size()))] = "=A+/"[rp::R(4)]; dec(f);
    f = e; f.resize(rp::R(f.size() + 1)); dec(f);
    f = e + "===="; dec(f); f = e + e; dec(f);
    dec(rp::pick(rp::R(24), AL + "="));
  }
}
