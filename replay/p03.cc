#include "replay.h"
#include "maidsafe/common/encode.h"
using namespace maidsafe;
static const std::string AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string b64(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = 0; size_t n = std::min<size_t>(3, s.size() - i);
    for (size_t j = 0; j < 3; ++j) v = v << 8 | (j < n ? static_cast<unsigned char>(s[i + j]) : 0);
    for (size_t j = 0; j < 4; ++j) o += j <= n ? AL[v >> (18 - 6 * j) & 63] : '=';
  }
  return o;
}
static std::string ab(const std::string& s) { return s.size() > 14 ? s.substr(0, 6) + ".." + s.substr(s.size() - 6) : s; }
static void one(const std::string& s) {
  std::vector<unsigned char> v(s.begin(), s.end());
  rp::input("GetSubstr(" + rp::show(s) + ")"); rp::check(maidsafe::detail::GetSubstr(s) == ab(s), "gives " + maidsafe::detail::GetSubstr(s));
  rp::input("hex::Substr(" + rp::show(s) + ")"); rp::check(hex::Substr(s) == ab(rp::hexs(s)), "gives " + hex::Substr(s)); rp::check(hex::Substr(v) == ab(rp::hexs(s)), "vector gives " + hex::Substr(v));
  rp::input("base64::Substr(" + rp::show(s) + ")"); rp::check(base64::Substr(s) == ab(b64(s)), "gives " + base64::Substr(s)); rp::check(base64::Substr(v) == ab(b64(s)), "vector gives " + base64::Substr(v));
}
void vp_replay(const rp::Cands& c, rp::Clock clock) {
  for (auto& p : c.bytes) one(p.second);
  for (size_t n = 0; n < 100; ++n) one(rp::rnd(n));
  while (clock.more()) one(rp::rnd(rp::len(70000)));
}
