#include "replay.h"
#include <algorithm>
#include "maidsafe/common/identity.h"
#include "maidsafe/common/encode.h"
#include "maidsafe/common/error.h"
using namespace maidsafe;
typedef std::vector<unsigned char> Bytes;
static std::string bits(const std::string& s) { std::string o; for (unsigned char c : s) for (int k = 7; k >= 0; --k) o += (c >> k) & 1 ? '1' : '0'; return o; }
static Identity mk(const std::string& s) { return Identity(Bytes(s.begin(), s.end())); }
static std::string xr(const std::string& a, const std::string& b) { std::string o(a); for (size_t i = 0; i < o.size(); ++i) o[i] = static_cast<char>(a[i] ^ b[i]); return o; }
template <typename F> static bool thr(F f) {
  try { f(); } catch (const maidsafe_error& e) { rp::check(e.code() == make_error_code(CommonErrors::invalid_identity), "wrong error code"); return true; }
  return false;
}
static void pair(const std::string& a, const std::string& b, const std::string& t) {
  rp::input("CloserToTarget(" + rp::hexs(a) + ", " + rp::hexs(b) + ", " + rp::hexs(t) + ")");
  Identity A = mk(a), B = mk(b), T = mk(t);
  rp::check(CloserToTarget(A, B, T) == (bits(xr(a, t)) < bits(xr(b, t))), "wrong closeness");
  rp::input("CommonLeadingBits(" + rp::hexs(a) + ", " + rp::hexs(b) + ")");
  size_t n = bits(xr(a, b)).find('1'); if (n == std::string::npos) n = 512;
  rp::check(CommonLeadingBits(A, B) == static_cast<int>(n), "wrong number of bits");
  Identity N;
  rp::input("uninitialised operands");
  rp::check(thr([&] { CommonLeadingBits(N, B); }) && thr([&] { CommonLeadingBits(A, N); }) && thr([&] { CloserToTarget(N, B, T); }) &&
            thr([&] { CloserToTarget(A, N, T); }) && thr([&] { CloserToTarget(A, B, N); }), "uninitialised operand accepted");
}
static void encs(const std::string& a) {
  Identity A = mk(a);
  rp::input("encodings of " + rp::hexs(a));
  rp::check(binary::Encode(A) == bits(a), "binary encoding");
  rp::check(hex::Encode(A) == rp::hexs(a), "hex encoding");
  std::string b64 = base64::Encode(A);
  rp::check(b64 == base64::Encode(a), "base64 encoding");
  rp::check(MakeIdentity(binary::String(bits(a))) == A && MakeIdentity(hex::String(rp::hexs(a))) == A && MakeIdentity(base64::String(b64)) == A, "decoding");
  Identity N;
  rp::input("encoding an uninitialised identity");
  bool t1 = false, t2 = false, t3 = false;
  try { binary::Encode(N); } catch (const maidsafe_error&) { t1 = true; }
  try { hex::Encode(N); } catch (const maidsafe_error&) { t2 = true; }
  try { base64::Encode(N); } catch (const maidsafe_error&) { t3 = true; }
  rp::check(t1 && t2 && t3, "accepted");
}
static void dec(const std::string& s) {
  rp::input("MakeIdentity(binary " + (s.size() < 700 ? "'" + s + "'" : rp::show(s)) + ") of " + std::to_string(s.size()) + " characters");
  bool ok = s.size() == 512 && s.find_first_not_of("01") == std::string::npos; Identity r;
  rp::check(thr([&] { r = MakeIdentity(binary::String(s)); }) == !ok, ok ? "rejected" : "accepted");
  if (ok) rp::check(binary::Encode(r) == s, "wrong identity");
  rp::input("MakeIdentity(hex " + rp::show(s) + ")");
  ok = s.size() == 128 && s.find_first_not_of("0123456789abcdef") == std::string::npos;
  rp::check(thr([&] { r = MakeIdentity(hex::String(s)); }) == !ok, ok ? "rejected" : "accepted");
  if (ok) rp::check(hex::Encode(r) == s, "wrong identity");
  rp::input("MakeIdentity(base64 " + rp::show(s) + ")");
  ok = s.size() == 88 && s.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/") == 86 && s.substr(86) == "==";
  rp::check(thr([&] { r = MakeIdentity(base64::String(s)); }) == !ok, ok ? "rejected" : "accepted");
}
static std::string near(const std::string& a) {
  std::string b(a); size_t from = rp::R(513);
  for (size_t i = from; i < 512; ++i) if (i == from || rp::R(2)) b[i / 8] = static_cast<char>(b[i / 8] ^ (0x80 >> (i % 8)));
  return b;
}
void vp_replay(const rp::Cands& c, rp::Clock clock) {
  std::vector<std::string> ids;
  for (auto& p : c.bytes) { if (p.second.size() == 64) ids.push_back(p.second); dec(p.second); }
  for (auto& a : ids) for (auto& b : ids) for (auto& t : ids) pair(a, b, t);
  while (clock.more()) {
    std::string a = rp::rnd(64), b = near(a), t = rp::R(2) ? near(a) : rp::rnd(64);
    pair(a, b, t); pair(b, a, t); pair(a, a, t); encs(a); encs(std::string(64, 0));
    std::string s = rp::pick(rp::R(3) ? 512 : rp::R(1100), "01"); dec(s);
    dec(rp::pick(505 + rp::R(10), "01")); dec(rp::pick(500, "01")); dec("");
    if (s.size()) { s[rp::R(s.size())] = static_cast<char>(rp::R(256)); dec(s); }
    s = rp::pick(126 + rp::R(5), "0123456789abcdef"); dec(s); s[rp::R(s.size())] = static_cast<char>(rp::R(256)); dec(s);
    for (size_t n = 60; n < 70; ++n) dec(base64::Encode(rp::rnd(n)));
    for (size_t n = 60; n < 70; ++n) dec(hex::Encode(rp::rnd(n)));
  }
}
