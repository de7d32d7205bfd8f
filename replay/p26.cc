#include "replay.h"
#include "maidsafe/common/crypto.h"
#include "cryptopp/hmac.h"
#include "cryptopp/modes.h"
#include "cryptopp/pwdbased.h"
namespace mc = maidsafe::crypto;
using maidsafe::NonEmptyString;
typedef unsigned char u8;
typedef std::vector<u8> V;
static std::string str(const V& v) { return std::string(v.begin(), v.end()); }
static V vec(const std::string& s) { return V(s.begin(), s.end()); }
template <typename F> static std::string err(F f) {
  try { f(); } catch (const maidsafe::maidsafe_error& e) {
    if (e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::uninitialised)) return "uninitialised";
    if (e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::invalid_argument)) return "invalid_argument";
    if (e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::symmetric_decryption_error)) return "symmetric_decryption_error";
    if (e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::uncompression_error)) return "uncompression_error";
    return "another maidsafe_error"; }
  catch (const std::exception& e) { return std::string("exception ") + e.what(); }
  catch (...) { return "unknown exception"; }
  return "";
}
// AES-GCM by hand: CTR mode and GHASH from the block cipher alone
struct B16 { u8 b[16]; };
static B16 gmul(const B16& x, const B16& y) {
  B16 z, v = y; memset(z.b, 0, 16);
  for (int i = 0; i < 128; ++i) {
    if (x.b[i / 8] >> (7 - i % 8) & 1) for (int j = 0; j < 16; ++j) z.b[j] ^= v.b[j];
    int lsb = v.b[15] & 1;
    for (int j = 15; j > 0; --j) v.b[j] = u8(v.b[j] >> 1 | v.b[j - 1] << 7);
    v.b[0] >>= 1;
    if (lsb) v.b[0] ^= 0xe1;
  }
  return z;
}
static void ghash(B16& y, const B16& h, const std::string& d) {
  for (size_t i = 0; i < d.size(); i += 16) { for (size_t j = 0; j < 16 && i + j < d.size(); ++j) y.b[j] ^= u8(d[i + j]); y = gmul(y, h); }
}
static std::string lens(uint64_t a, uint64_t c) { std::string s; for (int i = 7; i >= 0; --i) s += char(a * 8 >> 8 * i); for (int i = 7; i >= 0; --i) s += char(c * 8 >> 8 * i); return s; }
static std::string gcm(const std::string& p, const std::string& key, const std::string& iv) {
  CryptoPP::AES::Encryption e(reinterpret_cast<const u8*>(key.data()), 32);
  B16 h; memset(h.b, 0, 16); e.ProcessBlock(h.b);
  B16 j0; memset(j0.b, 0, 16); ghash(j0, h, iv); ghash(j0, h, lens(0, iv.size()));
  B16 ctr = j0; std::string c;
  for (size_t i = 0; i < p.size(); i += 16) {
    for (int k = 15; k > 11 && !++ctr.b[k]; --k) {}
    B16 s = ctr; e.ProcessBlock(s.b);
    for (size_t j = 0; j < 16 && i + j < p.size(); ++j) c += char(u8(p[i + j]) ^ s.b[j]);
  }
  B16 y; memset(y.b, 0, 16); ghash(y, h, c); ghash(y, h, lens(0, c.size()));
  B16 t = j0; e.ProcessBlock(t.b);
  for (int i = 0; i < 16; ++i) c += char(y.b[i] ^ t.b[i]);
  return c;
}
template <typename H> static std::string digest(const std::string& s) {
  H h; std::string r(H::DIGESTSIZE, 0);
  for (size_t i = 0; i < s.size();) { size_t k = std::min<size_t>(1 + rp::R(100), s.size() - i); h.Update(reinterpret_cast<const u8*>(s.data()) + i, k); i += k; }
  h.Final(reinterpret_cast<u8*>(&r[0])); return r;
}
static std::string hmac(const std::string& k0, const std::string& m) {
  std::string k = k0.size() > 128 ? digest<CryptoPP::SHA512>(k0) : k0; k.resize(128);
  std::string a = k, b = k; for (char& c : a) c ^= 0x36; for (char& c : b) c ^= 0x5c;
  return digest<CryptoPP::SHA512>(b + digest<CryptoPP::SHA512>(a + m));
}
static std::string pbkdf2(const std::string& pw, const std::string& salt, unsigned it) {
  CryptoPP::HMAC<CryptoPP::SHA512> h(reinterpret_cast<const u8*>(pw.data()), pw.size());
  std::string u = hmac(pw, salt + std::string("\0\0\0\1", 4)), t = u;
  for (unsigned i = 1; i < it; ++i) { u8 o[64]; h.CalculateDigest(o, reinterpret_cast<const u8*>(u.data()), 64); u.assign(reinterpret_cast<char*>(o), 64); for (int j = 0; j < 64; ++j) t[j] ^= u[j]; }
  return t.substr(0, 48);
}
static std::string gunzip(const std::string& s) { std::string o; CryptoPP::StringSource(s, true, new CryptoPP::Gunzip(new CryptoPP::StringSink(o))); return o; }
static std::string gz(const std::string& s, int l) { std::string o; CryptoPP::StringSource(s, true, new CryptoPP::Gzip(new CryptoPP::StringSink(o), l)); return o; }
template <typename H> static void hashes(const std::string& s, const char* n) {
  rp::input(std::string("Hash<") + n + ">(" + rp::show(s) + ")");
  std::string d = digest<H>(s);
  rp::check(mc::Hash<H>(s).string() == d, "wrong digest of a string");
  rp::check(str(mc::Hash<H>(vec(s)).string()) == d, "wrong digest of a vector");
  if (!s.empty()) rp::check(str(mc::Hash<H>(NonEmptyString(s)).string()) == d, "wrong digest of a BoundedString");
}
static void enc(const std::string& s, const std::string& k) {
  rp::input("SymmEncrypt(" + rp::show(s) + ", " + rp::show(k) + ")");
  mc::AES256KeyAndIV key{k};
  mc::CipherText c = mc::SymmEncrypt(NonEmptyString(s), key);
  std::string ct = str(c.data.string());
  rp::check(ct == gcm(s, k.substr(0, 32), k.substr(32)), "not the AES-256-GCM encryption");
  rp::check(str(mc::SymmDecrypt(c, key).string()) == s, "does not decrypt to the plaintext");
  std::string bad = ct;
  switch (rp::R(4)) {
    case 0: bad[rp::R(bad.size())] ^= char(1 << rp::R(8)); break;
    case 1: bad.resize(rp::R(bad.size() - 1) + 1); break;
    case 2: bad += rp::rnd(1 + rp::R(40)); break;
    default: bad[bad.size() - 1 - rp::R(16)] ^= char(1 << rp::R(8));
  }
  rp::input("SymmDecrypt of a changed ciphertext " + rp::show(bad) + " with key and IV " + rp::show(k));
  std::string e = err([&] { mc::SymmDecrypt(mc::CipherText(NonEmptyString(bad)), key); });
  rp::check(e == "symmetric_decryption_error", e.empty() ? "is accepted" : e);
  std::string k2 = k; k2[rp::R(48)] ^= char(1 << rp::R(8));
  rp::input("SymmDecrypt with a changed key or IV");
  e = err([&] { mc::SymmDecrypt(c, mc::AES256KeyAndIV(k2)); });
  rp::check(e == "symmetric_decryption_error", e.empty() ? "is accepted" : e);
}
static void zip(const std::string& s, int l) {
  rp::input("Compress(" + rp::show(s) + ", " + std::to_string(l) + ")");
  mc::CompressedText c = mc::Compress(NonEmptyString(s), uint16_t(l));
  std::string z = str(c.data.string());
  rp::check(gunzip(z) == s, "not a gzip stream of the input");
  rp::check(z == gz(s, l), "not the gzip stream of that level");
  rp::check(str(mc::Uncompress(c).string()) == s, "does not uncompress to the input");
  rp::input("Uncompress of a changed stream");
  std::string bad = z; bad[rp::R(2) ? 0 : 1] ^= char(1 << rp::R(8));
  std::string e = err([&] { mc::Uncompress(mc::CompressedText(NonEmptyString(bad))); });
  rp::check(e == "uncompression_error", e.empty() ? "is accepted" : e);
}
static std::string join(const mc::DataParts& p) { std::string s; for (auto& x : p) s += str(x.string()); return s; }
static void parts(int t, int n, const std::string& s) {
  rp::input("threshold " + std::to_string(t) + ", " + std::to_string(n) + " shares of " + rp::show(s));
  bool ok = t <= n && n >= 3 && t >= 2;
  for (int m = 0; m < 2; ++m) {
    mc::DataParts p;
    std::string e = err([&] { p = m ? mc::SecretShareData(t, n, NonEmptyString(s)) : mc::InfoDisperse(t, n, NonEmptyString(s)); });
    if (!ok) { rp::check(e == "invalid_argument", e.empty() ? "is accepted" : e); continue; }
    rp::check(e.empty(), e);
    rp::check(p.size() == size_t(n), "gives " + std::to_string(p.size()) + " parts");
    size_t piece = m ? s.size() / 4 * 4 + 4 : s.size() / (4 * t) * 4 + 4;
    for (int i = 0; i < n; ++i) {
      std::string x = str(p[i].string());
      rp::check(x.size() == 4 + piece, "part " + std::to_string(i) + " has " + std::to_string(x.size()) + " bytes");
      rp::check(x.substr(0, 4) == std::string("\0\0\0", 3) + char(i), "part " + std::to_string(i) + " begins with " + rp::show(x.substr(0, 4)));
    }
    if (m && s.size() >= 16) rp::check(join(p) != join(mc::SecretShareData(t, n, NonEmptyString(s))), "the shares are not random");
    if (!m) rp::check(join(p) == join(mc::InfoDisperse(t, n, NonEmptyString(s))), "the parts are random");
    std::shuffle(p.begin(), p.end(), rp::rng());
    p.resize(m ? t + rp::R(n - t + 1) : t);
    std::string r = str((m ? mc::SecretRecoverData(p) : mc::InfoRetrieve(p)).string());
    rp::check(r == s, std::string(m ? "SecretRecoverData" : "InfoRetrieve") + " gives " + rp::show(r));
  }
}
void vp_replay(const rp::Cands&, rp::Clock clock) {
  rp::input("uninitialised arguments");
  NonEmptyString u, x("x"); mc::AES256KeyAndIV ku, k(rp::rnd(48));
  for (auto& e : {err([&] { mc::SymmEncrypt(u, k); }), err([&] { mc::SymmEncrypt(x, ku); }), err([&] { mc::SymmDecrypt(mc::CipherText(), k); }), err([&] { mc::SymmDecrypt(mc::CipherText(x), ku); }),
                  err([&] { mc::Compress(u, 1); }), err([&] { mc::Uncompress(mc::CompressedText()); }), err([&] { mc::CreateSecurePassword(u, x, 1); }), err([&] { mc::CreateSecurePassword(x, u, 1); }), err([&] { mc::Hash<mc::SHA512>(u); })})
    rp::check(e == "uninitialised", e.empty() ? "are accepted" : e);
  rp::input("InfoRetrieve({})"); rp::check(err([&] { mc::InfoRetrieve(mc::DataParts()); }) == "invalid_argument", "is not rejected");
  rp::input("SecretRecoverData({})"); rp::check(err([&] { mc::SecretRecoverData(mc::DataParts()); }) == "invalid_argument", "is not rejected");
  for (int l = 0; l < 65536; ++l) if (l < 300 || l % 97 == 0 || l > 65000) {
    rp::input("Compress with level " + std::to_string(l));
    std::string e = err([&] { mc::Compress(x, uint16_t(l)); });
    rp::check(e == (l > 9 ? "invalid_argument" : ""), e.empty() ? "is accepted" : e);
  }
  for (int t = -3; t < 8; ++t) for (int n = -3; n < 8; ++n) parts(t, n, rp::rnd(1 + rp::R(40)));
  for (int i : {INT32_MIN, INT32_MAX}) { parts(i, 3, "a"); parts(2, INT32_MIN, "a"); parts(i, 2, "a"); }
  auto pw = [](const std::string& p, const std::string& s, uint32_t pin, const std::string& l) {
    rp::input("CreateSecurePassword(" + rp::show(p) + ", " + rp::show(s) + ", " + std::to_string(pin) + ", " + rp::show(l) + ")");
    rp::check(str(mc::CreateSecurePassword(NonEmptyString(p), NonEmptyString(s), pin, l).data.string()) == pbkdf2(p, s + l, 10000 + pin % 10000), "is not PBKDF2-HMAC-SHA512 with salt + label and 10000 + pin % 10000 iterations");
  };
  for (uint32_t pin : {0u, 1u, 9999u, 10000u, 4294967295u, 55535u, 65536u}) pw(rp::rnd(1 + rp::R(200)), rp::rnd(1 + rp::R(40)), pin, rp::rnd(rp::R(40)));
  int i = 0;
  while (clock.more()) {
    size_t big = rp::R(50) ? 300 : 9000;
    for (int j = 0; j < 20; ++j) {
      std::string s = rp::rnd(rp::R(8) ? rp::R(big) : rp::len(big));
      hashes<CryptoPP::SHA1>(s, "SHA1"); hashes<CryptoPP::SHA256>(s, "SHA256"); hashes<CryptoPP::SHA384>(s, "SHA384"); hashes<CryptoPP::SHA512>(s, "SHA512");
      if (s.empty()) s = "a";
      enc(s, rp::rnd(48));
      if (rp::R(2)) s = rp::pick(s.size(), "ab");
      zip(s, int(rp::R(10)));
      int n = 3 + int(rp::R(9)); parts(2 + int(rp::R(n - 1)), n, s);
    }
    if (++i % 8 == 0) pw(rp::rnd(1 + rp::R(200)), rp::rnd(1 + rp::R(40)), uint32_t(rp::num()), rp::rnd(rp::R(40)));
  }
}
