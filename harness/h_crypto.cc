#include <cstring>
#include "maidsafe/common/crypto.h"
#include "cryptopp/cryptlib.h"
using namespace maidsafe;
typedef std::vector<byte> V;
typedef std::string S;
#define OFF(x, y) (reinterpret_cast<const char*>(&(y)) - reinterpret_cast<const char*>(&(x)))
extern "C" {
long ne_off_s(const NonEmptyString& b) { return OFF(b, b.string_); }
long ne_off_v(const NonEmptyString& b) { return OFF(b, b.valid_); }
long ne_size() { return sizeof(NonEmptyString); }
long ki_off_s(const crypto::AES256KeyAndIV& b) { return OFF(b, b.string_); }
long ki_off_v(const crypto::AES256KeyAndIV& b) { return OFF(b, b.valid_); }
long ki_size() { return sizeof(crypto::AES256KeyAndIV); }
long ct_off(const crypto::CipherText& c) { return OFF(c, c.data); }
long ct_size() { return sizeof(crypto::CipherText); }
long zt_off(const crypto::CompressedText& c) { return OFF(c, c.data); }
long zt_size() { return sizeof(crypto::CompressedText); }
long sp_off(const crypto::SecurePassword& c) { return OFF(c, c.data); }
long sp_size() { return sizeof(crypto::SecurePassword); }
void symm_encrypt(void* r, const NonEmptyString& in, const crypto::AES256KeyAndIV& k) { new (r) crypto::CipherText(crypto::SymmEncrypt(in, k)); }
void symm_decrypt(void* r, const crypto::CipherText& in, const crypto::AES256KeyAndIV& k) { new (r) NonEmptyString(crypto::SymmDecrypt(in, k)); }
void compress(void* r, const NonEmptyString& in, uint16_t l) { new (r) crypto::CompressedText(crypto::Compress(in, l)); }
void uncompress(void* r, const crypto::CompressedText& in) { new (r) NonEmptyString(crypto::Uncompress(in)); }
void sec_pw(void* r, const NonEmptyString& p, const NonEmptyString& s, uint32_t pin, const std::string& label) { new (r) crypto::SecurePassword(crypto::CreateSecurePassword(p, s, pin, label)); }
void disperse(void* r, int32_t t, int32_t n, const NonEmptyString& d) { new (r) crypto::DataParts(crypto::InfoDisperse(t, n, d)); }
void retrieve_none(void* r) { crypto::DataParts p; new (r) NonEmptyString(crypto::InfoRetrieve(p)); }
void recover_none(void* r) { crypto::DataParts p; new (r) NonEmptyString(crypto::SecretRecoverData(p)); }
unsigned long parts_n(const crypto::DataParts& p) { return p.size(); }
const NonEmptyString* parts_at(const crypto::DataParts& p, unsigned long i) { return &p[i]; }
#define JOIN(NAME, FN)                                                                                                                                              \
  void NAME##1(void* r, const NonEmptyString& a) { crypto::DataParts p; p.reserve(1); p.push_back(a); new (r) NonEmptyString(crypto::FN(p)); }                        \
  void NAME##2(void* r, const NonEmptyString& a, const NonEmptyString& b) { crypto::DataParts p; p.reserve(2); p.push_back(a); p.push_back(b); new (r) NonEmptyString(crypto::FN(p)); } \
  void NAME##3(void* r, const NonEmptyString& a, const NonEmptyString& b, const NonEmptyString& c) { crypto::DataParts p; p.reserve(3); p.push_back(a); p.push_back(b); p.push_back(c); new (r) NonEmptyString(crypto::FN(p)); }
JOIN(retrieve, InfoRetrieve)
JOIN(recover, SecretRecoverData)
long slot_get() { size_t (CryptoPP::BufferedTransformation::*p)(byte*, size_t) = &CryptoPP::BufferedTransformation::Get; long v; memcpy(&v, &p, 8); return v - 1; }
long slot_attach() { void (CryptoPP::BufferedTransformation::*p)(CryptoPP::BufferedTransformation*) = &CryptoPP::BufferedTransformation::Attach; long v; memcpy(&v, &p, 8); return v - 1; }
void share(void* r, int32_t t, int32_t n, const NonEmptyString& d) { new (r) crypto::DataParts(crypto::SecretShareData(t, n, d)); }
}
#define H(NAME, ALG, STR)                                                                                               \
  typedef detail::BoundedString<crypto::ALG::DIGESTSIZE, crypto::ALG::DIGESTSIZE, STR> NAME##_t;                        \
  extern "C" long NAME##_off_s(const NAME##_t& b) { return OFF(b, b.string_); }                                         \
  extern "C" long NAME##_off_v(const NAME##_t& b) { return OFF(b, b.valid_); }                                          \
  extern "C" long NAME##_size() { return sizeof(NAME##_t); }                                                            \
  extern "C" void NAME(void* r, const STR& s) { new (r) NAME##_t(crypto::Hash<crypto::ALG>(s)); }
H(sha1_s, SHA1, S)
H(sha256_s, SHA256, S)
H(sha384_s, SHA384, S)
H(sha512_s, SHA512, S)
H(sha1_v, SHA1, V)
H(sha256_v, SHA256, V)
H(sha384_v, SHA384, V)
H(sha512_v, SHA512, V)
extern "C" void sha512_b(void* r, const NonEmptyString& s) { new (r) sha512_v_t(crypto::Hash<crypto::SHA512>(s)); }
extern "C" void sha256_b(void* r, const NonEmptyString& s) { new (r) sha256_v_t(crypto::Hash<crypto::SHA256>(s)); }
