#include <cassert>
#include <new>
#include "maidsafe/common/authentication/user_credential_utils.h"
using namespace maidsafe;
using namespace maidsafe::authentication;
typedef UserCredentials UC;
namespace {
// 0: missing, 1: not finished, 2: a finished text, 3: cleared after it was finished
template <typename T>
void Set(std::unique_ptr<T>& p, int how, const std::string& s) {
  if (how == 1)
    p.reset(new T);
  if (how >= 2)
    p.reset(new T(s));
  if (how == 3)
    p->Clear();
}
UC Make(int hk, int hi, int hp, const std::string& k, const std::string& i, const std::string& p) {
  UC c;
  Set(c.keyword, hk, k);
  Set(c.pin, hi, i);
  Set(c.password, hp, p);
  return c;
}
}
extern "C" {
std::size_t in_size() { return sizeof(UC::Pin); }
void in_text(UC::Pin* p, const std::string& s) { new (p) UC::Pin(s); }
void in_new(UC::Pin* p) { new (p) UC::Pin; }
std::size_t in_value(const UC::Pin& p) { return p.Value(); }
void in_string(maidsafe::authentication::detail::SafeString* out, const UC::Pin& p) { new (out) maidsafe::authentication::detail::SafeString(p.string()); }
void in_hash(maidsafe::authentication::detail::SecureString::Hash* out, const UC::Pin& p) { new (out) maidsafe::authentication::detail::SecureString::Hash(p.Hash<crypto::SHA512>()); }
bool in_fin(const UC::Pin& p) { return p.IsFinalised() && p.IsInitialised(); }
bool in_any(const UC::Pin& p) { return p.IsFinalised() || p.IsInitialised(); }
void in_clear(UC::Pin& p) { p.Clear(); }
void in_finish(UC::Pin& p) { p.Finalise(); }
void in_ins(UC::Pin& p, std::size_t i, const std::string& s) { p.Insert(i, s); }
void in_rem(UC::Pin& p, std::size_t i, std::size_t n) { p.Remove(i, n); }
void ss_text(maidsafe::authentication::detail::SafeString* out, const std::string& a, const std::string& b, char c) {
  maidsafe::authentication::detail::SecureString s;
  s.Append(a);
  s.Append(c);
  s.Append(b);
  s.Finalise();
  new (out) maidsafe::authentication::detail::SafeString(s.string());
}
void ss_again(maidsafe::authentication::detail::SafeString* out, const std::string& a, const std::string& b) {
  maidsafe::authentication::detail::SecureString s(a);
  s.Clear();
  s.Append(b);
  s.Finalise();
  new (out) maidsafe::authentication::detail::SafeString(s.string());
}
void cred_pw(crypto::SecurePassword* out, int hk, int hi, int hp, const std::string& k, const std::string& i, const std::string& p) {
  new (out) crypto::SecurePassword(CreateSecurePassword(Make(hk, hi, hp, k, i, p)));
}
void cred_obf(NonEmptyString* out, int hk, int hi, int hp, const std::string& k, const std::string& i, const std::string& p, const NonEmptyString& d) {
  new (out) NonEmptyString(Obfuscate(Make(hk, hi, hp, k, i, p), d));
}
// credentials which were moved
void cred_moved(crypto::SecurePassword* out, const std::string& k, const std::string& i, const std::string& p) {
  UC a(Make(2, 2, 2, k, i, p)), b;
  b = std::move(a);
  new (out) crypto::SecurePassword(CreateSecurePassword(b));
}
}
