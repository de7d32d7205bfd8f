#include "replay.h"
#include "h_cred.cc"
#include "cryptopp/pwdbased.h"
#include "cryptopp/sha.h"
namespace maidsafe { namespace detail {
std::mt19937& random_number_generator() { static std::mt19937 r(7); return r; }
std::mutex& random_number_generator_mutex() { static std::mutex m; return m; }
} }
typedef std::string Str;
typedef maidsafe::authentication::detail::SafeString Safe;
static Str plain(const Safe& s) { return Str(s.begin(), s.end()); }
template <typename V> static Str str(const V& v) { return Str(v.begin(), v.end()); }
template <typename F> static Str err(F f) {
  try { f(); } catch (const maidsafe_error& e) {
    if (e.code() == make_error_code(CommonErrors::invalid_argument)) return "invalid_argument";
    for (CommonErrors c : {CommonErrors::uninitialised, CommonErrors::symmetric_encryption_error, CommonErrors::outside_of_bounds})
      if (e.code() == make_error_code(c)) return c == CommonErrors::uninitialised ? "uninitialised" : c == CommonErrors::outside_of_bounds ? "outside_of_bounds" : "symmetric_encryption_error";
    return "another maidsafe_error"; }
  catch (const std::exception& e) { return Str("exception"); }
  return "";
}
static Str sha(const Str& s) {
  Str d(64, 0); CryptoPP::SHA512().CalculateDigest(reinterpret_cast<unsigned char*>(&d[0]), reinterpret_cast<const unsigned char*>(s.data()), s.size());
  return d;
}
static Str derive(const Str& text, const Str& salt, uint32_t n) {
  Str k(48, 0), s = salt + "MaidSafe Version 1 Key Derivation";
  CryptoPP::PKCS5_PBKDF2_HMAC<CryptoPP::SHA512> p;
  typedef const unsigned char* P;
  p.DeriveKey(reinterpret_cast<unsigned char*>(&k[0]), 48, 0, P(text.data()), text.size(), P(s.data()), s.size(), 10000 + n % 10000, 0.0);
  return k;
}
static void one(const Str& k, const Str& i, const Str& p, const Str& d) {
  rp::input("keyword " + rp::show(k) + " pin " + rp::show(i) + " password " + rp::show(p) + " data " + rp::show(d));
  uint32_t v = 0;
  for (char c : i) v = v * 10 + (c - '0');
  {
    Str want = derive(p, sha(sha(i) + p), v);
    crypto::SecurePassword got(crypto::AES256KeyAndIV(std::vector<byte>(48, 0))), moved(got);
    cred_pw(&got, 2, 2, 2, k, i, p);
    rp::check(str(got->string()) == want, "CreateSecurePassword is not PBKDF2(password, SHA512(SHA512(pin) + password))");
    cred_moved(&moved, k, i, p);
    rp::check(str(moved->string()) == want, "moved credentials give another password");
  }
  Str key = derive(k, sha(p + sha(i)), 2 * v), x = d;
  for (size_t j = 0; j < x.size(); ++j) x[j] ^= key[j % 48];
  alignas(NonEmptyString) char b[sizeof(NonEmptyString)];
  auto o = reinterpret_cast<NonEmptyString*>(b);
  cred_obf(o, 2, 2, 2, k, i, p, NonEmptyString(std::vector<byte>(d.begin(), d.end())));
  rp::check(str(o->string()) == x, "Obfuscate is not the data, exclusive or the key derived from the keyword");
  o->~NonEmptyString();
  cred_obf(o, 2, 2, 2, k, i, p, NonEmptyString(std::vector<byte>(x.begin(), x.end())));
  rp::check(str(o->string()) == d, "obfuscating twice does not give the data back");
  o->~NonEmptyString();
}
static void texts(const Str& a, const Str& b) {
  rp::input("texts " + rp::show(a) + " and " + rp::show(b));
  alignas(UC::Pin) char m[sizeof(UC::Pin)];
  auto p = reinterpret_cast<UC::Pin*>(m);
  auto unfinished = [&] {
    rp::check(!in_any(*p), "an unfinished text claims to be finished");
    rp::check(err([&] { p->string(); }) == "symmetric_encryption_error" && err([&] { p->Value(); }) == "symmetric_encryption_error" && err([&] { p->Hash<crypto::SHA512>(); }) == "symmetric_encryption_error", "an unfinished text is given out");
  };
  Str e = err([&] { in_text(p, a); });
  rp::check(e == (a.empty() ? "outside_of_bounds" : ""), "SecureInputString(text): " + e);
  if (!a.empty()) {
    rp::check(in_fin(*p), "not finished");
    rp::check(plain(p->string()) == a, "the text is not given back");
    p->Clear();
    unfinished();
    p->~SecureInputString();
  }
  in_new(p);
  unfinished();
  rp::check(err([&] { p->Finalise(); }) == "outside_of_bounds", "nothing entered is finished");
  p->~SecureInputString();
  Safe s, t;
  s.~Safe(); ss_text(&s, a, b, '\x80');
  rp::check(plain(s) == a + '\x80' + b, "SecureString does not give back what was appended");
  t.~Safe(); ss_again(&t, a, b);
  rp::check(plain(t) == b, "SecureString does not give back what was appended after Clear");
}
static void pieces() {
  std::vector<Str> want; std::string log;
  alignas(UC::Pin) char m[sizeof(UC::Pin)];
  auto p = reinterpret_cast<UC::Pin*>(m);
  if (rp::R(3) == 0) {
    Str t = rp::rnd(1 + rp::R(4)); log = "text " + rp::show(t); rp::input(log);
    in_text(p, t); for (char c : t) want.push_back(Str(1, c));
  } else { in_new(p); log = "new"; }
  for (int k = 1 + int(rp::R(6)); k; --k) {
    switch (rp::R(7)) {
      case 0: case 1: case 2: {
        Str x = rp::rnd(1 + rp::R(2)); size_t i = rp::R(want.size() + 1);
        log += ", Insert(" + std::to_string(i) + ", " + rp::show(x) + ")"; rp::input(log);
        rp::check(err([&] { p->Insert(i, x); }).empty(), "Insert throws");
        want.insert(want.begin() + i, x); break;
      }
      case 3: {
        if (want.empty()) break;
        size_t i = rp::R(want.size()), n = 1 + rp::R(want.size() - i);
        log += ", Remove(" + std::to_string(i) + ", " + std::to_string(n) + ")"; rp::input(log);
        rp::check(err([&] { p->Remove(i, n); }).empty(), "Remove throws");
        want.erase(want.begin() + i, want.begin() + i + n); break;
      }
      case 4: log += ", Clear"; rp::input(log); p->Clear(); want.clear(); break;
      case 5: {
        if (p->IsFinalised()) break;
        size_t i = want.size() + 1; log += ", a gap"; rp::input(log);
        p->Insert(i, Str("g")); { Str e = err([&] { p->Finalise(); }); rp::check(e == "invalid_argument" && !p->IsFinalised(), "a gap is finished: " + e); }
        rp::check(err([&] { p->Remove(i - 1, 1); }) == "invalid_argument", "removes what is not there");
        p->Insert(i - 1, Str("f")); want.push_back("f"); want.push_back("g"); break;
      }
      case 6: {
        log += ", Finalise"; rp::input(log);
        rp::check(err([&] { p->Finalise(); }) == (want.empty() ? "outside_of_bounds" : ""), "Finalise of " + std::to_string(want.size()) + " pieces");
        if (!want.empty()) {
          Str all; for (auto& x : want) all += x;
          rp::check(plain(p->string()) == all, "gives " + rp::show(plain(p->string())));
          want.clear(); for (char c : all) want.push_back(Str(1, c));
        }
        // what is finished is edited character by character
        if (p->IsFinalised() && rp::R(2)) { Str x = rp::rnd(1); p->Insert(0, x); want.insert(want.begin(), x); log += ", Insert(0, " + rp::show(x) + ")"; }
        break;
      }
    }
    rp::input(log);
    if (p->IsFinalised() && rp::R(2)) { p->Clear(); want.clear(); log += ", Clear"; }
  }
  rp::input(log + ", Finalise");
  rp::check(err([&] { p->Finalise(); }) == (want.empty() ? "outside_of_bounds" : ""), "Finalise of " + std::to_string(want.size()) + " pieces");
  if (!want.empty()) { Str all; for (auto& x : want) all += x; rp::check(plain(p->string()) == all, "gives " + rp::show(plain(p->string()))); }
  p->~SecureInputString();
}
void vp_replay(const rp::Cands& c, rp::Clock clk) {
  for (int k = 0; k < 60; ++k) pieces();
  for (int h = 0; h < 64; ++h) {
    int k = h & 3, i = h >> 2 & 3, p = h >> 4 & 3;
    rp::input("credentials " + std::to_string(k) + std::to_string(i) + std::to_string(p) + " (0 missing, 1 unfinished, 2 given, 3 cleared)");
    crypto::SecurePassword* r = static_cast<crypto::SecurePassword*>(::operator new(sizeof(crypto::SecurePassword)));
    NonEmptyString* n = static_cast<NonEmptyString*>(::operator new(sizeof(NonEmptyString)));
    Str e = err([&] { cred_pw(r, k, i, p, "kw", "12", "pw"); }), f = err([&] { cred_obf(n, k, i, p, "kw", "12", "pw", NonEmptyString(std::vector<byte>(3, 'x'))); });
    bool pm = !i || !p, pu = i != 2 || p != 2;
    rp::check(pm ? e == "uninitialised" : pu ? e == "uninitialised" || e == "symmetric_encryption_error" : e == "", "CreateSecurePassword: '" + e + "'");
    pm = pm || !k; pu = pu || k != 2;
    rp::check(pm ? f == "uninitialised" : pu ? f == "uninitialised" || f == "symmetric_encryption_error" : f == "", "Obfuscate: '" + f + "'");
    if (e.empty()) r->~TaggedValue();
    if (f.empty()) n->~NonEmptyString();
    ::operator delete(r); ::operator delete(n);
  }
  texts("", ""); texts("a", ""); texts("", "b");
  for (size_t n : {1, 2, 47, 48, 49, 95, 96, 97, 144, 192, 193, 1000}) one("keyword", n % 2 ? "1234" : "4999", "password", rp::rnd(n));
  for (const char* i : {"0", "00", "5000", "9999", "10000", "2147483648", "4294967295", "4294967290"}) one("k", i, "p", "data");
  while (clk.more()) {
    pieces();
    if (rp::R(2)) texts(rp::rnd(rp::R(40)), rp::rnd(rp::R(200)));
    else one(rp::rnd(1 + rp::R(70)), rp::pick(1 + rp::R(9), "0123456789"), rp::rnd(1 + rp::R(90)), rp::rnd(1 + rp::R(300)));
  }
}
