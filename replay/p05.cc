#include "replay.h"
#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/types.h"
#include "maidsafe/common/error.h"
using namespace maidsafe;
using maidsafe::detail::BoundedString;
typedef std::vector<unsigned char> Bytes;
// The oracle's view of an object: initialised or not, and the characters held.
struct Model { bool valid; std::string s; };
template <typename B> struct Lim;
template <std::size_t L, std::size_t H, typename S> struct Lim<BoundedString<L, H, S>> { typedef S Str; static const std::size_t lo = L, hi = H; };
template <typename S> static S mk(const std::string& s) { return S(s.begin(), s.end()); }
template <typename B> static bool inb(const std::string& s) { return s.size() >= Lim<B>::lo && s.size() <= Lim<B>::hi; }
template <typename S> struct In { S s; bool bad; void operator()(S& t) { if (bad) throw std::exception(); t = s; } };
template <typename S> struct Out { S s; Out& operator()(const S& t) { s = t; return *this; } };
template <typename F> static bool throws_with(CommonErrors e, F f) {
  try { f(); } catch (const maidsafe_error& x) { rp::check(x.code() == make_error_code(e), "wrong error code"); return true; }
  return false;
}
template <typename B> static void same(const B& b, const Model& m, const char* what) {
  std::string w = std::string(what) + ": ";
  rp::check(b.IsInitialised() == m.valid, w + "IsInitialised() is wrong");
  if (!m.valid) {
    rp::check(throws_with(CommonErrors::uninitialised, [&] { b.string(); }), w + "string() of an uninitialised object does not throw");
    rp::check(throws_with(CommonErrors::uninitialised, [&] { b.size(); }), w + "size() of an uninitialised object does not throw");
    rp::check(throws_with(CommonErrors::uninitialised, [&] { b.data(); }), w + "data() of an uninitialised object does not throw");
    rp::check(throws_with(CommonErrors::uninitialised, [&] { b[0]; }), w + "[] of an uninitialised object does not throw");
    rp::check(throws_with(CommonErrors::uninitialised, [&] { Out<typename Lim<B>::Str> o; b.save(o); }), w + "save of an uninitialised object does not throw");
    return;
  }
  rp::check(inb<B>(m.s) && b.size() >= Lim<B>::lo && b.size() <= Lim<B>::hi, w + "initialised but out of bounds");
  rp::check(std::string(b.string().begin(), b.string().end()) == m.s, w + "wrong string");
  rp::check(b.size() == m.s.size(), w + "wrong size");
  if (!m.s.empty()) rp::check(!memcmp(b.data(), m.s.data(), m.s.size()), w + "wrong data()");
  for (size_t i = 0; i < m.s.size(); ++i) rp::check(static_cast<char>(b[i]) == m.s[i], w + "wrong element");
  Out<typename Lim<B>::Str> o; b.save(o);
  rp::check(std::string(o.s.begin(), o.s.end()) == m.s, w + "wrong archive");
}
template <typename B> static bool make(const std::string& s, B& b, Model& m) {
  rp::input("construction from " + rp::show(s));
  bool t = throws_with(CommonErrors::outside_of_bounds, [&] { b = B(mk<typename Lim<B>::Str>(s)); });
  rp::check(t == !inb<B>(s), t ? "rejected a string within the bounds" : "accepted a string outside the bounds");
  if constexpr (std::is_same<typename Lim<B>::Str, Bytes>::value)
    t = throws_with(CommonErrors::outside_of_bounds, [&] { B c(s); b = c; });
  rp::check(t == !inb<B>(s), t ? "rejected a std::string within the bounds" : "accepted a std::string outside the bounds");
  if (t) return false;
  m.valid = true; m.s = s;
  same(b, m, "constructed");
  return true;
}
template <typename B> static void cmp(const B& a, const Model& x, const B& b, const Model& y) {
  rp::input("comparison of " + rp::show(x.s) + " and " + rp::show(y.s));
  int c = x.valid && y.valid ? x.s.compare(y.s) : x.valid == y.valid ? 0 : x.valid ? 1 : -1;
  rp::check((a == b) == (c == 0), "==");
  rp::check((a != b) == (c != 0), "!=");
  rp::check((a < b) == (c < 0), "<");
  rp::check((a > b) == (c > 0), ">");
  rp::check((a <= b) == (c <= 0), "<=");
  rp::check((a >= b) == (c >= 0), ">=");
}
template <typename B> static std::string sample(int k) {
  size_t lo = Lim<B>::lo, hi = std::min<size_t>(Lim<B>::hi, lo + 70), n = lo + rp::R(hi - lo + 1);
  if (k == 1) n = rp::R(hi + 3);
  if (k == 4) n = rp::len(Lim<B>::hi > 100000 ? 100000 : hi + 3);
  if (k == 2) n = lo ? lo - 1 : hi + 1;
  if (k == 3) n = hi + 1;
  std::string s = rp::R(2) ? rp::rnd(n) : rp::pick(n, "ab");
  return s;
}
template <typename B> static void run(const std::string* given) {
  typedef typename Lim<B>::Str Str;
  std::vector<B> objs(3); std::vector<Model> ms(3);
  for (int i = 0; i < 3; ++i) { ms[i].valid = Lim<B>::lo == 0; same(objs[i], ms[i], "default constructed"); }
  for (int step = 0; step < 30; ++step) {
    size_t i = rp::R(3), j = rp::R(3); std::string s = given && rp::R(2) ? *given : sample<B>(static_cast<int>(rp::R(12)));
    switch (rp::R(11)) {
      case 0: case 1: case 2: make(s, objs[i], ms[i]); break;
      case 3: rp::input("copy assignment"); objs[i] = const_cast<const B&>(objs[j]); ms[i] = ms[j]; break;
      case 4: rp::input("move assignment of " + rp::show(ms[j].s)); {
        bool self = i == j; objs[i] = std::move(objs[j]);
        if (!self) { ms[i] = ms[j]; }
        B& src = objs[j];
        if (src.IsInitialised()) { rp::check(src.size() >= Lim<B>::lo && src.size() <= Lim<B>::hi, "moved-from object is initialised but out of bounds"); ms[j].valid = true; ms[j].s.assign(src.string().begin(), src.string().end()); }
        else { ms[j].valid = false; ms[j].s.clear(); }
        break; }
      case 5: { rp::input("copy construction"); B c(const_cast<const B&>(objs[j])); same(c, ms[j], "copy"); break; }
      case 6: { rp::input("move construction of " + rp::show(ms[j].s)); B c(std::move(objs[j])); same(c, ms[j], "moved");
        if (objs[j].IsInitialised()) { rp::check(objs[j].size() >= Lim<B>::lo && objs[j].size() <= Lim<B>::hi, "moved-from object is initialised but out of bounds"); ms[j].s.assign(objs[j].string().begin(), objs[j].string().end()); }
        else { ms[j].valid = false; ms[j].s.clear(); }
        break; }
      case 7: { rp::input("load of " + rp::show(s)); In<Str> in{mk<Str>(s), rp::R(4) == 0};
        bool t = throws_with(CommonErrors::parsing_error, [&] { objs[i].load(in); });
        rp::check(t == (in.bad || !inb<B>(s)), t ? "load rejected a good input" : "load accepted a bad input");
        if (!t) { ms[i].valid = true; ms[i].s = s; }
        break; }
      case 8: if (ms[i].valid && !ms[i].s.empty()) { size_t k = rp::R(ms[i].s.size()); rp::input("element write"); objs[i][k] = static_cast<typename Str::value_type>(s.size()); ms[i].s[k] = static_cast<char>(s.size()); } break;
      case 9: cmp(objs[i], ms[i], objs[j], ms[j]); break;
      case 10: { B a, b; Model x{Lim<B>::lo == 0, ""}, y = x; cmp(a, x, b, y); std::string p = sample<B>(0);
        if (make(p, a, x)) { cmp(a, x, b, y); cmp(b, y, a, x); if (!p.empty()) { std::string q = p; q[rp::R(q.size())] = static_cast<char>(rp::R(256)); if (make(q, b, y)) cmp(a, x, b, y); }
          std::string q = p + "a"; if (make(q, b, y)) { cmp(a, x, b, y); cmp(b, y, a, x); } } break; }
    }
    for (int k = 0; k < 3; ++k) same(objs[k], ms[k], "afterwards");
  }
}
template <typename B> static void xr() {
  B a, b; Model x{false, ""}, y = x; std::string s = rp::rnd(Lim<B>::lo), t = rp::rnd(Lim<B>::lo), w(s);
  if (rp::R(4)) make(s, a, x);
  if (rp::R(4)) make(t, b, y);
  rp::input("xor of " + rp::show(x.s) + " and " + rp::show(y.s));
  B r; bool th = throws_with(CommonErrors::uninitialised, [&] { r = a ^ b; });
  rp::check(th == !(x.valid && y.valid), "uninitialised operands");
  for (size_t i = 0; i < w.size(); ++i) w[i] = static_cast<char>(s[i] ^ t[i]);
  if (!th) { Model m{true, w}; same(r, m, "xor"); }
}
template <typename From, typename To> static void conv() {
  From a; Model x{Lim<From>::lo == 0, ""};
  if (rp::R(4)) make(sample<From>(0), a, x);
  rp::input("conversion of " + rp::show(x.s));
  To b(a); same(b, x, "converted"); 
  if constexpr (std::is_same<typename Lim<From>::Str, typename Lim<To>::Str>::value) { To c; c = a; same(c, x, "assigned by conversion"); }
  same(a, x, "source of a conversion");
}
void vp_replay(const rp::Cands& c, rp::Clock clock) {
  typedef BoundedString<1> NE; typedef BoundedString<64, 64> ID; typedef BoundedString<2, 5, std::string> SS; typedef BoundedString<0, 3, std::string> ZS; typedef BoundedString<5, 5, std::string> FS;
  for (auto& p : c.bytes) for (int i = 0; i < 20; ++i) { run<NE>(&p.second); run<ID>(&p.second); run<SS>(&p.second); run<ZS>(&p.second); }
  while (clock.more()) {
    run<NE>(nullptr); run<ID>(nullptr); run<SS>(nullptr); run<ZS>(nullptr); run<FS>(nullptr); xr<FS>(); xr<ID>(); conv<SS, NE>(); conv<ID, NE>();
  }
}
