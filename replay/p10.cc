#include "replay.h"
#include "maidsafe/common/data_types/data.h"
#include "maidsafe/common/data_types/immutable_data.h"
#include "maidsafe/common/data_types/mutable_data.h"
using namespace maidsafe;
typedef std::vector<unsigned char> Bytes;
typedef Data::NameAndTypeId NT;
static std::string S(const Bytes& b) { return std::string(b.begin(), b.end()); }
static Bytes B(const std::string& s) { return Bytes(s.begin(), s.end()); }
static std::string sha(const std::string& s) {
  CryptoPP::SHA512 h; std::string d(64, 0);
  h.CalculateDigest(reinterpret_cast<unsigned char*>(&d[0]), reinterpret_cast<const unsigned char*>(s.data()), s.size());
  return d;
}
struct RawIn { const Bytes* s; bool fail; void operator()(Bytes& t) { if (fail) throw std::runtime_error("archive"); t = *s; } };
struct RawOut { Bytes* s; RawOut& operator()(const Bytes& t) { *s = t; return *this; } };
struct In {
  Bytes name, value; bool fn = false, fv = false; unsigned type = 0;
  void one(Identity& i) { RawIn r{&name, fn}; i.load(r); }
  void one(NonEmptyString& v) { RawIn r{&value, fv}; v.load(r); }
  void one(DataTypeId& t) { t.data = type; }
  template <typename T> void one(const cereal::base_class<T>& b) { b.base_ptr->load(*this); }
  template <typename... A> In& operator()(A&&... a) { int x[] = {(one(a), 0)...}; (void)x; return *this; }
};
struct Out {
  Bytes name, value; std::string order; unsigned type = 0;
  void one(const Identity& i) { order += 'n'; RawOut r{&name}; i.save(r); }
  void one(const NonEmptyString& v) { order += 'v'; RawOut r{&value}; v.save(r); }
  void one(const DataTypeId& t) { order += 't'; type = t.data; }
  template <typename T> void one(const cereal::base_class<T>& b) { b.base_ptr->save(*this); }
  template <typename... A> Out& operator()(A&&... a) { int x[] = {(one(a), 0)...}; (void)x; return *this; }
};
template <typename F> static int code(F f) {
  try { f(); return -1; } catch (const maidsafe_error& e) { return e.code().category() == GetCommonCategory() ? e.code().value() : -2; } catch (const std::exception&) { return -3; }
}
static const int UNI = static_cast<int>(CommonErrors::uninitialised), PARSE = static_cast<int>(CommonErrors::parsing_error);
template <typename D> static void is(const D& d, const std::string& n, const std::string& v, int tid, const char* w) {
  std::string s(w);
  rp::check(d.IsInitialised(), s + ": not initialised");
  rp::check(S(d.Name().string()) == n, s + ": name");
  rp::check(S(d.Value().string()) == v, s + ": value");
  rp::check(static_cast<int>(d.TypeId().data) == tid, s + ": type id");
  NT nt(d.NameAndType());
  rp::check(S(nt.name.string()) == n && static_cast<int>(nt.type_id.data) == tid, s + ": NameAndType");
  Out o; d.save(o);
  rp::check(o.order == "nv" && S(o.name) == n && S(o.value) == v, s + ": save");
}
template <typename D> static void none(const D& d, const char* w) {
  std::string s(w);
  rp::check(!d.IsInitialised(), s + ": initialised");
  rp::check(code([&] { d.Name(); }) == UNI && code([&] { d.Value(); }) == UNI && code([&] { d.TypeId(); }) == UNI && code([&] { d.NameAndType(); }) == UNI, s + ": access does not throw uninitialised");
  Out o; rp::check(code([&] { d.save(o); }) == UNI, s + ": save does not throw uninitialised");
}
template <typename D> static void all(const D& d, const D& e, const std::string& n, const std::string& v, const std::string& n2, const std::string& v2, int tid) {
  is(d, n, v, tid, "object");
  D c(d); is(c, n, v, tid, "copy"); is(d, n, v, tid, "source of copy");
  D mv(std::move(c)); is(mv, n, v, tid, "move");
  D z; none(z, "default"); z = mv; is(z, n, v, tid, "assignment to default"); z = e; is(z, n2, v2, tid, "assignment"); is(e, n2, v2, tid, "source of assignment");
  D& r = z; z = r; is(z, n2, v2, tid, "self assignment");
  D w(e); w = std::move(mv); is(w, n, v, tid, "move assignment");
  w = D(); none(w, "assigned a default object"); w = z; D u(w); u = D(w); is(u, n2, v2, tid, "move assignment from a temporary");
  D x; D y(x); none(y, "copy of default"); D t(std::move(y)); none(t, "move of default");
}
template <typename D> static void load(const In& in, bool ok, int tid, const char* w) {
  for (int k = 0; k < 2; ++k) {
    D d; if (k) { In g; g.value = B("old"); g.name = B(sha("old")); d.load(g); }
    In i(in); int c = code([&] { d.load(i); });
    std::string s(w);
    if (ok) { rp::check(c == -1, s + ": rejected"); is(d, S(in.name), S(in.value), tid, w); }
    else rp::check(c == PARSE, s + ": does not throw parsing_error");
  }
}
static void vals(const std::string& a, const std::string& b, const std::string& n, const std::string& n2) {
  rp::input("ImmutableData of " + rp::show(a) + " and " + rp::show(b));
  ImmutableData x((NonEmptyString(a))), y((NonEmptyString(b)));
  all(x, y, sha(a), a, sha(b), b, 0);
  rp::check(code([&] { ImmutableData q{NonEmptyString{}}; }) == UNI, "an uninitialised value is not rejected");
  rp::input("MutableData of " + rp::show(n) + ", " + rp::show(a) + " and " + rp::show(n2) + ", " + rp::show(b));
  MutableData p(Identity(B(n)), NonEmptyString(a)), q(Identity(B(n2)), NonEmptyString(b));
  all(p, q, n, a, n2, b, 1);
  rp::check(code([&] { MutableData q{Identity{}, NonEmptyString{a}}; }) == UNI, "an uninitialised name is not rejected");
  rp::check(code([&] { MutableData q{Identity{B(n)}, NonEmptyString{}}; }) == UNI, "an uninitialised value is not rejected");
  In g; g.name = B(sha(a)); g.value = B(a);
  rp::input("load of an archive of " + rp::show(a));
  load<ImmutableData>(g, true, 0, "good archive"); load<MutableData>(g, true, 1, "good archive");
  In h(g); h.name[rp::R(64)] ^= 1 << rp::R(8);
  rp::input("load of an archive of " + rp::show(a) + " with the name " + rp::show(S(h.name)));
  load<ImmutableData>(h, false, 0, "wrong name"); load<MutableData>(h, true, 1, "any name");
  if (h.value.size()) { In v(g); v.value[rp::R(v.value.size())] ^= 1 << rp::R(8); load<ImmutableData>(v, false, 0, "changed value"); v.value.push_back(0); load<ImmutableData>(v, false, 0, "longer value"); }
  In k(g); k.name.resize(rp::R(64)); load<ImmutableData>(k, false, 0, "short name"); load<MutableData>(k, false, 1, "short name");
  k = g; k.value.clear(); load<ImmutableData>(k, false, 0, "empty value"); load<MutableData>(k, false, 1, "empty value"); k.name = B(sha("")); load<ImmutableData>(k, false, 0, "empty value, its hash");
  k = g; k.fn = true; load<ImmutableData>(k, false, 0, "failing archive"); load<MutableData>(k, false, 1, "failing archive");
  k = g; k.fv = true; load<ImmutableData>(k, false, 0, "failing archive"); load<MutableData>(k, false, 1, "failing archive");
}
static int three(int a, int b) { return a < b ? -1 : a > b; }
static void nts(const std::string& a, unsigned s, const std::string& b, unsigned t) {   // an empty name: uninitialised
  rp::input("NameAndTypeId (" + rp::show(a) + ", " + std::to_string(s) + ") and (" + rp::show(b) + ", " + std::to_string(t) + ")");
  auto mk = [](const std::string& n, unsigned t) { return NT(n.empty() ? Identity() : Identity(B(n)), DataTypeId(t)); };
  NT x(mk(a, s)), y(mk(b, t));
  int c = a == b ? (s < t ? -1 : s > t) : a < b ? -1 : 1;
  rp::check((x == y) == (c == 0), "=="); rp::check((x != y) == (c != 0), "!="); rp::check((x < y) == (c < 0), "<");
  rp::check((x > y) == (c > 0), ">"); rp::check((x <= y) == (c <= 0), "<="); rp::check((x >= y) == (c >= 0), ">=");
  auto same = [](const NT& x, const std::string& n, unsigned t) { return x.type_id.data == t && x.name.IsInitialised() == !n.empty() && (n.empty() || S(x.name.string()) == n); };
  rp::check(same(x, a, s), "constructor"); NT k(x); rp::check(same(k, a, s) && same(x, a, s), "copy"); NT m(std::move(k)); rp::check(same(m, a, s), "move");
  NT z; rp::check(same(z, "", 4294967295u), "default"); z = y; rp::check(same(z, b, t) && same(y, b, t), "assign"); z = std::move(m); rp::check(same(z, a, s), "move assign");
  NT& r = z; z = r; rp::check(same(z, a, s), "self assign");
  Out o; int e = code([&] { x.serialize(o); });
  if (a.empty()) rp::check(e == UNI, "saving without a name"); else rp::check(e == -1 && o.order == "nt" && S(o.name) == a && o.type == s, "saving");
  In i; i.name = B(a); i.type = s; NT w; e = code([&] { w.serialize(i); });
  if (a.empty()) rp::check(e == PARSE, "loading a bad name"); else rp::check(e == -1 && same(w, a, s), "loading");
}
void vp_replay(const rp::Cands& c, rp::Clock clock) {
  vals("a", "b", std::string(64, 'n'), std::string(64, 'm'));
  for (auto& p : c.bytes) if (!p.second.empty() && p.second.size() != 64) vals(p.second, "b", std::string(64, 'n'), std::string(64, 'm'));
  std::vector<std::string> ns{""}; for (auto& p : c.bytes) if (p.second.size() == 64) ns.push_back(p.second);
  std::vector<unsigned> ts{0, 1}; for (auto& p : c.nums) if (p.first.find("type") != std::string::npos) ts.push_back(static_cast<unsigned>(p.second));
  for (auto& a : ns) for (auto& b : ns) for (auto s : ts) for (auto t : ts) nts(a, s, b, t);
  while (clock.more()) for (int i = 0; i < 20; ++i) {
    std::string n = rp::rnd(64), n2 = rp::R(2) ? n : rp::rnd(64); if (rp::R(2)) n2[rp::R(64)] ^= 1 << rp::R(8);
    if (rp::R(4) == 0) n[0] = 0;
    vals(rp::rnd(1 + rp::len(3000)), rp::rnd(1 + rp::len(200)), n, n2);
    for (int k = 0; k < 20; ++k) { unsigned s = static_cast<unsigned>(rp::num()), t = rp::R(2) ? s + rp::R(3) - 1 : static_cast<unsigned>(rp::num()); nts(rp::R(6) ? n : "", s, rp::R(6) ? n2 : "", t); nts(n, s, n, t); }
  }
}
