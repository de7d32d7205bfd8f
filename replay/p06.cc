#include "replay.h"
#include "maidsafe/common/types.h"
using namespace maidsafe;
struct TagX;
template <typename T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }
static std::string str(const std::string& s) { return rp::show(s); }
static std::string str(const std::vector<unsigned char>& s) { return rp::show(std::string(s.begin(), s.end())); }
template <typename T> struct Ar { T v; Ar& operator()(T& t) { std::swap(t, v); return *this; } };
template <typename T> void pair(const T& a, const T& b) {
  typedef TaggedValue<T, TagX> V;
  rp::input("TaggedValue of " + str(a) + " and " + str(b));
  V x(a), y(b); const V& cx = x;
  rp::check((x == y) == (a == b), "=="); rp::check((x != y) == (a != b), "!="); rp::check((x < y) == (a < b), "<");
  rp::check((x > y) == (a > b), ">"); rp::check((x <= y) == (a <= b), "<="); rp::check((x >= y) == (a >= b), ">=");
  rp::check(static_cast<T>(x) == a && *cx.operator->() == a && *x.operator->() == a && x.data == a, "value");
  V c(x), mv(std::move(c)); rp::check(mv.data == a, "copy/move"); V z; z = y; rp::check(z.data == b && y.data == b, "assign");
  if (std::is_integral<T>::value) { V& r = z; z = std::move(r); rp::check(z.data == b, "self-move-assign"); }
  z = z; rp::check(z.data == b, "self-assign"); V w; w = std::move(z); rp::check(w.data == b, "move assign");
  Ar<T> ar{b}; x.serialize(ar); rp::check(x.data == b && ar.v == a, "serialize");
}
void vp_replay(const rp::Cands& c, rp::Clock clock) {
  std::vector<std::string> cs; std::vector<uint64_t> ns{0, 1, 2};
  for (auto& p : c.bytes) cs.push_back(p.second);
  for (auto& p : c.nums) if (p.first != "const") ns.push_back(p.second);
  for (auto& a : cs) for (auto& b : cs) pair(a, b);
  for (auto a : ns) for (auto b : ns) { pair<uint32_t>(a, b); pair<long>(a, b); }
  while (clock.more()) for (int i = 0; i < 200; ++i) {
    size_t n = rp::len(300); std::string a = rp::R(2) ? rp::rnd(n) : rp::pick(n, "ab"), b = rp::R(2) ? a : rp::rnd(rp::len(300));
    if (!b.empty() && rp::R(2)) b[rp::R(b.size())] ^= 1 << rp::R(8);
    if (rp::R(3) == 0) b.resize(rp::R(b.size() + 1));
    pair(a, b); pair(b, a); pair(std::vector<unsigned char>(a.begin(), a.end()), std::vector<unsigned char>(b.begin(), b.end()));
    uint64_t x = rp::num(), y = rp::R(3) ? x + rp::R(3) - 1 : rp::num();
    pair<uint32_t>(x, y); pair<long>(x, y);
  }
}
