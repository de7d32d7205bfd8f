#include "replay.h"
#include "maidsafe/common/convert.h"
using namespace maidsafe;
typedef asio::ip::address_v4 A4; typedef boost::asio::ip::address_v4 B4;
typedef asio::ip::address_v6 A6; typedef boost::asio::ip::address_v6 B6;
template <typename T> static typename T::bytes_type arr(const std::string& b) { typename T::bytes_type r; for (unsigned i = 0; i < r.size(); ++i) r[i] = b[i]; return r; }
template <typename T> static std::string str(const T& r) { std::string s; for (auto c : r) s += static_cast<char>(c); return s; }
static void one(const std::string& b, unsigned long scope, unsigned short port) {
  rp::input("v4 address " + rp::hexs(b.substr(0, 4)) + " port " + std::to_string(port));
  std::string b4 = b.substr(0, 4);
  A4 a4(arr<A4>(b4)); B4 q4(arr<B4>(b4));
  rp::check(str(convert::ToBoost(a4).to_bytes()) == b4, "ToBoost(address_v4)");
  rp::check(str(convert::ToAsio(q4).to_bytes()) == b4, "ToAsio(address_v4)");
  boost::asio::ip::address t(convert::ToBoost(asio::ip::address(a4)));
  rp::check(t.is_v4() && str(t.to_v4().to_bytes()) == b4, "ToBoost(address)");
  asio::ip::address u(convert::ToAsio(boost::asio::ip::address(q4)));
  rp::check(u.is_v4() && str(u.to_v4().to_bytes()) == b4, "ToAsio(address)");
  auto e(convert::ToBoost(asio::ip::udp::endpoint(a4, port)));
  rp::check(e.port() == port && e.address().is_v4() && str(e.address().to_v4().to_bytes()) == b4, "ToBoost(endpoint)");
  auto g(convert::ToAsio(boost::asio::ip::udp::endpoint(q4, port)));
  rp::check(g.port() == port && g.address().is_v4() && str(g.address().to_v4().to_bytes()) == b4, "ToAsio(endpoint)");
  rp::input("v6 address " + rp::hexs(b) + " scope " + std::to_string(scope) + " port " + std::to_string(port));
  A6 a6(arr<A6>(b), scope); B6 q6(arr<B6>(b), scope);
  auto x(convert::ToBoost(a6)); rp::check(str(x.to_bytes()) == b && x.scope_id() == scope, "ToBoost(address_v6)");
  auto y(convert::ToAsio(q6)); rp::check(str(y.to_bytes()) == b && y.scope_id() == scope, "ToAsio(address_v6)");
  t = convert::ToBoost(asio::ip::address(a6));
  rp::check(t.is_v6() && str(t.to_v6().to_bytes()) == b && t.to_v6().scope_id() == scope, "ToBoost(address)");
  u = convert::ToAsio(boost::asio::ip::address(q6));
  rp::check(u.is_v6() && str(u.to_v6().to_bytes()) == b && u.to_v6().scope_id() == scope, "ToAsio(address)");
  e = convert::ToBoost(asio::ip::udp::endpoint(a6, port));
  rp::check(e.port() == port && e.address().is_v6() && str(e.address().to_v6().to_bytes()) == b && e.address().to_v6().scope_id() == scope, "ToBoost(endpoint)");
  g = convert::ToAsio(boost::asio::ip::udp::endpoint(q6, port));
  rp::check(g.port() == port && g.address().is_v6() && str(g.address().to_v6().to_bytes()) == b && g.address().to_v6().scope_id() == scope, "ToAsio(endpoint)");
}
static void err(int v) {
  rp::input("ToStd(error_code(" + std::to_string(v) + "))");
  for (int k = 0; k < 2; ++k) {
    std::error_code e(convert::ToStd(k ? boost::system::error_code(v, boost::system::generic_category()) : boost::system::error_code(v, boost::system::system_category())));
    rp::check(e.value() == v && e.category() == std::generic_category(), "value or category not kept");
  }
}
static void strs(const std::string& s) {
  rp::input("string " + rp::show(s));
  std::vector<unsigned char> v(s.begin(), s.end());
  rp::check(convert::ToByteVector(s) == v, "ToByteVector");
  rp::check(convert::ToString(v) == s, "ToString");
}
void vp_replay(const rp::Cands& c, rp::Clock clock) {
  std::map<int, unsigned char> by;
  for (auto& p : c.nums) {
    int i; if (sscanf(p.first.c_str(), "byte%d", &i) == 1) by[i] = static_cast<unsigned char>(p.second);
    err(static_cast<int>(p.second));
  }
  for (auto& p : c.bytes) strs(p.second);
  std::string b(16, 0);
  for (auto& p : by) if (p.first < 16) b[p.first] = p.second;
  std::vector<uint64_t> sc{0, 1, 4294967295UL}, po{0, 1, 65535};
  for (auto& p : c.nums) { if (p.first == "scope") sc.push_back(p.second & 0xffffffff); if (p.first == "port") po.push_back(p.second & 0xffff); }
  for (auto s : sc) for (auto q : po) one(b, s, q);
  // well known prefixes (loopback, link local, v4 mapped, multicast)
  static const char* pre[] = {"", "\xfe\x80", "\xff\x02", "\x7f", "\xff\xff\xff\xff", "\x20\x01", "\xfd"};
  while (clock.more()) for (int i = 0; i < 2000; ++i) {
    std::string a = rp::rnd(16);
    if (rp::R(3) == 0) for (auto& x : a) x = rp::R(2) ? 0 : x;
    if (rp::R(3) == 0) { std::string p = pre[rp::R(7)]; a.replace(0, p.size(), p); }
    if (rp::R(8) == 0) { a = std::string(10, 0) + "\xff\xff" + a.substr(12); }
    if (rp::R(8) == 0) { a = std::string(15, 0) + "\x01"; }
    one(a, rp::R(2) ? rp::num() & 0xffffffff : rp::R(3), rp::num() & 0xffff);
    err(static_cast<int>(rp::num())); err(i - 300);
    if (i % 40 == 0) strs(rp::rnd(rp::len(5000)));
  }
}
