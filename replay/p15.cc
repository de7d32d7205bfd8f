#include "replay.h"
#include "maidsafe/common/clock.h"
using namespace maidsafe;
static void to(int64_t p) {
  rp::input("Clock::to_time_t(" + std::to_string(p) + " ns)");
  int64_t q = p / 1000000000, r = Clock::to_time_t(Clock::time_point(Clock::duration(p)));
  rp::check(q == r, "gives " + std::to_string(r));
}
static void from(int64_t t) {
  if (t > 9223372036 || t < -9223372036) return;
  rp::input("Clock::from_time_t(" + std::to_string(t) + ")");
  int64_t r = Clock::from_time_t(t).time_since_epoch().count();
  rp::check(r == t * 1000000000, "gives " + std::to_string(r) + " ns");
  rp::check(Clock::to_time_t(Clock::from_time_t(t)) == t, "round trip");
}
void vp_replay(const rp::Cands& c, rp::Clock clock) {
  for (auto& p : c.nums) { to(p.second); from(p.second); }
  rp::input("Clock::now()");
  auto a = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
  auto b = Clock::now().time_since_epoch().count();
  auto d = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
  rp::check(a <= b && b <= d, "is not the system clock in nanoseconds");
  for (int64_t t = -3000; t < 3000; ++t) { from(t); to(t); to(t * 1000000000); to(t * 1000000000 + 1); to(t * 1000000000 - 1); }
  while (clock.more()) for (int i = 0; i < 100000; ++i) { int64_t x = rp::num(); to(x); from(x); if (x != INT64_MIN) from(-x); from(x % 9223372037); x = x % 9223372036; to(x * 1000000000); to(x * 1000000000 - 1); }
}
