#include "replay.h"
#include "condfault.h"
#include <atomic>
#include <memory>
#include <thread>
#include "maidsafe/common/active.h"
using maidsafe::Active;
static void one(int nt, int per, int pause, bool nested) {
  rp::input(std::to_string(nt) + " threads sending " + std::to_string(per) + " functors each" + (nested ? ", each sending another" : "") + ", " + std::to_string(pause) + " us of work, then destruction");
  std::vector<long> ran; std::atomic<int> inside(0); std::atomic<long> extra(0);
  {
    std::unique_ptr<Active> a(new Active);
    Active* p = a.get();
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
      for (int i = 0; i < per; ++i) {
        auto held = std::make_shared<int>(i);
        p->Send([&, t, i, held, p] {
          rp::check(++inside == 1, "two functors run at the same time");
          if (pause) usleep(pause);
          ran.push_back((long(t) << 32) | i);
          if (nested) p->Send([&] { ++extra; });
          --inside;
        });
      }
    });
    for (auto& t : ts) t.join();
  }
  rp::check(ran.size() == size_t(nt) * per, std::to_string(ran.size()) + " functors ran");
  std::map<long, long> last;
  for (long v : ran) { long t = v >> 32, i = v & 0xffffffff; rp::check((last.count(t) ? last[t] : -1) + 1 == i, "a thread's functors run out of order or twice"); last[t] = i; }
  if (nested) rp::check(extra <= nt * per, "functors run twice");
}
void vp_replay(const rp::Cands&, rp::Clock clock) {
  RP_FAULTS_ON();
  rp::input("construction and destruction"); for (int i = 0; i < 50; ++i) Active a;
  while (clock.more()) {
    for (int nt : {1, 2, 4}) for (int pause : {0, 0, 50}) one(nt, pause ? 20 : 1 + rp::R(200), pause, rp::R(2));
    rp::input("a functor while the worker is waiting");
    for (int i = 0; i < 5; ++i) { Active a; std::atomic<bool> done(false); usleep(1000); a.Send([&] { done = true; }); while (!done) std::this_thread::yield(); }
    rp::input("a functor sends to an Active that is being destroyed");
    { std::atomic<int> n(0); { Active a; Active* p = &a; a.Send([&, p] { usleep(3000); p->Send([&] { ++n; }); ++n; }); } rp::check(n >= 1, "not run"); }
  }
}
