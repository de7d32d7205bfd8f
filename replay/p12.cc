#include "replay.h"
#include "condfault.h"
#include <atomic>
#include <deque>
#include <memory>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <queue>
#include "maidsafe/common/safe_queue.h"
template <typename T> T mk(long v);
template <> long mk<long>(long v) { return v; }
template <> std::unique_ptr<long> mk<std::unique_ptr<long>>(long v) { return std::unique_ptr<long>(new long(v)); }
static long get(long v) { return v; }
static long get(const std::unique_ptr<long>& p) { return p ? *p : -1; }
template <typename T> void sequential(int ops) {
  SafeQueue<T> q; std::deque<long> d; std::string tr = "one thread:";
  for (int i = 0; i < ops; ++i) {
    switch (rp::R(5)) {
      case 0: case 1: { long v = long(rp::R(1000)); tr += " Push(" + std::to_string(v) + ")"; rp::input(tr); q.Push(mk<T>(v)); d.push_back(v); break; }
      case 2: {
        T t = mk<T>(7777); tr += " TryPop"; rp::input(tr); bool r = q.TryPop(t);
        rp::check(r == !d.empty(), r ? "pops from an empty queue" : "does not pop");
        rp::check(get(t) == (d.empty() ? 7777 : d.front()), "gives " + std::to_string(get(t)));
        if (!d.empty()) d.pop_front();
        break; }
      case 3: if (!d.empty()) { T t = mk<T>(7777); tr += " WaitAndPop"; rp::input(tr); q.WaitAndPop(t); rp::check(get(t) == d.front(), "gives " + std::to_string(get(t))); d.pop_front(); } break;
      case 4: tr += " Size"; rp::input(tr); rp::check(q.Size() == d.size(), "size " + std::to_string(q.Size())); rp::check(q.Empty() == d.empty(), "Empty is wrong");
    }
  }
}
template <typename T> void threads(int np, int nc, long per, bool wait) {
  rp::input(std::to_string(np) + " producers of " + std::to_string(per) + " elements, " + std::to_string(nc) + " consumers using " + (wait ? "WaitAndPop" : "TryPop"));
  SafeQueue<T> q; std::atomic<long> left(np * per); std::vector<std::vector<long>> got(nc); std::vector<std::thread> ts;
  for (int c = 0; c < nc; ++c) ts.emplace_back([&, c] {
    if (wait) { long share = np * per / nc + (c < np * per % nc); for (long i = 0; i < share; ++i) { T t = mk<T>(-1); q.WaitAndPop(t); got[c].push_back(get(t)); } }
    else while (left > 0) { T t = mk<T>(-1); if (q.TryPop(t)) { --left; got[c].push_back(get(t)); } else { q.Size(); std::this_thread::yield(); } }
  });
  if (rp::R(2)) usleep(2000);
  for (int p = 0; p < np; ++p) ts.emplace_back([&, p] { for (long i = 0; i < per; ++i) q.Push(mk<T>((long(p) << 32) | i)); });
  for (auto& t : ts) t.join();
  rp::check(q.Empty() && q.Size() == 0, "elements are left");
  std::vector<long> all;
  for (auto& g : got) {
    std::map<long, long> last;
    for (long v : g) { long p = v >> 32, i = v & 0xffffffff; rp::check(v >= 0, "an element that was not pushed"); if (last.count(p)) rp::check(last[p] < i, "a producer's elements come out of order"); last[p] = i; all.push_back(v); }
  }
  std::sort(all.begin(), all.end());
  rp::check(std::adjacent_find(all.begin(), all.end()) == all.end(), "an element comes out twice");
  rp::check(all.size() == size_t(np * per), "elements are lost");
}
void vp_replay(const rp::Cands&, rp::Clock clock) {
  RP_FAULTS_ON();
  typedef std::unique_ptr<long> U;
  for (int i = 0; i < 20; ++i) { sequential<long>(60); sequential<U>(60); }
  while (clock.more()) {
    for (int nc : {1, 2, 4}) for (int np : {1, 3}) { threads<long>(np, nc, 1 + rp::R(6), true); threads<U>(np, nc, 1 + rp::R(300), rp::R(2)); threads<long>(np, nc, 200, false); }
    for (int i = 0; i < 5; ++i) { sequential<long>(40); sequential<U>(40); }
  }
}
