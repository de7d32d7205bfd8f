#include "replay.h"
#include <chrono>
#include <memory>
#include <string>
#include <vector>
#include "maidsafe/common/error.h"
#include "maidsafe/common/containers/lru_cache.h"

// the clock of this program
static long g_now = 1000;  // moves only between calls
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_now)); }
} } }

using namespace maidsafe;
typedef std::chrono::steady_clock::duration Dur;

struct Model {
  struct E { long k, v, t; };
  std::vector<E> e;  // least recently used first
  unsigned long cap;
  long ttl;
  int find(long k) { for (size_t i = 0; i < e.size(); ++i) if (e[i].k == k) return i; return -1; }
  void add(long k, long v) {
    if (cap == 0 || find(k) >= 0) return;
    if (e.size() == cap) e.erase(e.begin());
    while (ttl && !e.empty() && e[0].t + ttl < g_now) e.erase(e.begin());
    e.push_back(E{k, v, g_now});
  }
};

template <typename C> static C* Make(int how, unsigned long cap, long ttl) {
  return how == 0 ? new C(static_cast<size_t>(cap)) : how == 1 ? new C(Dur(ttl)) : new C(cap, Dur(ttl));
}

static void Go() {
  int how = rp::rng()() % 3;
  static const unsigned long caps[] = {0, 1, 2, 3, 5, 8, 1ul << 40, ~0ul};
  static const long ttls[] = {0, 1, 2, 5, 10, 100, 1000000007L};
  unsigned long cap = caps[rp::rng()() % 8];
  long ttl = ttls[rp::rng()() % 7];
  std::unique_ptr<LruCache<long, long>> c(Make<LruCache<long, long>>(how, cap, ttl));
  std::unique_ptr<LruCache<long, void>> f(Make<LruCache<long, void>>(how, cap, ttl));
  std::unique_ptr<LruCache<std::string, std::string>> s(Make<LruCache<std::string, std::string>>(how, cap, ttl));
  Model m, mf;
  m.cap = mf.cap = how == 1 ? ~0ul : cap;
  m.ttl = mf.ttl = how == 0 ? 0 : ttl;
  std::string log = "new(how=" + std::to_string(how) + ",cap=" + std::to_string(cap) + ",ttl=" + std::to_string(ttl) + ")";
  auto S = [](long k) { return std::string(30, 'k') + std::to_string(k); };
  int n = 1 + rp::rng()() % 60, keys = 1 + rp::rng()() % 12;
  for (int i = 0; i < n; ++i) {
    long k = static_cast<long>(rp::rng()() % keys) - 3, v = static_cast<long>(rp::rng()());
    int op = rp::rng()() % 8;
    g_now += rp::rng()() % 3 ? 0 : rp::rng()() % 4;
    switch (op) {
      case 0: case 1: case 2:
        log += " Add(" + std::to_string(k) + ")@" + std::to_string(g_now);
        rp::input(log);
        c->Add(k, v); f->Add(k); s->Add(S(k), S(v)); m.add(k, v); mf.add(k, v);
        break;
      case 3: case 4: {
        log += " Get(" + std::to_string(k) + ")";
        rp::input(log);
        auto r = c->Get(k);
        auto rs = s->Get(S(k));
        int j = m.find(k);
        if (bool(r) != (j >= 0) || bool(rs) != (j >= 0)) return rp::input(log), rp::fail("found differs");
        if (j >= 0) {
          if (*r != m.e[j].v || *rs != S(m.e[j].v)) return rp::input(log), rp::fail("value differs");
          auto e = m.e[j];
          m.e.erase(m.e.begin() + j);
          m.e.push_back(e);
        } else if (r.error().code() != make_error_code(CommonErrors::no_such_element)) {
          return rp::input(log), rp::fail("error differs");
        }
        break;
      }
      case 5: {
        log += " Delete(" + std::to_string(k) + ")";
        rp::input(log);
        c->Delete(k); s->Delete(S(k));
        int j = m.find(k);
        if (j >= 0) m.e.erase(m.e.begin() + j);
        break;
      }
      default: break;
    }
    if (c->size() != m.e.size() || s->size() != m.e.size() || f->size() != mf.e.size()) return rp::input(log), rp::fail("size differs");
    for (long q = -3; q < keys - 3; ++q)
      if (c->Check(q) != (m.find(q) >= 0) || s->Check(S(q)) != (m.find(q) >= 0) || f->Check(q) != (mf.find(q) >= 0)) return rp::input(log), rp::fail("Check(" + std::to_string(q) + ") differs");
  }
}
void vp_replay(const rp::Cands&, rp::Clock clock) {
  while (clock.more()) for (int i = 0; i < 100; ++i) Go();
}
