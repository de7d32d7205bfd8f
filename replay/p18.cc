#include "replay.h"
#include <atomic>
#include <cassert>
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>
#include "maidsafe/common/authentication/detail/safe_allocators.h"
using namespace maidsafe::authentication::detail;
// ---- the requests to the system
static std::map<size_t, bool> g_sys;       // page -> the system was last asked to lock it
static size_t g_page;
static std::atomic<int> g_inside(0);
static bool g_grant = true;
static std::function<void()> g_hook;
static void request(const void* p, size_t n, bool lock) {
  rp::check(++g_inside == 1, "two threads are inside at once");
  size_t a = reinterpret_cast<size_t>(p);
  rp::check(n == g_page && a % g_page == 0, "asks the system for " + std::to_string(n) + " bytes at " + std::to_string(a));
  rp::check(g_sys[a] != lock, lock ? "locks page " + std::to_string(a) + " which is locked" : "unlocks page " + std::to_string(a) + " which is not locked");
  g_sys[a] = lock;
  if (g_hook) g_hook();
  --g_inside;
}
struct Os {
  bool Lock(const void* p, size_t n) { request(p, n, true); return g_grant; }
  bool Unlock(const void* p, size_t n) { request(p, n, false); return g_grant; }
};
typedef LockedPageManagerBase<Os> Manager;
// ---- the allocators' side
static std::vector<std::pair<const void*, size_t>> g_m, g_mu;
static int g_ret = 0;
extern "C" int mlock(const void* p, size_t n) noexcept { g_m.emplace_back(p, n); return g_ret; }
extern "C" int munlock(const void* p, size_t n) noexcept;
static const unsigned char* g_block = nullptr; static size_t g_len = 0; static bool g_freed = false; static int g_phase = 0;
static void wiped(const char* when) { for (size_t i = 0; g_block && i < g_len; ++i) if (g_block[i]) rp::fail("byte " + std::to_string(i) + " is not wiped " + when); }
extern "C" int munlock(const void* p, size_t n) noexcept { g_mu.emplace_back(p, n); if (g_phase) wiped("before its page is unlocked"); return g_ret; }
static void* plain(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
static void drop(void* p) { if (g_block && p == g_block) { wiped("before it is handed back"); g_freed = true; } free(p); }
void* operator new(size_t n) { return plain(n); }
void* operator new[](size_t n) { return plain(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
LockedPageManager LockedPageManager::instance;

static void history(size_t page) {
  g_page = page; g_sys.clear(); g_grant = rp::R(4) != 0; Manager m(page); std::map<size_t, int> want; std::vector<std::pair<size_t, size_t>> held;
  std::string tr = "pages of " + std::to_string(page) + ":";
  size_t base = rp::R(2) ? page * (1 + rp::R(1000)) : (rp::R(1ull << 46) / page + 1) * page;
  int ops = 2 + int(rp::R(14));
  for (int i = 0; i < ops; ++i) {
    bool lock = held.empty() || rp::R(5) < 3;
    std::pair<size_t, size_t> r;
    if (lock) {
      size_t e[] = {0, 1, page - 1, page - 2, page / 2, rp::R(page)}, l[] = {0, 1, 2, page - 1, page, page + 1, 2 * page, 3 * page, 3 * page - 1, rp::R(4 * page), page / 2};
      r = {base + page * rp::R(4) + e[rp::R(6)] % page, l[rp::R(11)]}; held.push_back(r);
      tr += " Lock(" + std::to_string(r.first) + ", " + std::to_string(r.second) + ")"; rp::input(tr);
      m.LockRange(reinterpret_cast<void*>(r.first), r.second);
    } else {
      size_t k = rp::R(held.size()); r = held[k]; held.erase(held.begin() + k);
      tr += " Unlock(" + std::to_string(r.first) + ", " + std::to_string(r.second) + ")"; rp::input(tr);
      m.UnlockRange(reinterpret_cast<void*>(r.first), r.second);
    }
    if (r.second) for (size_t p = r.first / page; p <= (r.first + r.second - 1) / page; ++p) { want[p * page] += lock ? 1 : -1; if (!want[p * page]) want.erase(p * page); }
    rp::check(m.GetLockedPageCount() == int(want.size()), "counts " + std::to_string(m.GetLockedPageCount()) + " pages instead of " + std::to_string(want.size()));
    for (auto& w : want) rp::check(g_sys.count(w.first) && g_sys[w.first], "page " + std::to_string(w.first) + " in use is not locked");
    for (auto& s : g_sys) rp::check(!s.second || want.count(s.first), "page " + std::to_string(s.first) + " not in use is still locked");
  }
  g_grant = true;
}
// what another thread asks for while a request to the system is under way has to wait
static void exclusion(int what) {
  g_page = 4096; g_sys.clear(); Manager m(4096); std::atomic<int> go(0), back(0);
  rp::input(std::string("another thread calls ") + (what == 0 ? "GetLockedPageCount" : what == 1 ? "LockRange" : what == 2 ? "LockRange of nothing" : "UnlockRange") + " while a page is being locked");
  m.LockRange(reinterpret_cast<void*>(4096 * 9), 1);
  std::thread t([&] { while (!go) std::this_thread::yield(); if (what == 0) m.GetLockedPageCount(); if (what == 1) m.LockRange(reinterpret_cast<void*>(4096 * 9), 1); if (what == 2) m.GetLockedPageCount(); if (what == 3) m.UnlockRange(reinterpret_cast<void*>(4096 * 9), 1); back = 1; });
  std::thread w([&] { g_hook = [&] { go = 1; for (int i = 0; i < 60 && !back; ++i) usleep(1000); rp::check(!back, "it does not wait"); g_hook = nullptr; }; if (what == 2) { m.UnlockRange(reinterpret_cast<void*>(4096 * 9), 1); } else m.LockRange(reinterpret_cast<void*>(4096 * 5), 1); });
  w.join(); t.join(); g_hook = nullptr;
}
static void threads() {
  g_page = 4096; g_sys.clear(); Manager m(4096); rp::input("four threads lock and unlock the same pages");
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; ++t) ts.emplace_back([&m, t] { std::mt19937 r(t); for (int i = 0; i < 400; ++i) { size_t a = 4096 * (1 + r() % 6) + r() % 4096, n = r() % 9000; m.LockRange(reinterpret_cast<void*>(a), n); m.UnlockRange(reinterpret_cast<void*>(a), n); } });
  for (auto& t : ts) t.join();
  rp::check(m.GetLockedPageCount() == 0, "pages stay locked");
  for (auto& s : g_sys) rp::check(!s.second, "a page stays locked");
}
struct W { uint64_t a; uint32_t b; };
template <typename A> static void block(const char* nm, size_t n, bool locking) {
  typedef typename A::value_type T; const size_t size = n * sizeof(T), page = GetSystemPageSize();
  rp::input(std::string(nm) + " of " + std::to_string(sizeof(T)) + " byte elements: allocate(" + std::to_string(n) + "), deallocate");
  A a; g_m.clear(); g_mu.clear(); g_ret = rp::R(3) ? 0 : -1;
  T* p = a.allocate(n); memset(static_cast<void*>(p), 0xa5, size);
  size_t f = reinterpret_cast<size_t>(p) / page, l = size ? (reinterpret_cast<size_t>(p) + size - 1) / page : 0;
  std::vector<std::pair<const void*, size_t>> want;
  if (locking && size) for (size_t q = f; q <= l; ++q) want.emplace_back(reinterpret_cast<void*>(q * page), page);
  auto ms = g_m; rp::check(ms == want, "locks " + std::to_string(ms.size()) + " pages instead of " + std::to_string(want.size()) + " or others");
  g_block = reinterpret_cast<unsigned char*>(p); g_len = size; g_freed = false; g_phase = 1;
  a.deallocate(p, n); g_phase = 0; g_block = nullptr;
  rp::check(g_freed, "is not handed back");
  auto us = g_mu; rp::check(us == want, "unlocks " + std::to_string(us.size()) + " pages instead of " + std::to_string(want.size()) + " or others");
  rp::check(LockedPageManager::instance.GetLockedPageCount() == 0, "pages stay locked");
}
void vp_replay(const rp::Cands& cands, rp::Clock clock) {
  for (auto r = cands.nums.equal_range("address"); r.first != r.second; ++r.first) for (auto s = cands.nums.equal_range("size"); s.first != s.second; ++s.first) {
    size_t a = r.first->second, n = s.first->second; if (n > (1u << 22)) continue;
    for (size_t page : {size_t(4096), size_t(65536)}) { g_page = page; g_sys.clear(); Manager m(page); rp::input("LockRange(" + std::to_string(a) + ", " + std::to_string(n) + ") twice, UnlockRange twice"); int c = n ? int((a + n - 1) / page - a / page + 1) : 0;
      for (int i = 0; i < 4; ++i) { if (i < 2) m.LockRange(reinterpret_cast<void*>(a), n); else m.UnlockRange(reinterpret_cast<void*>(a), n); int w = i < 3 ? c : 0; rp::check(m.GetLockedPageCount() == w, "counts " + std::to_string(m.GetLockedPageCount()) + " pages instead of " + std::to_string(w)); } } }
  { MemoryPageLocker l; for (int r : {0, -1, 1}) { g_ret = r; g_m.clear(); g_mu.clear(); rp::input("MemoryPageLocker, the system answers " + std::to_string(r)); char c; auto w = std::make_pair(static_cast<const void*>(&c), size_t(4096));
      bool b = l.Lock(&c, 4096); rp::check(b == (r == 0) && g_m.size() == 1 && g_m[0] == w && g_mu.empty(), "Lock"); b = l.Unlock(&c, 4096); rp::check(b == (r == 0) && g_mu.size() == 1 && g_mu[0] == w && g_m.size() == 1, "Unlock"); } g_ret = 0; }
  rp::input("deallocate of a null pointer"); g_mu.clear(); { safe_allocator<char> a; a.deallocate(nullptr, 3); zero_after_free_allocator<char> z; z.deallocate(nullptr, 3); rp::check(g_mu.empty(), "unlocks pages"); }
  for (int w = 0; w < 4; ++w) exclusion(w);
  threads();
  while (clock.more()) {
    for (int i = 0; i < 200; ++i) history(size_t(1) << (rp::R(3) ? 12 : rp::R(2) ? 14 : rp::R(2) ? 16 : 21));
    for (int i = 0; i < 20; ++i) { size_t n = rp::len(20000);
      block<safe_allocator<char>>("safe_allocator", n, true); block<safe_allocator<W>>("safe_allocator", n / 4, true);
      block<zero_after_free_allocator<char>>("zero_after_free_allocator", n, false); block<zero_after_free_allocator<W>>("zero_after_free_allocator", n / 4, false); }
  }
}
