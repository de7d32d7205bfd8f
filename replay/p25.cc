#include "replay.h"
#include <random>
#include <thread>
#include <mutex>
#include "h_rand.cc"
static const char kAlnum[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
static std::string get(int fn, uint64_t a, uint64_t b) {
  static const char* n[] = {"RandomString", "RandomBytes", "RandomAlphaNumericString", "RandomAlphaNumericBytes"}; (void)n;
  if (fn % 2 == 0) {
    std::string* p = static_cast<std::string*>(malloc(sizeof(std::string)));
    if (fn == 0) r_str(p, a); else if (fn == 2) r_astr(p, a); else if (fn == 4) r_str2(p, unsigned(a), unsigned(b)); else r_astr2(p, unsigned(a), unsigned(b));
    std::string s = *p; p->~basic_string(); free(p); return s;
  }
  V* p = static_cast<V*>(malloc(sizeof(V)));
  if (fn == 1) r_vec(p, a); else if (fn == 3) r_avec(p, a); else if (fn == 5) r_vec2(p, unsigned(a), unsigned(b)); else r_avec2(p, unsigned(a), unsigned(b));
  std::string s(p->begin(), p->end()); p->~V(); free(p); return s;
}
static void data(int fn, uint64_t a, uint64_t b, uint32_t seed) {
  static const char* n[] = {"RandomString", "RandomBytes", "RandomAlphaNumericString", "RandomAlphaNumericBytes"};
  rp::input(std::string(n[fn % 4]) + "(" + std::to_string(a) + (fn > 3 ? ", " + std::to_string(b) : "") + ") after seed " + std::to_string(seed));
  r_seed(seed);
  rp::check(r_seed_get() == seed, "the seed reported is " + std::to_string(r_seed_get()));
  std::string s;
  try { s = get(fn, a, b); } catch (const std::exception& e) { rp::fail(std::string("throws ") + e.what()); }
  std::mt19937 g(seed);
  if (fn > 3) {
    rp::check(s.size() >= a && s.size() <= b, "size " + std::to_string(s.size()));
    uint64_t r = std::uniform_int_distribution<uint32_t>(0, 0xffffffffu)(g);
    rp::check(s.size() == a + r % (b - a + 1), "size " + std::to_string(s.size()) + " of number " + std::to_string(r));
  } else {
    rp::check(s.size() == a, "size " + std::to_string(s.size()));
  }
  bool alnum = fn % 4 > 1; std::uniform_int_distribution<> d(0, alnum ? 61 : 255);
  for (size_t i = 0; i < s.size(); ++i) {
    char w = alnum ? kAlnum[d(g)] : static_cast<char>(d(g));
    if (s[i] != w) rp::fail("byte " + std::to_string(i) + " is " + std::to_string(int(static_cast<unsigned char>(s[i]))) + ", drawn was " + std::to_string(int(static_cast<unsigned char>(w))));
  }
}
#ifdef RP_THREADS
void vp_replay(const rp::Cands&, rp::Clock clk) {
  alignas(64) static unsigned char mem[64];
  r_spin_new(mem); auto& spin = *reinterpret_cast<maidsafe::detail::Spinlock*>(mem);
  static long count = 0;
  while (clk.more()) {
    rp::input("four threads at once");
    long before = count;
    std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back([&spin, k] {
      for (int i = 0; i < 50; ++i) {
        for (int fn = 0; fn < 8; ++fn) get((fn + k) % 8, 3, 5);
        r_int(); r_uint(); if (k == 0 && i % 10 == 0) r_seed(7);
        r_spin_lock(spin); ++count; r_spin_unlock(spin);
      }
    });
    for (auto& x : t) x.join();
    rp::check(count == before + 200, "the spinlock let two in");
  }
}
#else
static uint32_t rot(uint32_t x, int k) { return x << k | x >> (32 - k); }
void vp_replay(const rp::Cands&, rp::Clock clk) {
  for (int fn = 4; fn < 8; ++fn) {        // the full range, with a seed that draws a small number
    for (uint32_t seed = 0;; ++seed) { std::mt19937 g(seed); if (g() < 200000) { data(fn, 0, 0xffffffffu, seed); break; } }
  }
  while (clk.more()) {
    for (int fn = 0; fn < 8; ++fn) {
      uint64_t a = rp::len(300), b = a + rp::R(rp::R(3) ? 300 : 2);
      data(fn, a, b, static_cast<uint32_t>(rp::num()));
    }
    uint32_t seed = static_cast<uint32_t>(rp::num()); std::mt19937 g(seed);
    rp::input("RandomInt32, RandomUint32 after seed " + std::to_string(seed));
    r_seed(seed);
    std::uniform_int_distribution<int32_t> di(std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::max()); std::uniform_int_distribution<uint32_t> du(0, 0xffffffffu);
    for (int i = 0; i < 20; ++i) { rp::check(r_int() == di(g), "another RandomInt32"); rp::check(r_uint() == du(g), "another RandomUint32"); }
    rp::input("Concurrency"); rp::check(r_conc() == std::max(2u, std::thread::hardware_concurrency()), "is " + std::to_string(r_conc()));
    unsigned s[4]; r_prng_init(s, seed); uint32_t w[4] = {0xf1ea5eed, seed, seed, seed}; uint32_t last = 0;
    auto step = [&] { uint32_t e = w[0] - rot(w[1], 27); w[0] = w[1] ^ rot(w[2], 17); w[1] = w[2] + w[3]; w[2] = w[3] + e; w[3] = e + w[0]; last = w[3]; };
    for (int i = 0; i < 20; ++i) step();
    rp::input("small_prng seeded with " + std::to_string(seed));
    for (int i = 0; i < 20; ++i) { rp::check(std::equal(s, s + 4, w), "another state"); step(); rp::check(r_prng(s) == last, "another value"); }
    alignas(64) static unsigned char mem[64]; memset(mem, 1, sizeof mem); rp::input("Spinlock"); r_spin_new(mem); auto& spin = *reinterpret_cast<maidsafe::detail::Spinlock*>(mem);
    for (int i = 0; i < 3; ++i) { r_spin_lock(spin); r_spin_unlock(spin); }
    static long count; count = 0; std::thread t([&] { for (int i = 0; i < 2000; ++i) { r_spin_lock(spin); long c = count; if (i % 64 == 0) std::this_thread::yield(); count = c + 1; r_spin_unlock(spin); } });
    for (int i = 0; i < 2000; ++i) { r_spin_lock(spin); long c = count; if (i % 64 == 0) std::this_thread::yield(); count = c + 1; r_spin_unlock(spin); }
    t.join(); rp::check(count == 4000, "the spinlock let two in");
  }
}
#endif
