// Common part of the native replay drivers: run the real code (ASan/UBSan) against an independent oracle.
#pragma once
#include <algorithm>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace rp {
inline std::string& cur() { static std::string s; return s; }
inline std::mt19937_64& rng() { static std::mt19937_64 r; return r; }
inline uint64_t R(uint64_t n) { return n ? rng()() % n : 0; }
inline std::string hexs(const std::string& s) {
  static const char* d = "0123456789abcdef"; std::string o;
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o;
}
inline std::string show(const std::string& s) { return "x'" + hexs(s.size() > 400 ? s.substr(0, 400) : s) + "'" + (s.size() > 400 ? "..(" + std::to_string(s.size()) + ")" : ""); }
inline void report(const char* what) {
  std::string o = "FAIL: " + cur() + " -> " + what + "\n";
  (void)!write(1, o.data(), o.size());
}
[[noreturn]] inline void fail(const std::string& what) { report(what.c_str()); _exit(42); }
inline void check(bool ok, const std::string& what) { if (!ok) fail(what); }
// describe the input about to be tried; arms the hang watchdog
inline void input(const std::string& s) { cur() = s; struct itimerval t = {{0, 0}, {10, 0}}; setitimer(ITIMER_REAL, &t, nullptr); }
inline void on_sig(int n) { std::string w = n == SIGALRM ? "does not terminate within 10 s" : "killed by signal " + std::to_string(n); report(w.c_str()); _exit(42); }
inline void death() { report("sanitizer error"); }
struct Cands { std::multimap<std::string, std::string> bytes; std::multimap<std::string, uint64_t> nums; };
inline Cands load(const char* f) {
  Cands c; std::ifstream in(f); std::string k, v;
  while (in >> k) {
    std::string line; std::getline(in, line); v = line.size() > 1 ? line.substr(1) : "";
    if (!v.empty() && v[0] == '#') { c.nums.emplace(k, strtoull(v.c_str() + 1, nullptr, 10)); continue; }
    std::string b; for (size_t i = 0; i + 1 < v.size(); i += 2) b += static_cast<char>(strtoul(v.substr(i, 2).c_str(), nullptr, 16));
    c.bytes.emplace(k, b);
  }
  return c;
}
inline std::string rnd(size_t n) { std::string s(n, 0); for (auto& c : s) c = static_cast<char>(R(256)); return s; }
inline std::string pick(size_t n, const std::string& alpha) { std::string s(n, 0); for (auto& c : s) c = alpha[R(alpha.size())]; return s; }
// integer constants of the functions whose obligations failed
inline std::vector<uint64_t>& consts() { static std::vector<uint64_t> v; return v; }
// a value worth trying: small, near a constant of the code, near a power of two, or random
inline uint64_t num() {
  switch (R(5)) {
    case 0: return R(40);
    case 1: case 2: if (!consts().empty()) return consts()[R(consts().size())] * (R(4) ? 1 : 1 + R(8)) + R(9) - 4;  // fall through
    case 3: return (uint64_t(1) << R(64)) + R(9) - 4;
    default: return rng()() >> R(64);
  }
}
// a length worth trying, at most max
inline size_t len(size_t max) {
  if (R(4) == 0) return R(std::min<size_t>(max, 40) + 1);
  for (int t = 0; t < 20; ++t) { uint64_t n = num(); if (n <= max) return n; }
  return R(R(3) ? std::min<size_t>(max, 3000) + 1 : max + 1);
}
struct Clock { time_t end; explicit Clock(int s) : end(time(nullptr) + s) {} bool more() const { return time(nullptr) < end; } };
}
#ifndef RP_NO_MAIN
void vp_replay(const rp::Cands& cands, rp::Clock clock);
int main(int argc, char** argv) {
  rp::rng().seed(argc > 1 ? strtoull(argv[1], nullptr, 10) : 1);
  int secs = argc > 2 ? atoi(argv[2]) : 10;
  signal(SIGALRM, rp::on_sig);
  signal(SIGABRT, rp::on_sig);
  if (!__sanitizer_set_death_callback) { signal(SIGSEGV, rp::on_sig); signal(SIGFPE, rp::on_sig); signal(SIGBUS, rp::on_sig); }
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(rp::death);
  rp::Cands c; if (argc > 3) c = rp::load(argv[3]);
  for (auto r = c.nums.equal_range("const"); r.first != r.second; ++r.first) rp::consts().push_back(r.first->second);
  try { vp_replay(c, rp::Clock(secs)); }
  catch (const std::exception& e) { rp::fail(std::string("unexpected exception ") + e.what()); }
  catch (...) { rp::fail("unexpected exception"); }
  puts("no failing input found");
  fflush(stdout);
  _exit(0);
}
#endif
