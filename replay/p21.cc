#include "replay.h"
#include <atomic>
#include <condition_variable>
#include <dlfcn.h>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <sys/wait.h>
#include <thread>
#include "asio/io_service.hpp"
#include "boost/asio/io_service.hpp"
#include "maidsafe/common/asio_service.h"
using namespace maidsafe;
#ifndef USE_LOGGING_IN_REPLAY
namespace maidsafe { namespace log {
alignas(Logging) static unsigned char g_log[sizeof(Logging)];
Logging& Logging::Instance() { return *reinterpret_cast<Logging*>(g_log); }
void Logging::Flush() {}
} }
#endif
static std::atomic<int> g_fail_at(-1), g_created(0);
#ifndef RP_TSAN
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  static auto real = reinterpret_cast<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>(dlsym(RTLD_NEXT, "pthread_create"));
  if (g_fail_at >= 0 && g_created++ == g_fail_at) return EAGAIN;
  return real(t, a, f, x);
}
#endif
template <typename S>
static void own(S& s, const char* where) {
  try { s.Stop(); } catch (const maidsafe_error& e) {
    rp::check(e.code() == make_error_code(CommonErrors::cannot_invoke_from_this_thread), std::string("Stop from ") + where + " throws " + e.what());
    return;
  }
  rp::fail(std::string("Stop from ") + where + " does not throw");
}
struct Gate {
  std::mutex m; std::condition_variable c; size_t in = 0; bool open = false;
  void enter() { std::unique_lock<std::mutex> l(m); ++in; c.notify_all(); c.wait(l, [&] { return open; }); }
  void await(size_t n) { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return in == n; }); }
  void let() { std::lock_guard<std::mutex> l(m); open = true; c.notify_all(); }
};
template <typename IoS>
static void life(const std::string& name, size_t n, size_t jobs, size_t stoppers, bool destroy) {
  std::ostringstream d; d << name << " with " << n << " threads, " << jobs << " jobs, " << stoppers << " threads calling Stop" << (destroy ? ", destroyed without Stop" : "");
  rp::input(d.str());
  std::atomic<size_t> done(0), running(0);
  long plain = 0; std::mutex pm;
  {
    IoService<IoS> s(n);
    rp::check(s.ThreadCount() == n, "ThreadCount() is " + std::to_string(s.ThreadCount()));
    Gate g; std::atomic<size_t> refused(0);
    for (size_t i = 0; i < n; ++i) s.service().post([&] { ++running; g.enter(); own(s, "a handler"); ++refused; --running; });
    g.await(n);  // n handlers at once
    rp::check(running == n, "handlers running at once: " + std::to_string(running.load()));
    // (a thread more would take this job)
    std::atomic<bool> extra(false);
    s.service().post([&] { extra = true; });
    std::this_thread::sleep_for(std::chrono::milliseconds(3));
    rp::check(!extra, "more threads than asked for run handlers");
    g.let();
    for (size_t i = 0; i < jobs; ++i)
      s.service().post([&, i] { if (i % 3 == 0) std::this_thread::sleep_for(std::chrono::milliseconds(1)); { std::lock_guard<std::mutex> l(pm); ++plain; } ++done; });
    while (refused != n || !extra) std::this_thread::sleep_for(std::chrono::microseconds(100));  // the service keeps running after Stop was refused
    if (!destroy) {
      std::vector<std::thread> t;
      for (size_t k = 0; k < stoppers; ++k) t.emplace_back([&] {
        s.Stop();
        if (done != jobs) rp::fail("Stop returned when " + std::to_string(done.load()) + " of the jobs were done");
      });
      for (auto& x : t) x.join();
      rp::check(s.ThreadCount() == 0, "ThreadCount() is " + std::to_string(s.ThreadCount()) + " once stopped");
      s.Stop();
      std::atomic<bool> late(false);
      s.service().post([&] { late = true; });
      std::this_thread::sleep_for(std::chrono::milliseconds(2));
      rp::check(!late, "a thread still runs handlers once stopped");
    }
  }
  rp::check(done == jobs && plain == long(jobs), "jobs done when destroyed: " + std::to_string(done.load()));
}
template <typename IoS>
static void idle(const std::string& name, size_t n) {
  rp::input(name + " with " + std::to_string(n) + " threads and no handler, destroyed");
  { IoService<IoS> s(n); }
  rp::input(name + " with 0 threads");
  try { IoService<IoS> s(0); } catch (const maidsafe_error& e) {
    rp::check(e.code() == make_error_code(CommonErrors::invalid_argument), std::string("throws ") + e.what()); return;
  }
  rp::fail("does not throw");
}
#ifndef RP_TSAN
static int threads_now() { std::ifstream f("/proc/self/status"); std::string l; while (std::getline(f, l)) if (l.compare(0, 8, "Threads:") == 0) return atoi(l.c_str() + 8); return -1; }
// a joined thread is still listed for a moment
static bool settle() { for (int i = 0; i < 8000; ++i) { if (threads_now() == 1) return true; std::this_thread::sleep_for(std::chrono::milliseconds(1)); } return false; }
template <typename IoS>
static void refuse(const std::string& name, size_t n, size_t at) {
  rp::input(name + " with " + std::to_string(n) + " threads, the one with index " + std::to_string(at) + " cannot be started");
  settle();
  g_created = 0; g_fail_at = int(at);
  bool thrown = false;
  try { IoService<IoS> s(n); } catch (const std::system_error&) { thrown = true; }
  g_fail_at = -1;
  rp::check(thrown, "does not throw");
  rp::check(settle(), "threads are left behind");
}
template <typename IoS>
static void escapes(const std::string& name) {
  rp::input(name + ": a handler throws");
  pid_t p = fork();
  if (p == 0) {
    signal(SIGABRT, SIG_DFL); (void)!freopen("/dev/null", "w", stderr);
    { IoService<IoS> s(1); s.service().post([] { throw 5; }); s.Stop(); }
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  rp::check(WIFSIGNALED(st), "the exception is swallowed and the thread lost");
}
#endif
template <typename IoS>
static void round(const std::string& name) {
  size_t n = 1 + rp::R(6);
  life<IoS>(name, n, rp::R(20), 1 + rp::R(3), rp::R(3) == 0);
  idle<IoS>(name, n);
#ifndef RP_TSAN
  refuse<IoS>(name, n, rp::R(n));
  if (rp::R(8) == 0) escapes<IoS>(name);
#endif
}
void vp_replay(const rp::Cands&, rp::Clock clk) {
#ifndef RP_TSAN
  escapes<asio::io_service>("AsioService"); escapes<boost::asio::io_service>("BoostAsioService");
#endif
  while (clk.more()) { round<asio::io_service>("AsioService"); round<boost::asio::io_service>("BoostAsioService"); }
}
