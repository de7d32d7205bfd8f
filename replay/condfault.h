// Legal but unlikely schedules: spurious wake-ups, and threads delayed after a wake-up, before taking and after
// releasing a mutex.  Only for builds without sanitizers.
#pragma once
#ifdef RP_FAULTS
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <sched.h>
#include <atomic>
#include <cstdlib>
namespace rpf {
inline unsigned rnd() {
  static std::atomic<unsigned> seed(12345);
  static thread_local unsigned s = seed += 77777;
  return s = s * 1103515245u + 12345u, (s >> 8) & 0xffff;
}
inline void pause() { unsigned r = rnd() % 8; if (r == 0) usleep(rnd() % 2000); else if (r < 3) usleep(rnd() % 60); else if (r < 5) sched_yield(); }
typedef int (*M)(pthread_mutex_t*);
typedef int (*W)(pthread_cond_t*, pthread_mutex_t*);
inline M lock() { static M f = reinterpret_cast<M>(dlsym(RTLD_NEXT, "pthread_mutex_lock")); return f; }
inline M unlock() { static M f = reinterpret_cast<M>(dlsym(RTLD_NEXT, "pthread_mutex_unlock")); return f; }
inline W wait() { static W f = reinterpret_cast<W>(dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2")); return f; }
static bool on = false;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) { if (rpf::on && rpf::rnd() % 8 == 0) rpf::pause(); return rpf::lock()(m); }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) { int r = rpf::unlock()(m); if (rpf::on && rpf::rnd() % 8 == 0) rpf::pause(); return r; }
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (rpf::on && rpf::rnd() % 4 == 0) { rpf::unlock()(m); rpf::pause(); rpf::lock()(m); return 0; }
  int r = rpf::wait()(c, m);
  if (rpf::on && rpf::rnd() % 2 == 0) { rpf::unlock()(m); rpf::pause(); rpf::lock()(m); }
  return r;
}
#define RP_FAULTS_ON() (rpf::on = true)
#else
#define RP_FAULTS_ON() ((void)0)
#endif
