#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include "maidsafe/common/asio_service.h"
// what an io_service is to IoService: a contract
struct Svc {
  struct work { explicit work(Svc&); ~work(); work(const work&) = delete; long v; };
  Svc(); ~Svc(); Svc(const Svc&) = delete;
  std::size_t run();
  std::size_t run(std::error_code&);
  void stop(); bool stopped() const; void reset(); std::size_t poll();
  long v[4];
};
typedef maidsafe::IoService<Svc> T;
static_assert(std::is_same<maidsafe::AsioService, maidsafe::IoService<asio::io_service>>::value, "");
static_assert(std::is_same<maidsafe::BoostAsioService, maidsafe::IoService<boost::asio::io_service>>::value, "");
extern "C" {
unsigned long s_sizeof() { return sizeof(T); }
void* s_off_service(T& t) { return &t.service_; }
void* s_off_work(T& t) { return &t.work_; }
void* s_off_threads(T& t) { return &t.threads_; }
void* s_off_mutex(T& t) { return &t.mutex_; }
void* s_off_count(T& t) { return &t.thread_count_; }
void s_ctor(void* p, unsigned long n) { new (p) T(n); }
void s_dtor(T* p) { p->~T(); }
void s_stop(T& t) { t.Stop(); }
unsigned long s_count(const T& t) { return t.ThreadCount(); }
void* s_service(T& t) { return &t.service(); }
}
