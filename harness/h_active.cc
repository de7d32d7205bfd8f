#include <condition_variable>
#include <functional>
#include <mutex>
#include <queue>
#include "maidsafe/common/active.h"
using maidsafe::Active;
extern "C" {
void a_ctor(void* p) { new (p) Active(); }
void a_dtor(Active* a) { a->~Active(); }
void a_send(Active& a, std::function<void()>& f) { a.Send(std::move(f)); }
void a_send_copy(Active& a, const std::function<void()>& f) { a.Send(f); }
void a_run(Active& a) { a.Run(); }
void* a_off_flags(Active* a) { return &a->flags_mutex_; }
void* a_off_mutex(Active* a) { return &a->mutex_; }
void* a_off_queue(Active* a) { return &a->functors_; }
void* a_off_running(Active* a) { return &a->running_; }
size_t a_sizeof() { return sizeof(Active); }
}
