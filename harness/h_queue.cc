#include <condition_variable>
#include <deque>
#include <functional>
#include <mutex>
#include <queue>
#include <string>
#include <memory>
#include <vector>
#include <atomic>
#include <chrono>
#include <thread>
#include "maidsafe/common/safe_queue.h"
// an opaque movable type: nothing but construction, moves and destruction
struct Elem {
  Elem(); Elem(Elem&&) noexcept; Elem& operator=(Elem&&) noexcept; ~Elem();
  long id;
};
#define OPS(N, T) extern "C" { \
  void N##_ctor(void* p) { new (p) SafeQueue<T>(); } \
  bool N##_empty(const SafeQueue<T>& q) { return q.Empty(); } \
  size_t N##_size(const SafeQueue<T>& q) { return q.Size(); } \
  void N##_push(SafeQueue<T>& q, T& e) { q.Push(std::move(e)); } \
  bool N##_trypop(SafeQueue<T>& q, T& e) { return q.TryPop(e); } \
  void N##_waitpop(SafeQueue<T>& q, T& e) { q.WaitAndPop(e); } \
  size_t N##_sizeof() { return sizeof(SafeQueue<T>); } }
OPS(l, long)
OPS(e, Elem)
