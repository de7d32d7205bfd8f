#include <cstddef>
#include <string>
#include <vector>
#include "maidsafe/common/encode.h"
#include "maidsafe/common/clock.h"
#include "maidsafe/common/types.h"
using namespace maidsafe;
extern "C" {
void substr_get(std::string& o, const std::string& i) { o = maidsafe::detail::GetSubstr(i); }
void substr_hex(std::string& o, const std::string& i) { o = hex::Substr(i); }
void substr_hex_v(std::string& o, const std::vector<unsigned char>& i) { o = hex::Substr(i); }
void substr_b64(std::string& o, const std::string& i) { o = base64::Substr(i); }
void substr_b64_v(std::string& o, const std::vector<unsigned char>& i) { o = base64::Substr(i); }
long clk_to(long ns) { return Clock::to_time_t(Clock::time_point(Clock::duration(ns))); }
long clk_from(long t) { return Clock::from_time_t(t).time_since_epoch().count(); }
long clk_now() { return Clock::now().time_since_epoch().count(); }
}
struct TagX;
#define TV(P, T)                                                                  \
  typedef TaggedValue<T, TagX> P##_T;                                             \
  extern "C" {                                                                    \
  std::size_t P##_size() { return sizeof(P##_T); }                                \
  void P##_default(void* m) { new (m) P##_T(); }                                  \
  void P##_ctor(void* m, const T& t) { new (m) P##_T(t); }                        \
  void P##_copy(void* m, const P##_T& o) { new (m) P##_T(o); }                    \
  void P##_move(void* m, P##_T& o) { new (m) P##_T(std::move(o)); }               \
  void P##_assign(P##_T& a, const P##_T& o) { a = o; }                            \
  void P##_massign(P##_T& a, P##_T& o) { a = std::move(o); }                      \
  void P##_conv(T* o, const P##_T& a) { new (o) T(a); }                           \
  const T* P##_arrow(const P##_T& a) { return a.operator->(); }                   \
  const T* P##_marrow(P##_T& a) { return a.operator->(); }                        \
  bool P##_eq(const P##_T& a, const P##_T& b) { return a == b; }                  \
  bool P##_ne(const P##_T& a, const P##_T& b) { return a != b; }                  \
  bool P##_lt(const P##_T& a, const P##_T& b) { return a < b; }                   \
  bool P##_gt(const P##_T& a, const P##_T& b) { return a > b; }                   \
  bool P##_le(const P##_T& a, const P##_T& b) { return a <= b; }                  \
  bool P##_ge(const P##_T& a, const P##_T& b) { return a >= b; }                  \
  }
TV(tu, std::uint32_t)
TV(ti, long)
TV(ts, std::string)
TV(tv, std::vector<unsigned char>)
struct Ar { std::string* s; Ar& operator()(std::string& t) { s->swap(t); return *this; } };
extern "C" void ts_ser(ts_T& a, std::string& s) { Ar ar{&s}; a.serialize(ar); }
