#include <new>
#include "maidsafe/common/error.h"
#include "maidsafe/common/containers/lru_cache.h"
typedef maidsafe::LruCache<long, long> C;
typedef maidsafe::LruCache<long, void> F;
typedef std::chrono::steady_clock::duration D;
extern "C" {
unsigned long lc_sizeof() { return sizeof(C) > sizeof(F) ? sizeof(C) : sizeof(F); }
void lc_new_cap(void* p, unsigned long c) { new (p) C(static_cast<size_t>(c)); }
void lc_new_ttl(void* p, long t) { new (p) C(D(t)); }
void lc_new_both(void* p, unsigned long c, long t) { new (p) C(c, D(t)); }
void lf_new_cap(void* p, unsigned long c) { new (p) F(static_cast<size_t>(c)); }
void lf_new_ttl(void* p, long t) { new (p) F(D(t)); }
void lf_new_both(void* p, unsigned long c, long t) { new (p) F(c, D(t)); }
void lc_add(C& c, long k, long v) { c.Add(k, v); }
void lf_add(F& c, long k) { c.Add(k); }
// 1: the value was stored to v, 0: an error was stored to e
bool lc_get(C& c, long k, long* v, maidsafe::maidsafe_error* e) {
  auto r = c.Get(k);
  if (r) {
    *v = *r;
    return true;
  }
  new (e) maidsafe::maidsafe_error(r.error());
  return false;
}
bool lc_check(const C& c, long k) { return c.Check(k); }
bool lf_check(const F& c, long k) { return c.Check(k); }
unsigned long lc_size(const C& c) { return c.size(); }
unsigned long lf_size(const F& c) { return c.size(); }
void lc_delete(C& c, long k) { c.Delete(k); }
}
