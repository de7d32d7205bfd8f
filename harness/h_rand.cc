#include <new>
#include <string>
#include <vector>
#include "maidsafe/common/utils.h"
typedef std::vector<unsigned char> V;
extern "C" {
int r_int() { return maidsafe::RandomInt32(); }
unsigned r_uint() { return maidsafe::RandomUint32(); }
void r_str(std::string* p, unsigned long n) { new (p) std::string(maidsafe::RandomString(n)); }
void r_str2(std::string* p, unsigned a, unsigned b) { new (p) std::string(maidsafe::RandomString(a, b)); }
void r_vec(V* p, unsigned long n) { new (p) V(maidsafe::RandomBytes(n)); }
void r_vec2(V* p, unsigned a, unsigned b) { new (p) V(maidsafe::RandomBytes(a, b)); }
void r_astr(std::string* p, unsigned long n) { new (p) std::string(maidsafe::RandomAlphaNumericString(n)); }
void r_astr2(std::string* p, unsigned a, unsigned b) { new (p) std::string(maidsafe::RandomAlphaNumericString(a, b)); }
void r_avec(V* p, unsigned long n) { new (p) V(maidsafe::RandomAlphaNumericBytes(n)); }
void r_avec2(V* p, unsigned a, unsigned b) { new (p) V(maidsafe::RandomAlphaNumericBytes(a, b)); }
void r_seed(unsigned s) { maidsafe::detail::set_random_number_generator_seed(s); }
unsigned r_seed_get() { return maidsafe::detail::random_number_generator_seed(); }
unsigned r_prng(unsigned* s) { return maidsafe::small_prng::RandomValue(reinterpret_cast<maidsafe::small_prng::RandomContext*>(s)); }
void r_prng_init(unsigned* s, unsigned seed) { maidsafe::small_prng::Initialise(reinterpret_cast<maidsafe::small_prng::RandomContext*>(s), seed); }
unsigned long r_spin_size() { return sizeof(maidsafe::detail::Spinlock); }
void r_spin_new(void* p) { new (p) maidsafe::detail::Spinlock; }
void r_spin_lock(maidsafe::detail::Spinlock& s) { s.lock(); }
void r_spin_unlock(maidsafe::detail::Spinlock& s) { s.unlock(); }
unsigned r_conc() { return maidsafe::Concurrency(); }
}
