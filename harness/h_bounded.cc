#include <cstddef>
#include <new>
#include <string>
#include <vector>
#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/types.h"
using namespace maidsafe;
using maidsafe::detail::BoundedString;
typedef std::vector<unsigned char> Bytes;
template <typename T> struct ArchIn {  // an input archive that yields 's', or fails
  const T* s; bool fail;
  void operator()(T& t) { if (fail) throw std::exception(); t = *s; }
};
template <typename T> struct ArchOut { T* s; ArchOut& operator()(const T& t) { *s = t; return *this; } };
#define OPS(P, B, STR)                                                                        \
  std::size_t P##_off_valid(const B& b) { return reinterpret_cast<const char*>(&b.valid_) - reinterpret_cast<const char*>(&b); } \
  std::size_t P##_off_string(const B& b) { return reinterpret_cast<const char*>(&b.string_) - reinterpret_cast<const char*>(&b); } \
  std::size_t P##_size() { return sizeof(B); }                                                \
  void P##_default(void* m) { new (m) B(); }                                                  \
  void P##_ctor(void* m, const STR& s) { new (m) B(s); }                                      \
  void P##_copy(void* m, const B& o) { new (m) B(o); }                                        \
  void P##_move(void* m, B& o) { new (m) B(std::move(o)); }                                   \
  void P##_assign(B& a, const B& o) { a = o; }                                                \
  void P##_massign(B& a, B& o) { a = std::move(o); }                                          \
  std::size_t P##_sz(const B& a) { return a.size(); }                                         \
  bool P##_init(const B& a) { return a.IsInitialised(); }                                     \
  const STR* P##_string(const B& a) { return &a.string(); }                                   \
  unsigned char P##_get(const B& a, std::size_t i) { return static_cast<unsigned char>(a[i]); } \
  void P##_set(B& a, std::size_t i, unsigned char c) { a[i] = static_cast<STR::value_type>(c); } \
  const void* P##_data(const B& a) { return a.data(); }                                       \
  bool P##_eq(const B& a, const B& b) { return a == b; }                                      \
  bool P##_ne(const B& a, const B& b) { return a != b; }                                      \
  bool P##_lt(const B& a, const B& b) { return a < b; }                                       \
  bool P##_gt(const B& a, const B& b) { return a > b; }                                       \
  bool P##_le(const B& a, const B& b) { return a <= b; }                                      \
  bool P##_ge(const B& a, const B& b) { return a >= b; }                                      \
  void P##_load(B& a, const STR& s, bool fail) { ArchIn<STR> ar{&s, fail}; a.load(ar); }      \
  void P##_save(const B& a, STR& s) { ArchOut<STR> ar{&s}; a.save(ar); }
typedef BoundedString<1> NE;
typedef BoundedString<64, 64> ID;
typedef BoundedString<2, 5, std::string> SS;
typedef BoundedString<0, 3, std::string> ZS;
typedef BoundedString<5, 5, std::string> FS;
extern "C" {
OPS(ne, NE, Bytes)
OPS(id, ID, Bytes)
OPS(ss, SS, std::string)
OPS(zs, ZS, std::string)
void ne_ctor_str(void* m, const std::string& s) { new (m) NE(s); }
void id_ctor_str(void* m, const std::string& s) { new (m) ID(s); }
void conv_ss_ne(void* m, const SS& o) { new (m) NE(o); }
void conv_id_ne(void* m, const ID& o) { new (m) NE(o); }
void cassign_id_ne(NE& a, const ID& o) { a = o; }
std::size_t fs_off_valid(const FS& b) { return reinterpret_cast<const char*>(&b.valid_) - reinterpret_cast<const char*>(&b); }
std::size_t fs_off_string(const FS& b) { return reinterpret_cast<const char*>(&b.string_) - reinterpret_cast<const char*>(&b); }
std::size_t fs_size() { return sizeof(FS); }
void fs_xor(void* m, const FS& a, const FS& b) { new (m) FS(a ^ b); }
void id_xor(void* m, const ID& a, const ID& b) { new (m) ID(a ^ b); }
}
