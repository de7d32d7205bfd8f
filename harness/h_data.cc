#include <cstddef>
#include <new>
#include "maidsafe/common/data_types/data.h"
#include "maidsafe/common/data_types/immutable_data.h"
#include "maidsafe/common/data_types/mutable_data.h"
using namespace maidsafe;
typedef std::vector<unsigned char> Bytes;
// an input archive that yields 'name' and then 'value' (or fails at the first or the second), and one that records what it is given
struct RawIn { const Bytes* s; bool fail; void operator()(Bytes& t) { if (fail) throw std::exception(); t = *s; } };
struct RawOut { Bytes* s; RawOut& operator()(const Bytes& t) { *s = t; return *this; } };
struct In {
  const Bytes* name; const Bytes* value; bool fail_name, fail_value; unsigned type;
  void one(Identity& i) { RawIn r{name, fail_name}; i.load(r); }
  void one(NonEmptyString& v) { RawIn r{value, fail_value}; v.load(r); }
  void one(DataTypeId& t) { t.data = type; }
  template <typename B> void one(const cereal::base_class<B>& b) { b.base_ptr->load(*this); }
  template <typename A> In& operator()(A&& a) { one(a); return *this; }
  template <typename A, typename B> In& operator()(A&& a, B&& b) { one(a); one(b); return *this; }
};
struct Out {
  Bytes* name; Bytes* value; int order; unsigned type;
  void one(const Identity& i) { order = order * 10 + 1; RawOut r{name}; i.save(r); }
  void one(const NonEmptyString& v) { order = order * 10 + 2; RawOut r{value}; v.save(r); }
  void one(const DataTypeId& t) { order = order * 10 + 3; type = t.data; }
  template <typename B> void one(const cereal::base_class<B>& b) { b.base_ptr->save(*this); }
  template <typename A> Out& operator()(A&& a) { one(a); return *this; }
  template <typename A, typename B> Out& operator()(A&& a, B&& b) { one(a); one(b); return *this; }
};
#define OFF(x, y) (reinterpret_cast<const char*>(&(y)) - reinterpret_cast<const char*>(&(x)))
typedef Data::NameAndTypeId NT;
#define COMMON(P, D)                                                                        \
  long P##_off_name_s(const D& d) { return OFF(d, d.name_.string_); }                       \
  long P##_off_name_v(const D& d) { return OFF(d, d.name_.valid_); }                        \
  long P##_off_value_s(const D& d) { return OFF(d, d.value_.string_); }                     \
  long P##_off_value_v(const D& d) { return OFF(d, d.value_.valid_); }                      \
  long P##_size() { return sizeof(D); }                                                     \
  void P##_default(D* m) { new (m) D(); }                                                   \
  void P##_copy(D* m, const D& o) { new (m) D(o); }                                         \
  void P##_move(D* m, D& o) { new (m) D(std::move(o)); }                                    \
  void P##_assign(D& a, const D& o) { a = o; }                                              \
  void P##_massign(D& a, D& o) { a = std::move(o); }                                        \
  bool P##_init(const D& a) { return a.IsInitialised(); }                                   \
  const NonEmptyString* P##_value(const D& a) { return &a.Value(); }                        \
  const Identity* P##_name(const D& a) { return &a.Name(); }                                \
  unsigned P##_typeid(const D& a) { return a.TypeId().data; }                               \
  void P##_nt(NT* m, const D& a) { new (m) NT(a.NameAndType()); }                           \
  int P##_save(const D& a, Bytes& n, Bytes& v) { Out o{&n, &v, 0, 0}; a.save(o); return o.order; } \
  void P##_load(D& a, const Bytes& n, const Bytes& v, bool fn, bool fv) { In i{&n, &v, fn, fv, 0}; a.load(i); }
extern "C" {
COMMON(im, ImmutableData)
COMMON(mu, MutableData)
void im_vt(ImmutableData* m) { new (m) ImmutableData(); }
void im_ctor(ImmutableData* m, const NonEmptyString& v) { new (m) ImmutableData(v); }
void mu_ctor(MutableData* m, const Identity& n, const NonEmptyString& v) { new (m) MutableData(n, v); }
long id_off_string(const Identity& b) { return OFF(b, b.string_); }
long id_off_valid(const Identity& b) { return OFF(b, b.valid_); }
long id_size() { return sizeof(Identity); }
long nt_off_name(const NT& d) { return OFF(d, d.name); }
long nt_off_type(const NT& d) { return OFF(d, d.type_id.data); }
long nt_size() { return sizeof(NT); }
void nt_default(NT* m) { new (m) NT(); }
void nt_ctor(NT* m, const Identity& n, unsigned t) { new (m) NT(n, DataTypeId(t)); }
void nt_copy(NT* m, const NT& o) { new (m) NT(o); }
void nt_move(NT* m, NT& o) { new (m) NT(std::move(o)); }
void nt_assign(NT& a, const NT& o) { a = o; }
void nt_massign(NT& a, NT& o) { a = std::move(o); }
bool nt_eq(const NT& a, const NT& b) { return a == b; }
bool nt_ne(const NT& a, const NT& b) { return a != b; }
bool nt_lt(const NT& a, const NT& b) { return a < b; }
bool nt_gt(const NT& a, const NT& b) { return a > b; }
bool nt_le(const NT& a, const NT& b) { return a <= b; }
bool nt_ge(const NT& a, const NT& b) { return a >= b; }
int nt_save(NT& a, Bytes& n, unsigned* t) { Out o{&n, nullptr, 0, 0}; a.serialize(o); *t = o.type; return o.order; }
void nt_load(NT& a, const Bytes& n, bool fn, unsigned t) { In i{&n, nullptr, fn, false, t}; a.serialize(i); }
}
