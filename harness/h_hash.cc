// Instantiates the hashing protocol (hash/*.h) with an algorithm that records what it is fed.
#include <array>
#include <cstddef>
#include <cstdint>
#include <forward_list>
#include <initializer_list>
#include <iterator>
#include <list>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include "boost/range/iterator_range.hpp"
#include "boost/utility/string_ref.hpp"
#include "maidsafe/common/hash/algorithms/hash_algorithm_base.h"
#include "maidsafe/common/hash.h"
#include "maidsafe/common/hash/hash_use_serialize.h"
using namespace maidsafe;

namespace maidsafe {
struct Rec : detail::HashAlgorithmBase<Rec> {
  explicit Rec(std::string& o) : out(o) {}
  void Update(const byte* p, std::uint64_t n) { out.append(reinterpret_cast<const char*>(p), n); }
  std::string& out;
};
struct KeyedRec : detail::HashAlgorithmBase<KeyedRec> {  // its digest is its seed followed by everything fed
  explicit KeyedRec(const std::array<byte, 16>& s) : out(reinterpret_cast<const char*>(s.data()), 16) {}
  void Update(const byte* p, std::uint64_t n) { out.append(reinterpret_cast<const char*>(p), n); }
  std::string Finalize() const { return out; }
  std::string out;
};
}  // namespace maidsafe

namespace user {
struct Elem {  // a type with its own HashAppend, found by ADL
  std::uint64_t id;
  bool operator<(const Elem& o) const { return id < o.id; }
};
template <typename H> void HashAppend(H& h, const Elem& e) { h.Update(reinterpret_cast<const byte*>(&e.id), 8); }
struct Member {
  std::uint32_t a, b;
  template <typename H> void HashAppend(H& h) const { h(b, a); }
};
struct Ser {
  static const bool use_serialize_for_hashing = true;
  std::uint8_t a; std::uint32_t b; std::uint16_t c;
  template <typename A> void serialize(A& ar) { ar(a, b, c); }
};
struct SerAmp {
  static const bool use_serialize_for_hashing = true;
  std::uint8_t a; std::uint32_t b;
  template <typename A> A& serialize(A& ar) { return ar & a & b; }
};
struct Sav {
  static const bool use_serialize_for_hashing = true;
  std::uint8_t a; std::uint32_t b;
  template <typename A> void save(A& ar) const { ar(a, b); }
  template <typename A> void load(A& ar) { ar(a, b); }
};
struct VSer {
  static const bool use_serialize_for_hashing = true;
  std::uint32_t a;
  template <typename A> void serialize(A& ar, const std::uint32_t v) { ar(a, v); }
};
struct VSav {
  static const bool use_serialize_for_hashing = true;
  std::uint32_t a;
  template <typename A> void save(A& ar, const std::uint32_t v) const { ar(a, v); }
  template <typename A> void load(A& ar, const std::uint32_t) { ar(a); }
};
struct NSer { static const bool use_serialize_for_hashing = true; std::uint32_t a; std::uint8_t b; };
template <typename A> void serialize(A& ar, NSer& x) { ar(x.a, x.b); }
struct NSav { static const bool use_serialize_for_hashing = true; std::uint32_t a; std::uint8_t b; };
template <typename A> void save(A& ar, const NSav& x) { ar(x.a, x.b); }
template <typename A> void load(A& ar, NSav& x) { ar(x.a, x.b); }
struct NVSer { static const bool use_serialize_for_hashing = true; std::uint32_t a; };
template <typename A> void serialize(A& ar, NVSer& x, const std::uint32_t v) { ar(x.a, v); }
struct NVSav { static const bool use_serialize_for_hashing = true; std::uint32_t a; };
template <typename A> void save(A& ar, const NVSav& x, const std::uint32_t v) { ar(x.a, v); }
template <typename A> void load(A& ar, NVSav& x, const std::uint32_t) { ar(x.a); }
}  // namespace user
namespace maidsafe {
template <> struct HashVersion<user::VSav> : std::integral_constant<std::uint32_t, 7> {};
template <> struct HashVersion<user::NVSer> : std::integral_constant<std::uint32_t, 9> {};
}  // namespace maidsafe

struct FwdIt {
  typedef std::forward_iterator_tag iterator_category;
  typedef user::Elem value_type; typedef std::ptrdiff_t difference_type;
  typedef const user::Elem* pointer; typedef const user::Elem& reference;
  const user::Elem* p;
  reference operator*() const { return *p; }
  FwdIt& operator++() { ++p; return *this; }
  FwdIt operator++(int) { FwdIt o(*this); ++p; return o; }
  bool operator==(const FwdIt& o) const { return p == o.p; }
  bool operator!=(const FwdIt& o) const { return p != o.p; }
};
template <typename T> void feed(std::string& out, const T& x) { Rec r(out); r(x); }
typedef std::uint8_t u8; typedef std::uint16_t u16; typedef std::uint32_t u32; typedef std::uint64_t u64;
using user::Elem;

extern "C" {
#define ONE(NAME, ...) void NAME(std::string& out, const __VA_ARGS__& x) { feed(out, x); }
ONE(h_bool, bool) ONE(h_char, char) ONE(h_i8, signed char) ONE(h_u8, u8) ONE(h_i16, std::int16_t) ONE(h_u16, u16)
ONE(h_i32, int) ONE(h_u32, u32) ONE(h_i64, std::int64_t) ONE(h_u64, u64) ONE(h_wchar, wchar_t)
ONE(h_float, float) ONE(h_double, double)
ONE(h_pair_cont, std::pair<u32, u32>) ONE(h_pair_pad, std::pair<u8, u64>) ONE(h_pair_pad2, std::pair<u64, u8>)
ONE(h_pair_dbl, std::pair<double, u32>) ONE(h_pair_elem, std::pair<Elem, u16>)
ONE(h_pair_nest, std::pair<std::pair<u8, u16>, u32>)
ONE(h_tuple3, std::tuple<u8, u32, Elem>) ONE(h_tuple0, std::tuple<>) ONE(h_tuple2, std::tuple<double, u8>)
ONE(h_string, std::string) ONE(h_string_ref, boost::string_ref)
ONE(h_vec_u8, std::vector<u8>) ONE(h_vec_u16, std::vector<u16>) ONE(h_vec_u64, std::vector<u64>)
ONE(h_vec_double, std::vector<double>) ONE(h_vec_elem, std::vector<Elem>)
ONE(h_vec_pair, std::vector<std::pair<u8, u64>>) ONE(h_vec_cpair, std::vector<std::pair<u16, u16>>)
ONE(h_arr_u8, std::array<u8, 16>) ONE(h_arr_u16, std::array<u16, 3>) ONE(h_arr_double, std::array<double, 2>)
ONE(h_list, std::list<Elem>) ONE(h_flist, std::forward_list<Elem>) ONE(h_set, std::set<Elem>)
ONE(h_list_u16, std::list<u16>) ONE(h_set_u16, std::set<u16>)
ONE(h_map, std::map<Elem, Elem>) ONE(h_map_u8, std::map<u8, u64>)
ONE(h_range_ptr, boost::iterator_range<const u16*>) ONE(h_range_elem, boost::iterator_range<const Elem*>)
ONE(h_range_fwd, boost::iterator_range<FwdIt>)
ONE(h_init, std::initializer_list<u16>) ONE(h_init_elem, std::initializer_list<Elem>)
ONE(h_elem, Elem) ONE(h_member, user::Member) ONE(h_sav, user::Sav) ONE(h_vsav, user::VSav)
ONE(h_nsav, user::NSav) ONE(h_nvsav, user::NVSav)
void h_ser(std::string& out, user::Ser& x) { Rec r(out); r(x); }
void h_seramp(std::string& out, user::SerAmp& x) { Rec r(out); r(x); }
void h_vser(std::string& out, user::VSer& x) { Rec r(out); r(x); }
void h_nser(std::string& out, user::NSer& x) { Rec r(out); r(x); }
void h_nvser(std::string& out, user::NVSer& x) { Rec r(out); r(x); }
void h_carr(std::string& out, const u32 (&x)[3]) { Rec r(out); r(x); }
void h_carr_elem(std::string& out, const Elem (&x)[2]) { Rec r(out); r(x); }
void h_multi(std::string& out, const u8& a, const u32& b, const Elem& c) { Rec r(out); r(a, b, c); }
bool h_amp(std::string& out, const u8& a, const u32& b, const Elem& c) {
  Rec r(out); return &(r & a & b & c) == &r; }
typedef SeededHash<KeyedRec> Seeded;
void s_one(std::string* o, const Seeded& h, const std::string& x) { new (o) std::string(h(x)); }
void s_two(std::string* o, const Seeded& h, const u32& x, const Elem& y) { new (o) std::string(h(x, y)); }
void s_copy(void* m, const Seeded& h) { new (m) Seeded(h); }
}
