#include <cstdint>
#include <new>
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/serialisation/types/asio_and_boost_asio.h"
#include "maidsafe/common/serialisation/types/boost_filesystem.h"
using namespace maidsafe;
typedef std::vector<byte> Bytes;
template <typename T> T& at(void* p) { return *static_cast<T*>(p); }
extern "C" {
void ar_save(OutputVectorStream& s, const void* d, std::size_t n) { BinaryOutputArchive a(s); a.saveBinary(d, n); }
void ar_load(InputVectorStream& s, void* d, std::size_t n) { BinaryInputArchive a(s); a.loadBinary(d, n); }
void ar_save_bd(OutputVectorStream& s, const void* d, std::size_t n) { BinaryOutputArchive a(s); a(cereal::binary_data(d, n)); }
void ar_load_bd(InputVectorStream& s, void* d, std::size_t n) { BinaryInputArchive a(s); a(cereal::binary_data(d, n)); }
#define SCALAR(N, T) \
  void to_##N(OutputVectorStream& s, T v) { ConvertToVectorStream(s, v); } \
  void ser_##N(Bytes* out, T v) { new (out) Bytes(Serialise(v)); } \
  void par_##N(const Bytes& d, T* v) { new (v) T(Parse<T>(d)); } \
  void parto_##N(const Bytes& d, T& v) { Parse(d, v); } \
  void from_##N(InputVectorStream& s, T* v) { new (v) T(Parse<T>(s)); }
SCALAR(bool, bool)
SCALAR(c, char)
SCALAR(i8, std::int8_t)
SCALAR(u8, std::uint8_t)
SCALAR(i16, std::int16_t)
SCALAR(u16, std::uint16_t)
SCALAR(i32, std::int32_t)
SCALAR(u32, std::uint32_t)
SCALAR(i64, std::int64_t)
SCALAR(u64, std::uint64_t)
SCALAR(f, float)
SCALAR(d, double)
#define CLASS(N, T) \
  void to_##N(OutputVectorStream& s, const T& v) { ConvertToVectorStream(s, v); } \
  void ser_##N(Bytes* out, const T& v) { new (out) Bytes(Serialise(v)); } \
  void par_##N(const Bytes& d, T* v) { new (v) T(Parse<T>(d)); } \
  void parto_##N(const Bytes& d, T& v) { Parse(d, v); } \
  void from_##N(InputVectorStream& s, T* v) { new (v) T(Parse<T>(s)); }
CLASS(s, std::string)
CLASS(v, Bytes)
void to_mix(OutputVectorStream& s, std::uint32_t a, const std::string& b, std::uint8_t c, const Bytes& d) { ConvertToVectorStream(s, a, b, c, d); }
void ser_mix(Bytes* out, std::uint32_t a, const std::string& b, std::uint8_t c, const Bytes& d) { new (out) Bytes(Serialise(a, b, c, d)); }
void sers_mix(Bytes* out, OutputVectorStream& s, std::uint32_t a, const std::string& b, std::uint8_t c, const Bytes& d) { new (out) Bytes(Serialise(s, a, b, c, d)); }
void from_mix(InputVectorStream& s, std::uint32_t& a, std::string& b, std::uint8_t& c) { Parse(s, a, b, c); }
void par_mix(const Bytes& x, std::uint32_t& a, std::string& b, std::uint8_t& c) { Parse(x, a, b, c); }
void from_two(InputVectorStream& s, std::string& b, Bytes& d) { Parse(s, b, d); }
void par_two(const Bytes& x, std::string& b, Bytes& d) { Parse(x, b, d); }
void str_mix(std::string* out, std::uint32_t a, const std::string& b, std::uint8_t c) { new (out) std::string(ConvertToString(a, b, c)); }
void unstr_mix(const std::string& x, std::uint32_t& a, std::string& b, std::uint8_t& c) { ConvertFromString(x, a, b, c); }
void unstr_one(const std::string& x, std::string* b) { new (b) std::string(ConvertFromString<std::string>(x)); }
void unstr_ref(const std::string& x, std::string& b) { ConvertFromString(x, b); }
// addresses
void to_a(OutputVectorStream& s, const asio::ip::address& a) { ConvertToVectorStream(s, a); }
void from_a(InputVectorStream& s, asio::ip::address& a) { Parse(s, a); }
void to_b(OutputVectorStream& s, const boost::asio::ip::address& a) { ConvertToVectorStream(s, a); }
void from_b(InputVectorStream& s, boost::asio::ip::address& a) { Parse(s, a); }
std::size_t a_size() { return sizeof(asio::ip::address); }
std::size_t b_size() { return sizeof(boost::asio::ip::address); }
void a_v4(void* p, std::uint32_t v) { new (p) asio::ip::address(asio::ip::address_v4(v)); }
void a_v6(void* p, const unsigned char* v) { asio::ip::address_v6::bytes_type b; for (int i = 0; i < 16; ++i) b[i] = v[i]; new (p) asio::ip::address(asio::ip::address_v6(b)); }
void a_new(void* p) { new (p) asio::ip::address; }
int a_get(const asio::ip::address& a, std::uint32_t* v4, unsigned char* v6) { if (a.is_v4()) { *v4 = a.to_v4().to_ulong(); return 4; } asio::ip::address_v6::bytes_type b(a.to_v6().to_bytes()); for (int i = 0; i < 16; ++i) v6[i] = b[i]; return 6; }
void b_v4(void* p, std::uint32_t v) { new (p) boost::asio::ip::address(boost::asio::ip::address_v4(v)); }
void b_v6(void* p, const unsigned char* v) { boost::asio::ip::address_v6::bytes_type b; for (int i = 0; i < 16; ++i) b[i] = v[i]; new (p) boost::asio::ip::address(boost::asio::ip::address_v6(b)); }
void b_new(void* p) { new (p) boost::asio::ip::address; }
int b_get(const boost::asio::ip::address& a, std::uint32_t* v4, unsigned char* v6) { if (a.is_v4()) { *v4 = a.to_v4().to_ulong(); return 4; } boost::asio::ip::address_v6::bytes_type b(a.to_v6().to_bytes()); for (int i = 0; i < 16; ++i) v6[i] = b[i]; return 6; }
// paths
void to_p(OutputVectorStream& s, const boost::filesystem::path& p) { ConvertToVectorStream(s, p); }
void from_p(InputVectorStream& s, boost::filesystem::path& p) { Parse(s, p); }
}
