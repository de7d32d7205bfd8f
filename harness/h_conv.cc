#include <cstddef>
#include <new>
#include "maidsafe/common/convert.h"
using namespace maidsafe;
typedef asio::ip::address_v4 A4; typedef boost::asio::ip::address_v4 B4;
typedef asio::ip::address_v6 A6; typedef boost::asio::ip::address_v6 B6;
typedef asio::ip::address AA; typedef boost::asio::ip::address BA;
typedef asio::ip::udp::endpoint AE; typedef boost::asio::ip::udp::endpoint BE;
// observers built with the libraries' own constructors and accessors
template <typename Bytes> static Bytes arr(const unsigned char* b) { Bytes r; for (unsigned i = 0; i < r.size(); ++i) r[i] = b[i]; return r; }
template <typename Bytes> static void put(const Bytes& r, unsigned char* b) { for (unsigned i = 0; i < r.size(); ++i) b[i] = r[i]; }
#define V4(NM, FN, FROM, TO)  void NM(const unsigned char* in, unsigned char* out) { put(convert::FN(FROM(arr<FROM::bytes_type>(in))).to_bytes(), out); }
#define V6(NM, FN, FROM, TO)  unsigned long NM(const unsigned char* in, unsigned long scope, unsigned char* out) { TO t(convert::FN(FROM(arr<FROM::bytes_type>(in), scope))); put(t.to_bytes(), out); return t.scope_id(); }
#define ADDR4(NM, FN, FROM4, FROM, TO) int NM(const unsigned char* in, unsigned char* out) { TO t(convert::FN(FROM(FROM4(arr<FROM4::bytes_type>(in))))); put(t.to_v4().to_bytes(), out); return t.is_v4() && !t.is_v6(); }
#define ADDR6(NM, FN, FROM6, FROM, TO) int NM(const unsigned char* in, unsigned long scope, unsigned char* out, unsigned long* oscope) { TO t(convert::FN(FROM(FROM6(arr<FROM6::bytes_type>(in), scope)))); put(t.to_v6().to_bytes(), out); *oscope = t.to_v6().scope_id(); return t.is_v6() && !t.is_v4(); }
#define EP4(NM, FN, FROM4, FROM, TO) int NM(const unsigned char* in, unsigned short port, unsigned char* out) { TO t(convert::FN(FROM(FROM4(arr<FROM4::bytes_type>(in)), port))); put(t.address().to_v4().to_bytes(), out); return t.address().is_v4() ? t.port() : -1; }
#define EP6(NM, FN, FROM6, FROM, TO) int NM(const unsigned char* in, unsigned long scope, unsigned short port, unsigned char* out, unsigned long* oscope) { TO t(convert::FN(FROM(FROM6(arr<FROM6::bytes_type>(in), scope), port))); put(t.address().to_v6().to_bytes(), out); *oscope = t.address().to_v6().scope_id(); return t.address().is_v6() ? t.port() : -1; }
extern "C" {
V4(v4_tb, ToBoost, A4, B4) V4(v4_ta, ToAsio, B4, A4)
V6(v6_tb, ToBoost, A6, B6) V6(v6_ta, ToAsio, B6, A6)
ADDR4(ad4_tb, ToBoost, A4, AA, BA) ADDR4(ad4_ta, ToAsio, B4, BA, AA)
ADDR6(ad6_tb, ToBoost, A6, AA, BA) ADDR6(ad6_ta, ToAsio, B6, BA, AA)
EP4(ep4_tb, ToBoost, A4, AE, BE) EP4(ep4_ta, ToAsio, B4, BE, AE)
EP6(ep6_tb, ToBoost, A6, AE, BE) EP6(ep6_ta, ToAsio, B6, BE, AE)
void cv_bytes(std::vector<unsigned char>& o, const std::string& s) { o = convert::ToByteVector(s); }
void cv_string(std::string& o, const std::vector<unsigned char>& s) { o = convert::ToString(s); }
int cv_std(int v, const std::error_category** cat) { std::error_code e(convert::ToStd(boost::system::error_code(v, boost::system::generic_category()))); *cat = &e.category(); return e.value(); }
}
