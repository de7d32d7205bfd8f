#include "maidsafe/common/encode.h"
#include "maidsafe/common/error.h"
using namespace maidsafe;
typedef std::vector<unsigned char> Bytes;
extern "C" {
void vp_b64_encode(const std::string& in, std::string* out) { *out = base64::Encode(in); }
void vp_b64_encode_v(const Bytes& in, std::string* out) { *out = base64::Encode(in); }
void vp_b64_dec(const std::string& in, std::string* out) { *out = base64::DecodeToString(in); }
void vp_b64_dec_v(const std::string& in, Bytes* out) { *out = base64::DecodeToBytes(in); }
}
