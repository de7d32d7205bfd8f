#include "maidsafe/common/encode.h"
#include <string>
#include <vector>
// Entry points: each forwards to the real function so that its instantiation exists.
extern "C" {
void vp_hex_encode(const std::string& in, std::string& out) { out = maidsafe::hex::Encode(in); }
void vp_hex_encode_v(const std::vector<unsigned char>& in, std::string& out) { out = maidsafe::hex::Encode(in); }
void vp_hex_dec(const std::string& in, std::string& out) { out = maidsafe::hex::DecodeToString(in); }
void vp_hex_dec_v(const std::string& in, std::vector<unsigned char>& out) { out = maidsafe::hex::DecodeToBytes(in); }
}
