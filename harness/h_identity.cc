#include <cstddef>
#include <new>
#include "maidsafe/common/identity.h"
using namespace maidsafe;
extern "C" {
std::size_t id_off_valid(const Identity& b) { return reinterpret_cast<const char*>(&b.valid_) - reinterpret_cast<const char*>(&b); }
std::size_t id_off_string(const Identity& b) { return reinterpret_cast<const char*>(&b.string_) - reinterpret_cast<const char*>(&b); }
std::size_t id_size() { return sizeof(Identity); }
bool closer(const Identity& a, const Identity& b, const Identity& t) { return CloserToTarget(a, b, t); }
int common(const Identity& a, const Identity& b) { return CommonLeadingBits(a, b); }
void enc_bin(std::string& out, const Identity& a) { out = binary::Encode(a); }
void enc_hex(std::string& out, const Identity& a) { out = hex::Encode(a); }
void enc_b64(std::string& out, const Identity& a) { out = base64::Encode(a); }
void mk_bin(void* m, const binary::String& s) { new (m) Identity(MakeIdentity(s)); }
void mk_hex(void* m, const hex::String& s) { new (m) Identity(MakeIdentity(s)); }
void mk_b64(void* m, const base64::String& s) { new (m) Identity(MakeIdentity(s)); }
}
