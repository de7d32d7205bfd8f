#include <new>
#include <string>
#include <vector>
#include "maidsafe/common/utils.h"
static_assert(sizeof(boost::filesystem::path) == sizeof(std::string), "a path is its string");
typedef std::vector<unsigned char> V;
extern "C" {
// 1: the contents are in v, 0: an error was stored to e
bool f_read(V* v, maidsafe::maidsafe_error* e, const std::string& name) {
  auto r = maidsafe::ReadFile(reinterpret_cast<const boost::filesystem::path&>(name));
  if (r) {
    new (v) V(std::move(*r));
    return true;
  }
  new (e) maidsafe::maidsafe_error(r.error());
  return false;
}
bool f_write(const std::string& name, const V& v) {
  return maidsafe::WriteFile(reinterpret_cast<const boost::filesystem::path&>(name), v);
}
}
