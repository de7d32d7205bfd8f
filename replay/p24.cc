#include "replay.h"
#include <dlfcn.h>
#include <cerrno>
#include <sys/stat.h>
#include <unistd.h>
#include "h_file.cc"
namespace {
// what happens when the file with this name is opened next
std::string watched; int action = 0; long cut = 0; FILE* seen = nullptr; bool close_fails = false; int opened = 0;
FILE* hook(const char* n, const char* m, FILE* (*real)(const char*, const char*)) {
  if (watched.empty() || watched != n) return real(n, m);
  ++opened;
  if (action == 1) { errno = EACCES; return nullptr; }
  if (action == 2 && truncate(n, cut)) return nullptr;
  FILE* f = real(action == 3 ? "/dev/full" : n, m);
  seen = f; return f;
}
typedef std::vector<unsigned char> V;
V vec(const std::string& s) { return V(s.begin(), s.end()); }
void put(const std::string& n, const std::string& s) { FILE* f = fopen(n.c_str(), "wb"); if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); } }
std::string get(const std::string& n) { std::string s; FILE* f = fopen(n.c_str(), "rb"); if (f) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); } return s; }
}
extern "C" {
FILE* vp_fopen(const char*, const char*) __asm__("fopen");
FILE* vp_fopen(const char* n, const char* m) { return hook(n, m, reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen"))); }
FILE* fopen64(const char* n, const char* m) { return hook(n, m, reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen64"))); }
int fclose(FILE* f) {
  static auto real = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
  bool bad = f && f == seen && close_fails; if (f == seen) seen = nullptr;
  int r = real(f); if (bad) { errno = EIO; return EOF; } return r;
}
}
namespace {
std::string text() { static const size_t k[] = {0, 1, 2, 100, 4095, 4096, 8191, 8192, 20000}; return rp::rnd(rp::R(2) ? k[rp::R(9)] : rp::len(9000)); }
void read(const std::string& dir) {
  std::string n = dir + "/f" + std::to_string(rp::R(3)), s = text();
  watched.clear(); seen = nullptr; close_fails = false; unlink(n.c_str());
  bool there = rp::R(8) != 0, isdir = there && rp::R(12) == 0;
  if (isdir) n = dir; else if (there) put(n, s);
  action = static_cast<int>(rp::R(3)); cut = s.empty() ? 0 : static_cast<long>(rp::R(s.size())); if (action == 2 && s.empty()) action = 0; if (isdir) action = 0;
  rp::input("ReadFile of " + std::string(isdir ? "a directory" : there ? "a file of " + std::to_string(s.size()) + " bytes" : "a missing file") + (!there || isdir ? "" : action == 1 ? ", which cannot be opened" : action == 2 ? ", cut to " + std::to_string(cut) + " when it is opened" : ""));
  watched = n; opened = 0;
  V* v = static_cast<V*>(malloc(sizeof(V))); alignas(16) unsigned char e[256]; bool r = false;
  try { r = f_read(v, reinterpret_cast<maidsafe::maidsafe_error*>(e), n); } catch (...) { rp::fail("throws"); }
  watched.clear();
  if (r) {
    rp::check(there && !isdir && (action == 0 || s.empty()), "returns " + std::to_string(v->size()) + " bytes");
    rp::check(std::string(v->begin(), v->end()) == s, "returns other contents");
    v->~V();
  } else {
    auto& er = *reinterpret_cast<maidsafe::maidsafe_error*>(e);
    rp::check(!there || isdir || action != 0, "reports an error");
    rp::check(er.code() == maidsafe::make_error_code(maidsafe::CommonErrors::filesystem_io_error), "reports another error"); er.~maidsafe_error();
  }
  free(v); unlink((dir + "/f0").c_str());
}
void write(const std::string& dir) {
  std::string n = dir + "/g" + std::to_string(rp::R(3)), s = text(), old = text();
  watched.clear(); seen = nullptr; unlink(n.c_str());
  if (rp::R(2)) put(n, old);
  static const int k[] = {0, 1, 3, 4}; action = k[rp::R(4)]; close_fails = action == 4;
  int where = static_cast<int>(rp::R(8)); std::string p = where == 0 ? "/" : where == 1 ? "" : where == 2 ? dir + "/missing/x" : where == 3 ? dir : n;
  if (where < 4) { action = 0; close_fails = false; if (where == 0) p = dir + "/nothing/"; }
  rp::input("WriteFile of " + std::to_string(s.size()) + " bytes to " + (where == 0 ? "a path ending in /" : where == 1 ? "an empty path" : where == 2 ? "a missing directory" : where == 3 ? "a directory" : "a file") + (action == 1 ? " which cannot be opened" : action == 3 ? " on a full disk" : action == 4 ? " which cannot be closed" : ""));
  watched = p; opened = 0; bool r = false;
  try { r = f_write(p, vec(s)); } catch (...) { rp::fail("throws"); }
  watched.clear(); bool bad = where < 4 || (action != 0 && !(action == 3 && s.empty()));
  rp::check(r == !bad, std::string("returns ") + (r ? "true" : "false"));
  if (r && action == 0) rp::check(get(n) == s, "the file holds something else");
  unlink(n.c_str());
}
}
void vp_replay(const rp::Cands&, rp::Clock clk) {
  char d[] = "p24_XXXXXX"; if (!mkdtemp(d)) return;     // in the scratch directory the replay runs in
  while (clk.more()) { read(d); write(d); }
}
