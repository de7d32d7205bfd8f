// included by h_soe_gcc.cc and h_soe_clang.cc: the two variants of on_scope_exit.h
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include "boost/bind.hpp"
#include "maidsafe/common/on_scope_exit.h"
using maidsafe::on_scope_exit;
extern "C" void act(int);          // the clean-up action: recorded
extern "C" void mid();             // the guarded scope: recorded
extern "C" void thrower(bool t) { if (t) throw 1; }
struct Big {                       // too large to be stored inside a std::function; the (*fail)-th copy fails
  int id; int* fail; long pad[4];
  Big(int i, int* f) : id(i), fail(f), pad() {}
  Big(const Big& o) : id(o.id), fail(o.fail), pad() { if (*fail && --*fail == 0) throw 2; }
  void operator()() const { act(id); }
};
extern "C" {
void PFX(plain)(int a) { on_scope_exit s([a] { act(a); }); mid(); }
void PFX(func)(int a) { std::function<void()> f([a] { act(a); }); on_scope_exit s(f); mid(); }
void PFX(big)(int a, int* never) { on_scope_exit s(Big(a, never)); mid(); }
void PFX(empty)() { std::function<void()> f; on_scope_exit s(f); mid(); }
void PFX(release)(int a) { on_scope_exit s([a] { act(a); }); mid(); s.Release(); }
void PFX(release_if)(int a, bool r) { on_scope_exit s([a] { act(a); }); mid(); if (r) s.Release(); }
void PFX(set)(int a, int b) { on_scope_exit s([a] { act(a); }); mid(); s.SetAction([b] { act(b); }); }
void PFX(set_none)(int a) { on_scope_exit s([a] { act(a); }); mid(); s.SetAction(); }
void PFX(set_again)(int a, int b) { on_scope_exit s([a] { act(a); }); s.Release(); mid(); s.SetAction([b] { act(b); }); }
void PFX(two)(int a, int b) { on_scope_exit s([a] { act(a); }); on_scope_exit t([b] { act(b); }); mid(); }
void PFX(throws)(int a, bool t) { on_scope_exit s([a] { act(a); }); mid(); thrower(t); }
void PFX(ctor)(void* m, int a, int* fail) { new (m) on_scope_exit(Big(a, fail)); }
long PFX(guard_size)() { return sizeof(on_scope_exit); }
void PFX(setvalue)(long& x, long v) { on_scope_exit::SetValue(x, v); }
void PFX(setvalue_s)(std::string& x, const std::string& v) { on_scope_exit::SetValue(x, v); }
void PFX(revert)(long& x, long v) { on_scope_exit s(on_scope_exit::RevertValue(x)); x = v; mid(); }
void PFX(revert_s)(std::string& x, const std::string& v) { on_scope_exit s(on_scope_exit::RevertValue(x)); x = v; mid(); }
void PFX(revert_throws)(long& x, long v) { on_scope_exit s(on_scope_exit::RevertValue(x)); x = v; mid(); throw 1; }
void PFX(revert_release)(long& x, long v) { on_scope_exit s(on_scope_exit::RevertValue(x)); x = v; mid(); s.Release(); }
}
