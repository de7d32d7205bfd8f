// one variant of on_scope_exit.h, exercised natively
#include "maidsafe/common/on_scope_exit.h"
namespace {
using maidsafe::on_scope_exit;
std::vector<int> ev;                        // what ran, in order; 0 marks the end of the scope
int countdown;
struct Act {
  int id; std::string pay;                  // large and with its own storage
  explicit Act(int i) : id(i), pay(100, char(i)) {}
  Act(const Act& o) : id(o.id), pay(o.pay) { if (countdown && --countdown == 0) throw 2; }
  void operator()() const { ev.push_back(pay.size() == 100 && pay[99] == char(id) ? id : -1); }
};
void is(const char* what, const std::vector<int>& want) {
  std::string s;
  for (int e : ev) s += " " + std::to_string(e);
  rp::input(std::string(VARIANT ": ") + what);
  rp::check(ev == want, "ran:" + s);
  ev.clear();
}
void one() {
  typedef std::vector<int> V;
  { on_scope_exit s([] { ev.push_back(1); }); ev.push_back(0); }
  is("lambda", V{0, 1});
  { on_scope_exit s(Act(2)); ev.push_back(0); }
  is("large action", V{0, 2});
  { std::function<void()> f(Act(2)); on_scope_exit s(f); ev.push_back(0); f = nullptr; }
  is("std::function", V{0, 2});
  { std::function<void()> f; on_scope_exit s(f); ev.push_back(0); }
  is("empty std::function", V{0});
  { on_scope_exit s(Act(3)); ev.push_back(0); s.Release(); }
  is("Release", V{0});
  { on_scope_exit s(Act(3)); s.Release(); s.Release(); ev.push_back(0); s.SetAction(Act(4)); }
  is("Release, then SetAction", V{0, 4});
  { on_scope_exit s(Act(3)); s.SetAction(Act(4)); s.SetAction(Act(5)); ev.push_back(0); }
  is("SetAction", V{0, 5});
  { on_scope_exit s(Act(3)); s.SetAction(); ev.push_back(0); }
  is("SetAction()", V{0});
  { on_scope_exit s(Act(3)); on_scope_exit t(Act(4)); ev.push_back(0); }
  is("two guards", V{0, 4, 3});
  try { on_scope_exit s(Act(3)); on_scope_exit t(Act(4)); t.Release(); ev.push_back(0); throw 1; } catch (int) { ev.push_back(9); }
  is("exception", V{0, 3, 9});
  for (int n = 1; n < 6; ++n) {
    countdown = n;
    bool thrown = false;
    try { on_scope_exit s(Act(7)); countdown = 0; ev.push_back(0); } catch (int) { thrown = true; }
    countdown = 0;
    is(("copy " + std::to_string(n) + " of the action fails").c_str(), thrown ? V{7} : V{0, 7});
  }
  for (long v = -3; v < 4; ++v) {
    long x = 42;
    { on_scope_exit s(on_scope_exit::RevertValue(x)); x = v; }
    rp::check(x == 42, "RevertValue leaves " + std::to_string(x));
    try { on_scope_exit s(on_scope_exit::RevertValue(x)); x = v; throw 1; } catch (int) {}
    rp::check(x == 42, "RevertValue leaves " + std::to_string(x) + " after an exception");
    { on_scope_exit s(on_scope_exit::RevertValue(x)); x = v; s.Release(); }
    rp::check(x == v, "RevertValue after Release gives " + std::to_string(x));
    on_scope_exit::SetValue(x, v * 5);
    rp::check(x == v * 5, "SetValue gives " + std::to_string(x));
  }
  for (int i = 0; i < 50; ++i) {
    std::string a = rp::rnd(rp::R(100)), b = rp::rnd(rp::R(100)), x = a;
    rp::input(std::string(VARIANT ": RevertValue, ") + rp::show(a) + " changed to " + rp::show(b));
    { on_scope_exit s(on_scope_exit::RevertValue(x)); x = b; }
    rp::check(x == a, "leaves " + rp::show(x));
  }
}
}
