#include "replay.h"
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <streambuf>
#include <termios.h>
#include <vector>
#include "maidsafe/common/cli.h"
#include "maidsafe/common/crypto.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/log.h"
#include "maidsafe/common/menu.h"
#include "maidsafe/common/menu_item.h"
using namespace maidsafe;
struct Event { char k; std::string s; int n; };
static std::vector<Event> g_log;
namespace maidsafe { namespace log {
TestLogMessage::TestLogMessage(Colour colour) : kColour_(colour), stream_() {}
TestLogMessage::~TestLogMessage() { g_log.push_back({'t', stream_.str(), 0}); }
} }
static bool g_echo = true, g_echoed = false;
extern "C" int tcgetattr(int, struct termios* t) __THROW { *t = termios(); if (g_echo) t->c_lflag |= ECHO; return 0; }
extern "C" int tcsetattr(int, int, const struct termios* t) __THROW { g_echo = t->c_lflag & ECHO; return 0; }
struct In : std::streambuf {
  std::vector<std::string> lines; size_t at = 0; int after = 0; std::string cur;
  int underflow() override {
    if (at == lines.size()) {
      if (++after > 50) rp::fail("Menu::Run keeps asking after the input has ended");
      if (after == 1) g_log.push_back({'e', "", 0});
      return traits_type::eof();
    }
    if (g_echo) g_echoed = true;
    g_log.push_back({'i', lines[at], 0});
    cur = lines[at++] + '\n';
    setg(&cur[0], &cur[0], &cur[0] + cur.size());
    return traits_type::to_int_type(*gptr());
  }
};
struct Plain : std::exception {};
struct Node {
  std::string name; int op = 0, how = 0; Node* up = nullptr; std::vector<std::unique_ptr<Node>> kids; MenuItem* p = nullptr;
};
static void run_op(const Node* n) {
  g_log.push_back({'o', "", n->op});
  if (n->how == 1) BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
  if (n->how == 2) throw Plain();
}
static int g_ops;
static std::string word(size_t max) { return rp::pick(1 + rp::R(max), "abcXYZ "); }
static void grow(Menu& m, Node& n, int depth, std::vector<Node*>& all) {
  size_t k = depth == 0 ? rp::R(5) : rp::R(4);
  if (rp::R(12) == 0) k = rp::R(130);
  std::set<std::string> names;
  for (size_t i = 0; i < k; ++i) {
    std::unique_ptr<Node> c(new Node);
    c->name = !n.kids.empty() && rp::R(6) == 0 ? n.kids[rp::R(n.kids.size())]->name : rp::R(20) ? "item " + word(3) : "";
    c->up = &n;
    if (rp::R(3)) { c->op = ++g_ops; c->how = rp::R(8) ? 0 : 1 + static_cast<int>(rp::R(2)); }
    bool ok = !c->name.empty() && names.insert(c->name).second, got = false, err = false;
    Node* q = c.get();
    MenuItem::Functor f; if (c->op) f = [q] { run_op(q); };
    try { c->p = depth == 0 ? m.AddItem(c->name, f) : n.p->AddChildItem(c->name, f); got = true; }
    catch (const maidsafe_error& e) { err = e.code() == make_error_code(CommonErrors::invalid_argument); }
    if (ok != got) rp::fail(std::string("adding \"") + c->name + "\" beside " + std::to_string(n.kids.size()) + " items " + (got ? "is accepted" : "is refused"));
    if (!got) { rp::check(err, "a name which can't be added: not invalid_argument"); continue; }
    rp::check(c->p && c->p->kName_ == c->name, "the item added has another name");
    rp::check(c->p->HasNoChildren(), "the item added has children");
    if (n.p) rp::check(c->p->kParent_ == n.p, "the item added has another parent");
    all.push_back(q);
    n.kids.push_back(std::move(c));
  }
  if (n.p) {
    for (size_t i = 0; i < n.kids.size(); ++i) rp::check(n.p->Child(static_cast<int>(i)) == n.kids[i]->p, "Child(" + std::to_string(i) + ") is another item");
    for (int bad : {-1, static_cast<int>(n.kids.size()), 1 << 30, -(1 << 30)}) { bool t = false; try { n.p->Child(bad); } catch (const std::exception&) { t = true; } rp::check(t, "Child of an index there isn't"); }
    rp::check(n.p->HasNoChildren() == n.kids.empty(), "HasNoChildren");
  }
  if (depth < 3) for (auto& c : n.kids) if (rp::R(3) == 0) grow(m, *c, depth + 1, all);
}
static std::vector<std::pair<std::string, std::string>> offered(const std::string& t) {
  std::vector<std::pair<std::string, std::string>> r;
  std::istringstream s(t); std::string l;
  while (std::getline(s, l)) {
    size_t d = 0; while (d < l.size() && isdigit(static_cast<unsigned char>(l[d]))) ++d;
    if (!d) continue;
    size_t e = d; while (e < l.size() && e < d + 2 + (d == 1) && l[e] == ' ') ++e;
    r.emplace_back(l.substr(0, d), l.substr(e));
  }
  return r;
}
static std::string trim(std::string s) { size_t b = s.find_first_not_of(' '); return b == std::string::npos ? "" : s.substr(b); }
static void once() {
  g_ops = 0; g_log.clear();
  Menu m("Main");
  Node top; top.name = "Main";
  std::vector<Node*> all;
  grow(m, top, 0, all);
  rp::check(g_log.empty() || g_log[0].k != 'o', "building the menu runs an operation");
  Node* cur = &top;
  for (int runs = 0; runs < 2; ++runs) {
    In in; std::string desc;
    for (size_t i = rp::R(9); i > 0; --i) {
      static const char* const odd[] = {"0", "99", "-1", "-2147483648", "2147483647", "abc", "", " 2", "1x", "99999999999", "100"};
      in.lines.push_back(rp::R(3) ? std::to_string(rp::R(10) ? 1 + rp::R(4) : 1 + rp::R(120)) : odd[rp::R(sizeof odd / sizeof *odd)]);
      desc += "\"" + in.lines.back() + "\" ";
    }
    rp::input("menu of " + std::to_string(all.size()) + " items, " + std::to_string(top.kids.size()) + " at the top; entered: " + desc + "then the input ends");
    g_log.clear();
    auto* old = std::cin.rdbuf(&in); std::cin.clear();
    int code = -1; bool threw = false;
    try { code = m.Run(); } catch (...) { threw = true; }
    std::cin.rdbuf(old); std::cin.clear();
    rp::check(!threw, "Run throws");
    size_t p = 0; bool show = true; int want = 0; bool done = false;
    auto text = [&] { std::string t; while (p < g_log.size() && g_log[p].k == 't') t += g_log[p++].s; return t; };
    while (!done) {
      if (show && cur->kids.empty() && cur->up) cur = cur->up;
      std::string t = text();
      auto off = offered(t);
      if (show) {
        size_t n = cur->kids.size() + (cur->up ? 1 : 0);
        rp::check(off.size() == n, "offers " + std::to_string(off.size()) + " choices, not " + std::to_string(n));
        for (size_t i = 0; i < n; ++i) {
          bool back = i == cur->kids.size();
          rp::check(off[i].first == (back ? "99" : std::to_string(i + 1)) && trim(off[i].second) == (back ? "Back to: " + cur->up->name : trim(cur->kids[i]->name)), "choice " + off[i].first + " is shown as \"" + off[i].second + "\"");
        }
        rp::check(t.find(cur->name + "\n") != std::string::npos, "the item shown isn't \"" + cur->name + "\"");
      }
      rp::check(p < g_log.size() && (g_log[p].k == 'i' || g_log[p].k == 'e'), "does not ask for a number");
      if (g_log[p].k == 'e') { want = ErrorToInt(MakeError(CommonErrors::unknown)); ++p; break; }
      std::string l = g_log[p++].s;
      int v = 0;
      bool num = static_cast<bool>(std::stringstream(l) >> v);
      Node* to = nullptr;
      if (num && v == 0) break;
      if (num && v == 99 && cur->up) to = cur->up;
      else if (num && v > 0 && static_cast<size_t>(v) <= cur->kids.size()) to = cur->kids[v - 1].get();
      auto next = [&] { size_t q = p; while (q < g_log.size() && g_log[q].k == 't') ++q; return q; };
      size_t q = next();
      bool ran = q < g_log.size() && g_log[q].k == 'o';
      if (!to) { rp::check(!ran, "\"" + l + "\" runs an operation"); show = false; continue; }
      cur = to; show = true;
      if (to->op) {
        rp::check(ran && g_log[q].n == to->op, "\"" + l + "\" doesn't run the operation of \"" + to->name + "\"");
        p = q + 1;
        if (to->how) { want = ErrorToInt(MakeError(to->how == 1 ? CommonErrors::no_such_element : CommonErrors::unknown)); done = true; }
      } else {
        rp::check(!ran, "\"" + l + "\" runs an operation, which \"" + to->name + "\" has not");
      }
    }
    text();
    rp::check(p == g_log.size(), "Run goes on after its end");
    if (want == ErrorToInt(MakeError(CommonErrors::unknown)) && !done) rp::check(code != 0, "Run returns 0 although its input ended");
    else rp::check(code == want, "Run returns " + std::to_string(code) + ", not " + std::to_string(want));
  }
}
static void password() {
  In in; bool repeat = rp::R(4) != 0;
  std::string desc = repeat ? "GetPassword(true):" : "GetPassword(false):", want; bool ends = true;
  size_t asked = 0;
  for (size_t i = 0; i < 12 && ends; ++i) {
    in.lines.push_back(i % 2 && rp::R(3) ? in.lines.back() : rp::pick(1 + rp::R(3), "ab\x80"));
    desc += " " + rp::show(in.lines.back());
    ++asked;
    if (!repeat || (i % 2 && in.lines[i] == in.lines[i - 1])) { want = in.lines.back(); ends = false; }
  }
  if (!ends) in.lines.push_back("z");
  rp::input(desc + (ends ? ", then the input ends" : ""));
  g_echoed = false; g_echo = true;
  auto* old = std::cin.rdbuf(&in); std::cin.clear();
  std::string got; bool threw = false;
  try { CLI c; got = c.GetPassword(repeat); } catch (const maidsafe_error&) { threw = true; }
  std::cin.rdbuf(old); std::cin.clear();
  rp::check(threw == ends, threw ? "throws" : "returns although no two equal texts were entered");
  rp::check(!g_echoed, "what is entered is echoed");
  rp::check(g_echo, "the echo is left off");
  if (!threw) { rp::check(in.at == asked, "reads " + std::to_string(in.at) + " lines"); rp::check(got == crypto::Hash<crypto::SHA512>(want).string(), "is not the SHA-512 of the text"); }
}
void vp_replay(const rp::Cands&, rp::Clock clk) {
  { rp::input("an item without a name"); bool t = false; try { MenuItem i("", [] {}); } catch (const maidsafe_error& e) { t = e.code() == make_error_code(CommonErrors::invalid_argument); } rp::check(t, "is accepted"); }
  while (clk.more()) { rp::input("building a menu"); once(); password(); }
}
