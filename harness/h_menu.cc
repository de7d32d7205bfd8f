#include <cstddef>
#include <new>
#include <exception>
#include <string>
#include "maidsafe/common/cli.h"
#include "maidsafe/common/crypto.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/menu.h"
#include "maidsafe/common/menu_item.h"
using namespace maidsafe;
struct Plain : std::exception {};
extern "C" {
int op_ext(int k);
void op(int k) {
  int how = op_ext(k);
  if (how == 1) BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
  if (how == 2) throw Plain();
}
void in_bad() { BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument)); }
void in_end() { BOOST_THROW_EXCEPTION(MakeError(CommonErrors::unknown)); }
std::size_t mi_size() { return sizeof(MenuItem); }
void mi_ctor(void* p, const std::string& n) { new (p) MenuItem(n, nullptr); }
void mi_ctor_op(void* p, const std::string& n, int k) { new (p) MenuItem(n, [k] { op(k); }); }
MenuItem* mi_add(MenuItem& p, const std::string& n, int k) { return p.AddChildItem(n, [k] { op(k); }); }
MenuItem* mi_add_none(MenuItem& p, const std::string& n) { return p.AddChildItem(n); }
const MenuItem* mi_child(const MenuItem& p, int i) { return p.Child(i); }
bool mi_leaf(const MenuItem& p) { return p.HasNoChildren(); }
void mi_do(const MenuItem& p) { p.DoOperation(); }
void mi_show(const MenuItem& p) { p.ShowChildrenNames(); }
const MenuItem* mi_parent(const MenuItem& p) { return p.kParent_; }
const std::string& mi_name(const MenuItem& p) { return p.kName_; }
std::size_t mi_off_children(const MenuItem& p) { return reinterpret_cast<const char*>(&p.children_) - reinterpret_cast<const char*>(&p); }
std::size_t m_size() { return sizeof(Menu); }
void m_ctor(void* p, const std::string& n) { new (p) Menu(n); }
void m_ctor2(void* p, const std::string& n, const std::string& q) { new (p) Menu(n, q); }
void m_dtor(Menu& m) { m.~Menu(); }
MenuItem* m_top(Menu& m) { return &m.top_level_item_; }
MenuItem* m_add(Menu& m, const std::string& n, int k) { return m.AddItem(n, [k] { op(k); }); }
MenuItem* m_add_none(Menu& m, const std::string& n) { return m.AddItem(n); }
const MenuItem* m_at(Menu& m) { return m.current_item_; }
void m_go(Menu& m, const MenuItem* i) { m.current_item_ = i; }
typedef decltype(crypto::Hash<crypto::SHA512>(std::string())) sha_t;
long sha_off_s(const sha_t& b) { return reinterpret_cast<const char*>(&b.string_) - reinterpret_cast<const char*>(&b); }
long sha_off_v(const sha_t& b) { return reinterpret_cast<const char*>(&b.valid_) - reinterpret_cast<const char*>(&b); }
void cli_ctor(void* p, const std::string& q) { new (p) CLI(q); }
void cli_password(std::string& r, const CLI& c, bool repeat) { r = c.GetPassword(repeat); }
int m_run(Menu& m) { return m.Run(); }
}
