// libstdc++'s red-black tree functions, which are in its binary: any tree keeping the order will do (no rebalancing)
#include <map>
namespace std {
typedef _Rb_tree_node_base* N;
void _Rb_tree_insert_and_rebalance(const bool left, N x, N p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) { h._M_left = x; }
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
static N first(N x) { while (x->_M_left) x = x->_M_left; return x; }
static N last(N x) { while (x->_M_right) x = x->_M_right; return x; }
static N next(N x) {
  if (x->_M_right) return first(x->_M_right);
  N y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static void put(_Rb_tree_node_base& h, N x, N by) {
  if (h._M_parent == x) h._M_parent = by; else if (x->_M_parent->_M_left == x) x->_M_parent->_M_left = by; else x->_M_parent->_M_right = by;
  if (by) by->_M_parent = x->_M_parent;
}
N _Rb_tree_rebalance_for_erase(N const z, _Rb_tree_node_base& h) throw() {
  if (!z->_M_left) put(h, z, z->_M_right);
  else if (!z->_M_right) put(h, z, z->_M_left);
  else {
    N y = first(z->_M_right);
    if (y->_M_parent != z) { put(h, y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    put(h, z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  h._M_left = h._M_parent ? first(h._M_parent) : &h;
  h._M_right = h._M_parent ? last(h._M_parent) : &h;
  return z;
}
N _Rb_tree_increment(N x) throw() { return next(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return next(const_cast<N>(x)); }
N _Rb_tree_decrement(N x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x && x->_M_parent->_M_left != x) return x->_M_right;
  if (x->_M_left) return last(x->_M_left);
  N y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<N>(x)); }
}
