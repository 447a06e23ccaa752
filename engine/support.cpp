// Library code the encoding needs as bitcode: the real libstdc++ string templates, a plain binary search tree in
// place of the red-black rebalancing, and the placeholder used when a symbolic integer is formatted into a message.
#include <string>
#include <map>
#include "sx.h"
template class std::basic_string<char>;
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  if (h._M_left == z) h._M_left = _Rb_tree_increment(z);
  if (h._M_right == z) h._M_right = (h._M_parent == z && !z->_M_left) ? &h : _Rb_tree_decrement(z);
  _Rb_tree_node_base* r;
  if (!z->_M_left) r = z->_M_right; else if (!z->_M_right) r = z->_M_left; else {
    r = z->_M_right; while (r->_M_left) r = r->_M_left;
    if (r->_M_parent != z) { r->_M_parent->_M_left = r->_M_right; if (r->_M_right) r->_M_right->_M_parent = r->_M_parent; r->_M_right = z->_M_right; z->_M_right->_M_parent = r; }
    r->_M_left = z->_M_left; z->_M_left->_M_parent = r;
  }
  _Rb_tree_node_base* p = z->_M_parent; if (r) r->_M_parent = p;
  if (h._M_parent == z) h._M_parent = r; else if (p->_M_left == z) p->_M_left = r; else p->_M_right = r;
  return z;
}
}
extern "C" void sx_symstring(std::string* out) { new (out) std::string("?"); }
