// Bitcode models of the few libstdc++ functions that have no body in headers.
// Red-black balancing is unobservable, so the tree is kept unbalanced.
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <bits/hashtable_policy.h>
namespace std _GLIBCXX_VISIBILITY(default) {
typedef _Rb_tree_node_base* P;
typedef const _Rb_tree_node_base* CP;
static bool isHeader(CP x) { return x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x && x->_M_parent->_M_color == _S_black && x->_M_color == _S_red; }
static P inc(P x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  P y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static P dec(P x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;  // header: all real nodes are black here
  if (x->_M_left) { P y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  P y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<P>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<P>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, P x, P p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(P const z, _Rb_tree_node_base& h) throw() {
  // maintain leftmost / rightmost
  P nl = h._M_left == z ? inc(z) : h._M_left;
  P nr = h._M_right == z ? dec(z) : h._M_right;
  auto replace = [&](P u, P v) {
    if (h._M_parent == u) h._M_parent = v;
    else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    P y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  else { h._M_left = nl; h._M_right = nr; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base* const t = this->_M_prev;
    this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  static const unsigned char dummy = 0; (void)dummy;
  std::size_t p = 13;
  static const std::size_t pr[] = {13, 29, 59, 127, 257, 541, 1109, 2357, 5087};
  for (std::size_t q : pr) { p = q; if (q >= n) break; }
  _M_next_resize = p;
  return p;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t b, std::size_t e, std::size_t i) const {
  if (e + i > b || _M_next_resize == 0) return {true, _M_next_bkt(e + i > 2 * b ? e + i : 2 * b)};
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) seed = seed * 31 + c[i]; return seed; }
}  // namespace std
