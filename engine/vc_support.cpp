// Out-of-line pieces of libstdc++ that are not visible in headers, given reference bodies so that the
// VC generator can execute containers (assumed contracts on dependencies).  Never linked natively.
#include <unordered_map>
#include <map>
#include <list>
namespace std {
namespace __detail {
  std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
    std::size_t b = n < 13 ? 13 : (n * 2 + 1);
    _M_next_resize = b;
    return b;
  }
  std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const {
    if (elt + ins > _M_next_resize || bkt < 13) {
      std::size_t want = (elt + ins) > bkt ? (elt + ins) : bkt;
      if (want < 13) want = 13;
      if (elt + ins < bkt) { _M_next_resize = bkt; return {false, 0}; }
      return {true, _M_next_bkt(want + 1)};
    }
    return {false, 0};
  }
  void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
  void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
  void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
    if (this != l) {
      l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
      _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
  }
}
  static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
  }
  static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
  }
  _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
  const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc((_Rb_tree_node_base *) x); }
  _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
  const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec((_Rb_tree_node_base *) x); }
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    // header stays red, nodes black; unbalanced search tree with the same in-order sequence
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black; h._M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  }
  _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    _Rb_tree_node_base *y = z, *x;
    if (!z->_M_left) x = z->_M_right;
    else if (!z->_M_right) x = z->_M_left;
    else { y = z->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
      z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
      if (y != z->_M_right) {
        if (x) x->_M_parent = y->_M_parent;
        y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
      }
      if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
      y->_M_parent = z->_M_parent;
    } else {
      if (x) x->_M_parent = z->_M_parent;
      if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
      if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { y = x; while (y->_M_left) y = y->_M_left; h._M_left = y; } }
      if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { y = x; while (y->_M_right) y = y->_M_right; h._M_right = y; } }
    }
    return z;
  }
}
#include <string>
template class std::__cxx11::basic_string<char>;
