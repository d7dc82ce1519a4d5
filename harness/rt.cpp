// Run-time support that lives in shared libraries, given as source so that it is executed like the rest:
// red-black trees (kept unbalanced: only the order is observable), hash table growth, once flags, mutexes.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <unordered_map>
#include <map>
namespace std {
__attribute__((weak)) void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) {
      h._M_parent = x;
      h._M_right = x;
    } else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
static _Rb_tree_node_base* next_(_Rb_tree_node_base* x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* prev_(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right) x = x->_M_right;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
__attribute__((weak)) _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return next_(x); }
__attribute__((weak)) const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return next_(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((weak)) _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return prev_(x); }
__attribute__((weak)) const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return prev_(const_cast<_Rb_tree_node_base*>(x)); }
__attribute__((weak)) _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto lo = [](_Rb_tree_node_base* x) { while (x->_M_left) x = x->_M_left; return x; };
  auto hi = [](_Rb_tree_node_base* x) { while (x->_M_right) x = x->_M_right; return x; };
  auto put = [&](_Rb_tree_node_base* old, _Rb_tree_node_base* x) {
    if (h._M_parent == old) h._M_parent = x;
    else if (old->_M_parent->_M_left == old) old->_M_parent->_M_left = x;
    else old->_M_parent->_M_right = x;
    if (x) x->_M_parent = old->_M_parent;
  };
  if (z->_M_left && z->_M_right) {
    _Rb_tree_node_base* y = lo(z->_M_right);
    if (y->_M_parent != z) {
      put(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    put(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  } else put(z, z->_M_left ? z->_M_left : z->_M_right);
  if (h._M_parent) {
    h._M_left = lo(h._M_parent);
    h._M_right = hi(h._M_parent);
  } else h._M_left = h._M_right = &h;
  return z;
}
namespace __detail {
__attribute__((weak)) std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  static const std::size_t p[] = {2, 5, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697, 1447153};
  std::size_t i = 0;
  while (i + 1 < sizeof p / sizeof *p && p[i] < n) i++;
  _M_next_resize = p[i];
  return p[i];
}
__attribute__((weak)) std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t el, std::size_t ins) const {
  if (el + ins > _M_next_resize) {
    std::size_t want = el + ins < 11 && !_M_next_resize ? 11 : el + ins;
    if (want > bkt) return {true, _M_next_bkt(want + 1 < bkt * 2 ? bkt * 2 : want + 1)};
    _M_next_resize = bkt;
  }
  return {false, 0};
}
}  // namespace __detail
// any hash is as good: only the order of iteration depends on it
__attribute__((weak)) std::size_t _Hash_bytes(const void* p, std::size_t n, std::size_t seed) {
  std::size_t h = seed;
  for (std::size_t i = 0; i < n; i++) h = h << 5 ^ h >> 59 ^ ((const unsigned char*)p)[i];
  return h;
}
}  // namespace std
#ifndef NO_THREADS
namespace std {
__thread void* __once_callable;
__thread void (*__once_call)();
}
extern "C" {
__attribute__((weak)) void __once_proxy() { std::__once_call(); }
__attribute__((weak)) int pthread_mutex_lock(void*) { return 0; }
__attribute__((weak)) int pthread_mutex_unlock(void*) { return 0; }
__attribute__((weak)) int pthread_mutex_trylock(void*) { return 0; }
__attribute__((weak)) int pthread_once(int* c, void (*f)()) {
  if (*c == 0) {
    *c = 2;
    f();
  }
  return 0;
}
}
#endif
