// Runtime support linked into the symbolic module: library pieces whose
// bodies live in libstdc++.so.  Not part of the code under test.
#include <cstdint>
#include <cstring>
#include <ios>
#include <istream>
#include <locale>
#include <map>
#include <ostream>
#include <set>
#include <sstream>
#include <streambuf>
#include <string>
#include <unordered_map>

// ---- red-black tree primitives, as an unbalanced search tree ---------------
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
    return x;
  }
  auto y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    auto y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  auto y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x,
                                   _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& h) throw() {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) {
      h._M_parent = x;
      h._M_right = x;
    } else if (p == h._M_left) {
      h._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t primes[] = {2,   3,   5,   7,    11,   13,  17,
                                  29,  37,  59,  97,   157,  257, 541,
                                  1109, 2357, 5087, 10273};
  for (size_t p : primes)
    if (p >= n) {
      const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = p;
      return p;
    }
  const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = 20753;
  return 20753;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > bkt) {
    size_t want = elt + ins > 2 * bkt ? elt + ins : 2 * bkt;
    return {true, _M_next_bkt(want < 13 ? 13 : want)};
  }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  auto c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) seed = seed * 131 + c[i];
  return seed;
}
// ---- locale / ios_base: inert ---------------------------------------------
static uint64_t g_facet[128];  // never called: text formatting is not modelled
static uint64_t* g_facets[1] = {g_facet};
static uint64_t* g_locale_impl[4] = {nullptr, reinterpret_cast<uint64_t*>(g_facets), nullptr, nullptr};
locale::locale() throw() { *reinterpret_cast<void**>(this) = g_locale_impl; }
locale::locale(const locale&) throw() { *reinterpret_cast<void**>(this) = g_locale_impl; }
locale::~locale() throw() {}
const locale& locale::operator=(const locale&) throw() { return *this; }
ios_base::ios_base() throw() {
  _M_precision = 6;
  _M_width = 0;
  _M_flags = ios_base::skipws | ios_base::dec;
  _M_exception = ios_base::goodbit;
  _M_streambuf_state = ios_base::goodbit;
}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() {
  _M_precision = 6;
  _M_width = 0;
  _M_flags = ios_base::skipws | ios_base::dec;
}
size_t locale::id::_M_id() const throw() { return 0; }
template class basic_string<char>;
template class basic_streambuf<char>;
template class basic_stringbuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringstream<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
}  // namespace std
