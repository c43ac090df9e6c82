// Small library functions the sources may call, as code to be encoded (the
// symbolic executor has no model of these).  Weak: a definition in the code
// under test takes precedence.
#include <cstddef>
#include <cstdint>
#include <list>
#include <set>
#define W extern "C" __attribute__((weak, used))

W size_t strnlen(const char* s, size_t n) noexcept { size_t i = 0; while (i < n && s[i]) i++; return i; }
W int strcmp(const char* a, const char* b) noexcept {
  while (*a && *a == *b) a++, b++;
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
W int strncmp(const char* a, const char* b, size_t n) noexcept {
  for (; n; n--, a++, b++) {
    if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b;
    if (!*a) return 0;
  }
  return 0;
}
W char* strchr(const char* s, int c) noexcept {
  for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; }
}
W char* strrchr(const char* s, int c) noexcept {
  const char* r = nullptr;
  for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
W void* memrchr(const void* s, int c, size_t n) noexcept {
  const unsigned char* p = (const unsigned char*)s;
  while (n--) if (p[n] == (unsigned char)c) return (void*)(p + n);
  return nullptr;
}
W void* memmem(const void* h, size_t hn, const void* n, size_t nn) noexcept {
  const char* a = (const char*)h;
  const char* b = (const char*)n;
  if (nn > hn) return nullptr;
  for (size_t i = 0; i + nn <= hn; i++) {
    size_t k = 0;
    while (k < nn && a[i + k] == b[k]) k++;
    if (k == nn) return (void*)(a + i);
  }
  return nullptr;
}
W char* strstr(const char* a, const char* b) noexcept {
  for (;; a++) {
    size_t k = 0;
    while (b[k] && a[k] == b[k]) k++;
    if (!b[k]) return (char*)a;
    if (!*a) return nullptr;
  }
}
W char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) {} return r; }
W char* strncpy(char* d, const char* s, size_t n) noexcept {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
W char* strcat(char* d, const char* s) noexcept { char* r = d; while (*d) d++; while ((*d++ = *s++)) {} return r; }
W int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
W int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
W int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
W int isalpha(int c) noexcept { return isupper(c) || islower(c); }
W int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
W int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
W int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
W int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
W int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
static int jf_errno;
W int* __errno_location() noexcept { return &jf_errno; }

static uint64_t scan(const char* s, char** end, int base, uint64_t max, uint64_t min, bool sgn) {
  const char* p = s;
  while (isspace((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  auto dig = [&](char c) { int d = isdigit((unsigned char)c) ? c - '0' : isalpha((unsigned char)c) ? tolower(c) - 'a' + 10 : 99; return d < base ? d : -1; };
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  const char* st = p;
  uint64_t v = 0, lim = sgn && neg ? min : max;
  bool ovf = false;
  for (int d; (d = dig(*p)) >= 0; p++) {
    if (v > (lim - (uint64_t)d) / (uint64_t)base || (uint64_t)d > lim) ovf = true;
    else v = v * (uint64_t)base + (uint64_t)d;
  }
  if (end) *end = (char*)(p == st ? s : p);
  if (ovf) { jf_errno = 34; return sgn && neg ? (uint64_t)0 - min : max; }
  return neg ? (uint64_t)0 - v : v;
}
W long strtol(const char* s, char** e, int b) noexcept { return (long)scan(s, e, b, INT64_MAX, (uint64_t)INT64_MAX + 1, true); }
W long long strtoll(const char* s, char** e, int b) noexcept { return (long long)scan(s, e, b, INT64_MAX, (uint64_t)INT64_MAX + 1, true); }
W unsigned long strtoul(const char* s, char** e, int b) noexcept { return scan(s, e, b, UINT64_MAX, 0, false); }
W unsigned long long strtoull(const char* s, char** e, int b) noexcept { return scan(s, e, b, UINT64_MAX, 0, false); }

// Node containers: the order of the elements is what matters, not the balance
// of the tree.
namespace std {
using N = _Rb_tree_node_base;
__attribute__((weak, used)) N* _Rb_tree_increment(N* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
__attribute__((weak, used)) const N* _Rb_tree_increment(const N* x) throw() { return _Rb_tree_increment(const_cast<N*>(x)); }
__attribute__((weak, used)) N* _Rb_tree_decrement(N* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  N* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
__attribute__((weak, used)) const N* _Rb_tree_decrement(const N* x) throw() { return _Rb_tree_decrement(const_cast<N*>(x)); }
__attribute__((weak, used)) void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
__attribute__((weak, used)) N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
  auto repl = [&](N* a, N* b) {
    if (h._M_parent == a) h._M_parent = b;
    else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
    else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  if (h._M_left == z) h._M_left = _Rb_tree_increment(z);
  if (h._M_right == z) h._M_right = _Rb_tree_decrement(z);
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    N* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  return z;
}
namespace __detail {
__attribute__((weak, used)) void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
__attribute__((weak, used)) void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
__attribute__((weak, used)) void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base* t = _M_prev;
    _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
}  // namespace __detail
}  // namespace std
