"""C++ helpers shared by the harnesses over lists."""
RUNTIME = r'''
#include <cmath>
#include <limits>
// a list result equal, element by element, to the expected one
template <class R, class T> void eqList(const Res<R>& r, const T* e, uint32_t n, const char* lm, const char* em) {
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n, lm);
  for (uint32_t i = 0; i < n; i++) jf_assert(same(r.v.data[i], e[i]), em);
}
// division and modulo by v are defined for every x in the list
template <class T> void divOk(T x, T v) {
  if constexpr (std::is_integral_v<T>) {
    jf_assume(v != 0);
    if constexpr (std::is_signed_v<T> && sizeof(T) >= 4) jf_assume(!((x == std::numeric_limits<T>::min()) & (v == (T)-1)));
  }
}
template <class T> T arith(int op, T a, T b) {
  switch (op) {
    case 0: return (T)(a + b);
    case 1: return (T)(a - b);
    case 2: return (T)(a * b);
    case 3: return (T)(a / b);
    default:
      if constexpr (std::is_integral_v<T>) {
        switch (op) {
          case 4: return (T)(a % b);
          case 5: return (T)(a & b);
          case 6: return (T)(a | b);
          case 7: return (T)(a ^ b);
        }
      }
  }
  return T();
}
template <class T> bool cmp(int op, T a, T b) {
  switch (op) {
    case 0: return a > b;
    case 1: return a >= b;
    case 2: return a == b;
    case 3: return a < b;
    case 4: return a <= b;
    default: return a != b;
  }
}
'''


class Tab:
    """Programs and harness instances dispatched by one switch per harness."""

    def __init__(self, name="h_fn"):
        self.name, self.ids, self.cases, self.progs, self.jobs = name, [], "", [], []

    def add(self, pid, sx, body, insts=((),), limit=60):
        """body may use $P (the program), x, y, z (the instance's arguments)."""
        k = len(self.ids)
        self.ids.append(pid)
        self.progs.append((pid, sx))
        self.cases += f"    case {k}: {body.replace('$P', f'{self.name}_T[{k}]')}; break;\n"
        for a in insts:
            self.jobs.append((pid + "".join(f"_{v}" for v in a), self.name, [k] + list(a), limit))

    def cpp(self):
        from common import table
        return table(self.name + "_T", self.ids) + f"JF_H {self.name}(uint64_t k, uint64_t x, uint64_t y, uint64_t z) {{\n  switch (k) {{\n{self.cases}  }}\n}}\n"

RUNTIME += r'''
// a list of strings of the given lengths with symbolic bytes
inline StringStruct* symStrs(const uint64_t* len, uint64_t n, const char* name) {
  if (!n) return nullptr;
  StringStruct* s = (StringStruct*)malloc(n * sizeof(StringStruct));
  for (uint64_t i = 0; i < n; i++) { s[i].data = symArr<char>(len[i], name); s[i].len = (uint32_t)len[i]; }
  return s;
}
// lengths packed four bits each, least significant first
inline void unpack(uint64_t code, uint64_t n, uint64_t* len) { for (uint64_t i = 0; i < n; i++) len[i] = (code >> (4 * i)) & 15; }
inline bool eqBytes(const char* a, const char* b, uint64_t n) {
  bool r = true;
  for (uint64_t i = 0; i < n; i++) r &= a[i] == b[i];
  return r;
}
inline bool eqStr(const StringStruct& a, const StringStruct& b) { return a.len == b.len && eqBytes(a.data, b.data, a.len); }
inline void assertStr(const StringStruct& r, const char* e, uint64_t n, const char* m) {
  jf_assert(r.len == n, m);
  jf_assert(eqBytes(r.data, e, n), m);
}
template <class T> T lo(T a, T b) { return sel(b < a, b, a); }
template <class T> T hi(T a, T b) { return sel(b < a, a, b); }
// sorts without branching
template <class T> void network(T* a, uint64_t n) {
  for (uint64_t i = 0; i < n; i++) for (uint64_t j = 0; j + 1 < n - i; j++) { T x = lo(a[j], a[j + 1]), y = hi(a[j], a[j + 1]); a[j] = x; a[j + 1] = y; }
}
template <class T> void noNan(const T* a, uint64_t n) {
  if constexpr (std::is_floating_point_v<T>) { bool b = false; for (uint64_t i = 0; i < n; i++) b |= isnan_(a[i]); jf_assume(!b); }
}
'''
