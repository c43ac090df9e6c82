"""String-list products and list conversions."""
from jf import Spec
from common import *
import lists


def spec(tier):
    t = lists.Tab()
    q = tier == "quick"
    h = PRELUDE + lists.RUNTIME + r'''
inline void join3(const StringStruct& r, const StringStruct& a, const StringStruct& s, const StringStruct& b) {
  jf_assert(r.len == (uint64_t)a.len + s.len + b.len, "left, separator, right");
  jf_assert(eqBytes(r.data, a.data, a.len) & eqBytes(r.data + a.len, s.data, s.len) & eqBytes(r.data + a.len + s.len, b.data, b.len), "left, separator, right");
}
struct In3 { StringStruct *a, *b; StringStruct s; };
// x: number of strings on the left/right and length of the separator (4 bits each); y, z: their lengths
inline In3 in3(JfSlot* in, uint64_t x, uint64_t y, uint64_t z) {
  uint64_t la[8], lb[8], n = x & 15, m = (x >> 4) & 15, k = (x >> 8) & 15;
  unpack(y, n, la); unpack(z, m, lb);
  In3 r{symStrs(la, n, "a"), symStrs(lb, m, "b"), {symArr<char>(k, "s"), (uint32_t)k}};
  setList(in[0], r.a, n); setList(in[1], r.b, m); setList(in[2], r.s.data, k);
  return r;
}
inline void cross(const P& p, uint64_t x, uint64_t y, uint64_t z) {
  JfSlot in[3];
  uint64_t n = x & 15, m = (x >> 4) & 15;
  In3 i3 = in3(in, x, y, z);
  auto r = call<StringListStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n * m, "one string per pair");
  for (uint64_t i = 0; i < n; i++) for (uint64_t j = 0; j < m; j++) join3(r.v.data[i * m + j], i3.a[i], i3.s, i3.b[j]);
}
inline void zip(const P& p, uint64_t x, uint64_t y, uint64_t z) {
  JfSlot in[3];
  uint64_t n = x & 15, m = (x >> 4) & 15;
  In3 i3 = in3(in, x, y, z);
  auto r = call<StringListStruct>(p, in);
  jf_assert(r.ok == (n == m), "fails exactly if the lengths differ");
  if (n != m) return;
  jf_assert(r.v.len == n, "one string per position");
  for (uint64_t i = 0; i < n; i++) join3(r.v.data[i], i3.a[i], i3.s, i3.b[i]);
}
// the value is representable in the target
template <class A, class B> bool fits(A v) {
  if constexpr (std::is_floating_point_v<A> && std::is_integral_v<B>) {
    constexpr int w = 8 * sizeof(B) - (std::is_signed_v<B> ? 1 : 0);
    const A top = (A)(1ull << (w - 1)) * 2;
    return (v < top) & (std::is_signed_v<B> ? (w == 63 || sizeof(A) * 8 - 1 == w ? v >= -top : v > -top - 1) : v > (A)-1);
  } else return true;
}
template <class A, class B> void lcast(const P& p, uint64_t n) {
  JfSlot in[1];
  A* a = symArr<A>(n, "a"); B e[24];
  setList(in[0], a, n);
  for (uint64_t i = 0; i < n; i++) { jf_assume(fits<A, B>(a[i])); e[i] = (B)a[i]; }
  auto r = call<typename ListOf<B>::type>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n, "as many elements");
  for (uint32_t i = 0; i < n; i++) jf_assert(same(r.v.data[i], e[i]), "every element is converted as a scalar");
}
// leading integer of each string
template <class T> T atoi_(const char* a, uint64_t n) {
  bool neg = std::is_signed_v<T> && n > 0 && a[0] == '-';
  uint64_t mag = 0;
  bool live = true;
  for (uint64_t i = 0; i < n; i++) {
    bool dig = (a[i] >= '0') & (a[i] <= '9');
    live = live & (dig | (neg & (i == 0)));
    mag = sel<uint64_t>(live & dig, mag * 10 + (uint64_t)(a[i] - '0'), mag);
  }
  uint64_t lim = (uint64_t)std::numeric_limits<T>::max() + (neg ? 1 : 0);
  return sel<T>(mag <= lim, (T)(neg ? 0 - mag : mag), (T)0);
}
template <class T> void ltoi(const P& p, uint64_t n, uint64_t code) {
  JfSlot in[1];
  uint64_t len[8]; T e[8];
  unpack(code, n, len);
  StringStruct* a = symStrs(len, n, "a");
  setList(in[0], a, n);
  auto r = call<typename ListOf<T>::type>(p, in);
  for (uint64_t i = 0; i < n; i++) e[i] = atoi_<T>(a[i].data, len[i]);
  eqList(r, e, n, "one number per string", "the leading integer of each string, 0 if there is none or it does not fit");
}
// code: sign and number of digits of each element (8 bits each)
template <class T> void ltos(const P& p, uint64_t n, uint64_t code) {
  typedef std::make_unsigned_t<T> U;
  JfSlot in[1];
  T* a = symArr<T>(n, "a");
  setList(in[0], a, n);
  uint64_t mag[8];
  for (uint64_t i = 0; i < n; i++) {
    uint64_t d = (code >> (8 * i)) & 15, neg = (code >> (8 * i + 4)) & 1, lo = d == 1 ? 0 : 1, hi = 10;
    for (uint64_t j = 1; j < d; j++) { lo *= 10; hi *= 10; }
    mag[i] = neg ? (uint64_t)(U)(0 - (U)a[i]) : (uint64_t)(U)a[i];
    if (std::is_signed_v<T>) jf_assume(neg ? a[i] < 0 : a[i] >= 0);
    jf_assume((mag[i] >= lo) & (mag[i] < hi));
  }
  auto r = call<StringListStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n, "one string per number");
  for (uint64_t k = 0; k < n; k++) {
    uint64_t d = (code >> (8 * k)) & 15, neg = (code >> (8 * k + 4)) & 1, m = mag[k];
    const StringStruct& s = r.v.data[k];
    jf_assert(s.len == d + neg, "the sign and the digits");
    if (neg) jf_assert(s.data[0] == '-', "a minus sign");
    for (uint64_t i = d; i > 0; i -= i > 1 ? 2 : 1) {
      uint64_t two = m % 100;
      jf_assert(s.data[neg + i - 1] == (char)('0' + two % 10), "the decimal digits");
      if (i > 1) jf_assert(s.data[neg + i - 2] == (char)('0' + two / 10), "the decimal digits");
      m /= 100;
    }
  }
}
'''
    X = lambda n, m, k: n | m << 4 | k << 8
    shapes = [(0, 0, 1, 0, 0), (0, 2, 1, 0, 0x11), (2, 0, 1, 0x11, 0), (1, 1, 0, 0, 0), (1, 1, 2, 3, 2), (2, 2, 1, 0x12, 0x20), (2, 3, 0, 0x01, 0x210), (3, 2, 3, 0x312, 0x04), (2, 2, 0, 0, 0), (2, 2, 1, 0, 0)]
    if not q:
        shapes += [(3, 3, 2, 0x123, 0x321), (4, 4, 1, 0x1203, 0x3021), (1, 5, 2, 5, 0x12345)]
    t.add("CrossJoin", f("CrossJoin", inn("lstr", 0), inn("lstr", 1), inn("str", 2)), "cross($P, x, y, z)", [(X(*s[:3]), s[3], s[4]) for s in shapes])
    zs = [(0, 0, 1, 0, 0), (0, 2, 1, 0, 0x11), (2, 1, 1, 0x11, 1), (1, 1, 0, 0, 0), (1, 1, 2, 3, 2), (2, 2, 1, 0x12, 0x20), (3, 3, 0, 0x011, 0x210), (3, 3, 3, 0x312, 0x204), (2, 2, 0, 0, 0), (3, 4, 1, 0x111, 0x1111)]
    if not q:
        zs += [(5, 5, 2, 0x12345, 0x54321), (6, 6, 1, 0x203040, 0x102030)]
    t.add("ZipConcat", f("ZipConcat", inn("lstr", 0), inn("lstr", 1), inn("str", 2)), "zip($P, x, y, z)", [(X(*s[:3]), s[3], s[4]) for s in zs])
    for a in NUM:
        for b2 in NUM:
            if a != b2:
                t.add(f"cast_{a}_{b2}", f(f"Cast{b2.upper()}List", inn("l" + a, 0)), f"lcast<{CT[a]}, {CT[b2]}>($P, x)", [(n,) for n in ([0, 1, 3] if q else [0, 1, 2, 3, 5, 8])])
    for ty in INT:
        T = CT[ty]
        t.add(f"lstr_{ty}", f(f"Cast{ty.upper()}List", inn("lstr", 0)), f"ltoi<{T}>($P, x, y)", [(0, 0), (1, 3), (2, 0x21), (3, 0x202)] + ([] if q else [(1, 4), (1, 5), (2, 0x33), (4, 0x1212)]), 120)
        s = 0x10 if ty[0] == "i" else 0
        t.add(f"str_{ty}", f("CastStringList", inn("l" + ty, 0)), f"ltos<{T}>($P, x, y)",
              [(0, 0), (1, 3 | s), (2, 0x0103 | s), (3, 0x020103 | s << 16)] + ([] if q else [(4, 0x03020301), (2, 0x0303 | s << 8)]), 120)
    return Spec(progs=t.progs, harness=h + t.cpp(), jobs=t.jobs,
                bounds=f"string lists of up to {3 if q else 6} strings of up to 5 bytes (every content, separators up to 3 bytes); number lists of up to {3 if q else 8} elements with every content; texts up to {3 if q else 5} characters, numbers of up to 3 digits in lists",
                assumptions=["floating-point values converted to integers are within the target's range", "float to text is not modelled"],
                explanation="The optimised IR with the IR of the builtins against element-wise definitions.")
