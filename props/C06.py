"""Strings: concatenation, comparison, length, containment, and conversions between strings and integers."""
from jf import Spec
from common import *
import lists


def spec(tier):
    t = lists.Tab()
    q = tier == "quick"
    h = PRELUDE + lists.RUNTIME + r'''
inline void sconcat(const P& p, uint64_t n, uint64_t m) {
  JfSlot in[2];
  char *a = symArr<char>(n, "a"), *b = symArr<char>(m, "b");
  setList(in[0], a, n); setList(in[1], b, m);
  auto r = call<StringStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n + m, "the length is the sum of the lengths");
  jf_assert(eqBytes(r.v.data, a, n), "starts with the first string");
  jf_assert(eqBytes(r.v.data + n, b, m), "ends with the second string");
}
inline void sconcat3(const P& p, uint64_t n, uint64_t m, uint64_t k) {
  JfSlot in[3];
  char *a = symArr<char>(n, "a"), *b = symArr<char>(m, "b"), *c = symArr<char>(k, "c");
  setList(in[0], a, n); setList(in[1], b, m); setList(in[2], c, k);
  auto r = call<StringStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n + m + k, "the length is the sum of the lengths");
  jf_assert(eqBytes(r.v.data, a, n) & eqBytes(r.v.data + n, b, m) & eqBytes(r.v.data + n + m, c, k), "the three strings in order");
}
inline void scmp(const P& p, uint64_t n, uint64_t m) {
  JfSlot in[2];
  uint8_t *a = symArr<uint8_t>(n, "a"), *b = symArr<uint8_t>(m, "b");
  setList(in[0], a, n); setList(in[1], b, m);
  auto r = call<int32_t>(p, in);
  int c = n < m ? -1 : n > m ? 1 : 0;
  for (uint64_t i = n < m ? n : m; i-- > 0;) c = sel<int>(a[i] < b[i], -1, sel<int>(a[i] > b[i], 1, c));
  jf_assert(r.ok, "evaluates without error");
  jf_assert((r.v < 0) == (c < 0), "negative exactly if the first string is smaller");
  jf_assert((r.v == 0) == (c == 0), "zero exactly if the strings are equal");
}
inline void slen(const P& p, uint64_t) {
  JfSlot in[1];
  char* a = symArr<char>(3, "a");
  uint32_t n = sym<uint32_t>("n");
  setList(in[0], a, n);
  auto r = call<uint32_t>(p, in);
  jf_assert(r.ok & (r.v == n), "the length in bytes");
}
inline void contains(const P& p, uint64_t n, uint64_t m) {
  JfSlot in[2];
  char *a = symArr<char>(n, "a"), *b = symArr<char>(m, "b");
  setList(in[0], a, n); setList(in[1], b, m);
  auto r = call<uint8_t>(p, in);
  bool e = false;
  if (m <= n) for (uint64_t i = 0; i + m <= n; i++) e |= eqBytes(a + i, b, m);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == (e ? 1 : 0), "1 exactly if the bytes occur at some position");
}
// decimal text of an integer with the given sign and number of digits
template <class T> void itoa_(const P& p, uint64_t neg, uint64_t d) {
  typedef std::make_unsigned_t<T> U;
  JfSlot in[1];
  T v = sym<T>("v");
  setIn(in[0], v);
  uint64_t lo = d == 1 ? 0 : 1, hi = 10;
  for (uint64_t i = 2; i < d; i++) lo *= 10;
  if (d > 1) lo *= 10;
  for (uint64_t i = 1; i < d; i++) hi *= 10;
  uint64_t mag = neg ? (uint64_t)(U)(0 - (U)v) : (uint64_t)(U)v;
  if (std::is_signed_v<T>) jf_assume(neg ? v < 0 : v >= 0);
  jf_assume(mag >= lo);
  if (d < 20) jf_assume(mag < hi);
  auto r = call<StringStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == d + neg, "as many characters as digits, plus the sign");
  if (neg) jf_assert(r.v.data[0] == '-', "a negative number starts with a minus sign");
  uint64_t m = mag;
  for (uint64_t i = d; i > 0; i -= i > 1 ? 2 : 1) {
    uint64_t two = m % 100;
    jf_assert(r.v.data[neg + i - 1] == (char)('0' + two % 10), "the decimal digits");
    if (i > 1) jf_assert(r.v.data[neg + i - 2] == (char)('0' + two / 10), "the decimal digits");
    m /= 100;
  }
}
// leading integer of a string: optional minus (signed types), then digits; zero if there is none or it does not fit
template <class T> void atoi_(const P& p, uint64_t n) {
  JfSlot in[1];
  char* a = symArr<char>(n, "a");
  setList(in[0], a, n);
  auto r = call<T>(p, in);
  bool neg = std::is_signed_v<T> && n > 0 && a[0] == '-';
  uint64_t mag = 0;
  bool live = true;
  for (uint64_t i = 0; i < n; i++) {
    bool dig = (a[i] >= '0') & (a[i] <= '9');
    live = live & (dig | (neg & (i == 0)));
    mag = sel<uint64_t>(live & dig, mag * 10 + (uint64_t)(a[i] - '0'), mag);
  }
  uint64_t lim = (uint64_t)std::numeric_limits<T>::max() + (neg ? 1 : 0);
  T e = sel<T>(mag <= lim, (T)(neg ? 0 - mag : mag), (T)0);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == e, "the value of the leading integer, 0 if there is none or it does not fit");
}
// the same for long texts: the first digits are given, the last k are arbitrary
template <class T> void atoiLong(const P& p, uint64_t c, uint64_t k) {
  static const char* const P[] = {"1844674407370955", "922337203685477", "-922337203685477", "42949", "21474", "-21474", "99999999999999999999"};
  JfSlot in[1];
  std::string s = P[c];
  char* tail = symArr<char>(k, "t");
  char* a = (char*)malloc(s.size() + k);
  memcpy(a, s.data(), s.size());
  memcpy(a + s.size(), tail, k);
  setList(in[0], a, s.size() + k);
  auto r = call<T>(p, in);
  bool neg = s[0] == '-';
  unsigned __int128 mag = 0;
  for (char ch : s) if (ch != '-') mag = mag * 10 + (ch - '0');
  bool live = true;
  for (uint64_t i = 0; i < k; i++) {
    live = live & (tail[i] >= '0') & (tail[i] <= '9');
    uint64_t mlo = (uint64_t)mag, mhi = (uint64_t)(mag >> 64);
    unsigned __int128 nx = mag * 10 + (unsigned)(tail[i] - '0');
    mag = ((unsigned __int128)jf_ite64(live, (uint64_t)(nx >> 64), mhi) << 64) | jf_ite64(live, (uint64_t)nx, mlo);
  }
  uint64_t lim = (uint64_t)std::numeric_limits<T>::max() + (neg ? 1 : 0);
  T e = sel<T>(mag <= lim, (T)(neg ? 0 - (uint64_t)mag : (uint64_t)mag), (T)0);
  if (neg && !std::is_signed_v<T>) e = 0;
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == e, "the value of the leading integer, 0 if it does not fit");
}
'''
    S, N = "str", 4 if q else 7
    pairs = [(n, m) for n in range(N + 1) for m in range(N + 1)]
    t.add("sconcat", f("StringConcat", inn(S, 0), inn(S, 1)), "sconcat($P, x, y)", pairs + [(9, 8), (17, 16), (300, 290)])
    t.add("splus", b("add", inn(S, 0), inn(S, 1)), "sconcat($P, x, y)", pairs + [(290, 3)])
    t.add("splus3", b("add", b("add", inn(S, 0), inn(S, 1)), inn(S, 2)), "sconcat3($P, x, y, z)", [(1, 2, 3), (0, 1, 0), (2, 0, 2)])
    t.add("sconcat3r", f("StringConcat", inn(S, 0), f("StringConcat", inn(S, 1), inn(S, 2))), "sconcat3($P, x, y, z)", [(1, 2, 3), (0, 1, 0), (2, 0, 2)])
    t.add("scmp", f("StringCmp", inn(S, 0), inn(S, 1)), "scmp($P, x, y)", pairs + [(8, 8), (9, 9), (300, 300), (300, 299)])
    t.add("slen", f("StringLen", inn(S, 0)), "slen($P, x)", [(0,)])
    t.add("scontains", f("StringContains", inn(S, 0), inn(S, 1)), "contains($P, x, y)",
          [(n, m) for n in range(0, N + 2) for m in range(0, 4)] + ([] if q else [(9, 2), (9, 3), (12, 4)]))
    t.add("splus_len", f("StringLen", b("add", inn(S, 0), inn(S, 0))), r'''{ JfSlot in[1]; char* a = symArr<char>(x, "a"); setList(in[0], a, x);
      auto r = call<uint32_t>($P, in); jf_assert(r.ok & (r.v == 2 * x), "a string added to itself is twice as long"); }''', [(0,), (1,), (5,)])
    for ty in INT:
        T = CT[ty]
        maxd = len(str(2 ** W[ty] - 1 if ty[0] == "u" else 2 ** (W[ty] - 1) - 1))
        ds = range(1, maxd + 1) if not q or W[ty] <= 16 else [1, 2, 3, 5] + ([8, maxd] if W[ty] == 32 else [8])
        t.add(f"CastString_{ty}", f("CastString", inn(ty, 0)), f"itoa_<{T}>($P, x, y)",
              [(neg, d) for d in ds for neg in ([0, 1] if ty[0] == "i" else [0])], 120)
        name = "Cast" + ty.upper()
        t.add(f"{name}_str", f(name, inn(S, 0)), f"atoi_<{T}>($P, x)", [(n,) for n in range(0, 5 if q else 7)], 120)
        if W[ty] >= 32:
            t.add(f"{name}_long", f(name, inn(S, 0)), f"atoiLong<{T}>($P, x, y)",
                  [(c_, 4 if c_ in (0, 1, 2) else 5) for c_ in range(6)] + [(6, 1)], 120)
    return Spec(progs=t.progs, harness=h + t.cpp(), jobs=t.jobs,
                bounds=f"strings up to {N} bytes (concatenation up to 33 and of 300 and 290; comparison also of 300 bytes, a few of them arbitrary) with every content; integer to text for every value with the listed digit counts{' (64-bit: up to 8 digits)' if q else ''}; text to integer for every text up to {4 if q else 6} bytes and every last 4-5 characters of texts around the limits of the 32- and 64-bit types",
                assumptions=["float to text (shortest round-trip decimal) is the C++ library's std::to_chars and is not modelled"],
                explanation="The optimised IR with the IR of the string builtins (including libstdc++'s from_chars/to_chars) against byte-wise definitions.")
