"""Sorting, de-duplication, concatenation, membership, truncation."""
from jf import Spec
from common import *
import lists


def spec(tier):
    t = lists.Tab()
    q = tier == "quick"
    LS = [0, 1, 2, 4] if q else [0, 1, 2, 3, 4, 5]
    LU = [0, 1, 2, 4] if q else [0, 1, 2, 3, 4, 5]
    LC = [(0, 0), (0, 3), (3, 0), (2, 3)] if q else [(a, b) for a in (0, 1, 2, 5, 8) for b in (0, 1, 3, 8)]
    h = PRELUDE + lists.RUNTIME + r'''
// the result is ordered and holds every value as often as the list does
template <class T> void ordered(const Res<typename ListOf<T>::type>& r, const T* a, uint64_t n, bool desc) {
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n, "as many results as elements");
  bool o = true, perm = true;
  for (uint64_t i = 1; i < n; i++) o &= desc ? r.v.data[i - 1] >= r.v.data[i] : r.v.data[i - 1] <= r.v.data[i];
  jf_assert(o, "the result is ordered");
  for (uint64_t i = 0; i < n; i++) {
    uint32_t x = 0, y = 0;
    for (uint64_t j = 0; j < n; j++) { x += same(a[i], a[j]); y += same(a[i], r.v.data[j]); }
    perm &= x == y;
  }
  jf_assert(perm, "the result is a permutation of the list");
}
template <class T> void sorted(const P& p, bool desc, uint64_t n) {
  JfSlot in[1];
  T* a = symArr<T>(n, "a");
  noNan(a, n);
  setList(in[0], a, n);
  ordered<T>(call<typename ListOf<T>::type>(p, in), a, n, desc);
}
// many elements of few values: beyond the threshold of insertion sort
template <class T> void sorted2(const P& p, bool desc, uint64_t n, uint64_t mask) {
  JfSlot in[1];
  T* a = (T*)malloc(n * sizeof(T));
  T x = sym<T>("x"), y = sym<T>("y");
  T xy[2] = {x, y};
  noNan(xy, 2);
  for (uint64_t i = 0; i < n; i++) a[i] = (mask >> i) & 1 ? x : y;
  setList(in[0], a, n);
  ordered<T>(call<typename ListOf<T>::type>(p, in), a, n, desc);
}
template <class T> void uniq(const P& p, uint64_t n) {
  JfSlot in[1];
  T* a = symArr<T>(n, "a");
  setList(in[0], a, n);
  auto r = call<typename ListOf<T>::type>(p, in);
  jf_assert(r.ok, "evaluates without error");
  uint32_t pos = 0;
  for (uint64_t i = 0; i < n; i++) {
    bool fresh = true;
    for (uint64_t j = 0; j < i; j++) fresh &= !(a[j] == a[i]);
    if (r.v.len) jf_assert(!fresh | ((pos < r.v.len) & same(r.v.data[jf_ite64(fresh & (pos < r.v.len), pos, 0)], a[i])), "the first occurrence of every value, in order");
    pos += fresh;
  }
  jf_assert(r.v.len == pos, "one result per different value");
}
inline void uniqS(const P& p, uint64_t n, uint64_t code) {
  JfSlot in[1];
  uint64_t len[8];
  unpack(code, n, len);
  StringStruct* a = symStrs(len, n, "a");
  setList(in[0], a, n);
  auto r = call<StringListStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  uint32_t pos = 0;
  for (uint64_t i = 0; i < n; i++) {
    bool fresh = true;
    for (uint64_t j = 0; j < i; j++) fresh &= !eqStr(a[j], a[i]);
    if (fresh) {
      jf_assert(pos < r.v.len, "one result per different string");
      jf_assert(r.v.data[pos].len == len[i], "the first occurrence of every string, in order");
      jf_assert(eqStr(r.v.data[pos], a[i]), "the first occurrence of every string, in order");
      pos++;
    }
  }
  jf_assert(r.v.len == pos, "one result per different string");
}
template <class T> void concat(const P& p, uint64_t n, uint64_t m) {
  JfSlot in[2];
  T *a = symArr<T>(n, "a"), *b = symArr<T>(m, "b"), e[620];
  setList(in[0], a, n); setList(in[1], b, m);
  for (uint64_t i = 0; i < n + m; i++) e[i] = i < n ? a[i] : b[i - n];
  eqList(call<typename ListOf<T>::type>(p, in), e, n + m, "the length is the sum of the lengths", "the elements of the first list, then those of the second");
}
inline void concatS(const P& p, uint64_t n, uint64_t m) {
  JfSlot in[2];
  uint64_t la[8], lb[8];
  unpack(0x2101, n, la); unpack(0x1203, m, lb);
  StringStruct *a = symStrs(la, n, "a"), *b = symStrs(lb, m, "b");
  setList(in[0], a, n); setList(in[1], b, m);
  auto r = call<StringListStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n + m, "the length is the sum of the lengths");
  for (uint64_t i = 0; i < n + m; i++) {
    const StringStruct& e = i < n ? a[i] : b[i - n];
    assertStr(r.v.data[i], e.data, e.len, "the strings of the first list, then those of the second");
  }
}
template <class T> void isin(const P& p, uint64_t n) {
  JfSlot in[2];
  T v = sym<T>("v"); T* a = symArr<T>(n, "a");
  setIn(in[0], v); setList(in[1], a, n);
  auto r = call<uint8_t>(p, in);
  bool e = false;
  for (uint64_t i = 0; i < n; i++) e |= a[i] == v;
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == (e ? 1 : 0), "1 exactly if some element equals the value");
}
inline void isinS(const P& p, uint64_t n, uint64_t code, uint64_t m) {
  JfSlot in[2];
  uint64_t len[8];
  unpack(code, n, len);
  StringStruct* a = symStrs(len, n, "a");
  char* s = symArr<char>(m, "s");
  setList(in[0], s, m); setList(in[1], a, n);
  auto r = call<uint8_t>(p, in);
  bool e = false;
  for (uint64_t i = 0; i < n; i++) if (len[i] == m) e |= eqBytes(a[i].data, s, m);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == (e ? 1 : 0), "1 exactly if some string has the same bytes");
}
template <class T> void trunc_(const P& p, uint64_t n) {
  JfSlot in[2];
  T* a = symArr<T>(n, "a"); uint32_t k = sym<uint32_t>("k");
  if (n > 36) jf_assume((k > n - 3) & (k != 0xffffffffu));
  setList(in[0], a, n); setIn(in[1], k);
  auto r = call<typename ListOf<T>::type>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == (k < n ? k : n), "at most the given number of elements");
  for (uint64_t i = 0; i < n; i++) if (i < r.v.len) jf_assert(same(r.v.data[i], a[i]), "the first elements");
}
inline void truncS(const P& p, uint64_t n) {
  JfSlot in[2];
  uint64_t len[8];
  unpack(0x1201, n, len);
  StringStruct* a = symStrs(len, n, "a"); uint32_t k = sym<uint32_t>("k");
  if (n > 36) jf_assume((k > n - 3) & (k != 0xffffffffu));
  setList(in[0], a, n); setIn(in[1], k);
  auto r = call<StringListStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == (k < n ? k : n), "at most the given number of strings");
  for (uint64_t i = 0; i < n; i++) if (i < r.v.len) assertStr(r.v.data[i], a[i].data, a[i].len, "the first strings");
}
'''
    for ty in NUM:
        T, lt = CT[ty], "l" + ty
        G = [300]
        for d, nm in enumerate(("SortAsc", "SortDesc")):
            t.add(f"{nm}_{ty}", f(nm, inn(lt, 0)), f"sorted<{T}>($P, {'true' if d else 'false'}, x)", [(n,) for n in LS], 120)
            t.add(f"{nm}2_{ty}", f(nm, inn(lt, 0)), f"sorted2<{T}>($P, {'true' if d else 'false'}, x, y)",
                  [(18, 0), (17, 0b1011), (20, 0xaaaaa)] if not q or ty in ("u8", "i32", "f64") else [(18, 0x2a)], 120)
        t.add(f"Unique_{ty}", f("Unique", inn(lt, 0)), f"uniq<{T}>($P, x)", [(n,) for n in LU], 120)
        t.add(f"ListConcat_{ty}", f("ListConcat", inn(lt, 0), inn(lt, 1)), f"concat<{T}>($P, x, y)", LC + [(300, 290)])
        t.add(f"in_{ty}", f("in", inn(ty, 0), inn(lt, 1)), f"isin<{T}>($P, x)", [(n,) for n in LS + G])
        t.add(f"Truncate_{ty}", f("Truncate", inn(lt, 0), inn("u32", 1)), f"trunc_<{T}>($P, x)", [(n,) for n in LS + G])
    t.add("Unique_str", f("Unique", inn("lstr", 0)), "uniqS($P, x, y)", [(0, 0), (1, 2), (3, 0x000), (3, 0x111), (3, 0x212), (3, 0x120)] + ([] if q else [(4, 0x1111), (4, 0x2222), (4, 0x3213), (5, 0x11111)]), 120)
    t.add("ListConcat_str", f("ListConcat", inn("lstr", 0), inn("lstr", 1)), "concatS($P, x, y)", [(0, 0), (0, 2), (3, 0), (2, 3), (4, 4)])
    t.add("in_str", f("in", inn("str", 0), inn("lstr", 1)), "isinS($P, x, y, z)", [(0, 0, 1), (1, 0, 0), (3, 0x212, 2), (3, 0x333, 3), (2, 0x12, 3)])
    t.add("Truncate_str", f("Truncate", inn("lstr", 0), inn("u32", 1)), "truncS($P, x)", [(0,), (2,), (4,)])
    return Spec(progs=t.progs, harness=h + t.cpp(), jobs=t.jobs,
                bounds=f"lists of length {LS} with every content (sorting also 17..20 elements drawn from two symbolic values); strings up to 3 bytes, lists of up to {3 if q else 5} strings; every count; also lists of 300 elements, of which a few (128, 255, 256 and the last) are arbitrary and the others fixed (concatenation, membership, truncation)",
                assumptions=["sorting: no element is NaN"],
                explanation="The optimised IR of one call with the IR of the C++ implementation it binds to, against defining properties of the result (ordered permutation, first occurrences).")
