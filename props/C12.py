"""Lookup, search, compaction, gathering and bucketing."""
from jf import Spec
from common import *
import lists


def spec(tier):
    t = lists.Tab()
    q = tier == "quick"
    LF = [0, 1, 4] if q else [0, 1, 2, 3, 4, 6, 9]
    LL = [(0, 0), (2, 0), (0, 2), (2, 3)] if q else [(a, b) for a in (0, 1, 2, 3) for b in (0, 1, 2, 3, 4)]
    LG = [(0, 2), (3, 0), (3, 3)] if q else [(a, b) for a in (0, 1, 3, 5) for b in (0, 1, 3, 5)]
    LB = [(2, 0), (0, 3), (2, 1), (2, 3)] if q else [(1, 0), (0, 3), (2, 1), (2, 2), (3, 3), (1, 15), (1, 16), (1, 18), (2, 17)]
    h = PRELUDE + lists.RUNTIME + r'''
static const uint32_t MISS = 0xffffffffu;
template <class T> void find(const P& p, bool sorted, uint64_t n) {
  JfSlot in[2];
  T* a = symArr<T>(n, "a"); T v = sym<T>("v");
  if (sorted) { noNan(a, n); bool o = true; for (uint64_t i = 1; i < n; i++) o &= a[i - 1] <= a[i]; jf_assume(o); }
  setList(in[0], a, n); setIn(in[1], v);
  auto r = call<uint32_t>(p, in);
  uint32_t e = MISS;
  for (uint64_t i = n; i-- > 0;) e = sel(a[i] == v, (uint32_t)i, e);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == e, "the first position holding the value, the miss marker if there is none");
}
inline int lex(const StringStruct& a, const StringStruct& b) {
  for (uint32_t i = 0; i < a.len && i < b.len; i++) {
    uint8_t x = a.data[i], y = b.data[i];
    if (x != y) return x < y ? -1 : 1;
  }
  return a.len < b.len ? -1 : a.len > b.len;
}
inline void findS(const P& p, bool sorted, uint64_t n, uint64_t code, uint64_t m) {
  JfSlot in[2];
  uint64_t len[8];
  unpack(code, n, len);
  StringStruct* a = symStrs(len, n, "a");
  StringStruct v{symArr<char>(m, "v"), (uint32_t)m};
  if (sorted) for (uint64_t i = 1; i < n; i++) jf_assume(lex(a[i - 1], a[i]) <= 0);
  setList(in[0], a, n); setList(in[1], v.data, m);
  auto r = call<uint32_t>(p, in);
  uint32_t e = MISS;
  for (uint64_t i = n; i-- > 0;) e = sel(eqStr(a[i], v), (uint32_t)i, e);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == e, "the first position holding the string, the miss marker if there is none");
}
template <class T> void lookup(const P& p, uint64_t n, uint64_t m) {
  JfSlot in[2];
  T *a = symArr<T>(n, "a"), *b = symArr<T>(m, "b");
  setList(in[0], a, n); setList(in[1], b, m);
  auto r = call<U32ListStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n, "one result per probed element");
  for (uint64_t i = 0; i < n; i++) {
    uint32_t e = MISS;
    for (uint64_t j = m; j-- > 0;) e = sel(b[j] == a[i], (uint32_t)j, e);
    jf_assert(r.v.data[i] == e, "the first position of the element in the table, the miss marker if there is none");
  }
}
inline void lookupS(const P& p, uint64_t n, uint64_t m, uint64_t code) {
  JfSlot in[2];
  uint64_t la[8], lb[8];
  unpack(code, n, la); unpack(code >> 16, m, lb);
  StringStruct *a = symStrs(la, n, "a"), *b = symStrs(lb, m, "b");
  setList(in[0], a, n); setList(in[1], b, m);
  auto r = call<U32ListStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n, "one result per probed string");
  for (uint64_t i = 0; i < n; i++) {
    uint32_t e = MISS;
    for (uint64_t j = m; j-- > 0;) e = sel(eqStr(b[j], a[i]), (uint32_t)j, e);
    jf_assert(r.v.data[i] == e, "the first position of the string in the table, the miss marker if there is none");
  }
}
inline void compact(const P& p, bool pos, uint64_t n) {
  JfSlot in[1];
  uint32_t* a = symArr<uint32_t>(n, "a");
  setList(in[0], a, n);
  auto r = call<U32ListStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  uint32_t c = 0;
  for (uint64_t i = 0; i < n; i++) c += a[i] != MISS;
  jf_assert(r.v.len == c, "one result per hit");
  c = 0;
  for (uint64_t i = 0; i < n; i++) {
    bool hit = a[i] != MISS;
    if (r.v.len) jf_assert(!hit | (r.v.data[jf_ite64(hit, c, 0)] == (pos ? (uint32_t)i : a[i])), pos ? "the positions of the hits in order" : "the values of the hits in order");
    c += hit;
  }
}
template <class T> void gather(const P& p, uint64_t n, uint64_t m) {
  JfSlot in[3];
  T* a = symArr<T>(n, "a"); uint32_t* x = symArr<uint32_t>(m, "idx"); T d = sym<T>("d"), e[320];
  setList(in[0], a, n); setList(in[1], x, m); setIn(in[2], d);
  for (uint64_t i = 0; i < m; i++) { e[i] = d; for (uint64_t j = 0; j < n; j++) e[i] = sel(x[i] == j, a[j], e[i]); }
  eqList(call<typename ListOf<T>::type>(p, in), e, m, "one result per index", "the element at the index, the default beyond the end");
}
inline void gatherS(const P& p, uint64_t n, uint64_t m) {
  JfSlot in[3];
  uint64_t len[8];
  unpack(0x2101, n, len);
  StringStruct* a = symStrs(len, n, "a"); uint32_t* x = symArr<uint32_t>(m, "idx");
  StringStruct d{symArr<char>(3, "d"), 3};
  setList(in[0], a, n); setList(in[1], x, m); setList(in[2], d.data, 3);
  auto r = call<StringListStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == m, "one result per index");
  for (uint64_t i = 0; i < m; i++) {
    uint32_t k = x[i] < n ? (uint32_t)jf_concretize(x[i]) : MISS;
    const StringStruct& e = k < n ? a[k] : d;
    jf_assert(r.v.data[i].len == e.len, "the string at the index, the default beyond the end");
    jf_assert(eqStr(r.v.data[i], e), "the string at the index, the default beyond the end");
  }
}
// bucket k holds [b[k-1], b[k]); NaN belongs to the last one
template <class T> void bucket(const P& p, uint64_t n, uint64_t m) {
  JfSlot in[2];
  T *a = symArr<T>(n, "a"), *b = symArr<T>(m, "b");
  noNan(b, m);
  bool o = true;
  for (uint64_t i = 1; i < m; i++) o &= b[i - 1] <= b[i];
  jf_assume(o);
  setList(in[0], a, n); setList(in[1], b, m);
  auto r = call<U32ListStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n, "one result per value");
  for (uint64_t i = 0; i < n; i++) {
    const char* msg = "the bin whose half-open interval contains the value, the top one for NaN";
    jf_assert(r.v.data[i] <= m, msg);
    uint64_t k = jf_concretize(r.v.data[i]);
    bool nan = isnan_(a[i]);
    jf_assert(!nan | (k == m), msg);
    if (k > 0) jf_assert(nan | (b[k - 1] <= a[i]), msg);
    if (k < m) jf_assert(a[i] < b[k], msg);
  }
}
'''
    for ty in NUM:
        T, lt = CT[ty], "l" + ty
        G = [300]
        t.add(f"Find_{ty}", f("Find", inn(lt, 0), inn(ty, 1)), f"find<{T}>($P, false, x)", [(n,) for n in LF + G])
        t.add(f"FindSorted_{ty}", f("FindSorted", inn(lt, 0), inn(ty, 1)), f"find<{T}>($P, true, x)", [(n,) for n in LF + [5]])
        t.add(f"ListLookupIndex_{ty}", f("ListLookupIndex", inn(lt, 0), inn(lt, 1)), f"lookup<{T}>($P, x, y)", LL, 120)
        t.add(f"ListGather_{ty}", f("ListGather", inn(lt, 0), inn("lu32", 1), inn(ty, 2)), f"gather<{T}>($P, x, y)", LG + [(300, 2), (2, 300)])
        t.add(f"Bucketize_{ty}", f("Bucketize", inn(lt, 0), inn(lt, 1)), f"bucket<{T}>($P, x, y)",
              LB + ([(1, 16), (1, 17), (1, 18)] if q and ty in ("u8", "i64", "f32") else []), 180)
    t.add("Find_str", f("Find", inn("lstr", 0), inn("str", 1)), "findS($P, false, x, y, z)", [(0, 0, 1), (1, 0, 0), (3, 0x212, 2), (3, 0x111, 1), (3, 0x123, 0)])
    t.add("FindSorted_str", f("FindSorted", inn("lstr", 0), inn("str", 1)), "findS($P, true, x, y, z)", [(0, 0, 1), (1, 0, 0), (3, 0x212, 2), (3, 0x111, 1), (4, 0x2121, 1)], 120)
    t.add("ListLookupIndex_str", f("ListLookupIndex", inn("lstr", 0), inn("lstr", 1)), "lookupS($P, x, y, z)", [(0, 2, 0x110000), (2, 0, 0x11), (2, 3, 0x1110011), (2, 3, 0x2120012)], 120)
    t.add("ListCompactPositions", f("ListCompactPositions", inn("lu32", 0)), "compact($P, true, x)", [(n,) for n in ((0, 1, 4, 300) if q else (0, 1, 2, 3, 4, 6, 8, 300))])
    t.add("ListCompactIndex", f("ListCompactIndex", inn("lu32", 0)), "compact($P, false, x)", [(n,) for n in ((0, 1, 4, 300) if q else (0, 1, 2, 3, 4, 6, 8, 300))])
    t.add("ListGather_str", f("ListGather", inn("lstr", 0), inn("lu32", 1), inn("str", 2)), "gatherS($P, x, y)", [(0, 2), (3, 0), (3, 2)])
    t.add("FindMiss", f("FindMiss"), '{ auto r = call<uint32_t>($P, nullptr); jf_assert(r.ok & (r.v == MISS), "the miss marker is the largest u32"); }')
    return Spec(progs=t.progs, harness=h + t.cpp(), jobs=t.jobs,
                bounds=f"searched lists {LF}; lookups (probes, table) {LL}; gathers (values, indices) {LG}; buckets (values, boundaries) {LB} plus 16..18 boundaries; strings up to 3 bytes; every content and index; also lists of 300 elements, of which a few (128, 255, 256 and the last) are arbitrary and the others fixed (find, gather, compaction)",
                assumptions=["FindSorted and Bucketize: the searched list is ascending without NaN"],
                explanation="The optimised IR of one call with the IR of the C++ implementation it binds to, against positional definitions.")
