"""Grouping: dense group ids and per-group keys, sums, extremes, means."""
from jf import Spec
from common import *
import lists


def spec(tier):
    t = lists.Tab()
    q = tier == "quick"
    LI = [0, 1, 2, 4] if q else [0, 1, 2, 3, 4, 5]
    LG = [0, 1, 3] if q else [0, 1, 2, 3, 4]
    h = PRELUDE + lists.RUNTIME + r'''
template <class T> struct Wide { typedef std::conditional_t<std::is_floating_point_v<T>, double, std::conditional_t<std::is_signed_v<T>, int64_t, uint64_t>> type; };
// the group id of an element is the number of different keys before its first occurrence
template <class EQ> void ids(uint32_t* e, uint64_t n, EQ eq) {
  uint32_t next = 0;
  for (uint64_t i = 0; i < n; i++) {
    uint32_t id = next;
    bool fresh = true;
    for (uint64_t j = i; j-- > 0;) { bool s = eq(i, j); id = sel(s, e[j], id); fresh &= !s; }
    e[i] = id;
    next += fresh;
  }
}
template <class T> void gindex(const P& p, uint64_t n) {
  JfSlot in[1];
  T* a = symArr<T>(n, "a"); uint32_t e[8];
  setList(in[0], a, n);
  ids(e, n, [&](uint64_t i, uint64_t j) { return a[i] == a[j]; });
  eqList(call<U32ListStruct>(p, in), e, n, "one id per key", "ids count the different keys in order of first appearance");
}
inline void gindexS(const P& p, uint64_t n, uint64_t code) {
  JfSlot in[1];
  uint64_t len[8]; uint32_t e[8];
  unpack(code, n, len);
  StringStruct* a = symStrs(len, n, "a");
  setList(in[0], a, n);
  ids(e, n, [&](uint64_t i, uint64_t j) { return eqStr(a[i], a[j]); });
  eqList(call<U32ListStruct>(p, in), e, n, "one id per key", "ids count the different keys in order of first appearance");
}
// ids below `lim`; dense: in order of first appearance
inline uint32_t* gids(uint64_t n, bool dense, uint32_t& cnt) {
  uint32_t* g = symArr<uint32_t>(n, "g");
  cnt = 0;
  for (uint64_t i = 0; i < n; i++) {
    jf_assume(dense ? g[i] <= cnt : g[i] <= n);
    cnt = sel(g[i] >= cnt, g[i] + 1, cnt);
  }
  return g;
}
inline void gcount(const P& p, uint64_t n) {
  JfSlot in[1];
  uint32_t* g = symArr<uint32_t>(n, "g");
  setList(in[0], g, n);
  auto r = call<uint32_t>(p, in);
  jf_assert(r.ok, "evaluates without error");
  if (!n) { jf_assert(r.v == 0, "no groups in an empty list"); return; }
  bool any = false, all = true;
  for (uint64_t i = 0; i < n; i++) { jf_assume(g[i] != 0xffffffffu); any |= g[i] + 1 == r.v; all &= g[i] < r.v; }
  jf_assert(any & all, "one more than the largest id");
}
// common part: values, ids and, for the explicit form, the number of groups
template <class T> struct G { T* v; uint32_t* g; uint32_t cnt; };
template <class T> G<T> inputs(JfSlot* in, uint64_t n, bool dense, bool ex) {
  G<T> x;
  x.v = symArr<T>(n, "v");
  noNan(x.v, n);
  x.g = gids(n, dense, x.cnt);
  setList(in[0], x.v, n); setList(in[1], x.g, n);
  if (ex) {
    uint32_t d = sym<uint32_t>("d");
    jf_assume((d >= x.cnt) & (d <= n + 2));
    setIn(in[2], d);
    x.cnt = d;
  }
  return x;
}
template <class T> void gkeys(const P& p, uint64_t n, bool ex) {
  JfSlot in[3];
  auto x = inputs<T>(in, n, true, ex);
  auto r = call<typename ListOf<T>::type>(p, in);
  jf_assert(r.ok, "evaluates without error");
  uint32_t c = 0;
  for (uint64_t i = 0; i < n; i++) {
    bool fresh = x.g[i] == c;
    if (r.v.len) jf_assert(!fresh | ((c < r.v.len) & same(r.v.data[jf_ite64(fresh & (c < r.v.len), c, 0)], x.v[i])), "the first key of every group");
    c += fresh;
  }
  jf_assert(r.v.len == c, "one key per group");
}
inline void gkeysS(const P& p, uint64_t n, bool ex) {
  JfSlot in[3];
  uint64_t len[8];
  unpack(0x2101, n, len);
  StringStruct* a = symStrs(len, n, "a");
  uint32_t cnt;
  uint32_t* g = gids(n, true, cnt);
  setList(in[0], a, n); setList(in[1], g, n);
  if (ex) setIn(in[2], cnt);
  auto r = call<StringListStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  uint32_t c = 0;
  for (uint64_t i = 0; i < n; i++)
    if (g[i] == c) {
      jf_assert(c < r.v.len, "one key per group");
      jf_assert(r.v.data[c].len == a[i].len, "the first key of every group");
      jf_assert(eqStr(r.v.data[c], a[i]), "the first key of every group");
      c++;
    }
  jf_assert(r.v.len == c, "one key per group");
}
template <class T> void gsum(const P& p, uint64_t n, bool ex) {
  typedef typename Wide<T>::type W;
  JfSlot in[3];
  auto x = inputs<T>(in, n, false, ex);
  auto r = call<typename ListOf<W>::type>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == x.cnt, "one sum per group");
  for (uint32_t k = 0; k < n + 2; k++) {
    if (k >= r.v.len) break;
    W e = 0;
    for (uint64_t i = 0; i < n; i++) e = sel(x.g[i] == k, (W)(e + (W)x.v[i]), e);
    jf_assert(same(r.v.data[k], e), "the sum of the group's values, accumulated in 64 bits");
  }
}
template <class T> void gavg(const P& p, uint64_t n, bool ex) {
  JfSlot in[3];
  auto x = inputs<T>(in, n, false, ex);
  auto r = call<F64ListStruct>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == x.cnt, "one mean per group");
  for (uint32_t k = 0; k < n + 2; k++) {
    if (k >= r.v.len) break;
    double e = 0;
    uint32_t c = 0;
    for (uint64_t i = 0; i < n; i++) { e = sel(x.g[i] == k, e + (double)x.v[i], e); c += x.g[i] == k; }
    jf_assert((c == 0) | same(r.v.data[k], e / (double)c), "the mean of the group's values");
  }
}
template <class T> void gext(const P& p, bool mx, uint64_t n, bool ex) {
  JfSlot in[3];
  auto x = inputs<T>(in, n, false, ex);
  auto r = call<typename ListOf<T>::type>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == x.cnt, "one result per group");
  for (uint32_t k = 0; k < n + 2; k++) {
    if (k >= r.v.len) break;
    bool some = false, any = false, bound = true;
    T v = r.v.data[k];
    for (uint64_t i = 0; i < n; i++) {
      bool m = x.g[i] == k;
      some |= m;
      any |= m & (v == x.v[i]);
      bound &= !m | (mx ? x.v[i] <= v : x.v[i] >= v);
    }
    jf_assert(!some | any, "the result is a value of the group");
    jf_assert(!some | bound, "no value of the group lies beyond the result");
  }
}
inline void mismatch(const P& p, uint64_t n, uint64_t m, bool ex) {
  JfSlot in[3];
  uint32_t *a = symArr<uint32_t>(n, "a"), *g = symArr<uint32_t>(m, "g");
  for (uint64_t i = 0; i < m; i++) jf_assume(g[i] < 4);
  setList(in[0], a, n); setList(in[1], g, m);
  if (ex) setIn(in[2], (uint32_t)4);
  jf_assert(!call<U64ListStruct>(p, in).ok, "lists of different lengths are reported as an error");
}
// keys and values in one expression
template <class K, class T> void joint(const P& p, uint64_t n) {
  typedef typename Wide<T>::type W;
  JfSlot in[2];
  K* k = symArr<K>(n, "k"); T* v = symArr<T>(n, "v");
  setList(in[0], v, n); setList(in[1], k, n);
  auto r = call<typename ListOf<W>::type>(p, in);
  jf_assert(r.ok, "evaluates without error");
  uint32_t c = 0;
  for (uint64_t i = 0; i < n; i++) {
    bool fresh = true;
    for (uint64_t j = 0; j < i; j++) fresh &= !(k[j] == k[i]);
    W e = 0;
    for (uint64_t j = 0; j < n; j++) e = sel(k[j] == k[i], (W)(e + (W)v[j]), e);
    if (r.v.len) jf_assert(!fresh | ((c < r.v.len) & same(r.v.data[jf_ite64(fresh & (c < r.v.len), c, 0)], e)), "the sums of the groups in order of first appearance");
    c += fresh;
  }
  jf_assert(r.v.len == c, "one sum per different key");
}
'''
    for ty in NUM:
        T, lt = CT[ty], "l" + ty
        t.add(f"GroupIndex_{ty}", f("GroupIndex", inn(lt, 0)), f"gindex<{T}>($P, x)", [(n,) for n in LI], 120)
        for ex in (0, 1):
            a = [inn(lt, 0), inn("lu32", 1)] + ([inn("u32", 2)] if ex else [])
            for nm, fn in (("Keys", "gkeys<T>($P, x, E)"), ("Sum", "gsum<T>($P, x, E)"), ("Max", "gext<T>($P, true, x, E)"), ("Min", "gext<T>($P, false, x, E)"), ("Avg", "gavg<T>($P, x, E)")):
                t.add(f"Group{nm}{ex}_{ty}", f("Group" + nm, *a), fn.replace("<T>", f"<{T}>").replace("E)", f"{'true' if ex else 'false'})"), [(n,) for n in LG], 180)
        t.add(f"GroupJoint_{ty}", f("GroupSum", inn("l" + ty, 0), f("GroupIndex", inn("li32", 1))), f"joint<int32_t, {T}>($P, x)", [(3,)], 120)
    t.add("GroupIndex_str", f("GroupIndex", inn("lstr", 0)), "gindexS($P, x, y)", [(0, 0), (1, 2), (3, 0x111), (3, 0x212), (3, 0x120)] + ([] if q else [(4, 0x1111), (4, 0x2121)]), 120)
    for ex in (0, 1):
        t.add(f"GroupKeys{ex}_str", f("GroupKeys", inn("lstr", 0), inn("lu32", 1), *([inn("u32", 2)] if ex else [])), f"gkeysS($P, x, {'true' if ex else 'false'})", [(0,), (3,)])
        for nm in ("Keys", "Sum", "Max", "Min", "Avg"):
            t.add(f"Mismatch{nm}{ex}", f("Group" + nm, inn("lu32", 0), inn("lu32", 1), *([inn("u32", 2)] if ex else [])), f"mismatch($P, x, y, {'true' if ex else 'false'})", [(0, 1), (2, 1), (2, 3)])
    t.add("GroupCount", f("GroupCount", inn("lu32", 0)), "gcount($P, x)", [(n,) for n in LI])
    return Spec(progs=t.progs, harness=h + t.cpp(), jobs=t.jobs,
                bounds=f"keys: lists of length {LI}; grouped values: length {LG} with every assignment of group ids (dense for GroupKeys), explicit group counts up to two more than needed",
                assumptions=["grouped values without NaN", "every id is below the number of groups (other ids: C16)", "results for ids without elements are unspecified"],
                explanation="The optimised IR of one call with the IR of the C++ implementation it binds to, against per-group definitions.")
