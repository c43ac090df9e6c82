"""List comparisons, bitmaps, conditional replacement and filtering."""
from jf import Spec
from common import *
import lists

CMP = ["Large", "LargeEqual", "Equal", "Less", "LessEqual", "NotEqual"]


def spec(tier):
    t = lists.Tab()
    q = tier == "quick"
    L = [0, 1, 3, 8] if q else [0, 1, 2, 3, 5, 8, 9]
    LB = [0, 1, 7, 8, 9, 16] if q else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17]
    LF = [0, 1, 3, 8, 9] if q else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12]
    h = PRELUDE + lists.RUNTIME + r'''
template <class T> void iff(const P& p, int op, uint64_t n) {
  JfSlot in[3];
  T* a = symArr<T>(n, "a"); T c = sym<T>("c"), t = sym<T>("t"), e[320];
  setList(in[0], a, n); setIn(in[1], c); setIn(in[2], t);
  for (uint64_t i = 0; i < n; i++) e[i] = sel(cmp(op, a[i], c), t, a[i]);
  eqList(call<typename ListOf<T>::type>(p, in), e, n, "as many results as elements", "elements satisfying the comparison are replaced, others kept");
}
// expected bitmap: bit i%8 of byte i/8, unused bits of the last byte zero
template <class F> void bitmap(const Res<U8ListStruct>& r, uint64_t n, F f) {
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == (n + 7) / 8, "one bit per element, rounded up to whole bytes");
  uint8_t e[40] = {};
  for (uint64_t i = 0; i < n; i++) e[i / 8] |= (uint8_t)(f(i) << (i % 8));
  for (uint64_t i = 0; i < (n + 7) / 8; i++) jf_assert(r.v.data[i] == e[i], "bit i tells whether element i satisfies the comparison; unused bits are zero");
}
template <class T> void gens(const P& p, int op, uint64_t n) {
  JfSlot in[2];
  T* a = symArr<T>(n, "a"); T b = sym<T>("b");
  setList(in[0], a, n); setIn(in[1], b);
  bitmap(call<U8ListStruct>(p, in), n, [&](uint64_t i) { return cmp(op, a[i], b); });
}
template <class T> void genl(const P& p, int op, uint64_t n, uint64_t m) {
  JfSlot in[2];
  T *a = symArr<T>(n, "a"), *b = symArr<T>(m, "b");
  setList(in[0], a, n); setList(in[1], b, m);
  auto r = call<U8ListStruct>(p, in);
  if (n != m) { jf_assert(!r.ok, "lists of different lengths are reported as an error"); return; }
  bitmap(r, n, [&](uint64_t i) { return cmp(op, a[i], b[i]); });
}
// form 0: list/scalar, 1: scalar/list, 2: list/list
template <class T> void ifb(const P& p, int form, uint64_t n, uint64_t nb, uint64_t m) {
  JfSlot in[3];
  uint8_t* bm = symArr<uint8_t>(nb, "bm");
  setList(in[0], bm, nb);
  T *l = form == 1 ? nullptr : symArr<T>(n, "l"), *r = form == 0 ? nullptr : symArr<T>(form == 2 ? m : n, "r");
  T ls = form == 1 ? sym<T>("ls") : T(), rs = form == 0 ? sym<T>("rs") : T(), e[320];
  if (form == 1) setIn(in[1], ls); else setList(in[1], l, n);
  if (form == 0) setIn(in[2], rs); else setList(in[2], r, form == 2 ? m : n);
  auto res = call<typename ListOf<T>::type>(p, in);
  if (form == 2 && n != m) { jf_assert(!res.ok, "lists of different lengths are reported as an error"); return; }
  if (nb < (n + 7) / 8) { jf_assert(!res.ok, "a bitmap with too few bits is reported as an error"); return; }
  for (uint64_t i = 0; i < n; i++) e[i] = sel((bool)((bm[i / 8] >> (i % 8)) & 1), form == 1 ? ls : l[i], form == 0 ? rs : r[i]);
  eqList(res, e, n, "as many results as elements", "a set bit selects the left value, a clear bit the right one");
}
// the selected elements, in order; bits_cnt is given explicitly when c is 1
template <class T> void filter(const P& p, uint64_t n, uint64_t nb, uint64_t c) {
  JfSlot in[3];
  T* a = symArr<T>(n, "a");
  uint8_t* bm = symArr<uint8_t>(nb, "bm");
  setList(in[0], a, n); setList(in[1], bm, nb);
  uint32_t cnt = 0, all = 0;
  for (uint64_t i = 0; i < nb * 8; i++) {
    uint32_t bit = (bm[i / 8] >> (i % 8)) & 1;
    all += bit;
    if (i < n) cnt += bit;
  }
  if (c) {
    uint32_t v = sym<uint32_t>("bits");
    jf_assume(v == cnt);
    setIn(in[2], v);
  }
  auto r = call<typename ListOf<T>::type>(p, in);
  if (nb != (n + 7) / 8) { jf_assert(!r.ok, "a bitmap of another length is reported as an error"); return; }
  if (!r.ok) { jf_assert(all != cnt, "no error for a bitmap that matches the list"); return; }
  jf_assert(all == cnt, "bits beyond the end of the list are reported as an error");
  jf_assert(r.v.len == cnt, "as many results as set bits");
  uint32_t cur = 0;
  // element i, if selected, is at the position of the number of selected ones before it
  for (uint64_t i = 0; i < n; i++) {
    bool bit = (bm[i / 8] >> (i % 8)) & 1;
    if (r.v.len) jf_assert(!bit | same(r.v.data[jf_ite64(bit, cur, 0)], a[i]), "the selected elements in their original order");
    cur += bit;
  }
}
template <class T> void pipe(const P& p, uint64_t n) {
  JfSlot in[2];
  T* a = symArr<T>(n, "a"); T b = sym<T>("b");
  setList(in[0], a, n); setIn(in[1], b);
  auto r = call<typename ListOf<T>::type>(p, in);
  jf_assert(r.ok, "a generated bitmap matches its list");
  uint32_t cur = 0;
  for (uint64_t i = 0; i < n; i++) cur += a[i] > b;
  jf_assert(r.v.len == cur, "as many results as elements above the bound");
  cur = 0;
  for (uint64_t i = 0; i < n; i++) {
    bool bit = a[i] > b;
    if (r.v.len) jf_assert(!bit | same(r.v.data[jf_ite64(bit, cur, 0)], a[i]), "the elements above the bound, in order");
    cur += bit;
  }
}
'''
    for ty in NUM:
        T = CT[ty]
        G = [300]
        lt = "l" + ty
        for k, op in enumerate(CMP):
            t.add(f"If{op}_{ty}", f("If" + op, inn(lt, 0), inn(ty, 1), inn(ty, 2)), f"iff<{T}>($P, {k}, x)", [(n,) for n in L + G])
            t.add(f"Gs{op}_{ty}", f(f"Gen{op}Bitmap", inn(lt, 0), inn(ty, 1)), f"gens<{T}>($P, {k}, x)", [(n,) for n in LB + G])
            t.add(f"Gl{op}_{ty}", f(f"Gen{op}Bitmap", inn(lt, 0), inn(lt, 1)), f"genl<{T}>($P, {k}, x, y)", [(n, n) for n in LB + G] + [(0, 1), (8, 9), (2, 1)])
        for k, (a, b2) in enumerate(((inn(lt, 1), inn(ty, 2)), (inn(ty, 1), inn(lt, 2)), (inn(lt, 1), inn(lt, 2)))):
            bad = [(3, 0, 3), (9, 1, 9)] + ([(2, 1, 3), (3, 1, 2)] if k == 2 else [])
            t.add(f"IB{k}_{ty}", f("IfByBitmap", inn("lu8", 0), a, b2), f"ifb<{T}>($P, {k}, x, y, z)",
                  [(n, (n + 7) // 8, n) for n in LB + G] + [(3, 2, 3), (0, 1, 0)] + bad)
        FI = [(n, (n + 7) // 8) for n in LF if n < 9 or not q or ty in ('u8', 'i32', 'f64')] + [(3, 2), (8, 2), (9, 1), (1, 0)]
        t.add(f"F2_{ty}", f("FilterByBitmap", inn(lt, 0), inn("lu8", 1)), f"filter<{T}>($P, x, y, 0)", FI + [(n, (n + 7) // 8) for n in G], 120)
        t.add(f"F3_{ty}", f("FilterByBitmap", inn(lt, 0), inn("lu8", 1), inn("u32", 2)), f"filter<{T}>($P, x, y, 1)", FI + [(n, (n + 7) // 8) for n in G], 120)
        t.add(f"PI_{ty}", f("FilterByBitmap", inn(lt, 0), f("GenLargeBitmap", inn(lt, 0), inn(ty, 1))), f"pipe<{T}>($P, x)", [(n,) for n in (LF[:3] + [4] if isf(ty) and q else LF[:4])], 120)
    t.add("CountBits", f("CountBits", inn("lu8", 0)), '''{ JfSlot in[1]; uint8_t* a = symArr<uint8_t>(x, "a"); if (y) for (uint64_t i = 0; i < x; i++) if (i % 128 != 1) a[i] = 0xff; setList(in[0], a, x); auto r = call<uint32_t>($P, in);
      jf_assert(r.ok, "evaluates without error"); uint32_t e = 0; uint64_t i = 0; for (; i + 8 <= x; i += 8) { uint64_t w; memcpy(&w, a + i, 8); e += __builtin_popcountll(w); } for (; i < x; i++) e += __builtin_popcount(a[i]); jf_assert(r.v == e, "number of set bits"); }''',
          [(n,) for n in ((0, 1, 3, 7, 8, 9, 17) if q else range(26))] + [(300, 0), (300, 1)], 120)
    return Spec(progs=t.progs, harness=h + t.cpp(), jobs=t.jobs,
                bounds=f"comparisons and replacement: lengths {L}; bitmaps: lengths {LB}; filtering: lengths {LF}, every bitmap; also lists of 300 elements, of which a few (128, 255, 256 and the last) are arbitrary and the others fixed",
                assumptions=["the explicit bit count of FilterByBitmap is the number of set bits (other counts: C16)"],
                explanation="The optimised IR of one call with the IR of the C++ implementation it binds to, against element-by-element definitions.")
