"""Aggregations over lists."""
from jf import Spec
from common import *
import lists


def spec(tier):
    t = lists.Tab()
    q = tier == "quick"
    LS = [0, 1, 2, 5] if q else [0, 1, 2, 3, 4, 5, 8, 9, 17]
    LM = [0, 1, 2, 4] if q else [0, 1, 2, 3, 4, 5, 6]
    LD = [0, 1, 2, 3, 4] if q else [0, 1, 2, 3, 4, 5]
    h = PRELUDE + lists.RUNTIME + r'''
template <class T> struct Wide { typedef std::conditional_t<std::is_floating_point_v<T>, double, std::conditional_t<std::is_signed_v<T>, int64_t, uint64_t>> type; };
template <class T> void sum(const P& p, uint64_t n) {
  JfSlot in[1];
  T* a = symArr<T>(n, "a");
  setList(in[0], a, n);
  auto r = call<typename Wide<T>::type>(p, in);
  jf_assert(r.ok, "evaluates without error");
  typename Wide<T>::type e = 0;
  for (uint64_t i = 0; i < n; i++) e += (typename Wide<T>::type)a[i];
  jf_assert(same(r.v, e), "the sum of all elements, accumulated in 64 bits");
}
template <class T> void avg(const P& p, uint64_t n) {
  JfSlot in[1];
  T* a = symArr<T>(n, "a");
  setList(in[0], a, n);
  auto r = call<double>(p, in);
  jf_assert(r.ok, "evaluates without error");
  double e = 0;
  for (uint64_t i = 0; i < n; i++) e += (double)a[i];
  jf_assert(same(r.v, n ? e / (double)n : 0.0), "the mean of all elements, 0 for an empty list");
}
template <class T> void ext(const P& p, bool mx, uint64_t n) {
  JfSlot in[1];
  T* a = symArr<T>(n, "a");
  setList(in[0], a, n);
  auto r = call<T>(p, in);
  jf_assert(r.ok, "evaluates without error");
  if (!n) { jf_assert(same(r.v, (T)0), "0 for an empty list"); return; }
  bool any = false, bound = true, nan = false;
  for (uint64_t i = 0; i < n; i++) {
    any |= same(r.v, a[i]);
    bound &= mx ? a[i] <= r.v : a[i] >= r.v;
    nan |= isnan_(a[i]);
  }
  jf_assert(any, "the result is an element of the list");
  jf_assert(nan | bound, "no element lies beyond the result");
}
template <class T> void distinct(const P& p, uint64_t n) {
  JfSlot in[1];
  T* a = symArr<T>(n, "a");
  setList(in[0], a, n);
  auto r = call<uint32_t>(p, in);
  jf_assert(r.ok, "evaluates without error");
  uint32_t e = 0;
  for (uint64_t i = 0; i < n; i++) {
    bool fresh = true;
    for (uint64_t j = 0; j < i; j++) fresh &= !(a[j] == a[i]);
    e += fresh;
  }
  jf_assert(r.v == e, "the number of different elements");
}
template <class T> void median(const P& p, bool sorted, uint64_t n) {
  JfSlot in[1];
  T* a = symArr<T>(n, "a"); T b[320];
  noNan(a, n);
  if constexpr (std::is_floating_point_v<T>) if (n > 2) { bool z = false; for (uint64_t i = 0; i < n; i++) z |= same(a[i], (T)-0.0); jf_assume(!z); }
  for (uint64_t i = 0; i < n; i++) b[i] = a[i];
  if (sorted) { bool o = true; for (uint64_t i = 1; i < n; i++) o &= a[i - 1] <= a[i]; jf_assume(o); }
  else network(b, n);
  setList(in[0], a, n);
  auto r = call<double>(p, in);
  jf_assert(r.ok, "evaluates without error");
  double e = !n ? 0.0 : n % 2 ? (double)b[n / 2] : ((double)b[n / 2 - 1] + (double)b[n / 2]) / 2.0;
  jf_assert(same(r.v, e) | (r.v == e), "the middle element, or the mean of the two middle elements");
}
template <class T> void getat(const P& p, uint64_t n) {
  JfSlot in[2];
  T* a = symArr<T>(n, "a"); uint32_t k = sym<uint32_t>("k");
  setList(in[0], a, n); setIn(in[1], k);
  auto r = call<T>(p, in);
  jf_assert(r.ok, "evaluates without error");
  T e = 0;
  for (uint64_t i = 0; i < n; i++) e = sel(k == i, a[i], e);
  jf_assert(same(r.v, e), "the element at the index, 0 beyond the end");
}
template <class S> void len(const P& p) {
  JfSlot in[1];
  uint32_t n = sym<uint32_t>("n");
  setList(in[0], (char*)nullptr, n);
  auto r = call<uint32_t>(p, in);
  jf_assert(r.ok & (r.v == n), "the length of the list");
}
'''
    for ty in NUM:
        T, lt = CT[ty], "l" + ty
        G = [300]
        t.add(f"Sum_{ty}", f("Sum", inn(lt, 0)), f"sum<{T}>($P, x)", [(n,) for n in LS + G])
        t.add(f"Avg_{ty}", f("Avg", inn(lt, 0)), f"avg<{T}>($P, x)", [(n,) for n in LS + G])
        t.add(f"Max_{ty}", f("Max", inn(lt, 0)), f"ext<{T}>($P, true, x)", [(n,) for n in LM])
        t.add(f"Min_{ty}", f("Min", inn(lt, 0)), f"ext<{T}>($P, false, x)", [(n,) for n in LM])
        t.add(f"CountDistinct_{ty}", f("CountDistinct", inn(lt, 0)), f"distinct<{T}>($P, x)", [(n,) for n in LD], 120)
        t.add(f"Median_{ty}", f("Median", inn(lt, 0)), f"median<{T}>($P, false, x)", [(n,) for n in LM], 120)
        t.add(f"SortedMedian_{ty}", f("SortedMedian", inn(lt, 0)), f"median<{T}>($P, true, x)", [(n,) for n in LS + G])
        t.add(f"GetAt_{ty}", f("GetAt", inn(lt, 0), inn("u32", 1)), f"getat<{T}>($P, x)", [(n,) for n in LS + G])
        t.add(f"Len_{ty}", f("Len", inn(lt, 0)), f"len<{T}>($P)")
    t.add("Len_str", f("Len", inn("lstr", 0)), "len<StringStruct>($P)")
    return Spec(progs=t.progs, harness=h + t.cpp(), jobs=t.jobs,
                bounds=f"lists of length {LS} (sums, means, indexing), {LM} (extremes, medians), {LD} (distinct counts); every content, every index; also lists of 300 elements, of which a few (128, 255, 256 and the last) are arbitrary and the others fixed (sums, means, indexing, sorted medians)",
                assumptions=["medians: no element is NaN, and for more than two elements none is -0.0; SortedMedian: the list is sorted", "extremes of lists with NaN: only that the result is an element"],
                explanation="The optimised IR of one call with the IR of the C++ implementation it binds to, against definitions that do not branch or sort the same way.")
