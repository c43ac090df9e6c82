"""Element-wise list arithmetic."""
from jf import Spec
from common import *
import lists

OPS = ["Add", "Sub", "Mul", "Div", "Mod", "BitwiseAnd", "BitwiseOr", "BitwiseXor"]
UN = {"Exp": "std::exp", "Log": "std::log", "Log2": "std::log2", "Log10": "std::log10"}


def spec(tier):
    t = lists.Tab()
    L = [0, 1, 2, 3, 5, 8] if tier == "quick" else list(range(0, 10)) + [16, 17]
    h = PRELUDE + lists.RUNTIME + r'''
template <class T> void scalar(const P& p, int op, uint64_t n) {
  JfSlot in[2];
  T* a = symArr<T>(n, "a"); T b = sym<T>("b");
  setList(in[0], a, n); setIn(in[1], b);
  T e[320];
  if (op == 3 || op == 4) for (uint64_t i = 0; i < n; i++) divOk(a[i], b);
  for (uint64_t i = 0; i < n; i++) e[i] = arith(op, a[i], b);
  auto r = call<typename ListOf<T>::type>(p, in);
  eqList(r, e, n, "as many results as elements", "element i is a[i] op b in the element type");
}
template <class T> void list(const P& p, int op, uint64_t n, uint64_t m) {
  JfSlot in[2];
  T *a = symArr<T>(n, "a"), *b = symArr<T>(m, "b");
  if ((op == 3 || op == 4) && m > 36) for (uint64_t i = 0; i < m; i++) b[i] = sel(b[i] == 0, (T)1, b[i]);
  setList(in[0], a, n); setList(in[1], b, m);
  T e[320];
  if (n == m) {
    if (op == 3 || op == 4) for (uint64_t i = 0; i < n; i++) divOk(a[i], b[i]);
    for (uint64_t i = 0; i < n; i++) e[i] = arith(op, a[i], b[i]);
  }
  auto r = call<typename ListOf<T>::type>(p, in);
  if (n != m) { jf_assert(!r.ok, "lists of different lengths are reported as an error"); return; }
  eqList(r, e, n, "as many results as elements", "element i is a[i] op b[i] in the element type");
}
template <class T, class R, class F> void unary(const P& p, uint64_t n, F f) {
  JfSlot in[1];
  T* a = symArr<T>(n, "a");
  setList(in[0], a, n);
  auto r = call<typename ListOf<R>::type>(p, in);
  R e[320];
  for (uint64_t i = 0; i < n; i++) e[i] = f((R)a[i]);
  eqList(r, e, n, "as many results as elements", "element i is the function of a[i]");
}
template <class T> void mm(const P& p, bool mx, uint64_t n) {
  JfSlot in[2];
  T* a = symArr<T>(n, "a"); T b = sym<T>("b");
  setList(in[0], a, n); setIn(in[1], b);
  auto r = call<typename ListOf<T>::type>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n, "as many results as elements");
  for (uint64_t i = 0; i < n; i++) {
    T x = r.v.data[i];
    jf_assert(same(x, a[i]) | same(x, b), "each result is the element or the bound");
    bool ok = mx ? (x >= a[i]) & (x >= b) : (x <= a[i]) & (x <= b);
    jf_assert(ok | isnan_(a[i]) | isnan_(b), "the smaller or larger of the two");
  }
}
'''
    for ty in NUM:
        T = CT[ty]
        G = [300]
        for k, op in enumerate(OPS):
            if isf(ty) and k > 3:
                continue
            D = [0, 1, 3] if op in ("Div", "Mod") and tier == "quick" else L
            t.add(f"s{op}_{ty}", f("List" + op, inn("l" + ty, 0), inn(ty, 1)), f"scalar<{T}>($P, {k}, x)", [(n,) for n in D + G])
            t.add(f"l{op}_{ty}", f("List" + op, inn("l" + ty, 0), inn("l" + ty, 1)), f"list<{T}>($P, {k}, x, y)",
                  [(n, n) for n in D + G] + [(0, 1), (1, 0), (2, 3), (8, 7)])
        for fn, ex in UN.items():
            R = "float" if ty == "f32" else "double"
            t.add(f"{fn}_{ty}", f("List" + fn, inn("l" + ty, 0)), f"unary<{T}, {R}>($P, x, []({R} v) {{ return {ex}(v); }})", [(n,) for n in L[:5] + G])
        for k, fn in enumerate(("Min", "Max")):
            t.add(f"{fn}_{ty}", f("List" + fn, inn("l" + ty, 0), inn(ty, 1)), f"mm<{T}>($P, {k}, x)", [(n,) for n in L + G])
    for ty in FLT:
        for fn, ex in (("Ceil", "std::ceil"), ("Floor", "std::floor"), ("Round", "std::round")):
            t.add(f"{fn}_{ty}", f("List" + fn, inn("l" + ty, 0)), f"unary<{CT[ty]}, {CT[ty]}>($P, x, []({CT[ty]} v) {{ return {ex}(v); }})", [(n,) for n in L + G])
    # composed, with both operand orders of the commutative forms
    for ty in ("i32", "u8", "i64"):
        t.add(f"k0_{ty}", f("ListSub", f("ListBitwiseXor", inn("l" + ty, 0), inn("l" + ty, 1)), f("ListBitwiseAnd", inn("l" + ty, 1), inn("l" + ty, 0))),
              f'''{{ JfSlot in[2]; {CT[ty]} *a = symArr<{CT[ty]}>(x, "a"), *b = symArr<{CT[ty]}>(x, "b"), e[320]; setList(in[0], a, x); setList(in[1], b, x);
      for (uint64_t i = 0; i < x; i++) e[i] = ({CT[ty]})(({CT[ty]})(a[i] ^ b[i]) - ({CT[ty]})(a[i] & b[i]));
      eqList(call<{LT[ty]}>($P, in), e, x, "length", "composed element-wise operations"); }}''', [(n,) for n in (1, 3)])
    return Spec(progs=t.progs, harness=h + t.cpp(), jobs=t.jobs,
                bounds=f"lists of lengths {L} (quick: division and modulo 0, 1, 3) with arbitrary contents (equal lengths, and a few unequal pairs); also lists of 300 elements, of which a few (128, 255, 256 and the last) are arbitrary and the others fixed",
                assumptions=["integer division and modulo: divisors are non-zero and the quotient representable", "exp, log, log2, log10 are uninterpreted: which function of which element is decided, not libm's accuracy"],
                explanation="The optimised IR of one call, together with the IR of the C++ implementation it binds to, against a loop over the same elements; every result element is also read from an allocation of exactly the requested size.")
