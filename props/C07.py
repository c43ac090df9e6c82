"""Scalar mathematical builtins and numeric casts."""
from jf import Spec
from common import *

# name -> C++ expression in terms of x (already converted to the result type)
UN = {"exp": "std::exp(x)", "log": "std::log(x)", "log2": "std::log2(x)", "log10": "std::log10(x)", "frac": "x - std::trunc(x)", "trunc": "std::trunc(x)",
      "sin": "std::sin(x)", "cos": "std::cos(x)", "tan": "std::tan(x)", "sqrt": "std::sqrt(x)", "ceil": "std::ceil(x)", "floor": "std::floor(x)", "round": "std::round(x)"}


def spec(tier):
    progs, jobs = [], []
    h = PRELUDE + '''
template <class T> T smallest(T, T);
template <class A, class R, class F> void un(const P& p, F f) {
  JfSlot in[1];
  A a = sym<A>("a"); setIn(in[0], a);
  auto r = call<R>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(same(r.v, f((R)a)), "the function of the operand converted to the result type");
}
template <class T> void minmax(const P& p, bool mx) {
  JfSlot in[2];
  T a = sym<T>("a"), b = sym<T>("b"); setIn(in[0], a); setIn(in[1], b);
  auto r = call<T>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(same(r.v, a) | same(r.v, b), "min and max return one of their operands");
  if constexpr (std::is_floating_point_v<T>) jf_assume(!(isnan_(a) | isnan_(b)));
  jf_assert(mx ? (r.v >= a) & (r.v >= b) : (r.v <= a) & (r.v <= b), "the smaller or larger operand");
}
template <class A, class R> void absf(const P& p) {
  JfSlot in[1];
  A a = sym<A>("a"); setIn(in[0], a);
  if constexpr (std::is_same_v<A, R> && std::is_integral_v<A>) jf_assume(a != std::numeric_limits<A>::min());
  auto r = call<R>(p, in);
  jf_assert(r.ok, "evaluates without error");
  if constexpr (std::is_floating_point_v<A>) jf_assert(same(r.v, std::fabs(a)), "absolute value");
  else { R x = a; jf_assert(r.v == (x < 0 ? -x : x), "absolute value"); }
}
template <class A, class R> void castf(const P& p) {
  JfSlot in[1];
  A a = sym<A>("a"); setIn(in[0], a);
  if constexpr (std::is_floating_point_v<A> && std::is_integral_v<R>) {
    // a value whose integer part the target can hold
    double d = a;
    if constexpr (sizeof(R) == 8) jf_assume((d >= (double)std::numeric_limits<R>::min() || (!std::is_signed_v<R> && d > -1.0)) && d < (std::is_signed_v<R> ? 9223372036854775808.0 : 18446744073709551616.0));
    else jf_assume(d > (double)std::numeric_limits<R>::min() - 1.0 && d < (double)std::numeric_limits<R>::max() + 1.0);
  }
  auto r = call<R>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(same(r.v, (R)a), "the numeric value, truncated toward zero or modulo 2^n");
}
template <class T> T powi(T x, int n);
template <> float powi(float x, int n) { return __builtin_powif(x, n); }
template <> double powi(double x, int n) { return __builtin_powi(x, n); }
'''
    ids, cases = [], ""

    def add(name, sx, body, limit=60):
        nonlocal cases
        k = len(ids)
        ids.append(name)
        progs.append((name, sx))
        jobs.append((name, "h_fn", [k], limit))
        cases += f"    case {k}: {body.replace('$P', f'T[{k}]')}; break;\n"
    for fn, ex in UN.items():
        types = [("f32", "f32"), ("f64", "f64")]
        if fn in ("exp", "log", "log2", "log10"):
            types += [(t, "f64") for t in ("i32", "i64", "u32", "u64")]
        for a, r in types:
            add(f"{fn}_{a}", f(fn, inn(a, 0)), f"un<{CT[a]}, {CT[r]}>($P, []({CT[r]} x) {{ return {ex}; }})")
    for t in NUM:
        for fn in ("min", "max"):
            add(f"{fn}_{t}", f(fn, inn(t, 0), inn(t, 1)), f"minmax<{CT[t]}>($P, {int(fn == 'max')})")
    for a, r in (("i8", "i32"), ("i16", "i32"), ("i32", "i32"), ("i64", "i64"), ("f32", "f32"), ("f64", "f64")):
        add(f"abs_{a}", f("abs", inn(a, 0)), f"absf<{CT[a]}, {CT[r]}>($P)")
    for r in NUM:
        for a in NUM:
            add(f"Cast{r.upper()}_{a}", f(f"Cast{r.upper()}", inn(a, 0)), f"castf<{CT[a]}, {CT[r]}>($P)")
    for a, e, r in (("f32", "i32", "f32"), ("f64", "i32", "f64"), ("i32", "i32", "f64"), ("i64", "i32", "f64")):
        n = f"pow_{a}_{e}"
        add(n, f("pow", inn(a, 0), inn(e, 1)),
            f'{{ JfSlot in[2]; {CT[a]} a = sym<{CT[a]}>("a"); int32_t n = sym<int32_t>("n"); setIn(in[0], a); setIn(in[1], n); auto r = call<{CT[r]}>($P, in); '
            f'jf_assert(r.ok, "evaluates without error"); jf_assert(same(r.v, powi<{CT[r]}>(({CT[r]})a, n)), "integer power of the base"); }}')
        # a base for which different exponents give different values
        if a[0] == "f":
            add(n + "_c", f("pow", inn(a, 0), inn(e, 1)),
                f'{{ JfSlot in[2]; {CT[a]} a = ({CT[a]})1.001; int32_t n = sym<int32_t>("n"); jf_assume(n > -80000 && n < 80000); setIn(in[0], a); setIn(in[1], n); auto r = call<{CT[r]}>($P, in); '
                f'jf_assert(same(r.v, powi<{CT[r]}>(a, n)), "integer power of the base"); }}')
    for a in FLT:
        add(f"pow_{a}_{a}", f("pow", inn(a, 0), inn(a, 1)),
            f'{{ JfSlot in[2]; {CT[a]} a = sym<{CT[a]}>("a"), n = sym<{CT[a]}>("n"); setIn(in[0], a); setIn(in[1], n); auto r = call<{CT[a]}>($P, in); '
            f'jf_assert(r.ok, "evaluates without error"); jf_assert(same(r.v, std::pow(a, n)), "power of the base"); }}')
    # composition: the result type of one builtin is the argument type of the next
    comp = [("k0", "f64", f("sqrt", f("exp", inn("i32", 0))), "std::sqrt(std::exp((double)a))", "int32_t"),
            ("k1", "i32", f("CastI32", f("floor", f("CastF64", inn("i16", 0)))), "(int32_t)a", "int16_t"),
            ("k2", "i64", f("abs", f("CastI64", inn("i32", 0))), "(a < 0 ? -(int64_t)a : (int64_t)a)", "int32_t"),
            ("k3", "u8", f("max", f("CastU8", inn("u32", 0)), c("u8", 7)), "(uint8_t)((uint8_t)a > 7 ? (uint8_t)a : 7)", "uint32_t"),
            ("k4", "f32", f("min", f("CastF32", inn("u16", 0)), c("f32", 1000.5)), "((float)a < 1000.5f ? (float)a : 1000.5f)", "uint16_t")]
    for n, r, sx, ex, at in comp:
        add(n, sx, f'{{ JfSlot in[1]; {at} a = sym<{at}>("a"); setIn(in[0], a); auto r = call<{CT[r]}>($P, in); jf_assert(r.ok, "evaluates without error"); jf_assert(same(r.v, ({CT[r]})({ex})), "composition"); }}')
    h += table("T", ids) + f"JF_H h_fn(uint64_t k) {{\n  switch (k) {{\n{cases}  }}\n}}\n"
    h = h.replace("#include <cmath>", "#include <cmath>\n#include <limits>")
    return Spec(progs=progs, harness=h, jobs=jobs,
                bounds="all operand values (floating-point to integer casts: values whose integer part the target can hold; abs: not the minimum of its type)",
                assumptions=["exp, log, log2, log10, sin, cos, tan, pow and powi are uninterpreted functions: the check decides that the right function is applied to the right operand of the right width, not the accuracy of libm",
                             "min and max with a NaN operand return either operand", "strict floating-point mode"],
                explanation="Optimised IR of one call per function and operand type against C++.")
