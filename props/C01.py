"""Scalar arithmetic: result type, promotion, wrap-around, unary minus."""
from jf import Spec
from common import *

ARITH = ["add", "sub", "mul", "div", "mod"]


def spec(tier):
    progs, jobs, h = [], [], PRELUDE
    h += '''
template <class R> R wrap(int op, R a, R b) {
  if constexpr (std::is_floating_point_v<R>) {
    switch (op) { case 0: return a + b; case 1: return a - b; case 2: return a * b; case 3: return a / b; default: return sizeof(R) == 4 ? (R)fmodf(a, b) : (R)fmod(a, b); }
  } else {
    typedef std::conditional_t<sizeof(R) < 4, unsigned, std::make_unsigned_t<R>> U;
    switch (op) { case 0: return (R)((U)a + (U)b); case 1: return (R)((U)a - (U)b); case 2: return (R)((U)a * (U)b); case 3: return (R)(a / b); default: return (R)(a % b); }
  }
}
template <class A, class B, class R> void arith(int op, const P& p) {
  JfSlot in[2];
  A a = sym<A>("a"); B b = sym<B>("b");
  setIn(in[0], a); setIn(in[1], b);
  R x = (R)a, y = (R)b;
  if constexpr (std::is_integral_v<R>) if (op >= 3) {
    jf_assume(y != 0);
    if (std::is_signed_v<R>) jf_assume(!((x == std::numeric_limits<R>::min()) & (y == (R)-1)));
  }
  auto r = call<R>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(same(r.v, wrap<R>(op, x, y)), "value of the arithmetic operator in the promoted type");
}
template <class A, class R> void unary(int op, const P& p) {
  JfSlot in[1];
  A a = sym<A>("a"); setIn(in[0], a);
  auto r = call<R>(p, in);
  jf_assert(r.ok, "evaluates without error");
  if (op == 0) jf_assert(same(r.v, (R)a), "unary plus");
  else if constexpr (std::is_floating_point_v<R>) jf_assert(same(r.v, -(R)a), "unary minus");
  else { typedef std::make_unsigned_t<R> U; jf_assert(r.v == (R)(U)(0 - (U)(R)a), "unary minus"); }
}
'''
    ids, cases = [], ""
    for a in NUM:
        for b2 in NUM:
            for o, op in enumerate(ARITH):
                i = f"{op}_{a}_{b2}"
                ids.append(i)
                progs.append((i, b(op, inn(a, 0), inn(b2, 1))))
            k = len(ids) - 5
            cases += f"    case {k // 5}: arith<{CT[a]}, {CT[b2]}, {CT[promote(a, b2)]}>(op, T[{k} + op]); break;\n"
    h += table("T", ids)
    h += f"JF_H h_arith(uint64_t pair, uint64_t op) {{\n  switch (pair) {{\n{cases}  }}\n}}\n"
    n = 0
    for a in NUM:
        for b2 in NUM:
            for o, op in enumerate(ARITH):
                jobs.append((f"{op}_{a}_{b2}", "h_arith", [n, o], 60))
            n += 1
    ids, cases = [], ""
    for k, a in enumerate(NUM):
        for op in ("plus", "minus"):
            i = f"u{op}_{a}"
            ids.append(i)
            progs.append((i, u(op, inn(a, 0))))
        rm = "i32" if isi(a) and W[a] < 32 else a
        cases += f"    case {k}: if (op == 0) unary<{CT[a]}, {CT[a]}>(0, U_[{2 * k}]); else unary<{CT[a]}, {CT[rm]}>(1, U_[{2 * k + 1}]); break;\n"
        for o in (0, 1):
            jobs.append((f"u{o}_{a}", "h_un", [k, o], 30))
    h += table("U_", ids)
    h += f"JF_H h_un(uint64_t k, uint64_t op) {{\n  switch (k) {{\n{cases}  }}\n}}\n"
    return Spec(progs=progs, harness=h, jobs=jobs,
                bounds="all values of both operands, for all 100 operand-type pairs of + - * / % and all 10 types of unary + and -; no bound on the values",
                assumptions=["integer division and remainder: divisor not 0 after promotion, and not (minimum / -1), which the language leaves undefined",
                             "strict floating-point mode; NaN payloads are not compared", "fmod is an uninterpreted function shared by both sides",
                             "the machine code LLVM emits from the optimised IR is faithful to it"],
                explanation="The optimised IR the engine produces for each expression is executed symbolically against promotion rules and machine arithmetic written independently.")
