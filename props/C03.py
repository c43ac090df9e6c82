"""Logical operators: truthiness, 0/1 result, left-to-right short circuit."""
import itertools
from jf import Spec
from common import *
import genprog


def trees(n):
    """All shapes of binary trees with n leaves; leaves are None."""
    if n == 1:
        yield None
        return
    for k in range(1, n):
        for l in trees(k):
            for r in trees(n - k):
                yield (l, r)


def spec(tier):
    progs, jobs = [], []
    h = PRELUDE + genprog.RUNTIME + '''
template <class A, class B> void logic(int op, const P& p) {
  JfSlot in[2];
  A a = sym<A>("a"); B b = sym<B>("b");
  setIn(in[0], a); setIn(in[1], b);
  auto r = call<uint8_t>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == (uint8_t)(op == 0 ? tr(a) & tr(b) : tr(a) | tr(b)), "truth table, result exactly 0 or 1");
}
'''
    ids, cases = [], ""
    for a in NUM:
        for b2 in NUM:
            n = len(ids)
            for op in ("land", "lor"):
                ids.append(f"{op}_{a}_{b2}")
                progs.append((ids[-1], b(op, inn(a, 0), inn(b2, 1))))
                jobs.append((ids[-1], "h_logic", [n // 2, 0 if op == "land" else 1], 30))
            cases += f"    case {n // 2}: logic<{CT[a]}, {CT[b2]}>(op, T[{n} + op]); break;\n"
    h += table("T", ids) + f"JF_H h_logic(uint64_t pair, uint64_t op) {{\n  switch (pair) {{\n{cases}  }}\n}}\n"
    # every tree of && and || (and of negations at the leaves) with up to N
    # operands; each operand records its evaluation
    maxn = 4 if tier == "quick" else 5
    k = 0
    for n in range(2, maxn + 1):
        for shape in trees(n):
            for ops in itertools.product(("land", "lor"), repeat=n - 1):
                name = f"tr{k}"
                code, it, opit = [], iter(range(n)), iter(ops)
                # the operand types rotate through all ten
                ty = [NUM[(k + 3 * j) % 10] for j in range(n)]

                def walk(s, ind):
                    if s is None:
                        j = next(it)
                        t = ty[j]
                        code.append("  " * ind + f"E.tick({j});")
                        x = f"(tk {t} {j} {inn(t, j)})"
                        if (k + j) % 5 == 4:
                            return u("not_", x), f"(uint8_t)(i{j} == 0)"
                        return x, f"i{j}"
                    op = next(opit)
                    l, lx = walk(s[0], ind)
                    v = f"r{len(code)}_{ind}"
                    code.append("  " * ind + f"bool {v} = tr({lx}); if ({'' if op == 'land' else '!'}{v}) {{")
                    r, rx = walk(s[1], ind + 1)
                    code.append("  " * (ind + 1) + f"{v} = tr({rx});")
                    code.append("  " * ind + "}")
                    return b(op, l, r), f"(uint8_t){v}"
                sx, res = walk(shape, 1)
                code.append(f"  E.st(8, {res});")
                g = genprog.Gen(0)
                g.inputs, g.code = ty, code
                progs.append((name, f"(st u8 8 {sx})"))
                h += f"JF_DECL({name})\n" + genprog.function(name, g, sx, {8: "u8"})
                jobs.append((name, f"h_{name}", [], 60))
                k += 1
    # the guard idiom: the right operand is safe only when the left one allows it
    guards = []
    for t in INT:
        guards.append((f"gd_{t}", t, b("land", b("ne", inn(t, 0), c(t, 0)), b("gt", b("div", c(t, 100), inn(t, 0)), c(t, 3))), "land"))
        guards.append((f"gm_{t}", t, b("lor", b("eq", inn(t, 0), c(t, 0)), b("eq", b("mod", c(t, 100), inn(t, 0)), c(t, 0))), "lor"))
    for i, t, sx, op in guards:
        progs.append((i, sx))
        T = CT[t]
        exp = f"a != 0 && (({T})100 / a) > ({T})3" if op == "land" else f"a == 0 || (({T})100 % a) == 0"
        h += f'''
JF_DECL({i})
JF_H h_{i}() {{
  JfSlot in[1];
  {T} a = sym<{T}>("a"); setIn(in[0], a);
  auto r = call<uint8_t>(jf::P JF_ENT1({i}), in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == (uint8_t)({exp}), "a division guarded by the left operand is never executed when the guard fails");
}}
'''
        jobs.append((i, f"h_{i}", [], 60))
    # a guarded call that would report a run-time error
    progs.append(("ge", b("land", b("eq", f("Len", inn("li32", 0)), f("Len", inn("li32", 1))), b("ge", f("Len", f("ListAdd", inn("li32", 0), inn("li32", 1))), c("u32", 1)))))
    h += '''
JF_DECL(ge)
JF_H h_ge(uint64_t n, uint64_t m) {
  JfSlot in[2];
  int32_t *a = symArr<int32_t>(n, "a"), *b = symArr<int32_t>(m, "b");
  setList(in[0], a, n); setList(in[1], b, m);
  auto r = call<uint8_t>(jf::P JF_ENT1(ge), in);
  jf_assert(r.ok, "the guarded call reports no error when it is not reached");
  jf_assert(r.v == (n == m && n >= 1), "value");
}
'''
    for n in range(4):
        for m in range(4):
            jobs.append((f"ge_{n}_{m}", "h_ge", [n, m], 30))
    return Spec(progs=progs, harness=h, jobs=jobs,
                bounds=f"all operand values for all 100 type pairs; every tree of && and || with up to {maxn} operands, each operand with an observable effect",
                assumptions=["NaN counts as false in a logical operator (ordered comparison with zero)", "strict floating-point mode"],
                explanation="Optimised IR against the truth table and against straight-line C++ that evaluates operands left to right and stops as soon as the result is known; operands record how often and in which order they were evaluated.")
