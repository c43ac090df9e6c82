"""Comparisons, bitwise operators and shifts."""
from jf import Spec
from common import *

REL = ["gt", "ge", "eq", "lt", "le", "ne"]
BITW = ["band", "bor", "bxor", "shl", "shr"]


def spec(tier):
    maxs = 5 if tier == "quick" else 9
    progs, jobs, h = [], [], PRELUDE
    h += '''
template <class R> bool cmp(int op, R x, R y) {
  switch (op) { case 0: return x > y; case 1: return x >= y; case 2: return x == y; case 3: return x < y; case 4: return x <= y; default: return x != y; }
}
template <class A, class B, class R> void rel(int op, const P& p) {
  JfSlot in[2];
  A a = sym<A>("a"); B b = sym<B>("b");
  setIn(in[0], a); setIn(in[1], b);
  auto r = call<uint8_t>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == (uint8_t)cmp<R>(op, (R)a, (R)b), "comparison in the promoted type gives 1 or 0");
}
template <class A, class B, class R> void bits(int op, const P& p) {
  JfSlot in[2];
  A a = sym<A>("a"); B b = sym<B>("b");
  setIn(in[0], a); setIn(in[1], b);
  if (op < 3) {
    auto r = call<R>(p, in);
    jf_assert(r.ok, "evaluates without error");
    R x = (R)a, y = (R)b;
    jf_assert(r.v == (R)(op == 0 ? x & y : op == 1 ? x | y : x ^ y), "bitwise operator in the promoted type");
  } else {
    jf_assume((uint64_t)(int64_t)b < 8 * sizeof(A));
    auto r = call<A>(p, in);
    jf_assert(r.ok, "evaluates without error");
    int s = (int)b;
    typedef std::make_unsigned_t<A> U;
    jf_assert(r.v == (op == 3 ? (A)(U)((uint64_t)(U)a << s) : (A)((int64_t)0 + (std::is_signed_v<A> ? (A)((int64_t)a >> s) : (A)((uint64_t)(U)a >> s)))), "shift keeps the type of the left operand");
  }
}
template <class A> void un(const P& pn, const P& pb) {
  JfSlot in[1];
  A a = sym<A>("a"); setIn(in[0], a);
  auto r = call<uint8_t>(pn, in);
  jf_assert(r.ok && r.v == (uint8_t)(a == 0), "logical not is 1 exactly for zero");
  if constexpr (std::is_integral_v<A>) {
    auto q = call<A>(pb, in);
    jf_assert(q.ok && q.v == (A)~(uint64_t)a, "bitwise not");
  }
}
'''
    ids, cases = [], ""
    for a in NUM:
        for b2 in NUM:
            n = len(ids)
            for o, op in enumerate(REL):
                ids.append(f"{op}_{a}_{b2}")
                progs.append((ids[-1], b(op, inn(a, 0), inn(b2, 1))))
                jobs.append((ids[-1], "h_rel", [n // 6, o], 60))
            cases += f"    case {n // 6}: rel<{CT[a]}, {CT[b2]}, {CT[promote(a, b2)]}>(op, T[{n} + op]); break;\n"
    h += table("T", ids) + f"JF_H h_rel(uint64_t pair, uint64_t op) {{\n  switch (pair) {{\n{cases}  }}\n}}\n"
    ids, cases = [], ""
    for a in INT:
        for b2 in INT:
            n = len(ids)
            for o, op in enumerate(BITW):
                ids.append(f"{op}_{a}_{b2}")
                progs.append((ids[-1], b(op, inn(a, 0), inn(b2, 1))))
                jobs.append((ids[-1], "h_bits", [n // 5, o], 60))
            cases += f"    case {n // 5}: bits<{CT[a]}, {CT[b2]}, {CT[promote(a, b2)]}>(op, B[{n} + op]); break;\n"
    h += table("B", ids) + f"JF_H h_bits(uint64_t pair, uint64_t op) {{\n  switch (pair) {{\n{cases}  }}\n}}\n"
    ids, cases = [], ""
    for k, a in enumerate(NUM):
        ids += [f"not_{a}", f"bnot_{a}"]
        progs.append((f"not_{a}", u("not_", inn(a, 0))))
        progs.append((f"bnot_{a}", u("bnot", inn(a, 0)) if isi(a) else u("plus", inn(a, 0))))
        cases += f"    case {k}: un<{CT[a]}>(N[{2 * k}], N[{2 * k + 1}]); break;\n"
        jobs.append((f"un_{a}", "h_un", [k], 30))
    h += table("N", ids) + f"JF_H h_un(uint64_t k) {{\n  switch (k) {{\n{cases}  }}\n}}\n"
    # strings: lexicographic by unsigned byte, a prefix is smaller
    ids = []
    for op in REL:
        ids.append(f"s{op}")
        progs.append((ids[-1], b(op, inn("str", 0), inn("str", 1))))
    h += table("S", ids) + '''
JF_H h_str(uint64_t op, uint64_t n, uint64_t m) {
  JfSlot in[2];
  uint8_t *a = symArr<uint8_t>(n, "a"), *b = symArr<uint8_t>(m, "b");
  setList(in[0], a, n); setList(in[1], b, m);
  auto r = call<uint8_t>(S[op], in);
  jf_assert(r.ok, "evaluates without error");
  // the first difference decides; without one, the shorter string is smaller
  int c = n < m ? -1 : n > m ? 1 : 0;
  for (uint64_t i = n < m ? n : m; i-- > 0;) c = sel<int>(a[i] < b[i], -1, sel<int>(a[i] > b[i], 1, c));
  jf_assert(r.v == (uint8_t)cmp<int>((int)op, c, 0), "string comparison is lexicographic by byte");
}
'''
    for o in range(6):
        for n in range(maxs + 1):
            for m in range(maxs + 1):
                if tier == "quick" and (n + m) % 2 and n > 3:
                    continue
                jobs.append((f"s{o}_{n}_{m}", "h_str", [o, n, m], 60))
    # the whole domain of promoted pairs in one expression: a comparison feeds another operator
    return Spec(progs=progs, harness=h, jobs=jobs,
                bounds=f"all values of both operands for all operand-type pairs; string operands: lengths 0..{maxs}, all byte contents",
                assumptions=["shift amounts are in 0..width-1 of the left operand (the language leaves others undefined)", "strict floating-point mode"],
                explanation="Optimised IR of each comparison, bitwise and shift expression against C semantics of the promoted type; string comparison against a byte-wise lexicographic definition.")
