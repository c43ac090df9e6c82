"""if / switch / if-block control flow, variables and scopes."""
from jf import Spec
from common import *
import genprog


def spec(tier):
    progs, jobs = [], []
    h = PRELUDE + genprog.RUNTIME
    # promotion of branch types, every condition type
    h += '''
template <class C, class A, class B, class R> void iff(const P& p, const P& q) {
  JfSlot in[3];
  C c = sym<C>("c"); A a = sym<A>("a"); B b = sym<B>("b");
  setIn(in[0], c); setIn(in[1], a); setIn(in[2], b);
  auto r = call<R>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(same(r.v, tr(c) ? (R)a : (R)b), "if yields the selected branch in the promoted type");
  auto s = call<R>(q, in);
  jf_assert(s.ok, "evaluates without error");
  jf_assert(same(s.v, tr(c) ? (R)a : (R)b), "switch yields the selected branch in the promoted type");
}
'''
    ids, cases = [], ""
    for i, a in enumerate(NUM):
        for j, b2 in enumerate(NUM):
            cnd = NUM[(i * 3 + j) % 10]
            n = len(ids)
            ids += [f"if_{a}_{b2}", f"sw_{a}_{b2}"]
            progs.append((ids[-2], f"(if {inn(cnd, 0)} {inn(a, 1)} {inn(b2, 2)})"))
            progs.append((ids[-1], f"(sw {inn(cnd, 0)} {inn(a, 1)} {inn(b2, 2)})"))
            jobs.append((f"if_{a}_{b2}", "h_if", [n // 2], 30))
            cases += f"    case {n // 2}: iff<{CT[cnd]}, {CT[a]}, {CT[b2]}, {CT[promote(a, b2)]}>(T[{n}], T[{n + 1}]); break;\n"
    h += table("T", ids) + f"JF_H h_if(uint64_t k) {{\n  switch (k) {{\n{cases}  }}\n}}\n"
    # hand-written statements that must be there whatever the generator picks
    fixed = {
        # conditions that contain control flow, without an else branch
        "fx_and": ("(noop (= x (in i32 0)) (ifb (b 20 (in i32 1) (in i32 2)) (noop (= x (in i32 3)))) (st i32 0 (ref x)))",
                   "int32_t x = i0; if (tr(i1) && tr(i2)) x = i3; E.st(0, x);", 4),
        "fx_or": ("(noop (= x (in i32 0)) (ifb (b 21 (in i32 1) (in i32 2)) (noop (= x (in i32 3)))) (st i32 0 (ref x)))",
                  "int32_t x = i0; if (tr(i1) || tr(i2)) x = i3; E.st(0, x);", 4),
        "fx_if": ("(noop (= x (in i32 0)) (ifb (if (in i32 1) (in i32 2) (in i32 3)) (noop (= x (c i32 7)))) (st i32 0 (ref x)))",
                  "int32_t x = i0; if (tr(tr(i1) ? i2 : i3)) x = 7; E.st(0, x);", 4),
        "fx_sw": ("(noop (= x (in i32 0)) (ifb (c i32 0) (noop (= x (c i32 9))) (sw (in i32 1) (in i32 2) (in i32 3) (in i32 0) (c i32 1)) (noop (= x (c i32 7)))) (st i32 0 (ref x)))",
                  "int32_t x = i0; if (tr(tr(i1) ? i2 : tr(i3) ? i0 : 1)) x = 7; E.st(0, x);", 4),
        # only some branches modify; different variables; nesting
        "fx_part": ("(noop (= x (in i32 0)) (= y (in i32 1)) (ifb (in i32 2) (noop (= x (b 1 (ref x) (c i32 1)))) (in i32 3) (noop (= y (b 1 (ref y) (ref x)))) (noop (= x (ref y)) (= y (c i32 5)))) (st i32 0 (ref x)) (st i32 1 (ref y)))",
                    "int32_t x = i0, y = i1; if (tr(i2)) x = A<int32_t>::add(x, 1); else if (tr(i3)) y = A<int32_t>::add(y, x); else { x = y; y = 5; } E.st(0, x); E.st(1, y);", 4),
        "fx_nest": ("(noop (= x (in i32 0)) (ifb (in i32 1) (noop (ifb (in i32 2) (noop (= x (c i32 b))) (noop (ifb (in i32 3) (noop (= x (c i32 c))))))) (noop (= x (b 3 (ref x) (c i32 2))))) (st i32 0 (ref x)))",
                    "int32_t x = i0; if (tr(i1)) { if (tr(i2)) x = 11; else { if (tr(i3)) x = 12; } } else x = A<int32_t>::mul(x, 2); E.st(0, x);", 4),
        "fx_local": ("(noop (= x (in i32 0)) (ifb (in i32 1) (noop (= t (b 1 (ref x) (in i32 2))) (= x (b 3 (ref t) (ref t)))) (noop (= t (in i64 3)) (st i64 1 (ref t)))) (= t (in i32 2)) (st i32 0 (ref x)) (st i32 2 (ref t)))",
                     "int32_t x = i0; if (tr(i1)) { int32_t t = A<int32_t>::add(x, i2); x = A<int32_t>::mul(t, t); } else { E.st(1, (int64_t)i3); } E.st(0, x); E.st(2, i2);", 4),
        "fx_iso": ("(noopi (noop (= x (in i32 0)) (st i32 0 (ref x))) (noop (= x (in i64 1)) (ifb (in i32 2) (noop (= x (c i64 3)))) (st i64 1 (ref x))))",
                   "E.st(0, i0); int64_t x = i1; if (tr(i2)) x = 3; E.st(1, x);", 4),
        "fx_seq": ("(noop (= x (in i32 0)) (= y (ref x)) (= x (b 1 (ref x) (c i32 1))) (= y (b 2 (ref x) (ref y))) (= x (ref y)) (st i32 0 (ref x)) (st i32 1 (ref y)))",
                   "E.st(0, (int32_t)1); E.st(1, (int32_t)1);", 1),
        "fx_last": ("(noop (st i32 0 (in i32 0)) (st i32 0 (in i32 1)) (ifb (in i32 2) (noop (st i32 0 (in i32 3)))))",
                    "E.st(0, i0); E.st(0, i1); if (tr(i2)) E.st(0, i3);", 4),
    }
    for name, (sx, code, nin) in fixed.items():
        g = genprog.Gen(0)
        g.inputs = ["i32"] * nin
        if name in ("fx_local",):
            g.inputs = ["i32", "i32", "i32", "i64"]
        if name == "fx_iso":
            g.inputs = ["i32", "i64", "i32"]
        g.code = ["  " + code]
        outt = {0: "i32", 1: "i32", 2: "i32"}
        if name in ("fx_local", "fx_iso"):
            outt[1] = "i64"
        progs.append((name, sx))
        h += f"JF_DECL({name})\n" + genprog.function(name, g, sx, outt)
        jobs.append((name, f"h_{name}", [], 60))
    # conditions over complex values: strings and lists through branches
    h += '''
JF_DECL(ifstr) JF_DECL(swlist)
JF_H h_ifstr(uint64_t n, uint64_t m) {
  JfSlot in[3];
  int32_t c = sym<int32_t>("c");
  char *a = symArr<char>(n, "a"), *b = symArr<char>(m, "b");
  setIn(in[0], c); setList(in[1], a, n); setList(in[2], b, m);
  auto r = call<StringStruct>(jf::P JF_ENT1(ifstr), in);
  jf_assert(r.ok, "evaluates without error");
  uint64_t l = c ? n : m; char* x = c ? a : b;
  jf_assert(r.v.len == l, "length of the selected string");
  for (uint64_t i = 0; i < l; i++) jf_assert(r.v.data[i] == x[i], "bytes of the selected string");
}
JF_H h_swlist(uint64_t n, uint64_t m, uint64_t k) {
  JfSlot in[5];
  int32_t c = sym<int32_t>("c"); double d = sym<double>("d");
  int32_t *a = symArr<int32_t>(n, "a"), *b = symArr<int32_t>(m, "b"), *e = symArr<int32_t>(k, "e");
  setIn(in[0], c); setIn(in[1], d); setList(in[2], a, n); setList(in[3], b, m); setList(in[4], e, k);
  auto r = call<I32ListStruct>(jf::P JF_ENT1(swlist), in);
  jf_assert(r.ok, "evaluates without error");
  int w = c ? 0 : tr(d) ? 1 : 2;
  uint64_t l = w == 0 ? n : w == 1 ? m : k; int32_t* x = w == 0 ? a : w == 1 ? b : e;
  jf_assert(r.v.len == l, "length of the selected list");
  for (uint64_t i = 0; i < l; i++) jf_assert(r.v.data[i] == x[i], "elements of the selected list");
}
'''
    progs += [("ifstr", "(if (in i32 0) (in str 1) (in str 2))"), ("swlist", "(sw (in i32 0) (in li32 2) (in f64 1) (in li32 3) (in li32 4))")]
    for n in range(3):
        for m in range(3):
            jobs.append((f"ifstr_{n}_{m}", "h_ifstr", [n, m], 30))
            jobs.append((f"swlist_{n}_{m}", "h_swlist", [n, m, 3 - n], 30))
    # generated programs
    N = 160 if tier == "quick" else 1500
    for k in range(N):
        g = genprog.Gen(1000 + k, maxcond=5 if tier == "quick" else 7)
        sx = g.program(2 + k % 4, 2 + k % 3)
        name = f"g{k}"
        progs.append((name, sx))
        h += f"JF_DECL({name})\n" + genprog.function(name, g, sx, g.outt)
        jobs.append((name, f"h_{name}", [], 40))
    V = 120 if tier == "quick" else 1000
    for k in range(V):
        g, sx = genprog.varprog(7000 + k, 2 + k % 2)
        name = f"w{k}"
        progs.append((name, sx))
        h += f"JF_DECL({name})\n" + genprog.function(name, g, sx, g.outt)
        jobs.append((name, f"h_{name}", [], 40))
    return Spec(progs=progs, harness=h, jobs=jobs,
                bounds=f"all input values; if and switch over all 100 branch type pairs; {len(fixed)} fixed and {N} + {V} generated statement programs (the latter copy a few variables around nested if-blocks) (nesting up to 4, at most {5 if tier == 'quick' else 7} conditions each)",
                assumptions=["NaN counts as false in a condition", "strict floating-point mode", "the family of programs is a fixed sample of the grammar; for each program all inputs are covered"],
                explanation="The optimised IR of each program against straight C++ that says which branch runs, what each variable holds afterwards and which effects happen in which order.")
