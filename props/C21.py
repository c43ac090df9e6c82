"""Every expression of a batch behaves as it does alone."""
import random
import struct
from jf import Spec
from common import *
import genprog


def spec(tier):
    q = tier == "quick"
    progs, jobs = [], []
    h = PRELUDE + genprog.RUNTIME
    err = {}

    def entry(bid, k, g):
        nonlocal h
        name = f"{bid}_{k}"
        h += f"JF_DECL({name})\n" + genprog.function(name, g, None, g.outt)
        jobs.append((name, f"h_{name}", [], 40))

    def plain(types, code, outs):
        g = genprog.Gen(0)
        g.inputs, g.code, g.outt = types, ["  " + code], outs
        return g

    # the same names in different roles and types
    fixed = [
        ("types", [("(noop (= x (in i32 0)) (st i32 0 (ref x)))", ["i32"], "E.st(0, i0);", {0: "i32"}),
                   ("(noop (= x (in f64 0)) (st f64 0 (ref x)))", ["f64"], "E.st(0, i0);", {0: "f64"}),
                   ("(noop (= x (in u8 0)) (= x (b 30 (ref x) (c u8 7))) (st u8 0 (ref x)))", ["u8"], "E.st(0, (uint8_t)(i0 & 7));", {0: "u8"})]),
        ("consts", [("(noop (const x (in i32 0)) (st i32 0 (ref x)))", ["i32"], "E.st(0, i0);", {0: "i32"}),
                    ("(noop (const x (in i32 0)) (st i32 0 (u 2 (ref x))))", ["i32"], "E.st(0, A<int32_t>::neg(i0));", {0: "i32"}),
                    ("(noop (= x (in i64 0)) (= x (b 32 (ref x) (c i64 1))) (st i64 0 (ref x)))", ["i64"], "E.st(0, (int64_t)(i0 ^ 1));", {0: "i64"})]),
        ("branches", [("(noop (= x (in i32 0)) (ifb (in i32 1) (noop (= x (c i32 5)))) (st i32 0 (ref x)))", ["i32", "i32"], "int32_t x = i0; if (tr(i1)) x = 5; E.st(0, x);", {0: "i32"}),
                      ("(noop (= y (in i32 0)) (ifb (in i32 1) (noop (= x (c i64 9)) (st i64 1 (ref x)))) (st i32 0 (ref y)))", ["i32", "i32"], "if (tr(i1)) E.st(1, (int64_t)9); E.st(0, i0);", {0: "i32", 1: "i64"})]),
    ]
    for name, es in fixed:
        bid = "fx" + name
        progs.append((bid, "(batch " + " ".join(e[0] for e in es) + ")"))
        for k, e in enumerate(es):
            entry(bid, k, plain(e[1], e[2], e[3]))
    # what one expression defines, another cannot see
    bad = {
        "seevar": "(batch (noop (= x (in i32 0)) (st i32 0 (ref x))) (noop (st i32 0 (ref x))))",
        "seelast": "(batch (noop (= y (in i32 0))) (noop (= x (in i32 0)) (= z (ref x))) (noop (ifb (in i32 0) (noop (st i32 0 (ref z))))))",
        "seealone": "(batch (noop (st i32 0 (ref x))) (noop (= x (in i32 0)) (st i32 0 (ref x))))",
    }
    for k, v in bad.items():
        progs.append((k, v))
        err[k] = "variable|x|z"
    # expressions that differ in one literal's value, type or shape only
    def fb(v): return struct.pack(">d", v).hex()
    def ff(v): return struct.pack(">f", v).hex()
    one = 1.0000000000000002
    nxt = struct.unpack(">f", struct.pack(">I", 0x3f800001))[0]
    twins = {
        "f64": [(f"(st f64 0 (b 3 (in f64 0) (c f64 {fb(v)})))", ["f64"], f"E.st(0, i0 * {v.hex()});", {0: "f64"}) for v in (1.5, 1.5000000000000002, 1.4999999999999998, 1.50000001)],
        "f32": [(f"(st f32 0 (b 1 (in f32 0) (c f32 {ff(v)})))", ["f32"], f"E.st(0, (float)(i0 + {v.hex()}f));", {0: "f32"}) for v in (1.0, nxt, 1.0 + 2 * (nxt - 1))],
        "zero": [(f"(st f64 0 (c f64 {fb(v)}))", ["f64"], f"E.st(0, {v.hex()});", {0: "f64"}) for v in (0.0, -0.0, 5e-324)],
        "width": [(f"(st i64 0 (b 32 (in i64 0) (c {t} {v})))", ["i64"], f"E.st(0, (int64_t)(i0 ^ {w}));", {0: "i64"})
                  for t, v, w in (("i8", "ff", "-1ll"), ("u8", "ff", "255"), ("i16", "ff", "255"), ("i32", "ffffffff", "-1ll"), ("u32", "ffffffff", "0xffffffffll"), ("i64", "ffffffffffffffff", "-1ll"))],
        "order": [("(st i32 0 (b 2 (in i32 0) (in i32 1)))", ["i32", "i32"], "E.st(0, A<int32_t>::sub(i0, i1));", {0: "i32"}),
                  ("(st i32 0 (b 2 (in i32 1) (in i32 0)))", ["i32", "i32"], "E.st(0, A<int32_t>::sub(i1, i0));", {0: "i32"}),
                  ("(st i32 1 (b 2 (in i32 0) (in i32 1)))", ["i32", "i32"], "E.st(1, A<int32_t>::sub(i0, i1));", {1: "i32"})],
        "names": [("(noop (= a (in i32 0)) (= b (in i32 1)) (st i32 0 (ref a)))", ["i32", "i32"], "E.st(0, i0);", {0: "i32"}),
                  ("(noop (= b (in i32 0)) (= a (in i32 1)) (st i32 0 (ref a)))", ["i32", "i32"], "E.st(0, i1);", {0: "i32"})],
    }
    for name, es in twins.items():
        bid = "tw" + name
        progs.append((bid, "(batch " + " ".join(e[0] for e in es) + ")"))
        for k, e in enumerate(es):
            entry(bid, k, plain(e[1], e[2], e[3]))
    # literals shared between the functions of one batch
    shared = {
        "lits": ["(f ListConcat (cl li32 1 2 3) (in li32 0))", "(f ListConcat (in li32 0) (cl li32 1 2 3))", "(f ListConcat (cl li32 1 2) (cl li32 1 2 3))"],
    }
    h += '''
JF_DECL(lits_0) JF_DECL(lits_1) JF_DECL(lits_2) JF_DECL(strs_0) JF_DECL(strs_1) JF_DECL(strs_2) JF_DECL(strs_3) JF_DECL(strs_4) JF_DECL(strs_5)
JF_H h_lits(uint64_t n, uint64_t k) {
  JfSlot in[1];
  int32_t* a = symArr<int32_t>(n, "a");
  setList(in[0], a, n);
  jf::P p[3] = {JF_ENT1(lits_0), JF_ENT1(lits_1), JF_ENT1(lits_2)};
  auto r = call<I32ListStruct>(p[k], in);
  jf_assert(r.ok, "evaluates without error");
  std::vector<int32_t> w;
  if (k == 0) w = {1, 2, 3};
  if (k == 2) w = {1, 2, 1, 2, 3};
  if (k < 2) for (uint64_t i = 0; i < n; i++) w.push_back(a[i]);
  if (k == 1) { w.push_back(1); w.push_back(2); w.push_back(3); }
  jf_assert(r.v.len == w.size(), "length");
  for (size_t i = 0; i < w.size(); i++) jf_assert(r.v.data[i] == w[i], "the function's own literal");
}
JF_H h_strs(uint64_t n, uint64_t k) {
  JfSlot in[1];
  char* a = symArr<char>(n, "a");
  setList(in[0], a, n);
  jf::P p[6] = {JF_ENT1(strs_0), JF_ENT1(strs_1), JF_ENT1(strs_2), JF_ENT1(strs_3), JF_ENT1(strs_4), JF_ENT1(strs_5)};
  auto r = call<StringStruct>(p[k], in);
  jf_assert(r.ok, "evaluates without error");
  const std::string ws[] = {"ab", std::string("ab\\0", 3), "abab", std::string("a\\0b", 3), std::string("a\\0c", 3), std::string("\\0b\\0", 3)};
  std::string w = ws[k];
  if (k != 2) w.append(a, n);
  jf_assert(r.v.len == w.size(), "length");
  for (size_t i = 0; i < w.size(); i++) jf_assert(r.v.data[i] == w[i], "the function's own literal");
}
'''
    progs.append(("lits", "(batch (f ListConcat (cl li32 1 2 3) (in li32 0)) (f ListConcat (in li32 0) (cl li32 1 2 3)) (f ListConcat (cl li32 1 2) (cl li32 1 2 3)))"))
    progs.append(("strs", "(batch (b 1 (cs 6162) (in str 0)) (b 1 (cs 616200) (in str 0)) (b 1 (cs 6162) (cs 6162)) (b 1 (cs 610062) (in str 0)) (b 1 (cs 610063) (in str 0)) (b 1 (cs 006200) (in str 0)))"))
    # string lists whose elements print alike
    sl = [["a,b"], ["a", "b"], ["a", "", "b"], ["a,", "b"], ["ab", ""], ["", "ab"]]
    progs.append(("slists", "(batch " + " ".join("(f ListConcat (in lstr 0) (cl lstr" + "".join(" " + (x.encode().hex() or "-") for x in e) + "))" for e in sl) + ")"))
    cc = lambda v: "{" + ", ".join('"' + x + '"' for x in v) + "}"
    h += "\n".join(f"JF_DECL(slists_{k})" for k in range(len(sl))) + """
static const jf::P g_sl[] = {""" + ", ".join(f"JF_ENT1(slists_{k})" for k in range(len(sl))) + """};
JF_H h_slists(uint64_t k) {
  const std::vector<std::string> w[] = {""" + ", ".join(cc(e) for e in sl) + """};
  JfSlot in[1];
  char* a = symArr<char>(1, "a");
  StringStruct s{a, 1};
  setList(in[0], &s, 1);
  auto r = call<StringListStruct>(g_sl[k], in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == w[k].size() + 1, "length");
  jf_assert(r.v.data[0].len == 1 && r.v.data[0].data[0] == a[0], "the input's string");
  for (size_t i = 0; i < w[k].size(); i++) {
    jf_assert(r.v.data[i + 1].len == w[k][i].size(), "length of the literal's string");
    for (size_t j = 0; j < w[k][i].size(); j++) jf_assert(r.v.data[i + 1].data[j] == w[k][i][j], "the function's own literal");
  }
}
"""
    for k in range(len(sl)):
        jobs.append((f"slists{k}", "h_slists", [k], 60))
    for n in (0, 1, 2):
        for k in range(3):
            jobs.append((f"lits{n}{k}", "h_lits", [n, k], 60))
        for k in range(6):
            jobs.append((f"strs{n}{k}", "h_strs", [n, k], 60))
    # more functions than digits
    es = [f"(b 1 (in i32 {k}) (c i32 {k + 1:x}))" for k in range(13)]
    progs.append(("many", "(batch " + " ".join(es) + ")"))
    h += "\n".join(f"JF_DECL(many_{k})" for k in range(13)) + '''
static const jf::P g_many[] = {''' + ", ".join(f"JF_ENT1(many_{k})" for k in range(13)) + '''};
JF_H h_many(uint64_t k) {
  JfSlot in[13];
  int32_t v[13];
  for (int i = 0; i < 13; i++) { v[i] = sym<int32_t>("v"); setIn(in[i], v[i]); }
  auto r = call<int32_t>(g_many[k], in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == (int32_t)((uint32_t)v[k] + (uint32_t)k + 1), "index k runs expression k");
}
'''
    for k in range(13):
        jobs.append((f"many_{k}", "h_many", [k], 30))
    # generated statement programs that use the same variable names with types of their own
    N = 45 if q else 400
    for b_ in range(N):
        r = random.Random(b_)
        gs = []
        for k in range(2 + b_ % 2):
            g = genprog.Gen(50000 + 10 * b_ + k, maxcond=4 if q else 6)
            if r.random() < 0.6:
                sx = g.program(2 + (b_ + k) % 3, 2 + (b_ + k) % 2)
            else:
                g, sx = genprog.varprog(51000 + 10 * b_ + k, 2)
            gs.append((g, sx))
        bid = f"b{b_}"
        progs.append((bid, "(batch " + " ".join(sx for _, sx in gs) + ")"))
        for k, (g, _) in enumerate(gs):
            entry(bid, k, g)
    s = Spec(progs=progs, harness=h, jobs=jobs,
             bounds=f"all input values; {len(fixed) + 3} hand-written and {N} generated batches of 2 to 13 expressions with common variable names, literals and inputs",
             assumptions=["strict floating-point mode", "the batches are a fixed sample; for each expression all inputs are covered"],
             explanation="Each function of the compiled batch against straight C++ for that expression alone; batches in which one expression uses another's variable must not compile.")
    s.expect_error = err
    return s
