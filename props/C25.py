"""Athena source means what the language says."""
import random
import struct
from jf import Spec
from common import *
import genprog
import athtext

BIN = list(athtext.LEVEL)


def bop(op, l, r):
    return f"(f in {l} {r})" if op == "in" else f"(b {op} {l} {r})"


def spec(tier):
    q = tier == "quick"
    user = '''
#include "jfio.h"
#include "exec_engine.h"
#include "function_registry.h"
using namespace jitfusion;
extern "C" {
#define X(n, T, k) __attribute__((noinline, used)) inline uint64_t val_##n(T v) { uint64_t r = 0; memcpy(&r, &v, sizeof v); return (r << 5 | r >> 59) ^ (uint64_t)ValueType::k; }
JF_NUM_TYPES(X)
#undef X
#define X(n, T, k) __attribute__((noinline, used)) inline uint64_t val_##n(T v) { const uint8_t* p = (const uint8_t*)v.data; uint64_t r = (uint64_t)ValueType::k; for (uint32_t i = 0; i < v.len * sizeof(*v.data); i++) r = (r ^ p[i]) * 0x100000001b3ull; return (r ^ v.len) * 0x100000001b3ull; }
JF_ALL_LISTS(X)
#undef X
__attribute__((noinline, used)) inline uint64_t val_lstr(StringListStruct v) { uint64_t r = (uint64_t)ValueType::kStringList + v.len; for (uint32_t i = 0; i < v.len; i++) r = (r ^ val_str(v.data[i])) * 0x100000001b3ull; return r; }
'''.replace("JF_ALL_LISTS(X)", "X(str, StringStruct, kString) " + " ".join(f"X(l{t}, {LT[t]}, k{t.upper()}List)" for t in NUM))
    reg = ""
    for t in NUM:
        reg += f'  JF_RETURN_NOT_OK(r->RegisterReadOnlyCFunc(FunctionSignature("val", {{ValueType::k{t.upper()}}}, ValueType::kU64), (void*)val_{t}));\n'
        reg += f'  JF_RETURN_NOT_OK(r->RegisterReadOnlyCFunc(FunctionSignature("val", {{ValueType::k{t.upper()}List}}, ValueType::kU64), (void*)val_l{t}));\n'
    for t, v in (("str", "kString"), ("lstr", "kStringList")):
        reg += f'  JF_RETURN_NOT_OK(r->RegisterReadOnlyCFunc(FunctionSignature("val", {{ValueType::{v}}}, ValueType::kU64), (void*)val_{t}));\n'
    # a user function called "in", for the operator of that name
    T2 = ["u8", "u32", "u64", "i32", "i64"]
    for a in T2:
        for b_ in T2:
            user += f'__attribute__((noinline, used)) inline uint8_t isin_{a}_{b_}({CT[a]} a, {CT[b_]} b) {{ return (uint8_t)(a * 5 + b * 3 + 1); }}\n'
            reg += f'  JF_RETURN_NOT_OK(r->RegisterReadOnlyCFunc(FunctionSignature("in", {{ValueType::k{a.upper()}, ValueType::k{b_.upper()}}}, ValueType::kU8), (void*)isin_{a}_{b_}));\n'
    # names that begin with keywords are ordinary names
    for n in ("iff", "inn", "nota", "orx", "letter", "output1", "entry_argx", "whenever", "switch_1", "true1", "exec_ctx2", "andy", "u8", "f32x"):
        user += f'__attribute__((noinline, used)) inline uint32_t fn_{n}(uint32_t a) {{ return a + {sum(map(ord, n))}; }}\n'
        reg += f'  JF_RETURN_NOT_OK(r->RegisterReadOnlyCFunc(FunctionSignature("{n}", {{ValueType::kU32}}, ValueType::kU32), (void*)fn_{n}));\n'
    user += "}\ninline Status RegisterUser(FunctionRegistry* r) {\n" + reg + "  return Status::OK();\n}\n"

    progs, jobs, err = [], [], {}
    h = PRELUDE + genprog.RUNTIME + '''
// the text and the tree give the same value for every input
void both(const P& text, const P& tree, uint64_t lim) {
  JfSlot in[3];
  for (int k = 0; k < 3; k++) {
    uint32_t v = sym<uint32_t>("input");
    if (lim & (1u << k)) jf_assume(v != 0);                 // a divisor
    if (lim & 8 && k) jf_assume((v >= 1) & (v <= 3));       // part of a shift amount
    setIn(in[k], v);
  }
  if (lim & 16) jf_assume(getOut<uint32_t>(in[1]) >= getOut<uint32_t>(in[2]));
  auto a = call<uint64_t>(text, in);
  auto b = call<uint64_t>(tree, in);
  jf_assert(a.ok & b.ok, "evaluates without error");
  jf_assert(a.v == b.v, "value and type of the source are those of its syntax tree");
}
'''
    text_ids, tree_ids = [], []

    def pair(name, text, tree, lim=0, limit=60):
        progs.append(("t" + name, athtext.athena(text)))
        progs.append(("r" + name, tree))
        jobs.append((name, "h_both", [len(text_ids), lim], limit))
        text_ids.append("t" + name)
        tree_ids.append("r" + name)
    V = [inn("u32", k) for k in range(3)]
    # every ordered pair of operators: how the operands group
    k = 0
    for o1 in BIN:
        for o2 in BIN:
            # left-to-right at equal level, tighter first
            if athtext.LEVEL[o1] >= athtext.LEVEL[o2]:
                tree = bop(o2, bop(o1, V[0], V[1]), V[2])
            else:
                tree = bop(o1, V[0], bop(o2, V[1], V[2]))
            lim = (2 if o1 in (4, 5) else 0) | (4 if o2 in (4, 5) else 0) | (8 | 16 if {o1, o2} & {33, 34} else 0)
            T = athtext.Text(k, noise=False)
            txt = T.join(["val", "("] + T.args([athtext.parse(tree)]) + [")", ";"])
            assert txt.count("(") == 4, txt
            pair(f"g{k}", txt, f"(f val {tree})", lim)
            k += 1
            # and with both groupings spelled out
            if q and k % 3:
                continue
            # the divisors and shift amounts must stay leaves
            if o2 not in (4, 5, 33, 34) and o1 not in (4, 5, 33, 34):
                for j, tr in enumerate((bop(o2, bop(o1, V[0], V[1]), V[2]), bop(o1, V[0], bop(o2, V[1], V[2])))):
                    T = athtext.Text(1000 + k * 2 + j)
                    pair(f"p{k}_{j}", T.expression(f"(f val {tr})"), f"(f val {tr})")
    # unary operators against each binary one, on either side
    for uo in athtext.USPELL:
        for o in BIN:
            lim = 8 if o in (33, 34) else 4 if o in (4, 5) else 0
            for side in (0, 1):
                if side and o in (4, 5, 33, 34):
                    continue
                for spell in range(len(athtext.USPELL[uo])):
                    l, r = V[0], V[2]
                    tree = bop(o, f"(u {uo} {l})", r) if side == 0 else bop(o, l, f"(u {uo} {r})")
                    T = athtext.Text(k, noise=False)
                    T.r = random.Random(spell)
                    pair(f"u{uo}_{o}_{side}_{spell}", T.expression(f"(f val {tree})"), f"(f val {tree})", lim)
    # random expressions, all spellings, spacing and comments
    for s in range(60 if q else 400):
        r = random.Random(9000 + s)

        def e(d):
            x = r.random()
            if d == 0 or x < 0.1:
                return r.choice(V) if r.random() < 0.75 else c(r.choice(["u8", "u32", "u64", "i32"]), r.choice([0, 1, 2, 7, 100]))
            if x < 0.2:
                return f"(u {r.choice([1, 2, 22, 32])} {e(d - 1)})"
            if x < 0.28:
                return f"(if (b {r.choice([10, 12, 13, 15])} {e(d - 1)} {e(d - 1)}) (b 30 {V[0]} {V[1]}) {V[2]})"
            if x < 0.34:
                return f"(sw (b 13 {e(d - 1)} {V[0]}) {V[1]} (b 10 {V[1]} {e(d - 1)}) {V[0]} {V[2]})"
            op = r.choice([o for o in BIN if o != "in"])
            if op in (4, 5):
                return f"(b {op} {e(d - 1)} {c('u32', r.choice([2, 3, 8]))})"
            if op in (33, 34):
                return f"(b {op} {e(d - 1)} (b 30 {r.choice(V)} {c('u32', 3)}))"
            if op == 3:
                return f"(b {op} {r.choice(V)} {c('u32', r.choice([2, 3, 5]))})"
            return f"(b {op} {e(d - 1)} {e(d - 1)})"
        tr = f"(f val {e(3 + s % 3)})"
        pair(f"e{s}", athtext.Text(s).expression(tr), tr)
    # names
    for n in ("iff", "inn", "nota", "orx", "letter", "output1", "entry_argx", "whenever", "switch_1", "true1", "exec_ctx2", "andy", "u8", "f32x"):
        pair("n_" + n, f"{n} = {n}({'ld_u32(entry_arg, 0)'}); val({n}*2u32);", f"(f val (b 3 (f {n} {V[0]}) {c('u32', 2)}))")
    # literals: value and type
    lits = [("true", c("u8", 1)), ("false", c("u8", 0))]
    for t in INT:
        w, sg = W[t], signed(t)
        mx = (1 << (w - 1)) - 1 if sg else (1 << w) - 1
        for v in sorted({0, 1, 7, 100, mx, mx - 1, mx // 2 + 1}):
            lits.append((f"{v}{t}", c(t, v)))
            if t == "i32":
                lits.append((str(v), c(t, v)))
        lits.append((f"0007{t}", c(t, 7)))
        if sg and w >= 32:  # unary minus widens the narrower types
            lits.append((f"-{mx + 1}{t}", c(t, -mx - 1)))
    for s, v in (("1.5", 1.5), ("5.", 5.0), (".25", 0.25), ("0.1", 0.1), ("16777217.0", 16777217.0), ("3.14159", 3.14159), ("0.0", 0.0), ("00.50", 0.5), ("123456789.0", 123456789.0), ("0." + "0" * 320 + "1", 1e-321)):
        lits.append((s, c("f64", v)))
        lits.append((s + "f64", c("f64", v)))
        lits.append((s + "f32", c("f32", v)))
    lits += [("7f32", c("f32", 7.0)), ("7f64", c("f64", 7.0)), ("16777217f64", c("f64", 16777217.0)), ("0." + "0" * 43 + "1f32", c("f32", 1e-44))]
    for s in ("", "a", "a//b", "/* x */", "it's", "a;b", "x\\\"y", "nul\0in it", "tab\tx", "\\\\", "\\n", "naïve", "#@$", "\n"):
        lits.append((f'"{s}"', f"(cs {s.encode().hex()})" if s else "(cs)"))
    for s in ("", "say \"hi\"", "\\'", "// no comment"):
        lits.append((f"'{s}'", f"(cs {s.encode().hex()})" if s else "(cs)"))
    for t in NUM:
        vs = [0, 1, 2, 100] if isi(t) else [0.0, 1.5, 2.0]
        for n in (1, 2, len(vs)):
            suf = t if t not in ("i32", "f64") else ""
            x = [f"{v}{suf}" for v in vs[:n]]
            cl = f"(cl l{t} " + " ".join(hexbits(t, v) for v in vs[:n]) + ")"
            lits.append(("[" + ", ".join(x) + "]", cl))
            lits.append(("[ " + "/*,*/ ,\n ".join(x) + "]", cl))
    lits += [('["a"]', "(cl lstr 61)"), ("['a' ,\"\",\"b,c\"]", "(cl lstr 61 - 622c63)")]
    for k, (s, sx) in enumerate(lits):
        pair(f"l{k}", f"val({s});", f"(f val {sx})")
    # variables of an expression: the latest assignment above the use
    for s in range(30 if q else 150):
        r = random.Random(500 + s)
        env, code = {}, []
        names = ["a", "b", "c_1", "Dd", "a0"]

        def val():
            x = r.random()
            if env and x < 0.6:
                n = r.choice(sorted(env))
                return n, env[n]
            if x < 0.9:
                j = r.randrange(3)
                return f"ld_u32(entry_arg,{j})", V[j]
            v = r.choice([1, 2, 9])
            return f"{v}u32", c("u32", v)
        consts = set()
        for _ in range(2 + s % 6):
            (x, sx), (y, sy) = val(), val()
            op, lv = r.choice([("+", 1), ("-", 2), ("^", 32), ("&", 30), ("|", 31)])
            n = r.choice([m for m in names if m not in consts])
            let = n not in env and r.random() < 0.3
            code.append(f"{'let ' if let else ''}{n} = {x} {op} {y};")
            env[n] = f"(b {lv} {sx} {sy})"
            if let:
                consts.add(n)
        x, sx = val()
        y, sy = val()
        pair(f"v{s}", " ".join(code) + f" val({x} - {y});", f"(f val (b 2 {sx} {sy}))")
    h += table("TX", text_ids) + table("TR", tree_ids) + "JF_H h_both(uint64_t k, uint64_t lim) { both(TX[k], TR[k], lim); }\n"
    # whole programs in pipeline mode, against their meaning
    for s in range(36 if q else 260):
        if s % 3 == 2:
            g, sx = genprog.varprog(27000 + s, 2 + s % 2)
        else:
            g = genprog.Gen(26000 + s, maxcond=5)
            sx = g.program(2 + s % 4, 2 + s % 3)
        progs.append((f"w{s}", athtext.pipeline(athtext.Text(s).program(sx))))
        h += f"JF_DECL(w{s}_0)\n" + genprog.function(f"w{s}_0", g, sx, g.outt)
        jobs.append((f"w{s}", f"h_w{s}_0", [], 60))
    # what must be rejected
    A = "ld_u32(entry_arg,0)"
    both_modes = ["", ";", "1", "1;;", "a = ;", "= 1;", "1 2;", "a = 1 b = 2;", "(1;", "1);", "1 + ;", "* 2;", "val(1,);", "val(,1);", "val(1;", "if(1,2,3;", "let = 1;", "let 1 = 2;", "a = b;", "a = a;", "b + 1; b = 2;",
                  "1 = 2;", "a + 1 = 2;", "[];", "[1, 2i64];", "[1, 1.5];", "[1,];", "[a];", "'abc;", "\"abc;", "/* 1;", "1 /* ; ", "1 = = 1;", "1 => 2;", "if = 1;", "let in = 1;", "switch = 2;", "true = 1;", "output = 1;", "entry_arg = 1;",
                  "nosuch(1);", "1 ? 2 : 3;", "1 @ 2;", "$;", "1;#", "a.b = 1;", "1 \\ 2;", "`1`;", "1;}", "{1;}", "else { 1; }", "elif 1 { 1; }", "not;", "1 not 2;", "1 and;", "val 1;", "a b;", "when 1 1;", "when { 1; }", "when 1 { };", "when 1 { 1; } else 1;",
                  "256u8;", "65536u16;", "4294967296u32;", "18446744073709551616u64;", "128i8;", "32768i16;", "2147483649;", "2147483649i32;", "9223372036854775809i64;", "99999999999999999999999;", "1u7;", "1x;", "1.5i32;", "1.5u8;", "0x10;", "1e5;", "1" + "0" * 400 + ".0;", "1" + "0" * 39 + "f32;",
                  "let a = 1; a = 2; a;", "a = 1; let a = 2; a;", "let a = 1; let a = 1; a;", "let a = 1; b = a; a = b; a;",
                  "[1, 300000000000];", "a = 1; a = c;", "1;\0", "1;\0 not in the language", "1\0;", "1; // \0\n)", "\0"]
    for k, s in enumerate(both_modes):
        progs.append((f"xe{k}", athtext.athena(s)))
        progs.append((f"xp{k}", athtext.pipeline(s)))
        err[f"xe{k}"] = err[f"xp{k}"] = r"^(?!exception)(?!compiling it kills)"
    for k, s in enumerate(["when 1 { 1; } 2;", f"a = 1; when {A} {{ a = 2; }} a;", "when 1 { 1; }"]):
        progs.append((f"xw{k}", athtext.athena(s)))
        err[f"xw{k}"] = r"^(?!exception)(?!compiling it kills)"
    for k, s in enumerate(["let a = 1; when 1 { a = 2; }", "a = 1; when 1 { let a = 2; }", "a = 1; when 1 { a = 1.5; }", "when 1 { b = 1; } c = b;", "when 1 { b = 1; } else { c = b; }", "when 1 { 1; } else { 2; } else { 3; }", "when 1 { 1; } else { 2; } elif 1 { 3; }",
                           "when 1 { 1;", "when 1 { 1; }}", "a = 1; a = 1.5;", "when 'x' { 1; }", "a = 1; when 1 { a = a; } elif 1 { a = 'x'; }", "when 1 { let z = 1; z = 2; }", "when 1 { when 1 { q = 1; } r = q; }"]):
        progs.append((f"xq{k}", athtext.pipeline(s)))
        err[f"xq{k}"] = r"^(?!exception)(?!compiling it kills)"
    # nothing of a rejected program is left for the next one
    # a pipeline is rejected when any of its sources is
    for k, v in enumerate([["a = 1;", "b = a;"], ["x = 1; when 1 { y = 2; z = ;", "v = y;"], ["a = 1;", "1 +;"], ["let a = 1;", "a = 1; a = 'x';"]]):
        progs.append((f"xm{k}", athtext.pipeline(*v)))
        err[f"xm{k}"] = r"^(?!exception)(?!compiling it kills)"
    # what looks odd but is in the language
    for k, s in enumerate(["1;", " 1 ; ", "// c\n1;", "1;// c", "1;/* c */", "a=1;a;", "a = 1; a = 2; a;", "let a = 1; a;", "((((1))));", "- - 1;", "!!1;", "not not 1;", "~-+1;", "a = 1; let b = a; b;"]):
        progs.append((f"ok{k}", athtext.athena(s)))
        progs.append((f"okp{k}", athtext.pipeline(s)))
    # scopes: random declarations, assignments and uses in nested blocks, with
    # at most one mistake; the oracle below decides which are in the language
    nrej = 0
    for s in range(260 if q else 2000):
        r = random.Random(77000 + s)
        mistake = [None]

        def stmt(scopes, depth, left):
            vis = {n: d for sc in scopes for n, d in sc.items()}
            x = r.random()
            if x < 0.3 and depth < 4 and left > 1:
                out = ""
                for kind in (["when"] + ["elif"] * r.choice([0, 0, 1, 2]) + ["else"] * r.choice([0, 1])):
                    cond = "" if kind == "else" else expr(vis, "i32") + " > 1 "
                    out += f"{kind} {cond}{{ {block(scopes + [{}], depth + 1, left // 2 + 1)} }} "
                return out
            if x < 0.45:
                t = r.choice(["i32", "f64"])
                return f"st_{t}(output, {r.randrange(8)}, {expr(vis, t)}); "
            n, let, t = r.choice("abcdefgh"), r.random() < 0.35, r.choice(["i32", "f64"])
            d = vis.get(n)
            bad = None
            if d is not None:
                bad = "const" if d[1] else "let" if let else "type" if d[0] != t else None
                if bad and (mistake[0] or r.random() < 0.75):
                    # make it right: assign a variable with its type, or a new name
                    ok = [m for m in "abcdefgh" if m not in vis or not vis[m][1]]
                    if not ok:
                        return ""
                    n = r.choice(ok)
                    if n in vis:
                        let, t = False, vis[n][0]
                    bad = None
            text = f"{'let ' if let else ''}{n} = {expr(vis, t)}; "
            if bad:
                mistake[0] = bad
                return text
            if n not in vis:
                scopes[-1][n] = (t, let)
            return text

        def expr(vis, t):
            ok = [n for n, d in vis.items() if d[0] == t]
            if not mistake[0] and r.random() < 0.03:
                gone = [n for n in "abcdefgh" if n not in vis]
                if gone:
                    mistake[0] = "undefined"
                    return r.choice(gone)
            a = r.choice(ok) if ok and r.random() < 0.7 else f"ld_{t}(entry_arg, {r.randrange(3)})"
            return a + (" + " + r.choice(ok) if ok and r.random() < 0.4 else "")

        def block(scopes, depth, left):
            return "".join(stmt(scopes, depth, left - k) for k in range(r.randint(1, left))) or "1; "
        text = block([{}], 0, 6)
        progs.append((f"sc{s}", athtext.pipeline(text)))
        if mistake[0]:
            err[f"sc{s}"] = r"^(?!exception)(?!compiling it kills)"
            nrej += 1
    # the shortest ones, at every depth
    k = 0
    for outer in range(4):
        for inner in range(outer, 5):
            for first, second, ok in (("y = 1;", "y = 2;", 1), ("let y = 1;", "y = 2;", 0), ("y = 1;", "let y = 2;", 0), ("let y = 1;", "let y = 2;", 0), ("y = 1;", "y = 2.5;", 0), ("y = 1.5;", "y = ld_f64(entry_arg, 1);", 1),
                                      ("let y = 1;", "z = y;", 1), ("w = 1;", "z = y;", 0), ("y = 1;", "y = y + 1;", 1), ("w = 1;", "y = y + 1;", 0), ("y = 1;", "when y > 0 { } ", 0)):
                o = "".join(f"x{d} = ld_i32(entry_arg, {d % 3}); {'when' if d % 2 else 'when 0 { 1; } elif'} x{d} > 1 {{ " for d in range(outer))
                i = "".join(f"when x > {d} {{ q{d} = 1; }} else {{ " for d in range(outer, inner))
                text = "x = 3; " + o + first + " " + i + second + " }" * inner
                progs.append((f"sd{k}", athtext.pipeline(text)))
                if not ok:
                    err[f"sd{k}"] = r"^(?!exception)(?!compiling it kills)"
                k += 1
    # a variable lives until the end of the block that declares it
    for d in range(1, 5):
        for t1, t2 in (("1", "2"), ("1", "1.5"), ("1u8", "'s'")):
            o, c_ = "when 1 { " * d, "} " * d
            for text, ok in ((f"{o}y = {t1}; {c_} y = {t2};", 1), (f"{o}let y = {t1}; {c_} let y = {t2};", 1), (f"{o}let y = {t1}; {c_} z = y;", 0), (f"{o}y = {t1}; }} else {{ z = y; {c_}", 0),
                             (f"{o}y = {t1}; }} else {{ y = {t2}; {c_}", 1), (f"{o}let y = {t1}; }} elif 0 {{ let y = {t2}; }} else {{ y = {t1}; {c_}", 1), (f"y = {t1}; {o}y = {t1}; }} else {{ y = {t2}; {c_}", t1 == "1" and t2 == "2")):
                progs.append((f"se{k}", athtext.pipeline(text)))
                if not ok:
                    err[f"se{k}"] = r"^(?!exception)(?!compiling it kills)"
                k += 1
    jobs_n = len(jobs)
    return Spec(progs=progs, user=user, harness=h, jobs=jobs, athena=True, expect_error=err,
                bounds=f"every ordered pair of the {len(BIN)} binary operators with and without parentheses, every unary operator on either side of every binary one; {60 if q else 400} random expressions of depth up to 5 and {36 if q else 260} random pipeline programs in random spelling (aliases, spacing, comments, superfluous parentheses); {len(lits)} literals; {len(err)} malformed programs (among them {nrej} random scoping mistakes in nested blocks and systematic ones at every depth up to five, next to correct neighbours that must compile); all input values",
                assumptions=["operands are u32 inputs; divisors are not zero and shift amounts are below the width", "the source texts themselves are fixed per instance: the parser runs concretely, its result is compared for all inputs"],
                explanation="Source text is compiled by the real lexer, parser and code generator; its IR must equal, for every input, the IR of the syntax tree the language description gives it (operators bind as in C, `in` between `and` and `|`), or the straight C++ meaning of the program. Malformed programs must be rejected with an error status.")
