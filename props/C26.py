"""A set of pipelines: each runs exactly once, with its own variables."""
import random
import re
from jf import Spec
from common import *
import genprog
import athtext

TYPES = ["i32", "u8", "i32", "u32", "i64", "i16", "f64", "u32"]


def one(seed, base, width, kind):
    """A pipeline writing only slots base..base+width-1."""
    for k in range(200):
        g = genprog.Gen(seed * 211 + k, maxcond=3)
        g.inputs = list(TYPES)
        g.ntick, g.nst = 24, base
        sx = g.program(1 + seed % 3, 1 + seed % 2)
        if g.outt and max(g.outt) < base + width and "(in " in sx:
            return g, sx
    raise ValueError("no program")


def simple(r, base):
    """Small pipelines over few inputs: most share a loaded value with another."""
    g = genprog.Gen(0)
    g.inputs, g.code, g.outt = list(TYPES), [], {}
    n = r.randint(1, 3)
    ss = []
    name = r.choice(["a", "b", "v0"])
    k = r.choice([0, 2])
    t = TYPES[k]
    v = r.choice([1, 5, 9])
    form = r.randrange(5)
    if form == 0:
        ss.append(f"(= {name} (b 1 (in {t} {k}) {c('i32', v)}))")
        g.emit(f"int32_t {name} = A<int32_t>::add(i{k}, {v});")
    elif form == 1:
        ss.append(f"(const {name} (in {t} {k}))")
        g.emit(f"int32_t {name} = i{k};")
    elif form == 2:
        ss += [f"(= {name} (in {t} {k}))", f"(ifb (b 13 (ref {name}) {c('i32', v)}) (noop (= {name} {c('i32', v)})))"]
        g.emit(f"int32_t {name} = i{k}; if ({name} < {v}) {name} = {v};")
    elif form == 3:
        ss += [f"(= {name} {c('i32', v)})", f"(ifb (b 10 (in {t} {k}) (ref {name})) (noop (= {name} (in {t} {2 - k}))) (noop (= {name} (b 2 (ref {name}) (in {t} {k})))))"]
        g.emit(f"int32_t {name} = {v}; if (i{k} > {name}) {name} = i{2 - k}; else {name} = A<int32_t>::sub({name}, i{k});")
    else:
        # the same name with another type
        ss.append(f"(= {name} (in i64 4))")
        g.emit(f"int64_t {name} = i4;")
    t = "i64" if form == 4 else "i32"
    for j in range(n):
        if j == 0:
            s, x = f"(ref {name})", name
        else:
            s, x = f"(b 32 (ref {name}) (in {TYPES[k]} {k}))", f"({CT[t]})({name} ^ ({CT[t]})i{k})"
        ss.append(f"(st {t} {base + j} {s})")
        g.emit(f"E.st({base + j}, {x});")
        g.outt[base + j] = t
    return g, "(noop " + " ".join(ss) + ")"


def spec(tier):
    q = tier == "quick"
    progs, jobs = [], []
    h = PRELUDE + genprog.RUNTIME
    n = 0

    def add(parts, seed, limit=60):
        nonlocal h, n
        name = f"m{n}"
        n += 1
        G = genprog.Gen(0)
        G.inputs, G.code = list(TYPES), []
        out = {}
        for g, _ in parts:
            G.code += ["  {"] + g.code + ["  }"]
            out.update(g.outt)
        texts = [athtext.Text(seed * 10 + i, noise=seed % 4 == 0).program(sx) for i, (_, sx) in enumerate(parts)]
        progs.append((name, athtext.pipeline(*texts)))
        h += f"JF_DECL({name}_0)\n" + genprog.function(name + "_0", G, "", out)
        jobs.append((name, f"h_{name}_0", [], limit))
    for s in range(90 if q else 700):
        r = random.Random(31000 + s)
        k = 2 + s % 5
        add([simple(r, 6 * i) for i in range(k)] if k <= 5 else [simple(r, 5 * i) for i in range(k)], s)
    for s in range(40 if q else 300):
        k = 2 + s % 2
        add([one(5000 + s * 3 + i, i * (15 if k == 2 else 10), 15 if k == 2 else 10, 0) for i in range(k)], s)
    # chains: the i-th pipeline shares one loaded value with each neighbour
    for k in (2, 3, 4, 5, 6):
        for order in range(4 if q else 12):
            parts = []
            for i in range(k):
                g = genprog.Gen(0)
                g.inputs, g.code, g.outt = list(TYPES), [], {}
                a, b_ = [0, 2, 3, 7, 1, 5, 4][i], [0, 2, 3, 7, 1, 5, 4][i + 1]
                ta, tb = TYPES[a], TYPES[b_]
                g.emit(f"E.st({2 * i}, i{a}); E.st({2 * i + 1}, i{b_});")
                g.outt = {2 * i: ta, 2 * i + 1: tb}
                parts.append((g, f"(noop (= x (in {ta} {a})) (const y (in {tb} {b_})) (st {ta} {2 * i} (ref x)) (st {tb} {2 * i + 1} (ref y)))"))
            random.Random(order).shuffle(parts)
            add(parts, order)
    # identical pipelines apart from the slot, and pipelines without anything in common
    for k in (2, 3, 8):
        parts = []
        for i in range(k):
            g = genprog.Gen(0)
            g.inputs, g.code, g.outt = list(TYPES), [], {i: "i32"}
            g.emit(f"E.st({i}, A<int32_t>::add(i0, i2));")
            parts.append((g, f"(st i32 {i} (b 1 (in i32 0) (in i32 2)))"))
        add(parts, k)
    # the same pipeline twice: its effects happen twice
    g = genprog.Gen(0)
    g.inputs, g.code, g.outt = list(TYPES), [], {0: "i32"}
    g.emit("E.st(0, i0);")
    add([(g, "(st i32 0 (in i32 0))")] * 2, 1)
    add([(g, "(st i32 0 (in i32 0))")] * 3, 2)
    g = genprog.Gen(0)
    g.inputs, g.code, g.outt = list(TYPES), [], {0: "i32"}
    g.emit("E.st(0, (int32_t)7);")
    add([(g, f"(st i32 0 {c('i32', 7)})")] * 2, 3)
    h = h.replace("jf_assert(out[k].len == E.o[k].len, ", "jf_assert(out[k].len == 0, ")
    return Spec(progs=progs, harness=h, jobs=jobs, athena=True,
                bounds=f"{n} sets of one to eight pipelines over eight typed inputs (sharing loaded values in chains, stars, not at all, or completely; the same variable names with different types, const in one and assigned in another), all input values",
                assumptions=["pipelines write different output slots, except where the same pipeline is given several times", "the functions of the engine run in the engine's order; that every one of them runs is part of C19"],
                explanation="AthenaPipeline's own lexer, parser, grouping and code generation produce the functions; run one after another they must have exactly the effects of the pipelines run one by one on their own, written as straight C++.")
