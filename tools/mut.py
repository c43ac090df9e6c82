#!/usr/bin/env python3
"""mut.py SEED COUNT [FILE-REGEX]: random small changes to the sources in a scratch copy; those that build
and pass the tests are given to the checks of the file; the ones no check notices are printed."""
import os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RC, RB = "/tmp/mc", "/tmp/mcb"
MAP = [
    ("src/codegen/binary_op", "C01 C02 C03 C29"), ("src/codegen/codegen.cc", "C01 C02 C03 C04 C24 C20 C28"), ("src/codegen/const_", "C05 C27 C19"),
    ("src/codegen/function", "C24 C17 C29 C07"), ("src/codegen/if_block", "C04 C28 C29"), ("src/codegen/if_", "C04 C29"), ("src/codegen/no_op", "C04 C28 C30 C26"),
    ("src/codegen/(ref|entry|exec|output)", "C04 C17 C24"), ("src/codegen/switch", "C04 C29"), ("src/codegen/unary", "C01 C02 C03"),
    ("src/function/list_aggregation", "C10 C16 C27"), ("src/function/list_arithmetic", "C08 C16 C17 C27"), ("src/function/list_basic", "C11 C12 C14 C16 C06 C17"),
    ("src/function/list_comparison", "C09 C16 C17"), ("src/function/list_group", "C13 C16 C17"), ("src/function/list_indexing", "C12 C16 C17"), ("src/function/math", "C07 C17"),
    ("src/function/murmur", "C15 C16"), ("src/function/string", "C06 C14 C16 C17 C15"), ("src/arena", "C23 C32 C16"), ("src/batch_exec", "C21 C20 C19 C27 C17 C32"), ("src/compiled_artifact", "C19"),
    ("src/diagnostic", "C33"), ("src/exec_engine", "C20 C18 C17 C27 C19 C32"), ("src/execute_dispatch", "C18 C20 C21"), ("src/exec_node", "C30 C28"), ("src/function_registry", "C22 C24 C29"), ("src/jit_core", "C20 C21 C19 C24 C28 C29"),
    ("src/pass", "C24"), ("src/type.cc", "C28 C01 C02 C10 C24 C22"), ("src/validator", "C28 C33"), ("src/scope_stack", "C28 C04"), ("include/exec_options", "C17 C20 C23 C32"), ("include/arena", "C23 C32"),
    ("include/function_registry", "C22 C24 C05"), ("include/exec_node", "C30"), ("include/type", "C05 C18 C01"), ("include/status", "C33"), ("include/diagnostic", "C33"),
    ("athena/ast_builder", "C25 C26 C31"), ("athena/athena", "C25 C26"), ("athena/dsu", "C26"), ("athena/pipeline", "C26"), ("athena/parser.cc", "C25 C31"), ("athena/token.cc", "C25 C31"),
]
OPS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b([2-9]|[1-9]\d+)\b", ["N+1", "N-1"]), (r"\+\+", ["--"]), (r" \+= ", [" -= ", " = "]), (r" \|= ", [" = "]),
    (r"\bSExt\b", ["ZExt"]), (r"SExt\(", ["ZExt("]), (r"ZExt\(", ["SExt("]), (r"\blhs\b", ["rhs"]), (r"\brhs\b", ["lhs"]), (r"\bleft\b", ["right"]), (r"GetLeft", ["GetRight"]), (r"\ba\.data", ["b.data"]), (r"\ba\.len", ["b.len"]), (r"\bb\.len", ["a.len"]),
    (r"std::min", ["std::max"]), (r"std::max", ["std::min"]), (r"\bk(I|U)(8|16|32|64)(List)?\b", ["SIGN"]), (r"\bu?int(8|16|32|64)_t\b", ["CSIGN"]), (r"!(?=[a-zA-Z_])", [""]), (r"\bi\b", ["j"]), (r"\bsizeof\((\w+)\)", ["1"]),
    (r"Create(SDiv|UDiv|SRem|URem|LShr|AShr|ICmpS\w\w|ICmpU\w\w|FCmpO\w\w|FCmpU\w\w|SIToFP|UIToFP|FPToSI|FPToUI)", ["INSTR"]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"\breturn \w+;", ["DEL"]), (r"push_back\(|emplace_back\(", ["DEL"]), (r"^\s+[\w>.\-\[\]]+(\([^;]*\)| = [^;]*);$", ["DEL", "DEL"]),
]
SWAP = dict(SDiv="UDiv", UDiv="SDiv", SRem="URem", URem="SRem", LShr="AShr", AShr="LShr", SIToFP="UIToFP", UIToFP="SIToFP", FPToSI="FPToUI", FPToUI="FPToSI")


def sh(cmd, **k):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode("utf8", "replace")


def checks(f):
    for p, c in MAP:
        if re.match(p, f):
            return c.split()
    return []


def compiled(lines):
    """Which lines the preprocessor keeps (HAS_XSIMD is off)."""
    stack, out = [], []
    for l in lines:
        d = l.strip()
        if d.startswith("#if"):
            stack.append("HAS_XSIMD" not in d or "ifndef" in d)
        elif d.startswith("#else") and stack:
            stack[-1] = True
        elif d.startswith("#endif") and stack:
            stack.pop()
        out.append(all(stack))
    return out


def mutate(r, line):
    """One random change of the line, or None."""
    c = []
    for pat, reps in OPS:
        for m in re.finditer(pat, line):
            c.append((m, reps))
    if not c:
        return None
    m, reps = r.choice(c)
    x = r.choice(reps)
    g = m.group(0)
    if x in ("N+1", "N-1"):
        x = str(int(g) + (1 if x == "N+1" else -1))
    elif x == "SIGN":
        x = g[0] + ("U" if g[1] == "I" else "I") + g[2:]
    elif x == "CSIGN":
        x = g[1:] if g[0] == "u" else "u" + g
    elif x == "INSTR":
        k = m.group(1)
        x = "Create" + (SWAP.get(k) or (k[:4] + ("U" if k[4] == "S" else "S") + k[5:] if k[0] == "I" else k[:4] + ("U" if k[4] == "O" else "O") + k[5:]))
    elif x == "DEL":
        return re.match(r"\s*", line).group(0) + ";" if line.rstrip().endswith(";") and not re.match(r"\s*(auto|const|return|std::|u?int|llvm::|bool|int)\b", line) else None
    return line[:m.start()] + x + line[m.end():]


def build():
    if not os.path.exists(RC + "/_build/build.ninja"):
        rc, o = sh(f"""cmake -S {RC} -B {RC}/_build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_COMPILER=g++ \
  -DLLVM_CONFIG=/usr/lib/llvm-19/bin/llvm-config "-DCMAKE_CXX_FLAGS=-isystem /usr/lib/llvm-19/include" -DHAS_XSIMD=OFF -DBUILD_TEST=ON -DBUILD_BENCHMARK=OFF""", env=dict(os.environ, CC="gcc", CXX="g++"))
        if rc:
            return False, o
    rc, o = sh(f"nice -n 5 ninja -C {RC}/_build -j7 jitfusion_test athena_test")
    return rc == 0, o[-600:]


def tests():
    for t in ("jitfusion_test", "athena_test"):
        try:
            rc, o = sh(f"ulimit -v 8000000; {RC}/_build/{t}", cwd="/tmp", timeout=60)
        except subprocess.TimeoutExpired:
            return False
        if rc:
            return False
    return True


def main():
    seed, count, pat = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else "."
    r = random.Random(seed)
    if not os.path.exists(RC):
        os.makedirs(RC)
        sh(f"cd /repo && tar c --exclude=./_build --exclude=./.git . | tar x -C {RC}")
        print("base", build()[0], tests(), flush=True)
    files = []
    for p, _ in MAP:
        files += [f for f in sh(["git", "ls-files"], cwd="/repo")[1].split() if re.match(p, f) and re.search(r"\.(cc|h|hh)$", f) and re.search(pat, f)]
    files = sorted(set(files))
    # a file's share grows with the square root of its length
    wt = [len(open(f"/repo/{f}").read().splitlines()) ** .5 for f in files]
    n = dict(tests=0, build=0, caught=0, missed=0)
    while sum(n.values()) < count:
        f = r.choices(files, wt)[0]
        lines = open(f"/repo/{f}").read().split("\n")
        i = r.randrange(len(lines))
        l = lines[i]
        if not compiled(lines)[i] or not l.strip() or l.strip().startswith(("//", "*", "/*", "#", "case", "using", "namespace", "static_assert")) or "Error(" in l or "throw" in l or '"' in l and f.startswith("src/validator"):
            continue
        x = mutate(r, l)
        if x is None or x == l:
            continue
        lines[i] = x
        open(f"{RC}/{f}", "w").write("\n".join(lines))
        try:
            what = f"{f}:{i + 1}: {l.strip()}  ->  {x.strip()}"
            if not build()[0]:
                n["build"] += 1
                continue
            if not tests():
                n["tests"] += 1
                continue
            by = None
            for c in checks(f):
                try:
                    rc, o = sh(["python3", "jf.py", "check", c, "quick"], cwd=V, env=dict(os.environ, JF_REPO=RC, JF_BUILD=RB, VERIF_TIER="quick"), timeout=1200)
                except subprocess.TimeoutExpired:
                    rc, o = 9, "timeout"
                if rc == 1 and "VIOLATION" in o:
                    by = c
                    break
                if rc not in (0, 1):
                    print(f"  {c} rc={rc} {o[-300:]}", flush=True)
                    by = f"{c}?rc{rc}"
            if by and "?" not in by:
                n["caught"] += 1
                print(f"caught {by} {what}", flush=True)
            else:
                n["missed"] += 1
                print(f"MISSED {by or ''} {what}", flush=True)
        finally:
            shutil.copy(f"/repo/{f}", f"{RC}/{f}")
    print(n, flush=True)


main()
