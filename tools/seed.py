#!/usr/bin/env python3
"""seed.py make [NAMES]   write seeded/NAME from tools/seeds.py
   seed.py test [NAMES]   confirm each in a scratch copy of /repo and run its property's check against it
   seed.py done           remove the scratch copy"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RC, RB = "/tmp/rc", "/tmp/rcb"
SEEDS = {}


def S(name, prop, edits, demo, needs, breaks, athena=False):
    SEEDS[name] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


exec(open(V + "/tools/seeds.py").read())
DEMO_SH = """#!/bin/bash
# exit 0 when the property holds on this input, non-zero otherwise
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
L=/usr/lib/llvm-19
g++ -std=c++17 -O1 -w -isystem $L/include -I"$D" -I. -Iinclude -Isrc -Iathena "$D/demo.cc" -o "$T/demo" \\
  _build/libathena.a _build/libjitfusion.a -L$L/lib -lLLVM-19 -Wl,-rpath,$L/lib -ldl -lpthread || exit 2
cd "$T" && timeout 120 ./demo
"""


def sh(cmd, **k):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode("utf8", "replace")


def apply(root, edits):
    for f, old, new in edits:
        p = f"{root}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit(f"{f}: {s.count(old)} matches of {old!r}")
        open(p, "w").write(s.replace(old, new))


def make(name):
    s = SEEDS[name]
    d = f"{V}/seeded/{name}"
    os.makedirs(d, exist_ok=True)
    base, mod = "/tmp/seed_a", "/tmp/seed_b"
    for x in (base, mod):
        shutil.rmtree(x, ignore_errors=True)
    for f in {e[0] for e in s["edits"]}:
        for x in (base, mod):
            os.makedirs(os.path.dirname(f"{x}/{f}"), exist_ok=True)
            shutil.copy(f"/repo/{f}", f"{x}/{f}")
    apply(mod, s["edits"])
    rc, o = sh(["diff", "-ruN", "seed_a", "seed_b"], cwd="/tmp")
    o = re.sub(r"^diff -ruN.*\n", "", o, flags=re.M)
    o = re.sub(r"^--- seed_a/(\S+).*$", r"--- a/\1", o, flags=re.M)
    o = re.sub(r"^\+\+\+ seed_b/(\S+).*$", r"+++ b/\1", o, flags=re.M)
    open(d + "/patch.diff", "w").write(o)
    for x in (base, mod):
        shutil.rmtree(x, ignore_errors=True)
    open(d + "/demo.cc", "w").write('#include "demo.h"\n' + s["demo"].strip("\n") + "\n")
    for f in ("rt/jfio.h", "rt/jfdrv.h", "tools/demo.h"):
        shutil.copy(f"{V}/{f}", d)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def sync():
    rc, o = sh(f"mkdir -p {RC} && rsync -rlpc --delete --exclude=_build --exclude=.git /repo/ {RC}/")
    if rc:
        sh(f"mkdir -p {RC}; cd {RC} && find . -mindepth 1 -maxdepth 1 ! -name _build -exec rm -rf {{}} +; cd /repo && tar c --exclude=./_build --exclude=./.git . | tar x -C {RC}")


def build():
    if not os.path.exists(RC + "/_build/build.ninja"):
        rc, o = sh(f"""cmake -S {RC} -B {RC}/_build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_COMPILER=g++ \
  -DLLVM_CONFIG=/usr/lib/llvm-19/bin/llvm-config "-DCMAKE_CXX_FLAGS=-isystem /usr/lib/llvm-19/include" -DHAS_XSIMD=OFF -DBUILD_TEST=ON -DBUILD_BENCHMARK=OFF""", env=dict(os.environ, CC="gcc", CXX="g++"))
        if rc:
            return False, o
    rc, o = sh(f"nice -n 5 ninja -C {RC}/_build -j6 jitfusion_test athena_test")
    return rc == 0, o[-1500:]


def tests():
    for t in ("jitfusion_test", "athena_test"):
        rc, o = sh(f"{RC}/_build/{t}", cwd="/tmp")
        if rc:
            return False, "\n".join(l for l in o.splitlines() if "FAILED" in l)[:600] or o[-400:]
    return True, ""


def demo(name):
    return sh(["bash", f"{V}/seeded/{name}/demo.sh"], cwd=RC)


def test(name, checks=None):
    s = SEEDS[name]
    sync()
    ok, o = build()
    if not ok:
        return f"{name}: BASE BUILD FAILS {o}"
    rc, o = demo(name)
    if rc:
        return f"{name}: DEMO FAILS ON CLEAN rc={rc} {o[-800:]}"
    rc, o = sh(["git", "apply", f"{V}/seeded/{name}/patch.diff"], cwd=RC)
    if rc:
        return f"{name}: PATCH DOES NOT APPLY {o}"
    ok, o = build()
    if not ok:
        return f"{name}: PATCHED BUILD FAILS {o}"
    ok, o = tests()
    if not ok:
        return f"{name}: TESTS FAIL {o}"
    rc, o = demo(name)
    if rc == 0:
        return f"{name}: DEMO PASSES WITH PATCH"
    if os.path.exists(f"{V}/props/{s['prop']}.py"):
        rc2, o2 = sh(["python3", "jf.py", "check", s["prop"], "quick"], cwd=V, env=dict(os.environ, JF_REPO=RC, JF_BUILD=RB, VERIF_TIER="quick"))
        v = [l for l in o2.splitlines() if l.startswith("VIOLATION")]
        return f"{name}: demo rc={rc} ok; check {s['prop']} rc={rc2} {'CAUGHT' if rc2 == 1 and v else 'MISSED ' + o2[-500:]}"
    return f"{name}: demo rc={rc} ok; no check"


cmd = sys.argv[1]
names = [n for n in SEEDS if len(sys.argv) < 3 or any(re.fullmatch(a, n) for a in sys.argv[2:])]
if cmd == "make":
    for n in names:
        make(n)
elif cmd == "test":
    for n in names:
        make(n)
        print(test(n), flush=True)
elif cmd == "done":
    for x in (RC, RB):
        shutil.rmtree(x, ignore_errors=True)
