#!/usr/bin/env python3
"""Solver-based checks for jitfusion: orchestration.

  jf.py setup                      build the framework
  jf.py check ID [quick|thorough]  decide one property, write evidence/ID.json
  jf.py replay DIR                 replay a recorded counterexample natively
"""
import concurrent.futures as cf
import glob, hashlib, importlib.util, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("JF_REPO", "/repo")
BUILD = os.environ.get("JF_BUILD", os.path.join(V, "build"))
LLVM = "/usr/lib/llvm-19"
BIN18 = "/usr/lib/llvm-18/bin"
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
NPROC = 8
INC = ["-isystem", LLVM + "/include", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO, "-I" + REPO + "/athena", "-I" + V + "/rt"]
BCFLAGS = ["-std=c++17", "-O1", "-g0", "-DNDEBUG", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-funique-internal-linkage-names", "-Wno-everything"] + INC
LINK = ["-no-pie", "-rdynamic", "-L" + LLVM + "/lib", "-lLLVM-19", "-Wl,-rpath," + LLVM + "/lib", "-ldl", "-lpthread"]


def log(*a):
    print("[jf]", *a, file=sys.stderr, flush=True)


def sh(cmd, timeout=600, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
    return p.returncode, p.stdout.decode("utf8", "replace")


def hfile(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h


def repo_sources(athena=True):
    s = sorted(glob.glob(REPO + "/src/**/*.cc", recursive=True))
    if athena:
        s += sorted(glob.glob(REPO + "/athena/*.cc"))
    return s


def header_hash():
    hs = sorted(sum((glob.glob(REPO + p, recursive=True) for p in
                     ("/include/**/*.h", "/src/**/*.h", "/athena/*.h", "/athena/*.hh", "/athena/*.hpp")), []))
    return hfile(*hs, V + "/rt/jf_sstream.h", V + "/rt/jfpch.h").hexdigest()


class BuildError(Exception):
    pass


class Builder:
    """Content-addressed build cache under BUILD; everything derives from REPO's current files."""

    def __init__(self):
        os.makedirs(BUILD + "/cache", exist_ok=True)
        self.hh = header_hash()
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.lock = threading.Lock()

    def cached(self, key, suffix, make):
        out = f"{BUILD}/cache/{key[:40]}{suffix}"
        if os.path.exists(out):
            return out
        tmp = out + f".tmp{os.getpid()}.{threading.get_ident()}"
        rc, o = make(tmp)
        if rc:
            if os.path.exists(tmp):
                os.unlink(tmp)
            raise BuildError(o[-4000:])
        os.rename(tmp, out)
        return out

    def jfsym(self):
        src = sorted(glob.glob(V + "/sym/*"))
        k = hfile(*src).hexdigest()
        return self.cached(k, ".jfsym", lambda t: sh(
            ["clang++", "-std=c++17", "-O2", "-g0", "-w", "-isystem", LLVM + "/include", "-I" + Z3 + "/include",
             V + "/sym/jfsym.cpp", "-o", t, "-L" + LLVM + "/lib", "-lLLVM-19", "-L" + Z3 + "/lib", "-lz3",
             "-Wl,-rpath," + Z3 + "/lib", "-Wl,-rpath," + LLVM + "/lib"]))

    def pch(self):
        k = hfile(V + "/rt/jfpch.h", V + "/rt/jf_sstream.h")
        k.update(" ".join(BCFLAGS).encode())
        return self.cached(k.hexdigest(), ".pch", lambda t: sh(
            ["clang++"] + BCFLAGS + ["-fpch-instantiate-templates", "-x", "c++-header", V + "/rt/jfpch.h", "-o", t]))

    def bc(self, src, extra=(), pch=None, deps=()):
        k = hfile(src, *deps)
        k.update(self.hh.encode() + " ".join(BCFLAGS + list(extra)).encode())
        def make(t):
            base = ["clang++"] + BCFLAGS + ([] if pch else ["-include", V + "/rt/jf_sstream.h"]) + list(extra)
            if pch:
                rc, o = sh(base + ["-include-pch", pch, "-fpch-instantiate-templates", "-emit-llvm", "-c", src, "-o", t])
                if rc == 0:
                    return rc, o
                base[1 + len(BCFLAGS):1 + len(BCFLAGS)] = ["-include", V + "/rt/jf_sstream.h"]
            return sh(base + ["-emit-llvm", "-c", src, "-o", t])
        return self.cached(k.hexdigest(), ".bc", make)

    def obj_of_bc(self, bc):
        k = hashlib.sha256(("o" + bc).encode()).hexdigest()
        return self.cached(k, ".o", lambda t: sh(["clang", "-c", "-O0", "-Wno-everything", "-x", "ir", bc, "-o", t]))

    def obj(self, src, flags, deps=()):
        k = hfile(src, *deps)
        k.update(self.hh.encode() + " ".join(flags).encode())
        return self.cached(k.hexdigest(), ".o", lambda t: sh(["clang++"] + flags + ["-c", src, "-o", t]))

    def link(self, objs, extra=()):
        k = hashlib.sha256(("L" + " ".join(objs) + " ".join(extra)).encode()).hexdigest()
        return self.cached(k, ".exe", lambda t: sh(["clang++"] + list(extra) + objs + ["-o", t] + LINK))


RTDEPS = [V + "/rt/jffreeze.h", V + "/rt/jflive.h", V + "/rt/jfio.h", V + "/rt/jfdrv.h", V + "/rt/jfrt.h"]
NATIVE = ["-std=c++17", "-O1", "-g0", "-DNDEBUG", "-Wno-everything"] + INC
ASAN = ["-fsanitize=address,integer-divide-by-zero,unreachable", "-fno-sanitize-recover=all", "-gline-tables-only", "-fno-omit-frame-pointer"]


class Spec:
    def __init__(self, **k):
        self.progs = []          # (id, s-expression)
        self.harness = ""        # C++ text
        self.jobs = []           # (id, function, args, limit seconds)
        self.athena = False
        self.exact_arena = True
        self.expect_error = {}   # program id -> regex of the compile error
        self.sym_args = []
        self.solver_ms = 20000
        self.precise_ms = 60000
        self.mem_mb = 3600
        self.merge = True       # join simple branches instead of forking
        self.bounds = ""
        self.assumptions = []
        self.explanation = ""
        self.wraps = []          # mangled names replaced by JF_STUB in the harness
        self.user = ""           # C++ text: further registered functions and RegisterUser(FunctionRegistry*)
        self.live = False        # natively: count live allocations
        self.freeze = False      # natively: detect writes to what jf_freeze declared shared
        self.use_progs = True
        self.need_native = True
        self.total = None
        self.modules = None      # optional filter on source basenames handed to the executor
        self.__dict__.update(k)


def load_prop(pid, tier):
    p = f"{V}/props/{pid}.py"
    sys.path[:0] = [V, V + "/props"]
    sp = importlib.util.spec_from_file_location("prop_" + pid, p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m.spec(tier)


def demangle(names):
    if not names:
        return []
    p = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return p.stdout.decode().split("\n")[:len(names)]


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.spec = load_prop(pid, tier)
        self.b = Builder()
        self.work = f"{BUILD}/work/{pid}.{os.getpid()}"
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.repdir = f"{BUILD}/replay/{pid}"
        os.makedirs(self.repdir, exist_ok=True)
        self.violations, self.known, self.unconfirmed = [], [], []
        self.asan_exe = None
        self.timing = {}

    # ---- builds
    def build(self):
        s, b = self.spec, self.b
        hp = self.work + "/harness.cpp"
        with open(hp, "w") as f:
            f.write(s.harness)
        # a stable path, so that internal symbol names and cache keys do not depend on the pid
        hk = hashlib.sha256(s.harness.encode()).hexdigest()[:24]
        hs = f"{BUILD}/cache/h_{hk}.cpp"
        if not os.path.exists(hs):
            shutil.copy(hp, hs + f".{os.getpid()}")
            os.rename(hs + f".{os.getpid()}", hs)
        self.hsrc = hs
        defs = self.defs()
        P = b.pool
        f_sym = P.submit(b.jfsym)
        f_pch = P.submit(b.pch)
        f_drv = f_nat = f_hn = None
        if s.use_progs:
            f_drv = P.submit(b.obj, V + "/rt/jfdrv.cpp", NATIVE + [d for d in defs if d != "-DJF_EXACT_ARENA"], RTDEPS)
        if s.need_native:
            f_nat = P.submit(b.obj, V + "/rt/jfnative.cpp", NATIVE + defs + (["-DJF_FREEZE"] if s.freeze else []) + (["-DJF_LIVE"] if s.live else []), RTDEPS)
            f_hn = P.submit(b.obj, hs, NATIVE + defs + ["-DJF_NATIVE"], RTDEPS)
        f_h = P.submit(b.bc, hs, defs, None, RTDEPS)
        f_si = P.submit(b.bc, V + "/rt/jf_strinst.cpp")
        f_lc = P.submit(b.bc, V + "/rt/jf_libc.cpp", ("-fno-builtin",))
        pch = f_pch.result()
        srcs = repo_sources(s.athena)
        def one(src):
            bc = b.bc(src, (), pch)
            return bc, (b.obj_of_bc(bc) if (s.use_progs or s.need_native) else None)
        srcs.sort(key=lambda x: -os.path.getsize(x))
        fl = [P.submit(one, x) for x in srcs]
        self.hbc = f_h.result()
        self.sibc = f_si.result()
        self.lcbc = f_lc.result()
        r = [x.result() for x in fl]
        self.srcs = srcs
        self.bcs = [x[0] for x in r]
        objs = [x[1] for x in r]
        self.objs = objs
        self.jfsym = f_sym.result()
        if s.use_progs:
            self.drv = b.link([f_drv.result()] + objs)
        if s.need_native:
            self.native = b.link([f_nat.result(), f_hn.result()] + objs, self.ldflags())
        self.timing["build_s"] = round(time.time() - self.t0, 2)

    def defs(self):
        s = self.spec
        d = (["-DJF_ATHENA"] if s.athena else []) + (["-DJF_EXACT_ARENA"] if s.exact_arena else [])
        if s.user:
            p = f"{BUILD}/cache/u_{hashlib.sha256(s.user.encode()).hexdigest()[:24]}.h"
            if not os.path.exists(p):
                with open(f"{p}.{os.getpid()}", "w") as f:
                    f.write(s.user)
                os.rename(f"{p}.{os.getpid()}", p)
            d += ["-DJF_USER", "-I" + V + "/rt", "-include", p]
        return d

    def ldflags(self):
        return ["-Wl,--wrap=" + n for n in ["_ZN9jitfusion5Arena8AllocateEmm"] + self.spec.wraps] + (["-Wl,-z,now"] if self.spec.freeze else [])

    def build_asan(self):
        """The library compiled straight from source with ASan, for replaying memory errors."""
        if self.asan_exe:
            return self.asan_exe
        s, b = self.spec, self.b
        defs = self.defs()
        fl = [b.pool.submit(b.obj, x, NATIVE + ASAN, ()) for x in self.srcs]
        f1 = b.pool.submit(b.obj, V + "/rt/jfnative.cpp", NATIVE + ASAN + defs, RTDEPS)
        f2 = b.pool.submit(b.obj, self.hsrc, NATIVE + ASAN + defs + ["-DJF_NATIVE"], RTDEPS)
        self.asan_exe = b.link([x.result() for x in [f1, f2] + fl], self.ldflags() + ASAN)
        return self.asan_exe

    # ---- programs
    def programs(self):
        s = self.spec
        self.progfile = self.work + "/progs.txt"
        with open(self.progfile, "w") as f:
            for i, x in s.progs:
                f.write(f"{i} {x}\n")
        self.prog_bcs, self.alias = [], self.work + "/alias"
        self.prog_status = {}
        if not s.progs:
            open(self.alias, "w").close()
            return
        nj = min(NPROC, max(1, len(s.progs) // 4))
        env = dict(os.environ)
        rc, o = sh([self.drv, self.progfile, self.work, str(nj)], timeout=400, env=env)
        if rc:
            raise BuildError(f"driver failed ({rc}): {o[-2000:]}")
        for w in range(nj):
            with open(f"{self.work}/status.{w}") as f:
                for l in f:
                    x = l.rstrip("\n").split("\t")
                    self.prog_status[x[0]] = x[1:]
            p = f"{self.work}/progs.{w}.bc"
            if os.path.exists(p):
                self.prog_bcs.append(p)
        # address -> symbol
        sym = {}
        out = subprocess.run([BIN18 + "/llvm-nm", "--defined-only", self.drv], stdout=subprocess.PIPE).stdout.decode()
        for l in out.split("\n"):
            x = l.split()
            if len(x) == 3 and x[1] in "TtWwVvu":
                sym.setdefault(int(x[0], 16), []).append(x[2])
        names = {}
        for w in range(nj):
            with open(f"{self.work}/bind.{w}") as f:
                for l in f:
                    n, a = l.rstrip("\n").split("\t")
                    names[n] = int(a, 16)
        with open(self.alias, "w") as f:
            for n, a in sorted(names.items()):
                for y in sym.get(a, []):
                    f.write(f"{n}\t{y}\n")
                    break
        miss = [i for i, _ in s.progs if i not in self.prog_status]
        if miss:
            raise BuildError("the driver lost programs: " + " ".join(miss[:5]))
        for i, st in self.prog_status.items():
            want = s.expect_error.get(i)
            if st[0] == "ok" and want:
                self.static_violation(i, f"program {i} must be rejected at compile time ({want}) but compiles")
            elif st[0] != "ok" and not want:
                self.static_violation(i, f"program {i} must compile but fails: {st[1] if len(st) > 1 else st}")
            elif st[0] != "ok" and want is not True and not re.search(want, st[1]):
                self.static_violation(i, f"program {i} fails with '{st[1]}' instead of /{want}/")
        self.timing["programs_s"] = round(time.time() - self.t0, 2)

    def static_violation(self, prog, msg):
        d = f"{self.repdir}/prog_{prog}"
        os.makedirs(d, exist_ok=True)
        sx = dict(self.spec.progs)[prog]
        with open(d + "/what.txt", "w") as f:
            f.write(msg + "\n" + sx + "\n")
        self.finding({"job": "compile", "kind": "compile", "msg": msg, "prog": prog}, d)

    # ---- symbolic execution
    def symex(self):
        s = self.spec
        jobf = self.work + "/jobs"
        bad = {i for i, st in self.prog_status.items() if st[0] != "ok"} if s.progs else set()
        with open(jobf, "w") as f:
            for j in s.jobs:
                f.write(" ".join([j[0], str(j[3]), j[1]] + [str(int(a)) for a in j[2]]) + "\n")
        out = self.work + "/out"
        os.makedirs(out)
        mods = self.bcs
        if s.modules is not None:
            mods = [b for b, x in zip(self.bcs, self.srcs) if s.modules(os.path.relpath(x, REPO))]
        cmd = [self.jfsym, "-j", str(NPROC), "-s", str(s.solver_ms), "-p", str(s.precise_ms), "-m", str(s.mem_mb), *([] if s.merge else ["-M"]), "-a", self.alias,
               "-o", out, "-J", jobf]
        total = s.total or (420 if self.tier == "quick" else 3000)
        cmd += ["-T", str(total)] + s.sym_args
        for p in self.prog_bcs:
            cmd += ["-S", p]
        cmd += [self.hbc, self.sibc, self.lcbc] + mods
        if os.environ.get("JF_CMD"):
            print(" ".join(cmd))
        rc, o = sh(cmd, timeout=total + 300)
        if rc:
            raise BuildError(f"jfsym failed ({rc}): {o[-3000:]}")
        self.symlog = o
        if os.environ.get("JF_DUMP"):
            print(o)
        self.results, self.lost = [], []
        for j in s.jobs:
            p = f"{out}/{j[0]}.json"
            try:
                with open(p) as f:
                    self.results.append(json.load(f))
            except (OSError, ValueError):
                self.lost.append(j[0])
        self.timing["symex_s"] = round(time.time() - self.t0, 2)

    # ---- replay
    def run_native(self, exe, inputs, fn, args, tag, shake=0):
        p = f"{self.work}/in.{tag}"
        with open(p, "w") as f:
            for n, w, h in inputs:
                f.write(f"{n.replace(chr(32), chr(95))} {w} {h}\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=1" + (":quarantine_size_mb=0:thread_local_quarantine_size_kb=0" if shake % 2 else ""),
                   UBSAN_OPTIONS="print_stacktrace=0", JF_SHAKE=str(shake))
        cmd = ["timeout", "-k", "5", "60", "bash", "-c", 'ulimit -c 0; exec "$@"', "x", exe, self.progfile, p, fn] + [str(int(a)) for a in args]
        rc, o = sh(cmd, timeout=90, env=env)
        return rc, o

    def confirm(self, exe, fl, r, tag):
        # the compiler orders the arguments of commutative calls by address, so
        # a counterexample that depends on the order needs a few attempts
        o = ""
        for i in range(12):
            rc, o = self.run_native(exe, fl["inputs"], r["fn"], r["args"], tag, i)
            if self.verdict(rc, o, fl["kind"]):
                return True, o
            if "JF-REPLAY-DIVERGED" in o or "JF-REPLAY-ERROR" in o:
                break
        return False, o

    def verdict(self, rc, o, kind):
        if "JF-ASSERT-FAILED" in o:
            return True
        if "JF-REPLAY" in o:
            return False
        if rc in (99, 124, 137) or rc >= 128 or rc < 0 or "runtime error" in o:
            return True
        return False

    def save_replay(self, res, fl, k):
        d = f"{self.repdir}/{res['id']}.{k}"
        os.makedirs(d, exist_ok=True)
        with open(d + "/inputs.txt", "w") as f:
            for n, w, h in fl["inputs"]:
                f.write(f"{n.replace(chr(32), chr(95))} {w} {h}\n")
        with open(d + "/harness.cpp", "w") as f:
            f.write(self.spec.harness)
        shutil.copy(self.progfile, d + "/progs.txt")
        with open(d + "/what.json", "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "fn": res["fn"], "args": res["args"], "kind": fl["kind"], "msg": fl["msg"],
                       "where": fl["where"], "trace": fl["trace"], "inputs": fl["inputs"]}, f, indent=1)
        return d

    def known_findings(self):
        p = V + "/known_findings.json"
        if not os.path.exists(p):
            return []
        with open(p) as f:
            return [x for x in json.load(f)["findings"] if x.get("property") == self.pid and not x.get("fixed")]

    def finding(self, info, d):
        for k in self.known_findings():
            if all(re.fullmatch(v, str(info.get(f, ""))) for f, v in k["match"].items()):
                self.known.append((k["what"], info))
                return False
        self.violations.append((info, d))
        return True

    def judge(self):
        seen = {}
        t1 = time.time()
        for r in self.results:
            for k, fl in enumerate(r["failures"]):
                # enough to report
                if self.violations and (len(seen) >= 8 or time.time() - t1 > 120) or self.tier == "quick" and time.time() - self.t0 > 780:
                    break
                d = self.save_replay(r, fl, k)
                ok, o = False, ""
                key = (r["fn"], fl["kind"], fl["msg"])
                if seen.get(key, 0) >= 2:
                    continue
                mem = fl["kind"] not in ("assert", "shared-write")
                if not mem:
                    ok, o = self.confirm(self.native, fl, r, f"{r['id']}.{k}")
                if not ok:
                    exe = self.build_asan()
                    ok, o2 = self.confirm(exe, fl, r, f"{r['id']}.{k}a")
                    o += o2
                with open(d + "/replay.log", "w") as f:
                    f.write(o)
                info = {"job": r["id"], "fn": r["fn"], "kind": fl["kind"], "msg": fl["msg"], "where": fl["where"]}
                if ok:
                    if self.finding(info, d):
                        seen[key] = seen.get(key, 0) + 1
                else:
                    self.unconfirmed.append(info)
        # witnesses: the encoding must agree with the compiled code on sample paths
        self.validated = self.diverged = 0
        def wit(t):
            r, k, w = t
            rc, o = self.run_native(self.native, w, r["fn"], r["args"], f"w.{r['id']}.{k}")
            return r, k, w, rc, o
        todo = []
        if self.spec.need_native:
            for r in self.results:
                for k, w in enumerate(r.get("witnesses", [])[:2 if self.tier == "quick" else 5]):
                    todo.append((r, k, w))
        step = max(1, len(todo) // (160 if self.tier == "quick" else 2000))
        for r, k, w, rc, o in self.b.pool.map(wit, todo[::step]):
            if "JF-REPLAY-OK" in o:
                self.validated += 1
            elif "JF-ASSERT-FAILED" in o or (rc >= 128 and rc != 137) or rc < 0:
                fl = {"inputs": w, "kind": "witness", "msg": o.strip()[-200:], "where": "", "trace": ""}
                d = self.save_replay(r, fl, 100 + k)
                with open(d + "/replay.log", "w") as f:
                    f.write(o)
                self.finding({"job": r["id"], "fn": r["fn"], "kind": "witness", "msg": fl["msg"], "where": ""}, d)
            else:
                self.diverged += 1

    def run(self):
        rc = 0
        shutil.rmtree(self.repdir, ignore_errors=True)
        os.makedirs(self.repdir)
        try:
            self.build()
            self.programs()
            self.symex()
            self.judge()
        except BuildError as e:
            # the code under test does not build: there is nothing to decide
            print("[jf] ERROR:", e, file=sys.stderr)
            return 3
        self.evidence()
        for what, info in {w: i for w, i in self.known}.items():
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        shown = set()
        for info, d in self.violations:
            key = (info.get("fn"), info["kind"], info["msg"])
            if key in shown:
                continue
            shown.add(key)
            if len(shown) > 8:
                break
            print(f"# {info['kind']}: {info['msg']} ({info.get('job')} {info.get('where', '')})")
            print(f"VIOLATION property={self.pid} replay={d}")
            rc = 1
        if not os.environ.get("JF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return rc

    def evidence(self):
        s, R = self.spec, self.results
        tot = lambda k: sum(r[k] for r in R)
        ends = {}
        for r in R:
            for k, v in r["ends"].items():
                ends[k] = ends.get(k, 0) + v
        enc = sorted({x for r in R for x in r["encoded"]})
        pretty = [x for x in demangle(enc) if ("jitfusion" in x or "athena" in x or x.startswith("prog_") or "(" not in x)]
        mine = [x for x in pretty if not x.startswith(("std::", "void std::", "bool std::", "ld_", "st_", "h_", "jf", "void jf"))]
        unsup = {}
        for r in R:
            for k, v in r["unsupported"].items():
                unsup[k] = unsup.get(k, 0) + v
        incomplete = [r["id"] for r in R if not r["complete"] and not r["failures"]]
        vacuous = [r["id"] for r in R if r["complete"] and not r["failures"] and not r["ends"].get("done") and not r["ends"].get("exception-allowed")]
        cov = {
            "states": tot("paths"), "transitions": tot("instrs"), "traces_validated_against_impl": self.validated,
            "samples": [{"harness": r["fn"], "args": r["args"], "paths": r["paths"], "obligations": r["obligations"], "witness": (r.get("witnesses") or [None])[0]}
                        for r in R[:: max(1, len(R) // 6)]][:8],
            "explanation": s.explanation,
            "bounds": s.bounds,
            "harness_instances": len(s.jobs), "harness_instances_decided": len([r for r in R if r["complete"]]),
            "programs_compiled": len([1 for x in self.prog_status.values() if x[0] == "ok"]),
            "programs_rejected_as_required": len([1 for i, x in self.prog_status.items() if x[0] != "ok" and i in s.expect_error]),
            "functions_encoded": len(enc), "functions_encoded_sample": mine[:150],
            "obligations": tot("obligations"), "discharged": tot("discharged"), "discharged_by_simplification": tot("syntactic"),
            "solver_queries": tot("queries"), "query_cache_hits": tot("query_cache_hits"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"),
            "precise_fp_queries": tot("precise_fp"), "branches_pruned_by_byte_domains": sum(r.get("byte_branches", 0) for r in R), "solver_s": round(tot("solver_s"), 2), "forks": tot("forks"), "path_ends": ends,
            "inconclusive_obligations": tot("inconclusive"), "undecided_instances": incomplete + self.lost, "vacuous_instances": vacuous,
            "unsupported": unsup, "witness_replays_diverged": self.diverged,
            "unconfirmed_counterexamples": self.unconfirmed[:20], "known_findings_seen": sorted({w for w, _ in self.known}),
            "timing": self.timing,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
              "assumptions": s.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(V + "/evidence", exist_ok=True)
        with open(f"{V}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        log(f"{self.pid} {self.tier}: {len(R)}/{len(s.jobs)} instances, {tot('paths')} paths, {tot('obligations')} obligations ({tot('discharged')} discharged), "
            f"{tot('queries')} queries {tot('solver_s'):.1f}s; undecided {len(incomplete) + len(self.lost)}, vacuous {len(vacuous)}, unconfirmed {len(self.unconfirmed)}, "
            f"witnesses {self.validated} ok {self.diverged} diverged; {self.timing} wall {ev['wall_s']}s")
        if incomplete:
            for r in R:
                if not r["complete"] and not r["failures"]:
                    log("  undecided", r["id"], "timeout" if r["timeout"] else "", list(r["unsupported"].items())[:3], "inc", r["inconclusive"], r["inconclusive_branches"], "paths", r["paths"], r["ends"])
        if self.lost:
            log("  lost", self.lost[:20])
        if vacuous:
            log("  vacuous", vacuous[:20])
        for u in self.unconfirmed[:10]:
            log("  unconfirmed", u)


def setup():
    b = Builder()
    f = b.pool.submit(b.jfsym)
    b.pch()
    f.result()
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        return setup()
    if a[:1] == ["check"]:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        return Check(a[1], tier).run()
    if a[:1] == ["replay"]:
        with open(a[1] + "/what.json") as f:
            w = json.load(f)
        c = Check(w["property"], w.get("tier", "quick"))
        c.build()
        c.progfile = a[1] + "/progs.txt"
        rc, o = c.run_native(c.native if w["kind"] in ("assert", "witness", "shared-write") else c.build_asan(), w["inputs"], w["fn"], w["args"], "r")
        print(o)
        return 1 if c.verdict(rc, o, w["kind"]) else 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
