"""Execution only reads what concurrent executions share."""
import random
from jf import Spec
from common import *
import C16, engine, genprog


def spec(tier):
    q = tier == "quick"
    t, h16, nsig = C16.spec(tier, frozen=True)
    h = h16.replace(PRELUDE, "", 1)
    pre = engine.PRE.replace(PRELUDE, PRELUDE + r"""
#define JF_REAL_TOO
#ifndef JF_NATIVE
template <class R> struct ResX { typedef Res<R> type; };
template <> struct ResX<void> { typedef int type; };
template <class R> __attribute__((noinline)) void frozenRun(const P& p, JfSlot* in, JfSlot* out, typename ResX<R>::type* r) {
  ExecContext* c = new ExecContext(4096);
  if constexpr (std::is_void_v<R>) ((void (*)(void*, void*, void*))p.fn)(in, c, out);
  else { r->v = ((R (*)(void*, void*, void*))p.fn)(in, c, nullptr); r->ok = !c->HasErrors(); }
}
#endif
// everything that exists before the call is shared, the result and output excepted
template <class R> Res<R> callFrozen(const P& p, JfSlot* in) {
  Res<R> r;
  jf_keep(&r, sizeof r);
  jf_freeze(2);
#ifdef JF_NATIVE
  r = call<R>(p, in);
#else
  frozenRun<R>(p, in, nullptr, &r);
#endif
  jf_freeze(0);
  return r;
}
inline void callFrozenV(const P& p, JfSlot* in, JfSlot* out) {
  jf_keep(out, 32 * sizeof *out);
  jf_freeze(2);
#ifdef JF_NATIVE
  callV(p, in, out);
#else
  int r;
  frozenRun<void>(p, in, out, &r);
#endif
  jf_freeze(0);
}
""", 1)
    h = pre + h
    progs, jobs = t.progs, t.jobs
    h += t.cpp()
    # whole programs: statements, branches, short circuits, literals, stores
    n = 40 if q else 250
    for s in range(n):
        if s % 3 == 2:
            g, sx = genprog.varprog(41000 + s, 2 + s % 2)
        else:
            g = genprog.Gen(40000 + s)
            sx = g.program(2 + s % 4, 2 + s % 3)
        progs.append((f"w{s}", sx))
        ins = "".join(f"  setIn(in[{k}], sym<{CT[x]}>(\"i{k}\"));\n" for k, x in enumerate(g.inputs))
        h += f"JF_DECL(w{s})\nJF_H h_w{s}() {{\n  JfSlot in[8], out[32];\n  memset(out, 0, sizeof out);\n{ins}  callFrozenV(jf::P JF_ENT1(w{s}), in, out);\n}}\n"
        jobs.append((f"w{s}", f"h_w{s}", [], 60))
    lit = [("lstr", "(cl lstr 6162 - 63)"), ("str", "(cs 616263)")] + [("l" + x, f"(cl l{x} {hexbits(x, 1)} {hexbits(x, 2)})") for x in NUM]
    for x, sx in lit:
        progs.append(("c" + x, f"(st {x} 0 {sx})"))
        progs.append(("d" + x, f"(noop (ifb (in u8 0) (noop (st {x} 0 {sx})) (noop (st {x} 1 {sx}))) (= v {sx}) (st {x} 2 (ref v)))"))
        for k in "cd":
            h += f"JF_DECL({k}{x})\nJF_H h_{k}{x}() {{\n  JfSlot in[8], out[32];\n  memset(out, 0, sizeof out);\n  setIn(in[0], sym<uint8_t>(\"i\"));\n  callFrozenV(jf::P JF_ENT1({k}{x}), in, out);\n}}\n"
            jobs.append((k + x, f"h_{k}{x}", [], 60))
    # the engines
    h += r"""
static char g_args[8], g_out[8];
static void keepEntries() { jf_keep(g_e, sizeof g_e); jf_keep(&g_order, sizeof g_order); }
template <class F> __attribute__((noinline)) void inside(const F& f) { ExecContext ctx(64); f(ctx); }
JF_H h_single(uint64_t t, uint64_t y) {
#ifdef JF_NATIVE
  g_stubbed = true;
#endif
  g_n = 1;
  setup(0, (int)t, 2);
  ExecEngine* e = new ExecEngine;
  std::unique_ptr<ExecNode> root;
  jf_assert(e->Compile(root, g_noreg).ok(), "compiles");
  keepEntries();
  auto body = [&](ExecContext& ctx) {
    RetType r;
    if (y == 0) e->Execute((void*)g_args, &r);
    else if (y == 1) e->Execute((void*)g_args, (void*)g_out);
    else if (y == 2) { e->Execute(ctx, (void*)g_args, &r); e->Execute(ctx, (void*)g_args, &r); }
    else { e->Execute(ctx, (void*)g_args, (void*)g_out); e->Execute(ctx, (void*)g_args, (void*)g_out); }
  };
  jf_freeze(1);
  inside(body);
  jf_freeze(0);
}
JF_H h_batch(uint64_t n, uint64_t y, uint64_t t) {
#ifdef JF_NATIVE
  g_stubbed = true;
#endif
  g_n = (int)n;
  BatchExecEngine* e = new BatchExecEngine;
  for (uint64_t i = 0; i < n; i++) setup((int)i, (int)((t + i * 7) % 23), 1);
  jf_assert(e->Compile(nodes(n), g_noreg).ok(), "compiles");
  uint64_t i = sym<uint64_t>("index");
  keepEntries();
  auto body = [&](ExecContext& ctx) {
    RetType r;
    std::vector<RetType> rs;
    switch (y) {
      case 0: e->ExecuteAt(i, (void*)g_args, &r); break;
      case 1: e->ExecuteAt(i, (void*)g_args, (void*)g_out); break;
      case 2: e->ExecuteAt(i, ctx, (void*)g_args, &r); break;
      case 3: e->ExecuteAt(i, ctx, (void*)g_args, (void*)g_out); break;
      case 4: e->ExecuteAll((void*)g_args, &rs); break;
      case 5: e->ExecuteAll((void*)g_args, (void*)g_out); break;
      case 6: e->ExecuteAll(ctx, (void*)g_args, &rs); break;
      default: e->ExecuteAll(ctx, (void*)g_args, (void*)g_out); break;
    }
  };
  jf_freeze(1);
  inside(body);
  jf_freeze(0);
}
"""
    for k in range(23):
        nm = (engine.NAMES + ["void"])[k]
        for y in range(4):
            if q and 1 < k < 22 and (k + y) % 4 and k not in (10, 21):
                continue
            jobs.append((f"single_{nm}_{y}", "h_single", [k, y], 120))
    for m in (1, 2):
        for y in range(8):
            for k in ((0, 10, 21) if q else range(23)):
                jobs.append((f"batch_{m}_{y}_{k}", "h_batch", [m, y, k], 120))
    return Spec(progs=progs, harness=h, jobs=jobs, exact_arena=False, wraps=engine.WRAPS, freeze=True, mem_mb=2500,
                bounds=f"one call of each of {nsig} builtin signatures (" + ("one shape each" if q else "up to five shapes each") + f", lists of up to 9 elements, all contents), {n} generated statement programs, every kind of literal; every overload of Execute, ExecuteAt and ExecuteAll with entries of "
                + ("representative types" if q else "every type") + " reporting every combination of errors",
                assumptions=["the caller's functions behave; what a program is given as its output is the execution's own",
                             "memory of the execution's thread (thread-local variables), memory written under a mutex, by an atomic operation or in the guarded initialisation of a static variable is not shared unsafely",
                             "two executions that write only memory of their own and read memory nobody writes cannot interfere, whatever the schedule: schedules themselves are not enumerated"],
                explanation="Everything alive before the execution (the engine, its tables and literals, global variables, operands, arguments) is frozen; every store of the engine, the compiled code and the builtins, on every path, must go to memory created since, to the output or to the result.")
