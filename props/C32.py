"""What an execution allocates is released."""
from jf import Spec
from common import *
import C16, engine, genprog


def spec(tier):
    q = tier == "quick"
    t, h16, nsig = C16.spec(tier, frozen=True)
    pre = engine.PRE.replace(PRELUDE, PRELUDE + r"""
#define JF_REAL_TOO
#ifdef JF_NATIVE
namespace jf { bool nativeLeak(const char* id, JfSlot* in, JfSlot* out, int64_t* left, int64_t* grown); }
#else
template <class F> __attribute__((noinline)) void inside(const F& f) { ExecContext c(8); f(c); }   // every allocation takes a chunk
template <class R> __attribute__((noinline)) void onceRun(const P& p, JfSlot* in, JfSlot* out, ExecContext& c) {
  if constexpr (std::is_void_v<R>) ((void (*)(void*, void*, void*))p.fn)(in, &c, out);
  else ((R (*)(void*, void*, void*))p.fn)(in, &c, nullptr);
  c.Clear();   // as the engine does after an execution
}
#endif
template <class R> bool leaks(const P& p, JfSlot* in, JfSlot* out, int64_t* left, int64_t* grown) {
#ifdef JF_NATIVE
  return nativeLeak(p.id, in, out, left, grown);
#else
  int64_t a = (int64_t)jf_heap_live();
  inside([&](ExecContext& c) {
    onceRun<R>(p, in, out, c);
    int64_t b = (int64_t)jf_heap_live();
    onceRun<R>(p, in, out, c);
    *grown = (int64_t)jf_heap_live() - b;
  });
  *left = (int64_t)jf_heap_live() - a;
  return true;
#endif
}
template <class R> Res<R> callFrozen(const P& p, JfSlot* in) {
  int64_t left = 0, grown = 0;
  leaks<R>(p, in, nullptr, &left, &grown);
  jf_assert(grown == 0, "a second execution on a context holds no more memory than the first");
  jf_assert(left == 0, "nothing is left when the context is gone");
  Res<R> r;
  r.ok = false;
  return r;
}
inline void callFrozenV(const P& p, JfSlot* in, JfSlot* out) {
  int64_t left = 0, grown = 0;
  leaks<void>(p, in, out, &left, &grown);
  jf_assert(grown == 0, "a second execution on a context holds no more memory than the first");
  jf_assert(left == 0, "nothing is left when the context is gone");
}
""", 1)
    h = pre + h16.replace(PRELUDE, "", 1)
    progs, jobs = t.progs, t.jobs
    h += t.cpp()
    n = 16 if q else 150
    for s in range(n):
        if s % 3 == 2:
            g, sx = genprog.varprog(51000 + s, 2 + s % 2)
        else:
            g = genprog.Gen(50000 + s)
            sx = g.program(2 + s % 4, 2 + s % 3)
        progs.append((f"w{s}", sx))
        ins = "".join(f"  setIn(in[{k}], sym<{CT[x]}>(\"i{k}\"));\n" for k, x in enumerate(g.inputs))
        h += f"JF_DECL(w{s})\nJF_H h_w{s}() {{\n  JfSlot in[8], out[32];\n  memset(out, 0, sizeof out);\n{ins}  callFrozenV(jf::P JF_ENT1(w{s}), in, out);\n}}\n"
        jobs.append((f"w{s}", f"h_w{s}", [], 60))
    # the engines
    h += r"""
static char g_args[8], g_out[8];
static int64_t live() { return (int64_t)jf_heap_live(); }
template <class F> void steady(const F& f, const char* m) {
  f();
  int64_t a = live();
  f();
  jf_assert(live() == a, m);
}
#define JF_ALONE "an execution on a context of its own leaves nothing behind"
#define JF_AGAIN "a second execution on a context holds no more memory than the first"
#define JF_GONE "nothing is left when the engine is gone"
#define JF_ANEW "compiling again holds no more memory than before"
static Status one(ExecEngine& e, ExecContext* c, bool result) {
  RetType r;
  if (!c) return result ? e.Execute((void*)g_args, &r) : e.Execute((void*)g_args, (void*)g_out);
  return result ? e.Execute(*c, (void*)g_args, &r) : e.Execute(*c, (void*)g_args, (void*)g_out);
}
static Status one(BatchExecEngine& e, uint64_t i, ExecContext* c, uint64_t y) {
  RetType r;
  std::vector<RetType> rs;
  if (y == 0) return c ? e.ExecuteAt(i, *c, (void*)g_args, &r) : e.ExecuteAt(i, (void*)g_args, &r);
  if (y == 1) return c ? e.ExecuteAt(i, *c, (void*)g_args, (void*)g_out) : e.ExecuteAt(i, (void*)g_args, (void*)g_out);
  if (y == 2) return c ? e.ExecuteAll(*c, (void*)g_args, &rs) : e.ExecuteAll((void*)g_args, &rs);
  return c ? e.ExecuteAll(*c, (void*)g_args, (void*)g_out) : e.ExecuteAll((void*)g_args, (void*)g_out);
}
template <class F> __attribute__((noinline)) void within(const F& f, int64_t chunk) { ExecContext c(chunk); f(&c); }
// the engine executes with entries that report any errors; y: with a result or an output
JF_H h_single(uint64_t t, uint64_t y) {
#ifdef JF_NATIVE
  g_stubbed = true;
#endif
  g_n = 1;
  setup(0, (int)t, 2);
  steady([&] {
    auto e = std::make_unique<ExecEngine>();
    std::unique_ptr<ExecNode> root;
    for (int k = 0; k < 2; k++) {
      jf_assert(e->Compile(root, g_noreg).ok(), "compiles");
      steady([&] { (void)one(*e, nullptr, y & 1); }, JF_ALONE);
    }
    // the same context again and again
    steady([&] { within([&](ExecContext* c) { steady([&] { (void)one(*e, c, y & 1); }, JF_AGAIN); }, y & 2 ? 8 : 64); }, JF_ALONE);
    steady([&] { (void)e->Compile(root, g_noreg); }, JF_ANEW);
  }, JF_GONE);
}
JF_H h_batch(uint64_t n, uint64_t y, uint64_t t) {
#ifdef JF_NATIVE
  g_stubbed = true;
#endif
  g_n = (int)n;
  for (uint64_t i = 0; i < n; i++) setup((int)i, (int)((t + i * 7) % 23), 1);
  uint64_t i = sym<uint64_t>("index");
  steady([&] {
    auto e = std::make_unique<BatchExecEngine>();
    jf_assert(e->Compile(nodes(n), g_noreg).ok(), "compiles");
    steady([&] { (void)one(*e, i, nullptr, y); }, JF_ALONE);
    steady([&] { within([&](ExecContext* c) { steady([&] { (void)one(*e, i, c, y); }, JF_AGAIN); }, 8); }, JF_ALONE);
    steady([&] { (void)e->Compile(nodes(n), g_noreg); }, JF_ANEW);
  }, JF_GONE);
}
// a result is the caller's: it survives the context, and takes with it what it holds
JF_H h_result(uint64_t t) {
#ifdef JF_NATIVE
  g_stubbed = true;
#endif
  g_n = 1;
  setup(0, (int)t, 3);
  ExecEngine* e = new ExecEngine;
  std::unique_ptr<ExecNode> root;
  jf_assert(e->Compile(root, g_noreg).ok(), "compiles");
  steady([&] {
    RetType r;
    for (int k = 0; k < 2; k++) {
      ExecContext c(8);
      steady([&] { (void)e->Execute(c, (void*)g_args, &r); }, "overwriting a result releases what it held");
    }
  }, "a result releases what it holds");
}
// allocations and objects in an arena, released when it is reset and when it is gone
struct Held { std::unique_ptr<int64_t> p{new int64_t(1)}; };
JF_H h_arena(uint64_t chunk, uint64_t n) {
  uint8_t kinds[8], again = sym<uint8_t>("again");
  for (uint64_t i = 0; i < n; i++) kinds[i] = sym<uint8_t>("kind");
  steady([&] {
    Arena a(chunk);
    steady([&] {
      for (uint64_t i = 0; i < n; i++) {
        const uint8_t kind = kinds[i];
        if (kind == 0) (void)a.Create<Held>();
        else if (kind == 1) (void)a.Create<int64_t>(3);
        else (void)a.Allocate(kind == 2 ? 0 : kind == 3 ? 1 : kind == 4 ? chunk : kind == 5 ? chunk - 8 : chunk * 3);
      }
      a.Reset();
      if (again & 1) a.Reset();
      (void)a.Create<Held>();   // an arena that holds something for the first time
      a.Reset();
    }, "an arena that is reset holds what it held at first");
  }, "an arena that is gone holds nothing");
}
"""
    for chunk in (8, 64, 4096):
        for k in range(1, 4 if q else 5):
            jobs.append((f"arena_{chunk}_{k}", "h_arena", [chunk, k], 200))
    for k in range(23):
        nm = (engine.NAMES + ["void"])[k]
        for y in range(4):
            if q and 1 < k < 22 and (k + y) % 4 and k not in (10, 21):
                continue
            jobs.append((f"single_{nm}_{y}", "h_single", [k, y], 120))
        if k < 22:
            jobs.append((f"result_{nm}", "h_result", [k], 120))
    for m in (1, 2, 3) if not q else (1, 2):
        for y in range(4):
            for k in ((0, 10, 21) if q else range(0, 23, 1 if m < 3 else 5)):
                jobs.append((f"batch_{m}_{y}_{k}", "h_batch", [m, y, k], 120))
    return Spec(progs=progs, harness=h, jobs=jobs, exact_arena=False, wraps=engine.WRAPS, live=True, mem_mb=2500,
                bounds=f"two executions of one call of each of {nsig} builtin signatures (" + ("one shape each" if q else "up to five shapes each") + f", lists of up to 9 elements, all contents), of {n} generated statement programs of up to {3 if q else 5} statements on all inputs, sequences of up to "
                + ("3" if q else "4") + " arena allocations and objects of sizes around the chunk size, and of every engine entry point with stub programs of "
                + ("representative types" if q else "every type") + " reporting every combination of errors, on contexts of their own and on one context, with one or two compilations",
                assumptions=["live heap allocations are counted, not bytes; capacity kept inside an allocation is not growth",
                             "memory of the compiled code itself (LLVM's) is outside: the engines are executed with the compiler replaced"],
                explanation="The builtins' and the engines' IR run on symbolic inputs with every heap allocation and release counted; after every path the number of live allocations equals the number before.")
