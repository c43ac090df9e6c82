"""An execution fails exactly when something reported an error in it, tells
every error, and leaves the context clean."""
from jf import Spec
from common import *
import engine, lists


def spec(tier):
    q = tier == "quick"
    h = engine.PRE + r'''
static bool failed(int i) { return g_e[i].err[0] | g_e[i].err[1]; }
static void told(const Status& st, int i) {
  std::string s = st.ToString();
  for (int k = 0; k < 2; k++) if (g_e[i].err[k]) jf_assert(has(s, g_msg[i][k]), "the message tells every error of the execution");
  for (int j = 0; j < JF_MAXE; j++) for (int k = 0; k < 2; k++) if (j >= g_n || !g_e[j].err[k]) jf_assert(!has(s, g_msg[j][k]), "the message tells no error that did not happen");
}
static void cleanCtx(const ExecContext& c) {
  jf_assert(!c.HasErrors(), "the context is left without errors");
  jf_assert(c.errors.empty(), "the context is left without errors");
  jf_assert(c.arena.avail_bytes() == c.arena.total_bytes(), "the context's arena is left empty");
}
static char g_args[8], g_out[8];
// y: overload (0, 1: fresh context; 2, 3: the caller's), z: how many executions
JF_H h_single(uint64_t t, uint64_t y, uint64_t z) {
  g_n = 1;
  setup(0, (int)t, 2);
  ExecEngine e;
  std::unique_ptr<ExecNode> root;
  jf_assert(e.Compile(root, g_noreg).ok(), "compiles");
  ExecContext ctx(64);
  for (uint64_t k = 0; k < z; k++) {
    for (int j = 0; j < 2; j++) g_e[0].err[j] = sym<uint8_t>("err") & 1;
    g_e[0].calls = 0;
    RetType r;
    Status st = y == 0 ? e.Execute((void*)g_args, &r) : y == 1 ? e.Execute((void*)g_args, (void*)g_out) : y == 2 ? e.Execute(ctx, (void*)g_args, &r) : e.Execute(ctx, (void*)g_args, (void*)g_out);
    jf_assert(g_e[0].calls == 1, "the entry runs exactly once");
    jf_assert(g_e[0].args == (void*)g_args, "the entry gets the caller's arguments");
    jf_assert((y & 1) == 0 || g_e[0].out == (void*)g_out, "the entry gets the caller's output");
    jf_assert(g_e[0].clean, "no error of an earlier execution is visible");
    jf_assert(y < 2 || g_e[0].ctx == &ctx, "the entry gets the caller's context");
    jf_assert(st.ok() == !failed(0), "fails exactly when an error was reported");
    if (!st.ok()) told(st, 0);
    if (y >= 2) cleanCtx(ctx);
  }
}
// y: overload, w: 0 ExecuteAt each, 1 ExecuteAll
JF_H h_batch(uint64_t n, uint64_t y, uint64_t w, uint64_t t) {
  g_n = (int)n;
  BatchExecEngine e;
  for (uint64_t i = 0; i < n; i++) setup((int)i, (int)((t + i * 7) % 23), 1);
  jf_assert(e.Compile(nodes(n), g_noreg).ok(), "compiles");
  jf_assert(e.GetFunctionCount() == n, "one function per root");
  for (uint64_t i = 0; i < n; i++) jf_assert(e.GetReturnType(i) == typeOf(g_e[i].fn), "the type of each root");
  ExecContext ctx(64);
  if (w == 0) {
    uint64_t i = sym<uint64_t>("index");
    RetType r;
    Status st = y == 0 ? e.ExecuteAt(i, (void*)g_args, &r) : y == 1 ? e.ExecuteAt(i, (void*)g_args, (void*)g_out) : y == 2 ? e.ExecuteAt(i, ctx, (void*)g_args, &r) : e.ExecuteAt(i, ctx, (void*)g_args, (void*)g_out);
    bool want = i < n;
    if (!want) {
      jf_assert(!st.ok(), "an index without a function is refused");
      for (uint64_t k = 0; k < n; k++) jf_assert(g_e[k].calls == 0, "an index without a function runs nothing");
      return;
    }
    for (uint64_t k = 0; k < n; k++) jf_assert(g_e[k].calls == (k == i), "runs that function once and no other");
    jf_assert(st.ok() == !failed((int)i), "fails exactly when an error was reported");
    if (!st.ok()) { std::string s = st.ToString(); for (int j = 0; j < 2; j++) if (g_e[i].err[j]) jf_assert(has(s, g_msg[i][j]), "the message tells every error of the execution"); }
    if (y >= 2) cleanCtx(ctx);
    return;
  }
  std::vector<RetType> rs;
  if (t & 1) rs.resize(5);
  Status st = y == 0 ? e.ExecuteAll((void*)g_args, &rs) : y == 1 ? e.ExecuteAll((void*)g_args, (void*)g_out) : y == 2 ? e.ExecuteAll(ctx, (void*)g_args, &rs) : e.ExecuteAll(ctx, (void*)g_args, (void*)g_out);
  bool any = false;
  for (uint64_t k = 0; k < n; k++) {
    any |= failed((int)k);
    jf_assert(g_e[k].calls == 1, "every entry runs exactly once");
    jf_assert(g_e[k].order == (int)k, "the entries run in order");
    jf_assert(g_e[k].clean, "no entry sees an error of another");
    jf_assert(g_e[k].args == (void*)g_args, "every entry gets the caller's arguments");
    jf_assert((y & 1) == 0 || g_e[k].out == (void*)g_out, "every entry gets the caller's output");
  }
  jf_assert(st.ok() == !any, "fails exactly when an entry reported an error");
  if (any) for (uint64_t k = 0; k < n; k++) told(st, (int)k);
  if (!(y & 1)) jf_assert(rs.size() == n, "one result per entry");
  if (y >= 2) cleanCtx(ctx);
}
'''
    jobs = []
    for t in range(23):
        nm = (engine.NAMES + ["void"])[t]
        for y in range(4):
            jobs.append((f"single_{nm}_{y}", "h_single", [t, y, 2 if t in (0, 9, 10, 15, 21, 22) or not q else 1], 120))
    for n in (1, 2, 3):
        for y in range(4):
            for t in ((0, 3, 9, 11, 20) if q else range(23)):
                for w in (0, 1):
                    jobs.append((f"batch_{n}_{y}_{w}_{t}", "h_batch", [n, y, w, t], 200))
    return Spec(progs=[], harness=h, jobs=jobs, exact_arena=False, wraps=engine.WRAPS, use_progs=False,
                bounds="every return type and overload of Execute, ExecuteAt and ExecuteAll; up to 2 executions in a row on one context, up to 3 batch entries, up to 2 errors each in every combination, every index",
                assumptions=["the compiled entries are replaced by functions that report a chosen set of errors; that builtins report their errors is part of the properties about them"],
                explanation="The engines' sources run symbolically on entries that report every combination of errors.")
