"""The engines across histories of Compile, LoadCompiled, SaveCompiled and
Execute, with failures of the compiler at every point."""
from jf import Spec
from common import *
import engine

TRIPLE = "_ZN4llvm3sys16getProcessTripleB5cxx11Ev"
CPU = "_ZN4llvm3sys14getHostCPUNameEv"


def spec(tier):
    q = tier == "quick"
    h = r'''
#define JF_MAXE 6
static void onEnter(int i);
#define JF_ONENTER(i) onEnter(i)
''' + engine.HEAD + r'''
#include <map>
#include <sstream>
#define private public
#include "jit_core.h"
#undef private
#include "compiled_artifact.h"
// The program whose code is in memory, or -1: resetting or replacing the
// compiler's state unmaps it.  Program p has the entries g_per*p...
static int g_live = -1, g_next, g_per, g_point;
static FPMathMode g_fp;
static void onEnter(int i) { jf_assert(g_live == i / g_per, "only code of the program in memory is run"); }
static void reset(JitCore* c) { g_live = -1; c->ir_code_.clear(); c->compiled_object_bytes_.clear(); }
static std::string objOf(int p) { return std::string("object ") + (char)('0' + p); }
static Status entries(JitCore* c, size_t n, std::vector<char*>* f, int p) {
  f->resize(n);
  for (size_t i = 0; i < n; i++) {
    if (g_point == 4 && i == n - 1) return Status::RuntimeError("symbol not found");
    (*f)[i] = entPtr(p * g_per + (int)i);
  }
  g_live = p;
  return Status::OK();
}
JF_STUB_R(Status, ''' + engine.BUILD + r''')(JitCore* c, const std::vector<ExecNode*>& nodes, const std::vector<std::string>& names, const std::unique_ptr<FunctionRegistry>&,
    std::vector<char*>* f, std::vector<ValueType>* t) {
  jf_assert(nodes.size() == names.size(), "as many names as roots");
  jf_assert(c->option_.fp_math_mode == g_fp, "compiles with the engine's own floating-point mode");
  if (g_point == 1) return Status::InvalidArgument("validation failed");
  reset(c);
  int p = g_next;
  t->resize(nodes.size());
  for (size_t i = 0; i < nodes.size(); i++) {
    (*t)[i] = typeOf(g_e[p * g_per + i].fn);
    if (g_point == 2 && i == nodes.size() - 1) return Status::RuntimeError("code generation failed");
  }
  if (g_point == 3) return Status::RuntimeError("no JIT");
  if (c->option_.enable_save_compiled) c->compiled_object_bytes_ = objOf(p);
  c->ir_code_ = objOf(p);
  return entries(c, nodes.size(), f, p);
}
// an object file names the program it was compiled from
JF_STUB_R(Status, ''' + engine.LOAD + r''')(JitCore* c, std::string_view obj, const std::vector<std::string>& names, const std::unique_ptr<FunctionRegistry>&, std::vector<char*>* f) {
  reset(c);
  if (g_point == 3) return Status::RuntimeError("no JIT");
  jf_assert(obj.size() == 8, "the whole object is loaded");
  return entries(c, names.size(), f, obj[7] - '0');
}
JF_STUB_R(std::string, ''' + TRIPLE + r''')() { return "a-triple"; }
JF_STUB_R(llvm::StringRef, ''' + CPU + r''')() { return llvm::StringRef("a-cpu"); }
''' + engine.TAIL + r'''
static char g_args[8], g_out[8];
static void clear() { for (int i = 0; i < JF_MAXE; i++) g_e[i].calls = 0; }
static int calls() { int c = 0; for (int i = 0; i < JF_MAXE; i++) c += g_e[i].calls; return c; }
// what is expected to be executable: program run (-1 none); may: it may also be refused
struct Model { int run = -1; bool may = false, saved = false; };
static bool g_save;
static ArtifactHeader headerOf(int p, int n, ArtifactMode m, const char* cpu) {
  ArtifactHeader h;
  h.llvm_version = LLVM_VERSION_STRING; h.target_triple = "a-triple"; h.cpu_name = cpu; h.mode = m;
  h.fp_math_mode = (sym<uint8_t>("artifact_fp") & 1) ? FPMathMode::kFast : FPMathMode::kStrict;
  for (int i = 0; i < n; i++) h.per_entry_ret_types.push_back(typeOf(g_e[p * g_per + i].fn));
  return h;
}
static std::string artifact(int p, int n, ArtifactMode m, const char* cpu) {
  std::string out;
  jf_assert(SerializeArtifact(headerOf(p, n, m, cpu), objOf(p), &out).ok(), "the artifact encodes");
  return out;
}
template <class E> void save(E& e, const Model& m, int n, ArtifactMode mode) {
  std::string out;
  jf_assert(!e.SaveCompiled(nullptr).ok(), "saving to nowhere is refused");
  Status st = e.SaveCompiled(&out);
  bool can = m.run >= 0 && m.saved;
  if (!m.may) jf_assert(st.ok() == can, "saving works exactly for a compiled program with saving enabled");
  if (!can) jf_assert(!st.ok(), "saving is refused without a program of this engine");
  if (!st.ok()) { jf_assert(out.empty(), "a refused save writes nothing"); return; }
  ArtifactHeader h;
  std::string_view o;
  jf_assert(DeserializeArtifact(out, &h, &o).ok(), "what was saved decodes");
  jf_assert(o == objOf(m.run), "the current program's object is saved");
  jf_assert(h.mode == mode, "the mode is this engine's");
  jf_assert(h.fp_math_mode == g_fp, "the floating-point mode it was compiled with");
  jf_assert((int)h.per_entry_ret_types.size() == n, "one return type per entry");
  for (int i = 0; i < n; i++) jf_assert(h.per_entry_ret_types[i] == typeOf(g_e[m.run * g_per + i].fn), "each entry's return type");
  jf_assert(h.target_triple == "a-triple" && h.cpu_name == "a-cpu" && h.llvm_version == LLVM_VERSION_STRING, "the host is recorded");
}
static void verdict(const Status& st, const Model& m, int entry) {
  if (m.run < 0) { jf_assert(!st.ok(), "without a program execution is refused"); jf_assert(calls() == 0, "nothing runs without a program"); return; }
  if (m.may && !st.ok()) { jf_assert(calls() == 0, "a refused execution runs nothing"); return; }
  jf_assert(st.ok(), "the program executes");
  jf_assert(calls() == 1 && g_e[m.run * g_per + entry].calls == 1, "the last program compiled or loaded runs, once");
}
static void start(uint64_t per, uint64_t t) {
  g_per = (int)per;
  for (int i = 0; i < JF_MAXE; i++) { setup(i, (int)((t + 5 * i) % 23), 1); for (int k = 0; k < 2; k++) g_e[i].err[k] = false; }
}
static ExecEngineOption options() {
  ExecEngineOption o;
  o.enable_save_compiled = g_save = sym<uint8_t>("enable_save") & 1;
  g_fp = o.fp_math_mode = (sym<uint8_t>("fp") & 1) ? FPMathMode::kFast : FPMathMode::kStrict;
  o.exec_ctx_arena_alloc_min_chunk_size = 64;
  return o;
}
static uint64_t choice(const char* n, uint64_t k) { uint64_t c = sym<uint64_t>(n); jf_assume(c < k); return jf_concretize(c); }
// one step of a history on an engine; n: number of entries
// 0..4 compile (up to point), 5..7 load (ok, no JIT, no symbol), 8 damaged, 9 other host, 10 other mode
template <class E, class C> void step(E& e, C compile, Model& m, uint64_t op, int n, ArtifactMode mode) {
  int p = g_next;
  if (op <= 4) {
    g_point = (int)op;
    Status st = compile();
    jf_assert(st.ok() == (op == 0), "Compile fails exactly when the compiler does");
    m.run = op ? -1 : p; m.may = false; m.saved = g_save;
  } else {
    ArtifactMode other = mode == ArtifactMode::kSingle ? ArtifactMode::kBatch : ArtifactMode::kSingle;
    std::string a = op == 10 ? artifact(p, other == ArtifactMode::kSingle ? 1 : n, other, "a-cpu") : artifact(p, n, mode, op == 9 ? "another-cpu" : "a-cpu");
    if (op == 8) a.pop_back();
    g_point = op == 6 ? 3 : op == 7 ? 4 : 0;
    Status st = e.LoadCompiled(a, g_noreg);
    jf_assert(st.ok() == (op == 5), "LoadCompiled fails exactly when the artifact does not fit or cannot be linked");
    if (op == 5) { m.run = p; m.may = false; m.saved = false; jf_assert(e.GetIRCode().empty(), "there is no IR after loading"); }
    else if (op < 8) m.run = -1;
    else m.may = true;
  }
  g_next++;
}
JF_H h_single(uint64_t t, uint64_t y, uint64_t first, uint64_t steps) {
  start(1, t);
  ExecEngine e(options());
  ExecContext ctx(64);
  Model m;
  std::unique_ptr<ExecNode> root;
  for (uint64_t k = 0; k <= steps; k++) {
    clear();
    RetType r;
    Status st = y == 0 ? e.Execute((void*)g_args, &r) : y == 1 ? e.Execute((void*)g_args, (void*)g_out) : y == 2 ? e.Execute(ctx, (void*)g_args, &r) : e.Execute(ctx, (void*)g_args, (void*)g_out);
    verdict(st, m, 0);
    save(e, m, 1, ArtifactMode::kSingle);
    if (k == steps) break;
    uint64_t op = k == 0 ? first : choice("op", 11);
    step(e, [&] { return e.Compile(root, g_noreg); }, m, op, 1, ArtifactMode::kSingle);
  }
}
JF_H h_batch(uint64_t t, uint64_t y, uint64_t first, uint64_t steps) {
  start(2, t);
  BatchExecEngine e(options());
  ExecContext ctx(64);
  Model m;
  int n = 0;
  for (uint64_t k = 0; k <= steps; k++) {
    if (!m.may) jf_assert((int)e.GetFunctionCount() == (m.run < 0 ? 0 : n), "as many functions as were compiled or loaded, none after a failure");
    for (size_t i = 0; i < 3; i++) {
      clear();
      RetType r;
      Status st = y == 0 ? e.ExecuteAt(i, (void*)g_args, &r) : y == 1 ? e.ExecuteAt(i, (void*)g_args, (void*)g_out) : y == 2 ? e.ExecuteAt(i, ctx, (void*)g_args, &r) : e.ExecuteAt(i, ctx, (void*)g_args, (void*)g_out);
      Model x = m;
      if ((int)i >= n) x.run = -1;
      verdict(st, x, (int)i);
    }
    clear();
    std::vector<RetType> rs;
    Status st = y == 0 ? e.ExecuteAll((void*)g_args, &rs) : y == 1 ? e.ExecuteAll((void*)g_args, (void*)g_out) : y == 2 ? e.ExecuteAll(ctx, (void*)g_args, &rs) : e.ExecuteAll(ctx, (void*)g_args, (void*)g_out);
    if (m.run >= 0 && !(m.may && calls() == 0)) {
      jf_assert(st.ok(), "the program executes");
      jf_assert(calls() == n, "every function of the last program runs once");
      for (int i = 0; i < n; i++) jf_assert(g_e[m.run * g_per + i].calls == 1, "every function of the last program runs once");
    } else if (m.run < 0) jf_assert(calls() == 0, "nothing runs without a program");
    save(e, m, n, ArtifactMode::kBatch);
    if (k == steps) break;
    uint64_t op = k == 0 ? first : choice("op", 12);
    if (op == 11) {
      jf_assert(!e.Compile(nodes(0), g_noreg).ok(), "compiling nothing is refused");
      m.may = true;
      continue;
    }
    int nn = k == 1 ? 1 : 2;
    bool keeps = op >= 8;
    step(e, [&] { return e.Compile(nodes(nn), g_noreg); }, m, op, nn, ArtifactMode::kBatch);
    if (!keeps) n = nn;
  }
}
'''
    jobs = []
    steps = 2 if q else 3
    for t in (9, 11, 22) if q else (0, 4, 9, 10, 11, 15, 21, 22):
        for y in range(4):
            for f in range(11):
                jobs.append((f"single_{t}_{y}_{f}", "h_single", [t, y, f, steps], 200 if q else 600))
            for f in range(12):
                jobs.append((f"batch_{t}_{y}_{f}", "h_batch", [t, y, f, steps], 200 if q else 600))
    return Spec(progs=[], harness=h, jobs=jobs, exact_arena=False, wraps=engine.WRAPS + [TRIPLE, CPU], use_progs=False,
                bounds=f"histories of up to {steps} compilations or loads, each succeeding or failing at one of 4 points of the compiler, 2 of the loader or 3 of the artifact checks, with executions (every overload) and saves in between; every floating-point mode and saving option; batches of 1 and 2 functions",
                assumptions=["the compiler and the loader (JitCore::BuildAndLink, LoadObject) are replaced by models that fail at a chosen point and unmap the previous program's code when they reset", "the host's target and CPU names are fixed texts"],
                explanation="The engines' sources run on every such history; entry functions assert that they are the program in memory.")
