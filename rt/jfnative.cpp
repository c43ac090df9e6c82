// Replay driver: runs one harness function natively, on recorded inputs,
// against the library built from the current sources.
#include <dlfcn.h>
#include <unistd.h>

#include <string>
#include <tuple>

#include "jfdrv.h"
#ifdef JF_ATHENA
#include "athena/athena.h"
#endif
#define JF_NATIVE 1
#include "jfrt.h"

#if defined(JF_LIVE) && !defined(__SANITIZE_ADDRESS__) && !__has_feature(address_sanitizer)
#include "jflive.h"
#else
extern "C" uint64_t jf_heap_live() { return 0; }
#endif
#ifdef JF_FREEZE
#include "jffreeze.h"
#else
extern "C" void jf_freeze(uint64_t) {}
extern "C" void jf_keep(const void*, uint64_t) {}
#endif
static std::vector<std::tuple<std::string, unsigned, uint64_t>> g_in;
static size_t g_pos = 0;
static std::string g_progs;
extern "C" {
void jf_sym(void* p, uint64_t es, uint64_t k, const char* name) {
  for (uint64_t i = 0; i < k; i++) {
    std::string vn = k == 1 ? name : std::string(name) + "[" + std::to_string(i) + "]";
    for (auto& ch : vn) if (ch == ' ') ch = '_';
    uint64_t v = 0;
    if (g_pos < g_in.size()) {
      if (std::get<0>(g_in[g_pos]) != vn) { printf("JF-REPLAY-DIVERGED wanted %s got %s\n", vn.c_str(), std::get<0>(g_in[g_pos]).c_str()); fflush(stdout); _exit(5); }
      v = std::get<2>(g_in[g_pos++]);
    }
    memcpy((char*)p + i * es, &v, es);
  }
}
void jf_assume(bool c) { if (!c) { printf("JF-REPLAY-ASSUME\n"); fflush(stdout); _exit(2); } }
void jf_assert(bool c, const char* m) { if (!c) { printf("JF-ASSERT-FAILED %s\n", m); fflush(stdout); _exit(1); } }
void jf_cover(const char*) {}
uint64_t jf_concretize(uint64_t v) { return v; }
void jf_fork_loads(uint64_t) {}
void jf_readonly(const void*) {}
void jf_writable(const void*) {}
int jf_is_sym() { return 0; }
uint64_t jf_obj_size(const void*) { return 0; }
void jf_allow_throw(uint64_t) {}
void jf_end() { printf("JF-REPLAY-OK\n"); fflush(stdout); _exit(0); }
void jf_kill() { printf("JF-REPLAY-ASSUME\n"); fflush(stdout); _exit(2); }
void jf_symlen_stop(uint64_t) {}
void jf_sym_alloc(uint64_t) {}
void jf_debug(const char* n, uint64_t v) { printf("[jf] %s = %llu\n", n, (unsigned long long)v); }
uint64_t jf_ite64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
uint8_t* __real__ZN9jitfusion5Arena8AllocateEmm(void*, size_t, size_t);
uint8_t* __wrap__ZN9jitfusion5Arena8AllocateEmm(void* a, size_t n, size_t al) {
#ifdef JF_EXACT_ARENA
  (void)a; (void)al;
  return n ? (uint8_t*)malloc(n) : nullptr;
#else
  return __real__ZN9jitfusion5Arena8AllocateEmm(a, n, al);
#endif
}
}
namespace jf {
static std::unique_ptr<FunctionRegistry>& registry() {
  static std::unique_ptr<FunctionRegistry> r;
  if (!r) {
    if (!FunctionRegistryFactory::CreateFunctionRegistry(&r).ok() || !jfdrv::RegisterIo(r.get()).ok()) { printf("JF-REPLAY-ERROR registry\n"); fflush(stdout); _exit(6); }
  }
  return r;
}
struct Comp {
  std::unique_ptr<ExecEngine> e;
  std::unique_ptr<BatchExecEngine> b;
#ifdef JF_ATHENA
  std::unique_ptr<athena::AthenaExpression> a;
  std::unique_ptr<athena::AthenaPipeline> p;
#endif
  size_t k = 0;
};
static void die(const std::string& m) { printf("JF-REPLAY-ERROR %s\n", m.c_str()); fflush(stdout); _exit(6); }
// the compiler orders some operands by address: vary the addresses
static void shake() {
  const char* k = getenv("JF_SHAKE");
  if (!k || !atoi(k)) return;
  srand(atoi(k));
  std::vector<void*> v;
  for (int i = 0; i < 6000; i++) v.push_back(malloc(16 + 16 * (rand() % 14)));
  for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rand() % i]);
  for (size_t i = 0; i < v.size(); i++) if (i % 3) free(v[i]);
}
static Comp comp(const std::string& id) {
  registry();
  shake();
  Comp c;
  for (auto& p : jfdrv::readProgs(g_progs.c_str())) {
    const std::string& head = p.s.l[0].a;
    bool multi = head == "batch" || head == "pipeline";
    if (multi ? id.compare(0, p.id.size() + 1, p.id + "_") != 0 || id.find_first_not_of("0123456789", p.id.size() + 1) != std::string::npos : p.id != id) continue;
    if (multi) c.k = atoi(id.c_str() + p.id.size() + 1);
    ExecEngineOption opt;
    Status s;
    if (head == "batch") {
      c.b = std::make_unique<BatchExecEngine>(opt);
      auto v = jfdrv::builds(p.s, 1);
      s = c.b->Compile(v, registry());
#ifdef JF_ATHENA
    } else if (head == "athena") {
      c.a = std::make_unique<athena::AthenaExpression>(opt);
      s = c.a->Compile(p.s.l[1].a, registry());
    } else if (head == "pipeline") {
      c.p = std::make_unique<athena::AthenaPipeline>(opt);
      std::vector<std::string> v;
      for (size_t k = 1; k < p.s.l.size(); k++) v.push_back(p.s.l[k].a);
      s = c.p->Compile(v, registry());
#endif
    } else {
      c.e = std::make_unique<ExecEngine>(opt);
      auto n = jfdrv::build(p.s);
      s = c.e->Compile(n, registry());
    }
    if (!s.ok()) die("program " + id + " does not compile: " + s.ToString());
    return c;
  }
  die("no program " + id);
  return c;
}
struct Around {
#ifdef JF_FREEZE
  Around(void* r, size_t n) { jf_keep(r, n); if (jffreeze::mode == 2) jffreeze::take(); }
  ~Around() { if (jffreeze::mode == 2) jffreeze::check(); }
#else
  Around(void*, size_t) {}
#endif
};
RetType nativeRun(const char* id, JfSlot* in, bool* ok) {
  Comp c = comp(id);
  RetType r;
  ExecContext ctx(4096);
  Status s;
  Around around(&r, sizeof r);
  if (c.e) s = c.e->Execute(ctx, in, &r);
  else if (c.b) s = c.b->ExecuteAt(c.k, ctx, in, &r);
#ifdef JF_ATHENA
  else if (c.a) s = c.a->Execute(ctx, in, &r);
#endif
  *ok = s.ok();
  if (!s.ok()) printf("[execute] %s\n", s.ToString().c_str());
  return r;
}
bool nativeRunV(const char* id, JfSlot* in, JfSlot* out) {
  Comp c = comp(id);
  ExecContext ctx(4096);
  Status s;
  Around around(&s, sizeof s);
  if (c.e) s = c.e->Execute(ctx, in, (void*)out);
  else if (c.b) s = c.b->ExecuteAt(c.k, ctx, in, (void*)out);
#ifdef JF_ATHENA
  // the engine runs every function of a pipeline at once: the first call stands for all
  else if (c.p && c.k == 0) s = c.p->Execute(ctx, in, (void*)out);
#endif
  if (!s.ok()) printf("[execute] %s\n", s.ToString().c_str());
  return s.ok();
}
// executions of a program on contexts that live for two executions, or for one
bool nativeLeak(const char* id, JfSlot* in, JfSlot* out, int64_t* left, int64_t* grown) {
  Comp c = comp(id);
  auto one = [&](ExecContext& ctx) {
    RetType r;
    Status s;
    if (c.e && out) s = c.e->Execute(ctx, in, (void*)out);
    else if (c.e) s = c.e->Execute(ctx, in, &r);
    else if (c.b && out) s = c.b->ExecuteAt(c.k, ctx, in, (void*)out);
    else if (c.b) s = c.b->ExecuteAt(c.k, ctx, in, &r);
    return s.ok();
  };
  bool ok = true;
  for (int k = 0; k < 2; k++) {   // the first time settles what is set up once
    int64_t a = (int64_t)jf_heap_live(), b;
    {
      ExecContext ctx(8);
      ok = one(ctx);
      b = (int64_t)jf_heap_live();
      one(ctx);
      *grown = (int64_t)jf_heap_live() - b;
    }
    *left = (int64_t)jf_heap_live() - a;
  }
  return ok;
}
}  // namespace jf
int main(int argc, char** argv) {
  // jfreplay progs inputs harness args...
  if (argc < 4) return 9;
  g_progs = argv[1];
  {
    std::ifstream in(argv[2]);
    std::string n, h;
    unsigned w;
    while (in >> n >> w >> h) g_in.emplace_back(n, w, strtoull(h.c_str(), nullptr, 16));
  }
  typedef void (*H)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
  H h = (H)dlsym(RTLD_DEFAULT, argv[3]);
  if (!h) { printf("JF-REPLAY-ERROR no harness %s\n", argv[3]); return 6; }
  uint64_t a[6] = {0};
  for (int i = 4; i < argc && i < 10; i++) a[i - 4] = strtoull(argv[i], nullptr, 0);
  h(a[0], a[1], a[2], a[3], a[4], a[5]);
  printf("JF-REPLAY-OK\n");
  fflush(stdout);
  _exit(0);
}

extern "C" __attribute__((weak)) int jf_symbolic(unsigned long long) { return 0; }
