"""The engines' own code, with the compiler behind them replaced: what is
compiled is a table of entry functions that the harness controls."""
from common import *

BUILD = "_ZN9jitfusion7JitCore12BuildAndLinkERKSt6vectorIPNS_8ExecNodeESaIS3_EERKS1_INSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaISD_EERKSt10unique_ptrINS_16FunctionRegistryESt14default_deleteISJ_EEPS1_IPcSaISP_EEPS1_INS_9ValueTypeESaIST_EE"
LOAD = "_ZN9jitfusion7JitCore10LoadObjectESt17basic_string_viewIcSt11char_traitsIcEERKSt6vectorINSt7__cxx1112basic_stringIcS3_SaIcEEESaIS9_EERKSt10unique_ptrINS_16FunctionRegistryESt14default_deleteISF_EEPS5_IPcSaISL_EE"
# (enumerator, returned type, held type)
TYPES = [("kU8", "uint8_t"), ("kU16", "uint16_t"), ("kU32", "uint32_t"), ("kU64", "uint64_t"), ("kI8", "int8_t"), ("kI16", "int16_t"),
         ("kI32", "int32_t"), ("kI64", "int64_t"), ("kF32", "float"), ("kF64", "double"), ("kString", "StringStruct")] \
    + [(f"k{t.upper()}List", LT[t]) for t in NUM] + [("kStringList", "StringListStruct")]
NAMES = NUM + ["str"] + ["l" + t for t in NUM] + ["lstr"]
VOID = len(TYPES)

HEAD = PRELUDE + r'''
#include "batch_exec_engine.h"
#include <variant>
#ifndef JF_MAXE
#define JF_MAXE 3
#endif
struct Ent {
  int fn;                 // index into the table of entry functions
  bool err[2];            // the errors it reports
  int calls, order;
  void *args, *out;
  ExecContext* ctx;
  bool clean;             // the context had no errors when it was called
  void* payload;          // what its result points to
  uint32_t n;
};
static Ent g_e[JF_MAXE];
static int g_n, g_order;
static const char* const g_msg[6][2] = {{"first error of zero", "other zero"}, {"bad one", "worse one"}, {"two A", "two B"}, {"3a", "3b"}, {"4a", "4b"}, {"5a", "5b"}};
static uint32_t g_slen[4];
template <class R> R payload(Ent& e) {
  if constexpr (std::is_same_v<R, StringListStruct>) {
    R r; r.len = e.n; r.data = (StringStruct*)e.payload; return r;
  } else if constexpr (Elem<R>::list) {
    R r; r.len = e.n; r.data = (typename Elem<R>::type*)e.payload; return r;
  } else {
    R r; memcpy(&r, e.payload, sizeof r); return r;
  }
}
#ifndef JF_ONENTER
#define JF_ONENTER(i)
#endif
static void enter(Ent& e, int i, void* a, void* c, void* o) {
  JF_ONENTER(i);
  e.calls++; e.order = g_order++; e.args = a; e.ctx = (ExecContext*)c; e.out = o;
  e.clean = !e.ctx->HasErrors();
  // what a builtin does: use the arena, then maybe report
  e.ctx->arena.Allocate(16);
  for (int k = 0; k < 2; k++) if (e.err[k]) e.ctx->AddError(g_msg[i][k]);
}
template <int I, class R> R entry(void* a, void* c, void* o) { enter(g_e[I], I, a, c, o); return payload<R>(g_e[I]); }
template <int I> void entryV(void* a, void* c, void* o) { enter(g_e[I], I, a, c, o); }
template <int I> char* fnOf(int t) {
  switch (t) {
''' + "".join(f"    case {k}: return (char*)&entry<I, {r}>;\n" for k, (_, r) in enumerate(TYPES)) + r'''
    default: return (char*)&entryV<I>;
  }
}
static ValueType typeOf(int t) {
  static const ValueType v[] = {''' + ", ".join("ValueType::" + e for e, _ in TYPES) + r''', ValueType::kVoid};
  return v[t];
}
template <int I> char* entAt(int i) {
  if constexpr (I + 1 < JF_MAXE) if (i != I) return entAt<I + 1>(i);
  return fnOf<I>(g_e[I].fn);
}
static char* entPtr(int i) { return entAt<0>(i); }
'''
STUBS = r'''
class jf_JitCore;
// how far the compiler gets: 0 all the way; otherwise it fails at that point
static int g_build, g_builds;
static Status doBuild(size_t n, std::vector<char*>* f, std::vector<ValueType>* t) {
  g_builds++;
  if (g_build == 1) return Status::InvalidArgument("validation failed");
  if (t) {
    t->resize(n);
    for (size_t i = 0; i < n; i++) {
      (*t)[i] = typeOf(g_e[i].fn);
      if (g_build == 2 && i == n - 1) return Status::RuntimeError("code generation failed");
    }
  }
  if (g_build == 3) return Status::RuntimeError("no object");
  f->resize(n);
  for (size_t i = 0; i < n; i++) {
    if (g_build == 4 && i == n - 1) return Status::RuntimeError("symbol not found");
    (*f)[i] = entPtr((int)i);
  }
  return Status::OK();
}
#ifdef JF_REAL_TOO
static bool g_stubbed;   // otherwise the real compiler
extern "C" Status __real_''' + BUILD + r'''(jf_JitCore*, const std::vector<ExecNode*>&, const std::vector<std::string>&, const std::unique_ptr<FunctionRegistry>&, std::vector<char*>*, std::vector<ValueType>*);
#endif
JF_STUB_R(Status, ''' + BUILD + r''')(jf_JitCore* core, const std::vector<ExecNode*>& nodes, const std::vector<std::string>& names, const std::unique_ptr<FunctionRegistry>& reg,
    std::vector<char*>* f, std::vector<ValueType>* t) {
#if defined(JF_REAL_TOO) && defined(JF_NATIVE)
  if (!g_stubbed) return __real_''' + BUILD + r'''(core, nodes, names, reg, f, t);
#endif
  jf_assert(nodes.size() == names.size(), "as many names as roots");
  return doBuild(nodes.size(), f, t);
}
JF_STUB_R(Status, ''' + LOAD + r''')(jf_JitCore*, std::string_view, const std::vector<std::string>& names, const std::unique_ptr<FunctionRegistry>&, std::vector<char*>* f) {
  return doBuild(names.size(), f, nullptr);
}
'''
TAIL = r'''
static std::unique_ptr<FunctionRegistry> g_noreg;
// fresh symbolic result for entry i of type t with n elements
template <class R> void fill(Ent& e, uint32_t n) {
  e.n = n;
  if constexpr (std::is_same_v<R, StringListStruct>) {
    StringStruct* s = n ? (StringStruct*)malloc(n * sizeof(StringStruct)) : nullptr;
    for (uint32_t i = 0; i < n; i++) { s[i].len = (n + 1 - i) % 3; s[i].data = symArr<char>(s[i].len, "text"); }
    e.payload = s;
  } else if constexpr (Elem<R>::list) {
    e.payload = symArr<typename Elem<R>::type>(n, "elem");
  } else {
    e.payload = symArr<R>(1, "value");
  }
}
static void setup(int i, int t, uint32_t n) {
  g_e[i] = Ent();
  g_e[i].fn = t;
  g_e[i].calls = 0; g_e[i].order = -1;
  switch (t) {
''' + "".join(f"    case {k}: fill<{r}>(g_e[i], n); break;\n" for k, (_, r) in enumerate(TYPES)) + r'''
  }
  for (int k = 0; k < 2; k++) g_e[i].err[k] = sym<uint8_t>("err") & 1;
}
static std::vector<std::unique_ptr<ExecNode>> nodes(size_t n) { std::vector<std::unique_ptr<ExecNode>> v; v.resize(n); return v; }
inline bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }
'''
PRE = HEAD + STUBS + TAIL
WRAPS = [BUILD, LOAD]
