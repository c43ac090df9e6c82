"""The function registry is a map from (name, parameter types) to the last
successful registration."""
from jf import Spec
from common import *


def spec(tier):
    q = tier == "quick"
    h = r'''
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>
#include "llvm/ExecutionEngine/Orc/LLJIT.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
#define private public
#include "function_registry.h"
#undef private
''' + PRELUDE + r'''
static uint64_t choice(const char* n, uint64_t k) { uint64_t c = sym<uint64_t>(n); jf_assume(c < k); return jf_concretize(c); }
// the arity of a signature is fixed, everything else is symbolic
struct Sig { char name; std::vector<ValueType> p; ValueType ret; };
static Sig symSig(uint64_t arity) {
  Sig s;
  s.name = sym<char>("name");
  for (uint64_t i = 0; i < arity; i++) { uint8_t t = sym<uint8_t>("param"); jf_assume(t < 25); s.p.push_back((ValueType)t); }
  uint8_t r = sym<uint8_t>("ret"); jf_assume(r < 25);
  s.ret = (ValueType)r;
  return s;
}
static FunctionSignature real(const Sig& s) { return FunctionSignature(std::string("f") + s.name, s.p, s.ret); }
static bool same(const Sig& a, const Sig& b) {
  if (a.p.size() != b.p.size()) return false;
  bool r = a.name == b.name;
  for (size_t i = 0; i < a.p.size(); i++) r &= a.p[i] == b.p[i];
  return r;
}
static Sig legacy(Sig s) { s.p.push_back(ValueType::kPtr); return s; }
// one entry of the model: what was registered, in order
struct Reg { Sig s; bool live; int id; bool ctx, intrinsic; };
static char g_code[16];
static int g_made;
static llvm::Value* gen0(const FunctionSignature&, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>&, IRCodeGenContext&) { g_made = 100; return nullptr; }
static llvm::Value* gen1(const FunctionSignature&, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>&, IRCodeGenContext&) { g_made = 101; return nullptr; }
static llvm::Value* gen2(const FunctionSignature&, const std::vector<llvm::Type*>&, const std::vector<llvm::Value*>&, IRCodeGenContext&) { g_made = 102; return nullptr; }
static CodeGenFunc gen(int id) { return id == 0 ? gen0 : id == 1 ? gen1 : gen2; }
// messages name the signature; their text is not part of the property
JF_STUB_R(std::string, _ZNK9jitfusion17FunctionSignature8ToStringB5cxx11Ev)(const FunctionSignature*) { return "sig"; }
static bool contains(const std::vector<Reg>& m, const Sig& s) {
  bool r = false;
  for (auto& e : m) r |= e.live & same(e.s, s);
  return r;
}
static void put(std::vector<Reg>& m, const Sig& s, int id, bool ctx, bool intrinsic) {
  for (auto& e : m) e.live &= !same(e.s, s);
  m.push_back(Reg{s, true, id, ctx, intrinsic});
}
static void check(const FunctionRegistry& r, const std::vector<Reg>& m, uint64_t arity) {
  Sig s = symSig(arity);
  FunctionSignature f = real(s);
  FunctionStructure st;
  Status ok = r.GetFuncBySign(f, &st);
  bool want = contains(m, s);
  jf_assert(ok.ok() == want, "found exactly when such a registration succeeded");
  if (!want) return;
  for (auto& e : m) if (e.live & same(e.s, s)) {
    jf_assert(f.GetRetType() == e.s.ret, "the return type of the last registration");
    jf_assert((st.func_type == FunctionType::kLLVMIntrinicFunc) == e.intrinsic, "the kind of the last registration");
    jf_assert(st.needs_exec_ctx == e.ctx, "the context is passed exactly when registered so");
    if (e.intrinsic) {
      std::vector<llvm::Type*> t;
      std::vector<llvm::Value*> v;
      st.codegen_func(f, t, v, *(IRCodeGenContext*)g_code);
      jf_assert(g_made == 100 + e.id, "the code generator of the last registration");
    } else {
      jf_assert(st.c_func_ptr == g_code + e.id, "the function of the last registration");
    }
  }
}
// how: 0 RegisterFunc C, 1 intrinsic, 2 read-only, 3 commutative, 4 store, 5 read-only with context, 6 commutative with context, 7 RegisterFunc intrinsic
JF_H h_history(uint64_t how, uint64_t arities, uint64_t n, uint64_t ask) {
  std::unique_ptr<FunctionRegistry> rp(new FunctionRegistry());
  FunctionRegistry& r = *rp;
  std::vector<Reg> m;
  for (uint64_t k = 0; k < n; k++) {
    Sig s = symSig(arities >> 4 * k & 15);
    uint64_t w = how >> 4 * k & 15;
    bool over = sym<uint8_t>("override") & 1, null = sym<uint8_t>("null") & 1;
    void* p = null ? nullptr : g_code + k;
    CodeGenFunc g;
    if (!null) g = gen((int)k);
    Status st;
    FunctionStructure fs;
    FunctionSignature f = real(s);
    bool intrinsic = w == 1 || w == 7, ctx = w == 5 || w == 6;
    switch (w) {
      case 0: fs.func_type = FunctionType::kCFunc; fs.c_func_ptr = p; st = r.RegisterFunc(f, fs, over); break;
      case 1: st = r.RegisterLLVMIntrinicFunc(f, g, over); break;
      case 2: st = r.RegisterReadOnlyCFunc(f, p, over); break;
      case 3: st = r.RegisterCommutativeCFunc(f, p, over); break;
      case 4: st = r.RegisterStoreCFunc(f, p, 1, over); break;
      case 5: st = r.RegisterReadOnlyCFuncWithExecCtx(f, p, over); break;
      case 6: st = r.RegisterCommutativeCFuncWithExecCtx(f, p, over); break;
      default: fs.func_type = FunctionType::kLLVMIntrinicFunc; fs.codegen_func = g; st = r.RegisterFunc(f, fs, over);
    }
    bool dup = contains(m, s);
    if (ctx) dup |= contains(m, legacy(s));
    bool good = !null & (over | !dup);
    jf_assert(st.ok() == good, "refused exactly when the function is missing or already there and overriding is off");
    if (!good) continue;
    put(m, s, (int)k, ctx, intrinsic);
    if (ctx) put(m, legacy(s), (int)k, false, false);
  }
  check(r, m, ask);
}
'''
    h += r'''
JF_H h_key(uint64_t n1, uint64_t n2) {
  Sig a = symSig(n1), b = symSig(n2);
  FunctionSignature x = real(a), y = real(b);
  bool eq = same(a, b);
  jf_assert((x == y) == eq && (y == x) == eq, "signatures are equal exactly when name and parameter types are");
  if (eq) jf_assert(x.Hash() == y.Hash(), "equal signatures hash alike");
}
'''
    jobs = [(f"key{i}{j}", "h_key", [i, j], 100) for i in range(4) for j in range(4)]
    hows = range(8)
    if q:
        seqs = [(a, b) for a in hows for b in hows]
    else:
        seqs = [(a, b, c) for a in hows for b in hows for c in hows]
    ars = {2: [(1, 1), (1, 2), (2, 1)], 3: [(1, 1, 1), (1, 2, 2), (2, 1, 1)]}
    for sq in seqs:
        for ar in ars[len(sq)]:
            if q and ar != (1, 1) and not {5, 6} & set(sq):
                continue  # without the legacy signature different arities cannot meet
            hw = sum(x << 4 * i for i, x in enumerate(sq))
            aw = sum(x << 4 * i for i, x in enumerate(ar))
            for ask in (1, 2):
                jobs.append((f"h_{''.join(map(str, sq))}_{''.join(map(str, ar))}_{ask}", "h_history", [hw, aw, len(sq), ask], 200))
    if q:
        for i, sq in enumerate([(2, 5, 2), (5, 2, 0), (1, 6, 1), (0, 0, 0), (4, 7, 4), (3, 1, 2)]):
            hw = sum(x << 4 * i for i, x in enumerate(sq))
            jobs.append((f"h3_{i}", "h_history", [hw, 0x111 if i & 1 else 0x121, 3, 1 + i % 2], 300))
    return Spec(progs=[], harness=h, jobs=jobs, exact_arena=False, use_progs=False, wraps=["_ZNK9jitfusion17FunctionSignature8ToStringB5cxx11Ev"],
                bounds=f"histories of {'2 (some 3)' if q else '3'} registrations by each of the 8 ways, one- and two-parameter signatures with every name byte, parameter and return type, missing functions and overriding; every query signature",
                assumptions=["hash containers are modelled with one bucket", "the text of a signature in messages is replaced"],
                explanation="The registry starts empty; histories run symbolically and are compared with a list model.")
