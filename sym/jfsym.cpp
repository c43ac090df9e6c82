// jfsym: a path-forking symbolic executor for LLVM IR.  Loads the bitcode of
// the code under test plus harness bitcode, executes every requested harness
// for all values of its symbolic inputs and discharges assertions with Z3.
#include <cxxabi.h>
#include <dirent.h>
#include <fcntl.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <deque>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>

#include "solver.h"

using namespace llvm;
namespace jfsym {

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Val {
  E e = nullptr;
  std::shared_ptr<std::vector<Val>> agg;
  Val() = default;
  Val(E x) : e(x) {}
  bool isAgg() const { return (bool)agg; }
};

enum ObjKind : uint8_t { OK_HEAP, OK_STACK, OK_GLOBAL };

struct Obj {
  uint64_t base = 0, size = 0;
  std::vector<E> b;  // nullptr = uninitialised
  ObjKind kind = OK_HEAP;
  bool alive = true, ro = false, tls = false;
  E symSize = nullptr;  // if set, size is only the upper bound
  std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct FnInfo {
  const Function* f;
  DenseMap<const Value*, unsigned> slot;
  unsigned n = 0;
  bool strict = false;  // poison flags honoured
};

struct Frame {
  FnInfo* fi = nullptr;
  const BasicBlock* bb = nullptr;
  const BasicBlock* prev = nullptr;
  BasicBlock::const_iterator it;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  const CallBase* call = nullptr;  // in the caller
};

struct Input { std::string name; uint64_t var; unsigned w; };

struct State {
  std::vector<std::shared_ptr<Frame>> st;
  std::map<uint64_t, ObjP> mem;
  std::vector<E> pc;
  Model model;
  std::vector<Input> inputs;
  uint64_t heapNext = 0x100000000ull, stackNext = 0x7000000000ull;
  uint64_t steps = 0;
  int64_t heapLive = 0;
  bool dead = false;
  bool allowThrow = false;
  bool forkLoads = false;  // a load from a table at an unknown index forks by the value found
  std::map<uint64_t, const GlobalVariable*> exc;  // exceptions in flight or caught, with their types
  // while frozen, everything that existed before is shared and only read
  bool frozen = false;
  uint64_t frzHeap = 0, frzStack = 0;
  int frzOff = 0;  // inside a lock or the guarded initialisation of a static
  std::vector<uint64_t> keep;
  unsigned orders = 0;  // commutative calls whose argument order was chosen
  std::string endKind;
};

struct PathEnd { std::string kind; };
struct SpecAbort {};  // a branch cannot be merged: fork instead
struct Unwound {};  // an exception has left the call

struct Failure {
  std::string kind, msg, where, trace;
  std::vector<std::pair<std::string, std::pair<unsigned, u128>>> inputs;
};

struct Options {
  uint64_t maxPaths = 200000, maxSteps = 80000000, maxFailures = 6;
  double timeLimit = 120;
  unsigned solverMs = 20000, preciseMs = 60000;
};

class Engine {
 public:
  Ctx C;
  Solver S{C};
  LLVMContext lc;
  std::vector<std::unique_ptr<Module>> mods;
  const DataLayout* DL = nullptr;
  std::unordered_map<std::string, const Function*> fnByName;
  std::unordered_map<std::string, const GlobalVariable*> gvByName;
  std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fi;
  std::unordered_map<const Function*, uint64_t> fnAddr;
  std::unordered_map<std::string, uint64_t> declAddr;
  std::unordered_map<uint64_t, const Function*> addrFn;
  std::unordered_map<const GlobalVariable*, uint64_t> gvAddr;
  std::map<uint64_t, ObjP> roMem;
  std::map<uint64_t, const GlobalVariable*> pendingGv;  // not yet materialised
  DenseMap<const Constant*, Val> constMemo;
  std::unordered_map<std::string, std::string> alias;
  Options opt;
  std::vector<std::unique_ptr<State>> work;
  State* cur = nullptr;
  // results
  std::vector<Failure> failures;
  std::set<std::string> failKeys;
  std::set<std::string> covers;
  std::map<std::string, uint64_t> ends;
  std::set<std::string> encoded;
  std::map<std::string, uint64_t> unsupported;
  uint64_t obligations = 0, discharged = 0, inconclusive = 0, paths = 0, forks = 0, instrs = 0, trivially = 0;
  std::set<std::string> strictPrefix;

  uint64_t nextFn = 0x100000, nextGv = 0x10000000;

  // ---------- loading ----------
  void load(const std::string& path, bool strict) {
    SMDiagnostic err;
    auto m = parseIRFile(path, err, lc);
    if (!m) {
      std::string s;
      raw_string_ostream os(s);
      err.print("jfsym", os);
      fprintf(stderr, "%s\n", os.str().c_str());
      exit(3);
    }
    if (!DL) DL = new DataLayout(m->getDataLayout());
    for (auto& f : *m) {
      if (f.isDeclaration()) continue;
      if (f.hasLocalLinkage() ) {
        // internal functions are also reachable by name when the name is unique
        auto it = fnByName.find(f.getName().str());
        if (it == fnByName.end()) fnByName[f.getName().str()] = &f;
      } else {
        auto it = fnByName.find(f.getName().str());
        if (it == fnByName.end() || it->second->hasLocalLinkage() ||
            (!f.isWeakForLinker() && it->second->isWeakForLinker()))
          fnByName[f.getName().str()] = &f;
      }
    }
    for (auto& g : m->globals())
      if (!g.isDeclaration() && !g.hasLocalLinkage()) {
        auto it = gvByName.find(g.getName().str());
        if (it == gvByName.end() || (!g.isWeakForLinker() && it->second->isWeakForLinker())) gvByName[g.getName().str()] = &g;
      }
    for (auto& a : m->aliases())
      if (auto* f = dyn_cast<Function>(a.getAliaseeObject()))
        if (!f->isDeclaration()) fnByName.insert({a.getName().str(), f});
    if (strict) strictMods.insert(m.get());
    mods.push_back(std::move(m));
  }
  std::set<const Module*> strictMods;

  void finishLoad() {
    for (auto& kv : fnByName)
      if (kv.first.rfind("jfstub_", 0) == 0) alias[kv.first.substr(7)] = kv.first;
    for (auto& m : mods)
      for (auto& g : m->globals()) {
        if (g.isDeclaration()) continue;
        if (g.hasAppendingLinkage()) continue;
        uint64_t sz = DL->getTypeAllocSize(g.getValueType());
        uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 1);
        nextGv = (nextGv + al - 1) / al * al;
        gvAddr[&g] = nextGv;
        pendingGv[nextGv] = &g;
        nextGv += sz + 32;
        nextGv = (nextGv + 15) / 16 * 16;
      }
  }
  const Function* resolve(const Function* f) {
    if (!f->hasLocalLinkage()) {
      auto ai = alias.find(f->getName().str());
      if (ai != alias.end()) {
        auto it = fnByName.find(ai->second);
        if (it != fnByName.end()) return it->second;
      }
      auto it = fnByName.find(f->getName().str());
      if (it != fnByName.end() && (f->isDeclaration() || !it->second->hasLocalLinkage())) return it->second;
    }
    return f;
  }
  uint64_t functionAddr(const Function* f0) {
    const Function* f = resolve(f0);
    if (f->isDeclaration()) {
      auto& a = declAddr[f->getName().str()];
      if (!a) { a = nextFn; nextFn += 16; addrFn[a] = f; }
      return a;
    }
    auto& a = fnAddr[f];
    if (!a) { a = nextFn; nextFn += 16; addrFn[a] = f; }
    return a;
  }
  const GlobalVariable* resolveGv(const GlobalVariable* g) {
    if (g->isDeclaration() || !g->hasLocalLinkage()) {
      auto it = gvByName.find(g->getName().str());
      if (it != gvByName.end()) return it->second;
    }
    return g;
  }
  uint64_t globalAddr(const GlobalVariable* g0) {
    const GlobalVariable* g = resolveGv(g0);
    auto it = gvAddr.find(g);
    if (it != gvAddr.end()) return it->second;
    // external declaration without definition: opaque zeroed object
    static std::unordered_map<std::string, uint64_t> ext;
    auto& a = ext[g->getName().str()];
    if (!a) {
      uint64_t sz = g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 64;
      if (sz < 64) sz = 64;
      a = nextGv;
      nextGv += (sz + 47) / 16 * 16;
      auto o = std::make_shared<Obj>();
      o->base = a; o->size = sz; o->kind = OK_GLOBAL; o->name = g->getName().str();
      o->b.assign(sz, C.C(8, g->getName() == "__libc_single_threaded" ? 1 : 0));
      roMem[a] = o;
    }
    return a;
  }
  FnInfo* info(const Function* f) {
    auto& p = fi[f];
    if (!p) {
      p = std::make_unique<FnInfo>();
      p->f = f;
      p->strict = strictMods.count(f->getParent()) > 0;
      for (auto& a : f->args()) p->slot[&a] = p->n++;
      for (auto& b : *f)
        for (auto& i : b)
          if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++;
    }
    return p.get();
  }

  // ---------- failures ----------
  std::string demangle(const std::string& n) {
    int st = 0;
    char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
    std::string r = d ? d : n;
    free(d);
    return r;
  }
  std::string where(State& s) {
    if (s.st.empty()) return "?";
    return s.st.back()->fi->f->getName().str();
  }
  std::string trace(State& s) {
    std::string r;
    for (int i = (int)s.st.size() - 1; i >= 0 && i > (int)s.st.size() - 12; i--) {
      if (!r.empty()) r += " < ";
      r += s.st[i]->fi->f->getName().str();
    }
    return r;
  }
  void record(State& s, const std::string& kind, const std::string& msg, const Model& m) {
    if (spec) throw SpecAbort();
    std::string key = kind + "|" + msg + "|" + where(s);
    if (!failKeys.insert(key).second) return;
    Failure f;
    f.kind = kind; f.msg = msg; f.where = where(s); f.trace = trace(s);
    for (auto& i : s.inputs) f.inputs.push_back({i.name, {i.w, m.get(i.var) & maskw(i.w)}});
    failures.push_back(f);
  }
  [[noreturn]] void fail(State& s, const std::string& kind, const std::string& msg) {
    record(s, kind, msg, s.model);
    throw PathEnd{kind};
  }
  [[noreturn]] void unsup(State& s, const std::string& msg) {
    if (spec) throw SpecAbort();
    unsupported[msg + " @ " + where(s)]++;
    throw PathEnd{"unsupported"};
  }

  // ---------- constraints ----------
  std::vector<E> slice(State& s, E c) {
    std::vector<E> r{c};
    std::vector<char> used(s.pc.size(), 0);
    std::set<uint32_t> vs;
    for (auto v : C.supp(c)) vs.insert(v);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < s.pc.size(); i++) {
        if (used[i]) continue;
        const auto& sp = C.supp(s.pc[i]);
        bool hit = false;
        for (auto v : sp) if (vs.count(v)) { hit = true; break; }
        if (!hit) continue;
        used[i] = 1;
        ch = true;
        r.push_back(s.pc[i]);
        for (auto v : sp) vs.insert(v);
      }
    }
    return r;
  }
  Res feasible(State& s, E c, Model& m, bool branch = false) {
    if (Ctx::isC(c)) return c->val ? SAT : UNSAT;
    for (E p : s.pc) {
      if (p == c) return SAT;
      if (p->op == O_XOR && p->k[0] == c && Ctx::isOnes(p->k[1])) return UNSAT;
      if (c->op == O_XOR && c->k[0] == p && Ctx::isOnes(c->k[1])) return UNSAT;
    }
    auto v = slice(s, c);
    if (branch) {
      Res r = S.checkBytes(v, m);
      if (r != UNKNOWN) return r;
    }
    return S.check(v, m);
  }
  void addPc(State& s, E c) {
    if (Ctx::isC(c)) return;
    for (E p : s.pc) if (p == c) return;
    if (c->op == O_AND && c->w == 1) { addPc(s, c->k[0]); addPc(s, c->k[1]); return; }
    s.pc.push_back(c);
  }
  // Direction of the current path for condition c; the other feasible side is
  // forked off as a clone that re-executes the current instruction.
  bool decide(State& s, E c) {
    if (Ctx::isC(c)) return c->val != 0;
    if (spec) throw SpecAbort();
    bool d = C.eval(c, s.model) != 0;
    E other = d ? C.Not(c) : c;
    Model m = s.model;
    Res r = feasible(s, other, m, true);
    if (r != UNSAT) {
      auto n = std::make_unique<State>(s);
      n->model = m;
      addPc(*n, other);
      if (r == UNKNOWN) inconclusiveBranch++;
      work.push_back(std::move(n));
      forks++;
    }
    addPc(s, d ? c : C.Not(c));
    return d;
  }
  uint64_t inconclusiveBranch = 0;
  uint64_t concretize(State& s, E e) {
    if (Ctx::isC(e)) return (uint64_t)e->val;
    u128 v = C.eval(e, s.model);
    decide(s, C.Eq(e, C.C(e->w, v)));
    return (uint64_t)v;
  }
  void assume(State& s, E c) {
    if (Ctx::isC(c)) { if (!c->val) throw PathEnd{"assume"}; return; }
    if (!C.eval(c, s.model)) {
      Model m = s.model;
      Res r = feasible(s, c, m);
      if (r == UNSAT) throw PathEnd{"assume"};
      if (r == UNKNOWN) { inconclusiveBranch++; throw PathEnd{"assume-unknown"}; }
      s.model = m;
    }
    addPc(s, c);
  }
  // true if proven on all of the path
  bool obligation(State& s, E c, const std::string& kind, const std::string& msg) {
    if (spec) throw SpecAbort();
    obligations++;
    if (Ctx::isC(c) && c->val) { discharged++; trivially++; return true; }
    E nc = C.Not(c);
    if (!Ctx::isC(c) && !C.eval(c, s.model)) {
      record(s, kind, msg, s.model);
      return false;
    }
    if (Ctx::isC(c)) { record(s, kind, msg, s.model); return false; }
    Model m = s.model;
    Res r = feasible(s, nc, m);
    if (r == UNSAT) { discharged++; return true; }
    if (r == SAT) { record(s, kind, msg, m); return false; }
    inconclusive++;
    unsupported["solver gave no answer: " + msg]++;
    return false;
  }

  // ---------- memory ----------
  ObjP materialize(const GlobalVariable* g, uint64_t a) {
    auto o = std::make_shared<Obj>();
    o->base = a;
    o->size = DL->getTypeAllocSize(g->getValueType());
    o->kind = OK_GLOBAL;
    o->name = g->getName().str();
    o->b.assign(o->size, C.C(8, 0));
    if (g->hasInitializer()) writeConst(o->b, 0, g->getInitializer());
    o->ro = g->isConstant();
    o->tls = g->isThreadLocal();
    return o;
  }
  void writeConst(std::vector<E>& b, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
      auto* sl = DL->getStructLayout(cs->getType());
      for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(b, off + sl->getElementOffset(i), cs->getOperand(i));
      return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      uint64_t es = DL->getTypeAllocSize(cd->getElementType());
      for (unsigned i = 0; i < cd->getNumElements(); i++) writeConst(b, off + i * es, cd->getElementAsConstant(i));
      return;
    }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
      Type* et = isa<ConstantArray>(c) ? cast<ArrayType>(t)->getElementType() : cast<VectorType>(t)->getElementType();
      uint64_t es = DL->getTypeAllocSize(et);
      for (unsigned i = 0; i < c->getNumOperands(); i++) writeConst(b, off + i * es, cast<Constant>(c->getOperand(i)));
      return;
    }
    Val v = constVal(c);
    unsigned n = DL->getTypeStoreSize(t);
    E x = C.ZExt(v.e, n * 8);
    for (unsigned i = 0; i < n; i++) b[off + i] = C.Extract(x, i * 8, 8);
  }
  ObjP findObj(State& s, uint64_t a) {
    auto it = s.mem.upper_bound(a);
    if (it != s.mem.begin()) {
      --it;
      if (a >= it->first && a <= it->first + it->second->size) return it->second;
    }
    auto jt = roMem.upper_bound(a);
    if (jt != roMem.begin()) {
      --jt;
      if (a >= jt->first && a <= jt->first + jt->second->size) return jt->second;
    }
    auto pt = pendingGv.upper_bound(a);
    if (pt != pendingGv.begin()) {
      --pt;
      uint64_t sz = DL->getTypeAllocSize(pt->second->getValueType());
      if (a >= pt->first && a <= pt->first + sz) {
        auto o = materialize(pt->second, pt->first);
        // materialised globals are shared until written (copy on write into the state)
        roMem[pt->first] = o;
        pendingGv.erase(pt);
        return o;
      }
    }
    return nullptr;
  }
  Obj& writable(State& s, ObjP o) {
    auto it = s.mem.find(o->base);
    if (it == s.mem.end()) {
      auto n = std::make_shared<Obj>(*o);
      s.mem[o->base] = n;
      return *n;
    }
    if (it->second.use_count() > (it->second == o ? 2 : 1)) {
      it->second = std::make_shared<Obj>(*it->second);
    }
    return *it->second;
  }
  uint64_t alloc(State& s, uint64_t size, ObjKind k, const std::string& name, uint64_t align = 16, bool zero = false) {
    uint64_t& nx = k == OK_STACK ? s.stackNext : s.heapNext;
    if (align < 16) align = 16;
    nx = (nx + align - 1) / align * align;
    auto o = std::make_shared<Obj>();
    o->base = nx;
    o->size = size;
    o->kind = k;
    o->name = name;
    if (size > (1u << 26)) fail(s, "alloc", "allocation of " + std::to_string(size) + " bytes");
    o->b.assign(size, zero ? C.C(8, 0) : nullptr);
    s.mem[nx] = o;
    uint64_t r = nx;
    nx += (size + 15) / 16 * 16 + 64;
    if (k == OK_HEAP) s.heapLive++;
    return r;
  }
  std::string desc(const ObjP& o) {
    if (!o) return "no object";
    return std::string(o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : "global") + " object '" + o->name + "' of " + std::to_string(o->size) + " bytes";
  }
  // Resolve an access of n bytes at address `a`.  Returns the object; the
  // address may still be symbolic within it.
  ObjP access(State& s, E a, uint64_t n, bool write, const char* what) {
    if (n == 0) return nullptr;
    if (spec && !Ctx::isC(a)) throw SpecAbort();
    uint64_t a0 = (uint64_t)C.eval(a, s.model);
    if (!Ctx::isC(a)) {
      // provenance by the constant part of the address
      E base = nullptr;
      if (a->op == O_ADD && Ctx::isC(a->k[1])) base = a->k[1];
      ObjP o = base ? findObj(s, (uint64_t)base->val) : nullptr;
      bool prov = (bool)o;
      if (!o) o = findObj(s, a0);
      if (!o || !inb(o, a0, n)) {
        if (!prov) badAccess(s, o, a0, n, write, what);
      }
      if (o->alive) {
        E lo = C.C(64, o->base);
        E in;
        if (o->size >= n) {
          in = C.Ule(C.Sub(a, lo), C.C(64, o->size - n));
          if (o->symSize) in = C.And(in, C.And(C.Ule(C.C(64, n), o->symSize), C.Ule(C.Sub(a, lo), C.Sub(o->symSize, C.C(64, n)))));
        } else in = C.False;
        if (prov) {
          // any access outside o is an error
          E nin = C.Not(in);
          Model m = s.model;
          bool bad = false;
          if (!C.eval(in, s.model)) bad = true;
          else {
            // a table indexed by a byte: mostly in bounds whatever the path
            const auto& sp = C.supp(nin);
            Res r = sp.size() == 1 && C.vars[sp[0]].w <= 8 ? S.check({nin}, m) : SAT;
            if (r != UNSAT) { m = s.model; r = feasible(s, nin, m); }
            if (r == SAT) bad = true;
            else if (r == UNKNOWN) inconclusive++;
          }
          obligations++;
          if (bad) {
            uint64_t ab = (uint64_t)C.eval(a, m);
            C.invalidateEval();
            record(s, write ? "oob-write" : "oob-read", std::string(what) + ": " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)(ab - o->base)) + " of " + desc(o), m);
            // continue on the in-bounds part
            assume(s, in);
          } else { discharged++; addPcIf(s, in); }
        } else {
          if (!decide(s, in)) return access(s, a, n, write, what);
        }
      }
      checkObj(s, o, a0, n, write, what);
      return o;
    }
    ObjP o = findObj(s, a0);
    if (!o || !inb(o, a0, n)) badAccess(s, o, a0, n, write, what);
    checkObj(s, o, a0, n, write, what);
    if (o->symSize) {
      E in = C.Ule(C.C(64, a0 - o->base + n), o->symSize);
      if (!obligation(s, in, write ? "oob-write" : "oob-read", std::string(what) + " beyond the symbolic size of " + desc(o))) assume(s, in);
    }
    return o;
  }
  void addPcIf(State&, E) {}
  bool inb(const ObjP& o, uint64_t a, uint64_t n) { return a >= o->base && o->size >= n && a - o->base <= o->size - n; }
  [[noreturn]] void badAccess(State& s, ObjP o, uint64_t a, uint64_t n, bool write, const char* what) {
    std::string m = std::string(what) + ": " + std::to_string(n) + " bytes";
    if (a < 4096) fail(s, write ? "null-write" : "null-read", m + " through a null pointer");
    if (!o) {
      auto it = s.mem.upper_bound(a);
      if (it != s.mem.begin()) { --it; if (a - it->first < it->second->size + 64) o = it->second; }
      if (!o) { it = s.mem.upper_bound(a); if (it != s.mem.end() && it->first - a <= 64) o = it->second; }
    }
    if (o) fail(s, write ? "oob-write" : "oob-read", m + " at offset " + std::to_string((int64_t)(a - o->base)) + " of " + desc(o));
    fail(s, write ? "wild-write" : "wild-read", m + " at an address outside every object");
  }
  void checkObj(State& s, ObjP& o, uint64_t, uint64_t n, bool write, const char* what) {
    if (!o->alive) fail(s, o->kind == OK_STACK ? "use-after-return" : "use-after-free", std::string(what) + ": " + std::to_string(n) + " bytes in dead " + desc(o));
    if (write && o->ro) fail(s, "readonly-write", std::string(what) + ": write to read-only " + desc(o));
    if (write && s.frozen && shared(s, o)) fail(s, "shared-write", std::string(what) + ": write to " + desc(o) + ", which every execution shares");
  }
  bool shared(State& s, const ObjP& o) {
    if (s.frzOff || o->tls) return false;
    if (o->kind == OK_HEAP ? o->base >= s.frzHeap : o->kind == OK_STACK ? o->base >= s.frzStack : false) return false;
    return std::find(s.keep.begin(), s.keep.end(), o->base) == s.keep.end();
  }
  E readByte(State& s, const ObjP& o, uint64_t off) {
    E e = o->b[off];
    if (e) return e;
    Obj& w = writable(s, o);
    e = C.Var("uninit:" + o->name + "+" + std::to_string(off), 8, true);
    w.b[off] = e;
    return e;
  }
  E loadAt(State& s, ObjP o, uint64_t off, unsigned n) {
    E r = nullptr;
    for (unsigned i = 0; i < n; i++) {
      if (!o->b[off + i]) { readByte(s, o, off + i); o = findObj(s, o->base); }
      E x = o->b[off + i];
      r = r ? C.Concat(x, r) : x;
    }
    return r;
  }
  // an address that is a choice between a few known valid places
  bool choice(State& s, E a, uint64_t add, E guard, unsigned n, bool write, std::vector<std::pair<E, uint64_t>>& out) {
    if (Ctx::isC(a)) {
      uint64_t v = (uint64_t)a->val + add;
      ObjP o = findObj(s, v);
      if (!o || !inb(o, v, n) || !o->alive || o->symSize || (write && o->ro)) return false;
      out.push_back({guard, v});
      return out.size() <= 16;
    }
    if (a->op == O_ADD && Ctx::isC(a->k[1])) return choice(s, a->k[0], add + (uint64_t)a->k[1]->val, guard, n, write, out);
    if (a->op != O_ITE) return false;
    return choice(s, a->k[1], add, C.And(guard, a->k[0]), n, write, out) && choice(s, a->k[2], add, C.And(guard, C.Not(a->k[0])), n, write, out);
  }
  E loadBytes(State& s, E a, unsigned n, const char* what = "load") {
    std::vector<std::pair<E, uint64_t>> ch;
    if (!Ctx::isC(a) && choice(s, a, 0, C.True, n, false, ch)) {
      E r = nullptr;
      for (auto& c : ch) {
        ObjP o = findObj(s, c.second);
        E v = loadAt(s, o, c.second - o->base, n);
        r = r ? C.Ite(c.first, v, r) : v;
      }
      return r;
    }
    ObjP o = access(s, a, n, false, what);
    if (Ctx::isC(a)) return loadAt(s, o, (uint64_t)a->val - o->base, n);
    if (spec && s.forkLoads) throw SpecAbort();
    std::vector<uint64_t> cand = candidates(s, a, o, n, !s.forkLoads);
    if (cand.empty()) {
      uint64_t v = concretize(s, a);
      return loadAt(s, findObj(s, v), v - o->base, n);
    }
    if (s.forkLoads) {
      // the places that hold the value found under the current model
      uint64_t at = (uint64_t)C.eval(a, s.model) - o->base;
      E v = loadAt(s, o, at, n);
      if (Ctx::isC(v)) {
        o = findObj(s, o->base);
        E in = C.False, off = C.Sub(a, C.C(64, o->base));
        for (size_t i = 0; i < cand.size();) {
          auto eq = [&](size_t k) {
            for (unsigned b = 0; b < n; b++) { E x = o->b[cand[k] + b]; if (!x || !Ctx::isC(x) || x->val != C.Extract(v, b * 8, 8)->val) return false; }
            return true;
          };
          if (!eq(i)) { i++; continue; }
          size_t j = i;
          while (j + 1 < cand.size() && eq(j + 1)) j++;
          in = C.Or(in, i == j ? C.Eq(off, C.C(64, cand[i])) : C.Ule(C.Sub(off, C.C(64, cand[i])), C.C(64, cand[j] - cand[i])));
          i = j + 1;
        }
        if (decide(s, in)) return v;
      }
    }
    E r = nullptr;
    for (auto it = cand.rbegin(); it != cand.rend(); ++it) {
      o = findObj(s, o->base);
      E v = loadAt(s, o, *it, n);
      r = r ? C.Ite(C.Eq(a, C.C(64, o->base + *it)), v, r) : v;
    }
    return r;
  }
  std::vector<uint64_t> candidates(State& s, E a, ObjP o, unsigned n, bool prune = true) {
    E off = C.Sub(a, C.C(64, o->base));
    unsigned t = C.tz(off);
    if (t > 12) t = 12;
    uint64_t stride = 1ull << t;
    // the low bits of the offset are those of the constant part
    uint64_t first = 0;
    if (t == 0) {
      // look for base + (x << k) + const
      E v = off;
      uint64_t cst = 0;
      if (v->op == O_ADD && Ctx::isC(v->k[1])) { cst = (uint64_t)v->k[1]->val; v = v->k[0]; }
      unsigned t2 = C.tz(v);
      if (t2 > 12) t2 = 12;
      if (t2 > 0) { stride = 1ull << t2; first = cst & (stride - 1); }
    } else {
      E v = off;
      if (v->op == O_ADD && Ctx::isC(v->k[1])) {
        unsigned t2 = C.tz(v->k[0]);
        if (t2 > 12) t2 = 12;
        if (t2 > t) { stride = 1ull << t2; first = (uint64_t)v->k[1]->val & (stride - 1); }
      }
    }
    std::vector<uint64_t> r;
    if (o->size < n || (o->size - n) / stride > 1100) return r;
    for (uint64_t x = first; x + n <= o->size; x += stride) r.push_back(x);
    if (prune && r.size() > 48) {
      // prune by feasibility of the high half to keep ITE chains short
      uint64_t lo = 0, hi = r.size() - 1;
      Model m = s.model;
      while (lo < hi) {
        uint64_t mid = (lo + hi) / 2;
        m = s.model;
        if (feasible(s, C.Ult(C.C(64, r[mid]), off), m) == UNSAT) hi = mid; else lo = mid + 1;
      }
      r.resize(lo + 1);
    }
    return r;
  }
  void storeBytes(State& s, E a, E v, const char* what = "store") {
    unsigned n = v->w / 8;
    std::vector<std::pair<E, uint64_t>> ch;
    if (!Ctx::isC(a) && choice(s, a, 0, C.True, n, true, ch)) {
      if (spec) throw SpecAbort();
      for (auto& c : ch) {
        ObjP o = findObj(s, c.second);
        E old = loadAt(s, o, c.second - o->base, n);
        o = nullptr;
        Obj& w = writable(s, findObj(s, c.second));
        E x = C.Ite(c.first, v, old);
        for (unsigned i = 0; i < n; i++) w.b[c.second - w.base + i] = C.Extract(x, i * 8, 8);
      }
      return;
    }
    ObjP o = access(s, a, n, true, what);
    if (Ctx::isC(a)) {
      Obj& w = writable(s, o);
      uint64_t off = (uint64_t)a->val - w.base;
      for (unsigned i = 0; i < n; i++) w.b[off + i] = C.Extract(v, i * 8, 8);
      return;
    }
    std::vector<uint64_t> cand = candidates(s, a, o, n);
    if (cand.empty()) {
      uint64_t c = concretize(s, a);
      Obj& w = writable(s, findObj(s, c));
      for (unsigned i = 0; i < n; i++) w.b[c - w.base + i] = C.Extract(v, i * 8, 8);
      return;
    }
    uint64_t base = o->base;
    for (uint64_t off : cand)
      for (unsigned i = 0; i < n; i++) {
        ObjP p = findObj(s, base);
        if (!p->b[off + i]) readByte(s, p, off + i);
      }
    o = nullptr;
    Obj& w = writable(s, findObj(s, base));
    for (uint64_t off : cand) {
      E c = C.Eq(a, C.C(64, base + off));
      if (Ctx::isC(c) && !c->val) continue;
      for (unsigned i = 0; i < n; i++) w.b[off + i] = C.Ite(c, C.Extract(v, i * 8, 8), w.b[off + i]);
    }
  }

  // ---------- values ----------
  unsigned scalarBits(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isHalfTy() || t->isBFloatTy()) return 16;
    return 0;
  }
  bool isAggTy(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
  unsigned numElts(Type* t) {
    if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements();
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements();
    return cast<FixedVectorType>(t)->getNumElements();
  }
  Type* eltTy(Type* t, unsigned i) {
    if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i);
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getElementType();
    return cast<FixedVectorType>(t)->getElementType();
  }
  Val mkAgg(std::vector<Val> v) {
    Val r;
    r.agg = std::make_shared<std::vector<Val>>(std::move(v));
    return r;
  }
  Val undefVal(Type* t) {
    if (isAggTy(t)) {
      std::vector<Val> v;
      for (unsigned i = 0; i < numElts(t); i++) v.push_back(undefVal(eltTy(t, i)));
      return mkAgg(v);
    }
    unsigned w = scalarBits(t);
    if (!w) return Val(C.C(1, 0));
    return Val(C.Var("undef", w, true));
  }
  Val zeroVal(Type* t) {
    if (isAggTy(t)) {
      std::vector<Val> v;
      for (unsigned i = 0; i < numElts(t); i++) v.push_back(zeroVal(eltTy(t, i)));
      return mkAgg(v);
    }
    unsigned w = scalarBits(t);
    return Val(C.C(w ? w : 1, 0));
  }
  Val constVal(const Constant* c) {
    if (isa<UndefValue>(c)) return undefVal(c->getType());
    auto it = constMemo.find(c);
    if (it != constMemo.end()) return it->second;
    Val v = constVal1(c);
    constMemo[c] = v;
    return v;
  }
  static u128 apToU(const APInt& a) {
    u128 v = a.getRawData()[0];
    if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
    return v;
  }
  Val constVal1(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        std::vector<Val> v(vt->getNumElements(), Val(C.C(ci->getBitWidth(), apToU(ci->getValue()))));
        return mkAgg(v);
      }
      return Val(C.C(ci->getBitWidth(), apToU(ci->getValue())));
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
      APInt a = cf->getValueAPF().bitcastToAPInt();
      if (a.getBitWidth() > 64) { Val v(C.C(128, apToU(a))); return v; }
      E e = C.C(a.getBitWidth(), apToU(a));
      if (auto* vt = dyn_cast<FixedVectorType>(t)) return mkAgg(std::vector<Val>(vt->getNumElements(), Val(e)));
      return Val(e);
    }
    if (isa<ConstantPointerNull>(c)) return Val(C.C(64, 0));
    if (isa<ConstantAggregateZero>(c)) return zeroVal(t);
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      std::vector<Val> v;
      for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i)));
      return mkAgg(v);
    }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
      std::vector<Val> v;
      for (unsigned i = 0; i < c->getNumOperands(); i++) v.push_back(constVal(cast<Constant>(c->getOperand(i))));
      return mkAgg(v);
    }
    if (auto* f = dyn_cast<Function>(c)) return Val(C.C(64, functionAddr(f)));
    if (auto* g = dyn_cast<GlobalVariable>(c)) return Val(C.C(64, globalAddr(g)));
    if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      auto op = [&](unsigned i) { return constVal(ce->getOperand(i)).e; };
      switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
          unsigned w = scalarBits(t);
          return Val(C.ZExt(op(0), w));
        }
        case Instruction::Trunc: return Val(C.Extract(op(0), 0, scalarBits(t)));
        case Instruction::Add: return Val(C.Add(op(0), op(1)));
        case Instruction::Sub: return Val(C.Sub(op(0), op(1)));
        case Instruction::Xor: return Val(C.Xor(op(0), op(1)));
        case Instruction::GetElementPtr: {
          APInt off(64, 0);
          cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
          return Val(C.Add(op(0), C.C(64, off.getZExtValue())));
        }
        default: break;
      }
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    fprintf(stderr, "jfsym: unsupported constant %s\n", os.str().c_str());
    return zeroVal(t);
  }
  Val get(Frame& f, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constVal(c);
    return f.regs[f.fi->slot.lookup(v)];
  }
  E getE(Frame& f, const Value* v) { return get(f, v).e; }
  void set(Frame& f, const Instruction* i, Val v) { f.regs[f.fi->slot.lookup(i)] = std::move(v); }

  Val load(State& s, Type* t, E a, const char* what = "load") {
    if (t->isStructTy()) {
      auto* sl = DL->getStructLayout(cast<StructType>(t));
      std::vector<Val> v;
      for (unsigned i = 0; i < numElts(t); i++) v.push_back(load(s, eltTy(t, i), C.Add(a, C.C(64, sl->getElementOffset(i))), what));
      return mkAgg(v);
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t); vt && vt->getElementType()->isIntegerTy() && vt->getElementType()->getIntegerBitWidth() % 8) {
      unsigned eb = vt->getElementType()->getIntegerBitWidth();
      unsigned n = DL->getTypeStoreSize(t);
      E x = loadBytes(s, a, n, what);
      std::vector<Val> v;
      for (unsigned i = 0; i < numElts(t); i++) v.push_back(Val(C.Extract(x, i * eb, eb)));
      return mkAgg(v);
    }
    if (t->isArrayTy() || t->isVectorTy()) {
      Type* et = eltTy(t, 0);
      uint64_t es = t->isArrayTy() ? DL->getTypeAllocSize(et) : DL->getTypeStoreSize(et);
      // whole-object bounds first so that a vector access is checked as one
      access(s, a, es * numElts(t), false, what);
      std::vector<Val> v;
      for (unsigned i = 0; i < numElts(t); i++) v.push_back(load(s, et, C.Add(a, C.C(64, i * es)), what));
      return mkAgg(v);
    }
    unsigned n = DL->getTypeStoreSize(t), w = scalarBits(t);
    if (!w) unsup(s, "load of an unsupported type");
    E x = loadBytes(s, a, n, what);
    return Val(C.Extract(x, 0, w));
  }
  void store(State& s, Type* t, Val v, E a, const char* what = "store") {
    if (t->isStructTy()) {
      auto* sl = DL->getStructLayout(cast<StructType>(t));
      for (unsigned i = 0; i < numElts(t); i++) store(s, eltTy(t, i), (*v.agg)[i], C.Add(a, C.C(64, sl->getElementOffset(i))), what);
      return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t); vt && vt->getElementType()->isIntegerTy() && vt->getElementType()->getIntegerBitWidth() % 8) {
      E x = (*v.agg)[0].e;
      for (unsigned i = 1; i < numElts(t); i++) x = C.Concat((*v.agg)[i].e, x);
      storeBytes(s, a, C.ZExt(x, DL->getTypeStoreSize(t) * 8), what);
      return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
      Type* et = eltTy(t, 0);
      uint64_t es = t->isArrayTy() ? DL->getTypeAllocSize(et) : DL->getTypeStoreSize(et);
      access(s, a, es * numElts(t), true, what);
      for (unsigned i = 0; i < numElts(t); i++) store(s, et, (*v.agg)[i], C.Add(a, C.C(64, i * es)), what);
      return;
    }
    unsigned n = DL->getTypeStoreSize(t);
    if (!scalarBits(t)) unsup(s, "store of an unsupported type");
    storeBytes(s, a, C.ZExt(v.e, n * 8), what);
  }

  E poison(State&, bool strict, E bad, E v) {
    if (!strict || (Ctx::isC(bad) && !bad->val)) return v;
    return C.Ite(bad, C.Var("poison", v->w, true), v);
  }
  // signed/unsigned overflow predicates
  E ovAdd(E a, E b, bool sg) {
    unsigned w = a->w;
    E x = sg ? C.SExt(a, w + 1) : C.ZExt(a, w + 1), y = sg ? C.SExt(b, w + 1) : C.ZExt(b, w + 1);
    E r = C.Add(x, y);
    return C.Ne(r, sg ? C.SExt(C.Extract(r, 0, w), w + 1) : C.ZExt(C.Extract(r, 0, w), w + 1));
  }
  E ovSub(E a, E b, bool sg) {
    unsigned w = a->w;
    if (!sg) return C.Ult(a, b);
    E r = C.Sub(C.SExt(a, w + 1), C.SExt(b, w + 1));
    return C.Ne(r, C.SExt(C.Extract(r, 0, w), w + 1));
  }
  E ovMul(E a, E b, bool sg) {
    unsigned w = a->w;
    if (w > 64) return C.False;
    E x = sg ? C.SExt(a, 2 * w) : C.ZExt(a, 2 * w), y = sg ? C.SExt(b, 2 * w) : C.ZExt(b, 2 * w);
    E r = C.Mul(x, y);
    return C.Ne(r, sg ? C.SExt(C.Extract(r, 0, w), 2 * w) : C.ZExt(C.Extract(r, 0, w), 2 * w));
  }
  E binop(State& s, const Instruction* I, unsigned opc, E a, E b, bool strict) {
    switch (opc) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: {
        E r = opc == Instruction::Add ? C.Add(a, b) : opc == Instruction::Sub ? C.Sub(a, b) : C.Mul(a, b);
        if (strict) {
          auto* o = cast<OverflowingBinaryOperator>(I);
          E bad = C.False;
          for (int sg = 0; sg < 2; sg++)
            if (sg ? o->hasNoSignedWrap() : o->hasNoUnsignedWrap())
              bad = C.Or(bad, opc == Instruction::Add ? ovAdd(a, b, sg) : opc == Instruction::Sub ? ovSub(a, b, sg) : ovMul(a, b, sg));
          r = poison(s, true, bad, r);
        }
        return r;
      }
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        bool sg = opc == Instruction::SDiv || opc == Instruction::SRem;
        if (decide(s, C.Eq(b, C.C(b->w, 0)))) fail(s, "div-by-zero", "integer division by zero");
        if (sg && a->w > 1) {
          E ov = C.And(C.Eq(a, C.C(a->w, (u128)1 << (a->w - 1))), C.Eq(b, C.C(b->w, ~(u128)0)));
          if (decide(s, ov)) fail(s, "div-overflow", "integer division overflow (minimum by -1)");
        }
        switch (opc) {
          case Instruction::UDiv: return C.UDiv(a, b);
          case Instruction::SDiv: return C.SDiv(a, b);
          case Instruction::URem: return C.URem(a, b);
          default: return C.SRem(a, b);
        }
      }
      case Instruction::And: return C.And(a, b);
      case Instruction::Or: return C.Or(a, b);
      case Instruction::Xor: return C.Xor(a, b);
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        E r = opc == Instruction::Shl ? C.Shl(a, b) : opc == Instruction::LShr ? C.LShr(a, b) : C.AShr(a, b);
        E bad = C.Ule(C.C(b->w, b->w), b);
        return poison(s, true, bad, r);
      }
      case Instruction::FAdd: return C.F2(O_FADD, a, b);
      case Instruction::FSub: return C.F2(O_FSUB, a, b);
      case Instruction::FMul: return C.F2(O_FMUL, a, b);
      case Instruction::FDiv: return C.F2(O_FDIV, a, b);
      case Instruction::FRem: return C.Uf("m:fmod", a->w, {a, b});
      default: unsup(s, "binary operator");
    }
  }
  E fptoint(State& s, E a, unsigned w, bool sg) {
    // out of range is undefined: arbitrary result
    unsigned fw = a->w;
    double hi = ldexp(1.0, sg ? (int)w - 1 : (int)w), lo = sg ? -ldexp(1.0, (int)w - 1) : 0;
    E t = C.F1(O_FRND, a, fw, R_TZ);
    auto K = [&](double d) { return C.C(fw, Ctx::ofD(d, fw)); };
    E in = C.And(C.FCmp(O_FOLE, K(lo), t), C.FCmp(O_FOLT, t, K(hi)));
    E r = C.F1(sg ? O_FPTOSI : O_FPTOUI, a, w);
    if (Ctx::isC(a)) return Ctx::isC(in) && in->val ? r : C.Var("fptoint-poison", w, true);
    (void)s;
    // unconstrained outside the range; the same input gives the same value (as hardware does)
    E un = C.Uf(std::string(sg ? "u:fptosi" : "u:fptoui"), w, {a});
    return C.Ite(in, r, un);
  }
  E icmp(CmpInst::Predicate p, E a, E b) {
    switch (p) {
      case CmpInst::ICMP_EQ: return C.Eq(a, b);
      case CmpInst::ICMP_NE: return C.Ne(a, b);
      case CmpInst::ICMP_UGT: return C.Ult(b, a);
      case CmpInst::ICMP_UGE: return C.Ule(b, a);
      case CmpInst::ICMP_ULT: return C.Ult(a, b);
      case CmpInst::ICMP_ULE: return C.Ule(a, b);
      case CmpInst::ICMP_SGT: return C.Slt(b, a);
      case CmpInst::ICMP_SGE: return C.Sle(b, a);
      case CmpInst::ICMP_SLT: return C.Slt(a, b);
      case CmpInst::ICMP_SLE: return C.Sle(a, b);
      default: return C.False;
    }
  }
  E fcmp(CmpInst::Predicate p, E a, E b) {
    E un = C.FCmp(O_FUNO, a, b);
    switch (p) {
      case CmpInst::FCMP_FALSE: return C.False;
      case CmpInst::FCMP_TRUE: return C.True;
      case CmpInst::FCMP_OEQ: return C.FCmp(O_FOEQ, a, b);
      case CmpInst::FCMP_OGT: return C.FCmp(O_FOLT, b, a);
      case CmpInst::FCMP_OGE: return C.FCmp(O_FOLE, b, a);
      case CmpInst::FCMP_OLT: return C.FCmp(O_FOLT, a, b);
      case CmpInst::FCMP_OLE: return C.FCmp(O_FOLE, a, b);
      case CmpInst::FCMP_ONE: return C.And(C.Not(un), C.Not(C.FCmp(O_FOEQ, a, b)));
      case CmpInst::FCMP_ORD: return C.Not(un);
      case CmpInst::FCMP_UNO: return un;
      case CmpInst::FCMP_UEQ: return C.Or(un, C.FCmp(O_FOEQ, a, b));
      case CmpInst::FCMP_UGT: return C.Not(C.FCmp(O_FOLE, a, b));
      case CmpInst::FCMP_UGE: return C.Not(C.FCmp(O_FOLT, a, b));
      case CmpInst::FCMP_ULT: return C.Not(C.FCmp(O_FOLE, b, a));
      case CmpInst::FCMP_ULE: return C.Not(C.FCmp(O_FOLT, b, a));
      case CmpInst::FCMP_UNE: return C.Not(C.FCmp(O_FOEQ, a, b));
      default: return C.False;
    }
  }
  E castOp(State& s, unsigned opc, E a, Type* from, Type* to, bool strict, const Instruction* I) {
    unsigned w = scalarBits(to);
    (void)from; (void)strict; (void)I;
    if (!w) unsup(s, "cast to an unsupported type");
    switch (opc) {
      case Instruction::Trunc: return C.Extract(a, 0, w);
      case Instruction::ZExt: return C.ZExt(a, w);
      case Instruction::SExt: return C.SExt(a, w);
      case Instruction::PtrToInt: case Instruction::IntToPtr: return C.ZExt(a, w);
      case Instruction::FPTrunc: return C.F1(O_FPTRUNC, a, w);
      case Instruction::FPExt: return C.F1(O_FPEXT, a, w);
      case Instruction::SIToFP: return C.F1(O_SITOFP, a, w);
      case Instruction::UIToFP: return C.F1(O_UITOFP, a, w);
      case Instruction::FPToSI: return fptoint(s, a, w, true);
      case Instruction::FPToUI: return fptoint(s, a, w, false);
      default: unsup(s, "cast operator");
    }
  }
  E toBits(Val v, Type* t) {
    if (!v.isAgg()) return v.e;
    E x = nullptr;
    for (unsigned i = 0; i < v.agg->size(); i++) {
      E y = toBits((*v.agg)[i], eltTy(t, i));
      x = x ? C.Concat(y, x) : y;
    }
    return x;
  }
  Val fromBits(E x, Type* t) {
    if (!isAggTy(t)) return Val(x);
    unsigned n = numElts(t), w = x->w / n;
    std::vector<Val> v;
    for (unsigned i = 0; i < n; i++) v.push_back(fromBits(C.Extract(x, i * w, w), eltTy(t, i)));
    return mkAgg(v);
  }

  // ---------- calls ----------
  void flatten(Val v, std::vector<E>& out) {
    if (v.isAgg()) for (auto& x : *v.agg) flatten(x, out);
    else out.push_back(v.e);
  }
  Val reshape(Val v, Type* t) {
    // adapt a returned value to the type the caller expects
    if (t->isVoidTy()) return Val();
    std::vector<E> fl;
    flatten(v, fl);
    size_t i = 0;
    return reshape1(fl, i, t);
  }
  Val reshape1(std::vector<E>& fl, size_t& i, Type* t) {
    if (isAggTy(t)) {
      std::vector<Val> v;
      for (unsigned k = 0; k < numElts(t); k++) v.push_back(reshape1(fl, i, eltTy(t, k)));
      return mkAgg(v);
    }
    E e = i < fl.size() ? fl[i] : C.C(64, 0);
    i++;
    unsigned w = scalarBits(t);
    return Val(e->w == w ? e : C.ZExt(e, w));
  }
  // System V x86-64 argument placement as LLVM lowers a prototype: scalars take
  // the next integer or SSE register, then stack slots; a first-class struct is
  // lowered as its fields, one by one; byval memory lies in stack slots.
  typedef std::vector<E> Bytes8;  // one location; nullptr = unspecified byte
  struct Places {
    std::map<int, Bytes8> at;
    int gp = 0, sse = 0, slot = 0;
    int next(bool fp) {
      if (fp) return sse < 8 ? 100 + sse++ : 1000 + slot++;
      return gp < 6 ? gp++ : 1000 + slot++;
    }
  };
  void putScalar(Places& P, E e, Type* t) {
    Bytes8 b(8, nullptr);
    E x = e->w % 8 ? C.ZExt(e, (e->w + 7) / 8 * 8) : e;
    if (x->w > 64) { fprintf(stderr, "unsupported: argument wider than 64 bits\n"); x = C.Extract(x, 0, 64); }
    for (unsigned i = 0; i < x->w / 8; i++) b[i] = C.Extract(x, i * 8, 8);
    P.at[P.next(t->isFloatingPointTy())] = b;
  }
  void putArg(Places& P, Val v, Type* t) {
    if (isAggTy(t)) { for (unsigned i = 0; i < numElts(t); i++) putArg(P, (*v.agg)[i], eltTy(t, i)); return; }
    putScalar(P, v.e, t);
  }
  E getScalar(State& s, Places& from, Places& P, Type* t, const Function* f, unsigned idx) {
    auto it = from.at.find(P.next(t->isFloatingPointTy()));
    unsigned w = scalarBits(t), n = (w + 7) / 8;
    E x = nullptr;
    for (unsigned i = 0; i < n; i++) {
      E b = it == from.at.end() ? nullptr : it->second[i];
      if (!b) b = C.Var("uninit:parameter " + std::to_string(idx) + " of " + f->getName().str(), 8, true);
      x = x ? C.Concat(b, x) : b;
    }
    return x->w == w ? x : C.Extract(x, 0, w);
  }
  Val getArg(State& s, Places& from, Places& P, Type* t, const Function* f, unsigned idx) {
    if (!isAggTy(t)) return Val(getScalar(s, from, P, t, f, idx));
    std::vector<Val> v;
    for (unsigned i = 0; i < numElts(t); i++) v.push_back(getArg(s, from, P, eltTy(t, i), f, idx));
    return mkAgg(v);
  }
  void passArgs(State& s, const Function* f, std::vector<Val>& args, const CallBase* call) {
    Places from, to;
    for (unsigned i = 0; i < args.size(); i++) {
      if (!call->isByValArgument(i)) { putArg(from, args[i], call->getArgOperand(i)->getType()); continue; }
      uint64_t sz = DL->getTypeAllocSize(call->getParamByValType(i));
      uint64_t tmp = alloc(s, (sz + 7) / 8 * 8, OK_STACK, "byval");
      copyMem(s, C.C(64, tmp), args[i].e, sz, "byval argument");
      ObjP o = findObj(s, tmp);
      for (uint64_t k = 0; k < sz; k += 8) from.at[1000 + from.slot++] = Bytes8(o->b.begin() + k, o->b.begin() + k + 8);
    }
    std::vector<Val> out;
    unsigned idx = 0;
    for (auto& a : f->args()) {
      idx++;
      if (!a.hasByValAttr()) { out.push_back(getArg(s, from, to, a.getType(), f, idx)); continue; }
      uint64_t sz = DL->getTypeAllocSize(a.getParamByValType());
      uint64_t tmp = alloc(s, sz, OK_STACK, "byval");
      Obj& o = writable(s, findObj(s, tmp));
      for (uint64_t k = 0; k < sz; k += 8) {
        auto it = from.at.find(1000 + to.slot++);
        if (it == from.at.end()) continue;
        for (uint64_t j = k; j < sz && j < k + 8; j++) o.b[j] = it->second[j - k];
      }
      out.push_back(Val(C.C(64, tmp)));
    }
    args = out;
  }
  void pushCall(State& s, const Function* f, std::vector<Val> args, const CallBase* call) {
    if (s.st.size() > 400) fail(s, "stack-overflow", "call depth over 400");
    FnInfo* fn = info(f);
    encoded.insert(f->getName().str());
    auto fr = std::make_shared<Frame>();
    fr->fi = fn;
    fr->regs.resize(fn->n);
    fr->bb = &f->getEntryBlock();
    fr->it = fr->bb->begin();
    fr->call = call;
    // Caller and callee come from different compilers' views of the prototype:
    // pass the values through the registers and stack slots each side uses.
    bool placed = call && call->getFunctionType() != f->getFunctionType() && !f->isVarArg();
    if (placed) passArgs(s, f, args, call);
    unsigned i = 0;
    for (auto& a : f->args()) {
      if (i >= args.size()) break;
      Val v = args[i];
      if (a.hasByValAttr() && placed) {
        fr->allocas.push_back((uint64_t)v.e->val);
      } else if (a.hasByValAttr()) {
        Type* bt = a.getParamByValType();
        uint64_t sz = DL->getTypeAllocSize(bt);
        uint64_t p = alloc(s, sz, OK_STACK, "byval");
        fr->allocas.push_back(p);
        copyMem(s, C.C(64, p), v.e, sz, "byval argument");
        v = Val(C.C(64, p));
      } else if (!isAggTy(a.getType()) && !v.isAgg() && v.e && scalarBits(a.getType()) && v.e->w != scalarBits(a.getType())) {
        v = Val(C.ZExt(v.e, scalarBits(a.getType())));
      }
      fr->regs[fn->slot.lookup(&a)] = v;
      i++;
    }
    s.st.push_back(fr);
  }
  void copyMem(State& s, E dst, E src, uint64_t n, const char* what) {
    if (!n) return;
    access(s, src, n, false, what);
    access(s, dst, n, true, what);
    std::vector<E> tmp(n);
    if (Ctx::isC(src)) {
      ObjP o = findObj(s, (uint64_t)src->val);
      uint64_t off = (uint64_t)src->val - o->base;
      for (uint64_t i = 0; i < n; i++) tmp[i] = o->b[off + i];  // copies uninit as uninit
    } else {
      for (uint64_t i = 0; i < n; i++) tmp[i] = loadBytes(s, C.Add(src, C.C(64, i)), 1, what);
    }
    if (Ctx::isC(dst)) {
      Obj& w = writable(s, findObj(s, (uint64_t)dst->val));
      uint64_t off = (uint64_t)dst->val - w.base;
      for (uint64_t i = 0; i < n; i++) w.b[off + i] = tmp[i];
    } else {
      for (uint64_t i = 0; i < n; i++) storeBytes(s, C.Add(dst, C.C(64, i)), tmp[i] ? tmp[i] : C.Var("uninit:copy", 8, true), what);
    }
  }
  void setMem(State& s, E dst, E v, uint64_t n, const char* what) {
    if (!n) return;
    access(s, dst, n, true, what);
    if (!Ctx::isC(dst)) dst = C.C(64, concretize(s, dst));
    Obj& w = writable(s, findObj(s, (uint64_t)dst->val));
    uint64_t off = (uint64_t)dst->val - w.base;
    for (uint64_t i = 0; i < n; i++) w.b[off + i] = v;
  }
  E cmpMem(State& s, E a, E b, uint64_t n, bool eqOnly) {
    if (!n) return C.C(32, 0);
    access(s, a, n, false, "memcmp");
    access(s, b, n, false, "memcmp");
    E r = C.C(32, 0);
    E any = C.False;
    for (uint64_t i = n; i-- > 0;) {
      E x = loadBytes(s, C.Add(a, C.C(64, i)), 1), y = loadBytes(s, C.Add(b, C.C(64, i)), 1);
      E ne = C.Ne(x, y);
      if (eqOnly) any = C.Or(any, ne);
      else r = C.Ite(ne, C.Ite(C.Ult(x, y), C.C(32, ~(u128)0), C.C(32, 1)), r);
    }
    if (eqOnly) return C.ZExt(any, 32);
    return r;
  }
  // a length used by memcpy & co: concretised after checking both ends
  uint64_t memLen(State& s, E n, E dst, E src, const char* what) {
    if (Ctx::isC(n)) return (uint64_t)n->val;
    for (int k = 0; k < 2; k++) {
      E p = k ? src : dst;
      if (!p || !Ctx::isC(p)) continue;
      ObjP o = findObj(s, (uint64_t)p->val);
      E zero = C.Eq(n, C.C(64, 0));
      if (!o) {
        if (decide(s, zero)) return 0;
        badAccess(s, nullptr, (uint64_t)p->val, 1, !k, what);
      }
      uint64_t room = o->size - ((uint64_t)p->val - o->base);
      E ok = C.Ule(n, C.C(64, room));
      if (o->symSize) ok = C.And(ok, C.Ule(C.Add(n, C.C(64, (uint64_t)p->val - o->base)), o->symSize));
      if (!obligation(s, ok, k ? "oob-read" : "oob-write", std::string(what) + " length exceeds " + desc(o))) assume(s, ok);
    }
    if (stopAfterSymLen) throw PathEnd{"symlen"};
    return concretize(s, n);
  }
  bool stopAfterSymLen = false;
  std::string cstr(State& s, E p) {
    std::string r;
    uint64_t a = concretize(s, p);
    for (int i = 0; i < 4096; i++) {
      uint64_t c = concretize(s, loadBytes(s, C.C(64, a + i), 1));
      if (!c) break;
      r += (char)c;
    }
    return r;
  }
  uint64_t heapAlloc(State& s, E n, bool zero = false, uint64_t align = 16) {
    if (!Ctx::isC(n)) {
      // allocations of symbolic size: bounded, else concretised
      if (symAlloc) {
        uint64_t a = alloc(s, symAllocMax, OK_HEAP, "heap(sym) in " + callerName(s), align, zero);
        Obj& w = *s.mem[a];
        w.symSize = n;
        return a;
      }
    }
    uint64_t v = concretize(s, n);
    if (v > (1ull << 26)) fail(s, "alloc", "allocation of " + std::to_string(v) + " bytes (over 64 MiB)");
    return alloc(s, v, OK_HEAP, "heap in " + callerName(s), align, zero);
  }
  bool symAlloc = false;
  uint64_t symAllocMax = 1 << 16;
  std::string callerName(State& s) {
    for (int i = (int)s.st.size() - 1; i >= 0; i--) {
      std::string n = s.st[i]->fi->f->getName().str();
      if (n.find("jfstub_") == std::string::npos && n.find("llocat") == std::string::npos) return n;
    }
    return "?";
  }
  void freeObj(State& s, E p, const char* what) {
    uint64_t a = concretize(s, p);
    if (!a) return;
    ObjP o = findObj(s, a);
    if (!o || o->base != a || o->kind != OK_HEAP) fail(s, "bad-free", std::string(what) + " of a pointer that is not the start of a heap object");
    if (!o->alive) fail(s, "double-free", std::string(what) + " of dead " + desc(o));
    if (s.frozen && shared(s, o)) fail(s, "shared-write", std::string(what) + " of " + desc(o) + ", which every execution shares");
    Obj& w = writable(s, o);
    w.alive = false;
    s.heapLive--;
  }

  // Returns true if handled (result in `out`).
  bool model(State& s, const std::string& n, const std::vector<Val>& a, const CallBase* cb, Val& out) {
    Type* rt = cb ? cb->getType() : nullptr;
    auto A = [&](unsigned i) { return a[i].e; };
    if (n.rfind("jf_", 0) == 0) return harnessCall(s, n, a, rt, out);
    if (n == "malloc" || n == "_Znwm" || n == "_Znam") { out = Val(C.C(64, heapAlloc(s, A(0)))); return true; }
    if (n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { out = Val(C.C(64, heapAlloc(s, A(0)))); return true; }
    if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") { out = Val(C.C(64, heapAlloc(s, A(0), false, concretize(s, A(1))))); return true; }
    if (n == "aligned_alloc") { out = Val(C.C(64, heapAlloc(s, A(1), false, concretize(s, A(0))))); return true; }
    if (n == "calloc") { out = Val(C.C(64, heapAlloc(s, C.Mul(A(0), A(1)), true))); return true; }
    if (n == "realloc") {
      uint64_t p = concretize(s, A(0)), sz = concretize(s, A(1));
      uint64_t q = alloc(s, sz, OK_HEAP, "heap in " + callerName(s));
      if (p) {
        ObjP o = findObj(s, p);
        if (!o || o->base != p || !o->alive) fail(s, "bad-free", "realloc of a bad pointer");
        copyMem(s, C.C(64, q), C.C(64, p), std::min(sz, o->size), "realloc");
        freeObj(s, C.C(64, p), "realloc");
      }
      out = Val(C.C(64, q));
      return true;
    }
    if (n == "free" || n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t" || n == "_ZdaPvSt11align_val_t") {
      freeObj(s, A(0), n == "free" ? "free" : "delete");
      return true;
    }
    if (n == "memcpy" || n == "memmove") {
      uint64_t k = memLen(s, A(2), A(0), A(1), n.c_str());
      copyMem(s, A(0), A(1), k, n.c_str());
      out = a[0];
      return true;
    }
    if (n == "memset") {
      uint64_t k = memLen(s, A(2), A(0), nullptr, "memset");
      setMem(s, A(0), C.Extract(A(1), 0, 8), k, "memset");
      out = a[0];
      return true;
    }
    if (n == "memcmp" || n == "bcmp") {
      out = Val(cmpMem(s, A(0), A(1), memLen(s, A(2), A(0), A(1), "memcmp"), n == "bcmp"));
      return true;
    }
    if (n == "strlen") {
      uint64_t p = concretize(s, A(0));
      uint64_t k = 0;
      while (!decide(s, C.Eq(loadBytes(s, C.C(64, p + k), 1, "strlen"), C.C(8, 0)))) k++;
      out = Val(C.C(64, k));
      return true;
    }
    if (n == "memchr") {
      uint64_t p = concretize(s, A(0)), k = concretize(s, A(2));
      E ch = C.Extract(A(1), 0, 8);
      out = Val(C.C(64, 0));
      for (uint64_t i = 0; i < k; i++)
        if (decide(s, C.Eq(loadBytes(s, C.C(64, p + i), 1, "memchr"), ch))) { out = Val(C.C(64, p + i)); break; }
      return true;
    }
    if (n == "__cxa_guard_acquire") {
      uint64_t v = concretize(s, loadBytes(s, A(0), 1));
      out = Val(C.C(32, v ? 0 : 1));
      if (!v) s.frzOff++;
      return true;
    }
    if (n == "__cxa_guard_release") { storeBytes(s, A(0), C.C(8, 1)); s.frzOff--; return true; }
    if (n == "pthread_mutex_lock" || n == "pthread_mutex_unlock") {
      s.frzOff += n == "pthread_mutex_lock" ? 1 : -1;
      out = Val(C.C(32, 0));
      return true;
    }
    if (n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "atexit" || n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev" || n == "__cxa_thread_atexit") {
      if (rt && !rt->isVoidTy()) out = zeroVal(rt);
      return true;
    }
    if (n == "_ZSt9terminatev" || n == "abort" || n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || n == "exit" || n == "_exit" || n == "__cxa_pure_virtual" || n == "__stack_chk_fail" || n == "__clang_call_terminate")
      fail(s, "abort", "reached " + n);
    if (n == "__cxa_throw") {
      uint64_t obj = concretize(s, A(0)), ti = concretize(s, A(1));
      const GlobalVariable* g = nullptr;
      for (auto& x : gvAddr) if (x.second == ti) g = x.first;
      s.exc[obj] = g;
      if (g && handled(s, g, cb)) { unwind(s, obj, g, cb); throw Unwound(); }
      if (s.allowThrow) throw PathEnd{"throw"};
      fail(s, "exception", "uncaught C++ exception");
    }
    if (n == "__cxa_allocate_exception") { out = Val(C.C(64, alloc(s, 256, OK_HEAP, "exception"))); s.heapLive--; return true; }
    if (n == "__cxa_free_exception") return true;
    if (n == "__cxa_rethrow" || n == "_Unwind_Resume") fail(s, "exception", "reached " + n);
    if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") { out = Val(A(0)); return true; }
    if (n == "__cxa_end_catch") return true;
    if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) {
      if (s.allowThrow) throw PathEnd{"throw"};
      fail(s, "exception", "uncaught exception from " + demangle(n));
    }
    if (n == "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm") { out = Val(C.C(64, 1)); return true; }
    if (n == "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm") { out = mkAgg({Val(C.C(8, 0)), Val(C.C(64, 0))}); out = reshape(out, rt); return true; }
    if (n == "_ZSt11_Hash_bytesPKvmm") { out = Val(C.C(64, 0)); return true; }
    // libm
    static const std::map<std::string, std::pair<std::string, int>> libm = {
        {"exp", {"m:exp", 64}}, {"log", {"m:log", 64}}, {"log2", {"m:log2", 64}}, {"log10", {"m:log10", 64}}, {"sin", {"m:sin", 64}}, {"cos", {"m:cos", 64}},
        {"tan", {"m:tan", 64}}, {"expf", {"m:exp", 32}}, {"logf", {"m:log", 32}}, {"log2f", {"m:log2", 32}}, {"log10f", {"m:log10", 32}}, {"sinf", {"m:sin", 32}},
        {"cosf", {"m:cos", 32}}, {"tanf", {"m:tan", 32}}};
    auto lm = libm.find(n);
    if (lm != libm.end()) { out = Val(C.Uf(lm->second.first, lm->second.second, {A(0)})); return true; }
    if (n == "pow" || n == "powf") { out = Val(C.Uf("m:pow", A(0)->w, {A(0), A(1)})); return true; }
    if (n == "fmod" || n == "fmodf") { out = Val(C.Uf("m:fmod", A(0)->w, {A(0), A(1)})); return true; }
    if (n == "sqrt" || n == "sqrtf") { out = Val(C.F1(O_FSQRT, A(0), A(0)->w)); return true; }
    static const std::map<std::string, int> rnd = {{"ceil", R_TP}, {"ceilf", R_TP}, {"floor", R_TN}, {"floorf", R_TN}, {"trunc", R_TZ}, {"truncf", R_TZ}, {"round", R_NA}, {"roundf", R_NA}, {"rint", R_NE}, {"rintf", R_NE}, {"nearbyint", R_NE}, {"nearbyintf", R_NE}};
    auto rm = rnd.find(n);
    if (rm != rnd.end()) { out = Val(C.F1(O_FRND, A(0), A(0)->w, rm->second)); return true; }
    if (n == "fabs" || n == "fabsf") { out = Val(C.And(A(0), C.C(A(0)->w, maskw(A(0)->w - 1)))); return true; }
    if (n == "fmin" || n == "fminf" || n == "fmax" || n == "fmaxf") { out = Val(minmaxnum(A(0), A(1), n[2] == 'i')); return true; }
    if (n == "printf" || n == "puts" || n == "fprintf" || n == "fwrite" || n == "fflush" || n == "putchar" || n == "fputs" || n == "fputc") { if (rt && !rt->isVoidTy()) out = zeroVal(rt); return true; }
    return false;
  }
  E minmaxnum(E a, E b, bool mn) {
    E na = C.FIsNan(a), nb = C.FIsNan(b);
    E lt = mn ? C.FCmp(O_FOLT, a, b) : C.FCmp(O_FOLT, b, a);
    // equal operands (also -0/+0): either may be returned; take b unless a is strictly better
    return C.Ite(na, b, C.Ite(nb, a, C.Ite(lt, a, b)));
  }
  bool harnessCall(State& s, const std::string& n, const std::vector<Val>& a, Type* rt, Val& out) {
    auto A = [&](unsigned i) { return a[i].e; };
    if (n == "jf_sym") {
      uint64_t p = concretize(s, A(0)), es = concretize(s, A(1)), k = concretize(s, A(2));
      std::string nm = cstr(s, A(3));
      for (uint64_t i = 0; i < k; i++) {
        std::string vn = k == 1 ? nm : nm + "[" + std::to_string(i) + "]";
        E v = C.Var(vn, es * 8);
        s.inputs.push_back({vn, v->aux, (unsigned)es * 8});
        storeBytes(s, C.C(64, p + i * es), v);
      }
      return true;
    }
    if (n == "jf_assume") { assume(s, C.Ne(A(0), C.C(A(0)->w, 0))); return true; }
    if (n == "jf_assert") {
      E c = C.Ne(A(0), C.C(A(0)->w, 0));
      std::string msg = cstr(s, A(1));
      if (!obligation(s, c, "assert", msg)) assume(s, c);
      return true;
    }
    if (n == "jf_cover") { covers.insert(cstr(s, A(0))); return true; }
    if (n == "jf_concretize") { out = Val(C.C(64, concretize(s, A(0)))); return true; }
    if (n == "jf_readonly" || n == "jf_writable") {
      uint64_t p = concretize(s, A(0));
      ObjP o = findObj(s, p);
      if (o) writable(s, o).ro = n == "jf_readonly";
      return true;
    }
    if (n == "jf_freeze") {
      s.frozen = concretize(s, A(0)) != 0;
      s.frzHeap = s.heapNext; s.frzStack = s.stackNext;
      if (!s.frozen) s.keep.clear();
      return true;
    }
    if (n == "jf_keep") {
      ObjP o = findObj(s, concretize(s, A(0)));
      if (o) s.keep.push_back(o->base);
      return true;
    }
    if (n == "jf_heap_live") { out = Val(C.C(64, (uint64_t)s.heapLive)); return true; }
    if (n == "jf_symbolic") { out = Val(C.C(32, !Ctx::isC(A(0)))); return true; }
    if (n == "jf_is_sym") { out = Val(C.C(32, 1)); return true; }
    if (n == "jf_obj_size") {
      ObjP o = findObj(s, concretize(s, A(0)));
      out = Val(C.C(64, o ? o->size : 0));
      return true;
    }
    if (n == "jf_allow_throw") { s.allowThrow = concretize(s, A(0)) != 0; return true; }
    if (n == "jf_end") throw PathEnd{"done"};
    if (n == "jf_kill") throw PathEnd{"assume"};
    if (n == "jf_fork_loads") { s.forkLoads = concretize(s, A(0)) != 0; return true; }
    if (n == "jf_symlen_stop") { stopAfterSymLen = concretize(s, A(0)) != 0; return true; }
    if (n == "jf_sym_alloc") { symAllocMax = concretize(s, A(0)); symAlloc = symAllocMax != 0; return true; }
    if (n == "jf_debug") {
      std::string v = Ctx::isC(A(1)) ? std::to_string((uint64_t)A(1)->val) : "sym(model " + std::to_string((uint64_t)C.eval(A(1), s.model)) + ")";
      fprintf(stderr, "[jf] %s = %s\n", cstr(s, A(0)).c_str(), v.c_str());
      return true;
    }
    if (n == "jf_ite64") { out = Val(C.Ite(C.Ne(A(0), C.C(A(0)->w, 0)), A(1), A(2))); return true; }
    (void)rt;
    return false;
  }

  E reduceBits(E x, bool andOp) { return andOp ? C.Eq(x, C.C(x->w, ~(u128)0)) : C.Ne(x, C.C(x->w, 0)); }
  E ctpop(E x) {
    E r = C.C(x->w, 0);
    for (unsigned i = 0; i < x->w; i++) r = C.Add(r, C.ZExt(C.Extract(x, i, 1), x->w));
    return r;
  }
  E ctz(E x, bool lead) {
    E r = C.C(x->w, x->w);
    for (unsigned i = 0; i < x->w; i++) {
      unsigned b = lead ? i : x->w - 1 - i;
      r = C.Ite(C.Extract(x, b, 1), C.C(x->w, lead ? x->w - 1 - b : b), r);
    }
    return r;
  }
  // scalar intrinsics, applied per lane
  bool scalarIntrinsic(State& s, const IntrinsicInst* I, Intrinsic::ID id, const std::vector<E>& a, Type* rt, bool strict, E& r) {
    unsigned w = a.empty() ? 0 : a[0]->w;
    switch (id) {
      case Intrinsic::umin: r = C.Ite(C.Ult(a[0], a[1]), a[0], a[1]); return true;
      case Intrinsic::umax: r = C.Ite(C.Ult(a[1], a[0]), a[0], a[1]); return true;
      case Intrinsic::smin: r = C.Ite(C.Slt(a[0], a[1]), a[0], a[1]); return true;
      case Intrinsic::smax: r = C.Ite(C.Slt(a[1], a[0]), a[0], a[1]); return true;
      case Intrinsic::abs: {
        r = C.Ite(C.Slt(a[0], C.C(w, 0)), C.Neg(a[0]), a[0]);
        if (strict && Ctx::isC(a[1]) && a[1]->val) r = poison(s, true, C.Eq(a[0], C.C(w, (u128)1 << (w - 1))), r);
        return true;
      }
      case Intrinsic::ctpop: r = ctpop(a[0]); return true;
      case Intrinsic::ctlz: r = ctz(a[0], true); return true;
      case Intrinsic::cttz: r = ctz(a[0], false); return true;
      case Intrinsic::bswap: {
        r = nullptr;
        for (unsigned i = 0; i < w / 8; i++) { E b = C.Extract(a[0], i * 8, 8); r = r ? C.Concat(r, b) : b; }
        return true;
      }
      case Intrinsic::bitreverse: {
        r = nullptr;
        for (unsigned i = 0; i < w; i++) { E b = C.Extract(a[0], i, 1); r = r ? C.Concat(r, b) : b; }
        return true;
      }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        E sh = C.URem(a[2], C.C(w, w));
        if (w > 64) unsup(s, "wide funnel shift");
        E cc = C.Concat(a[0], a[1]);
        E sw = C.ZExt(sh, 2 * w);
        r = id == Intrinsic::fshl ? C.Extract(C.Shl(cc, sw), w, w) : C.Extract(C.LShr(cc, sw), 0, w);
        return true;
      }
      case Intrinsic::sadd_sat: case Intrinsic::uadd_sat: case Intrinsic::ssub_sat: case Intrinsic::usub_sat: {
        bool sg = id == Intrinsic::sadd_sat || id == Intrinsic::ssub_sat, add = id == Intrinsic::sadd_sat || id == Intrinsic::uadd_sat;
        E ov = add ? ovAdd(a[0], a[1], sg) : ovSub(a[0], a[1], sg);
        E v = add ? C.Add(a[0], a[1]) : C.Sub(a[0], a[1]);
        E sat = sg ? C.Ite(C.Slt(a[0], C.C(w, 0)), C.C(w, (u128)1 << (w - 1)), C.C(w, maskw(w - 1))) : add ? C.C(w, maskw(w)) : C.C(w, 0);
        r = C.Ite(ov, sat, v);
        return true;
      }
      case Intrinsic::fabs: r = C.And(a[0], C.C(w, maskw(w - 1))); return true;
      case Intrinsic::copysign: r = C.Or(C.And(a[0], C.C(w, maskw(w - 1))), C.And(a[1], C.C(w, (u128)1 << (w - 1)))); return true;
      case Intrinsic::minnum: r = minmaxnum(a[0], a[1], true); return true;
      case Intrinsic::maxnum: r = minmaxnum(a[0], a[1], false); return true;
      case Intrinsic::minimum: case Intrinsic::maximum: {
        bool mn = id == Intrinsic::minimum;
        E un = C.FCmp(O_FUNO, a[0], a[1]);
        E lt = C.FCmp(O_FOLT, a[0], a[1]);
        E eq = C.FCmp(O_FOEQ, a[0], a[1]);
        E z = mn ? C.Or(a[0], a[1]) : C.And(a[0], a[1]);
        E nan = C.C(w, w == 64 ? (u128)0x7ff8000000000000ull : (u128)0x7fc00000u);
        r = C.Ite(un, nan, C.Ite(eq, C.Ite(C.Eq(a[0], a[1]), a[0], z), mn ? C.Ite(lt, a[0], a[1]) : C.Ite(lt, a[1], a[0])));
        return true;
      }
      case Intrinsic::sqrt: r = C.F1(O_FSQRT, a[0], w); return true;
      case Intrinsic::fma: r = C.Fma(a[0], a[1], a[2]); return true;
      case Intrinsic::fmuladd: r = C.F2(O_FADD, C.F2(O_FMUL, a[0], a[1]), a[2]); return true;
      case Intrinsic::ceil: r = C.F1(O_FRND, a[0], w, R_TP); return true;
      case Intrinsic::floor: r = C.F1(O_FRND, a[0], w, R_TN); return true;
      case Intrinsic::trunc: r = C.F1(O_FRND, a[0], w, R_TZ); return true;
      case Intrinsic::round: r = C.F1(O_FRND, a[0], w, R_NA); return true;
      case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r = C.F1(O_FRND, a[0], w, R_NE); return true;
      case Intrinsic::exp: r = C.Uf("m:exp", w, {a[0]}); return true;
      case Intrinsic::log: r = C.Uf("m:log", w, {a[0]}); return true;
      case Intrinsic::log2: r = C.Uf("m:log2", w, {a[0]}); return true;
      case Intrinsic::log10: r = C.Uf("m:log10", w, {a[0]}); return true;
      case Intrinsic::sin: r = C.Uf("m:sin", w, {a[0]}); return true;
      case Intrinsic::cos: r = C.Uf("m:cos", w, {a[0]}); return true;
      case Intrinsic::tan: r = C.Uf("m:tan", w, {a[0]}); return true;
      case Intrinsic::pow: r = C.Uf("m:pow", w, {a[0], a[1]}); return true;
      case Intrinsic::powi: r = C.Uf("i:powi", w, {a[0], C.SExt(a[1], w)}); return true;
      case Intrinsic::is_fpclass: {
        unsigned mask = (unsigned)a[1]->val;
        E ab = C.And(a[0], C.C(w, maskw(w - 1)));
        E inf = C.C(w, w == 64 ? (u128)0x7ff0000000000000ull : (u128)0x7f800000u);
        E qb = C.C(w, w == 64 ? (u128)0x0008000000000000ull : (u128)0x00400000u);
        E minn = C.C(w, w == 64 ? (u128)0x0010000000000000ull : (u128)0x00800000u);
        E neg = C.Extract(a[0], w - 1, 1);
        E nan = C.Ult(inf, ab), isinf = C.Eq(ab, inf), zero = C.Eq(ab, C.C(w, 0));
        E sub = C.And(C.Not(zero), C.Ult(ab, minn));
        E norm = C.And(C.Ule(minn, ab), C.Ult(ab, inf));
        E q = C.Ne(C.And(a[0], qb), C.C(w, 0));
        r = C.False;
        auto add = [&](unsigned bit, E c) { if (mask & bit) r = C.Or(r, c); };
        add(1, C.And(nan, C.Not(q))); add(2, C.And(nan, q));
        add(4, C.And(isinf, neg)); add(8, C.And(norm, neg)); add(16, C.And(sub, neg)); add(32, C.And(zero, neg));
        add(64, C.And(zero, C.Not(neg))); add(128, C.And(sub, C.Not(neg))); add(256, C.And(norm, C.Not(neg))); add(512, C.And(isinf, C.Not(neg)));
        return true;
      }
      case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: {
        bool sg = id == Intrinsic::fptosi_sat;
        unsigned rw = scalarBits(rt);
        double hi = ldexp(1.0, sg ? (int)rw - 1 : (int)rw), lo = sg ? -ldexp(1.0, (int)rw - 1) : 0;
        E t = C.F1(O_FRND, a[0], w, R_TZ);
        auto K = [&](double d) { return C.C(w, Ctx::ofD(d, w)); };
        E mx = C.C(rw, sg ? maskw(rw - 1) : maskw(rw)), mn = C.C(rw, sg ? (u128)1 << (rw - 1) : 0);
        r = C.Ite(C.FIsNan(a[0]), C.C(rw, 0), C.Ite(C.FCmp(O_FOLT, t, K(lo)), mn, C.Ite(C.FCmp(O_FOLE, K(hi), t), mx, C.F1(sg ? O_FPTOSI : O_FPTOUI, a[0], rw))));
        return true;
      }
      case Intrinsic::scmp: case Intrinsic::ucmp: {
        bool sg = id == Intrinsic::scmp;
        unsigned rw = scalarBits(rt);
        E lt = sg ? C.Slt(a[0], a[1]) : C.Ult(a[0], a[1]), gt = sg ? C.Slt(a[1], a[0]) : C.Ult(a[1], a[0]);
        r = C.Ite(lt, C.C(rw, ~(u128)0), C.Ite(gt, C.C(rw, 1), C.C(rw, 0)));
        return true;
      }
      default: (void)I; return false;
    }
  }
  // returns true if handled as an intrinsic
  bool intrinsic(State& s, Frame& f, const IntrinsicInst* I, Val& out) {
    auto id = I->getIntrinsicID();
    Type* rt = I->getType();
    auto arg = [&](unsigned i) { return get(f, I->getArgOperand(i)); };
    switch (id) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch:
      case Intrinsic::sideeffect: case Intrinsic::vastart: case Intrinsic::vaend:
        return true;
      case Intrinsic::stacksave: out = Val(C.C(64, 0)); return true;
      case Intrinsic::stackrestore: return true;
      case Intrinsic::invariant_start: out = Val(C.C(64, 0)); return true;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
        out = arg(0); return true;
      case Intrinsic::load_relative: {
        E p = arg(0).e;
        E off = arg(1).e;
        if (scalarBits(I->getArgOperand(1)->getType()) < 64) off = C.SExt(off, 64);
        out = Val(C.Add(p, C.SExt(load(s, Type::getInt32Ty(I->getContext()), C.Add(p, off)).e, 64)));
        return true;
      }
      case Intrinsic::threadlocal_address: out = arg(0); return true;
      case Intrinsic::is_constant: out = Val(C.C(1, 0)); return true;
      case Intrinsic::objectsize: out = Val(C.C(scalarBits(rt), ~(u128)0)); return true;
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail(s, "abort", "llvm.trap");
      case Intrinsic::eh_typeid_for: out = Val(C.C(32, typeId(cast<Constant>(I->getArgOperand(0))))); return true;
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
        E d = arg(0).e, sr = arg(1).e, n = arg(2).e;
        const char* w = id == Intrinsic::memmove ? "memmove" : "memcpy";
        uint64_t k = memLen(s, C.ZExt(n, 64), d, sr, w);
        copyMem(s, d, sr, k, w);
        return true;
      }
      case Intrinsic::memset: case Intrinsic::memset_inline: {
        E d = arg(0).e, v = arg(1).e, n = arg(2).e;
        uint64_t k = memLen(s, C.ZExt(n, 64), d, nullptr, "memset");
        setMem(s, d, v, k, "memset");
        return true;
      }
      case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow:
      case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
        E a = arg(0).e, b = arg(1).e;
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        E r, o;
        if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) { r = C.Add(a, b); o = ovAdd(a, b, sg); }
        else if (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) { r = C.Sub(a, b); o = ovSub(a, b, sg); }
        else { r = C.Mul(a, b); o = ovMul(a, b, sg); }
        out = mkAgg({Val(r), Val(o)});
        return true;
      }
      case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor:
      case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_fmax: case Intrinsic::vector_reduce_fmin: {
        Val v = arg(0);
        E r = nullptr;
        for (auto& x : *v.agg) {
          if (!r) { r = x.e; continue; }
          switch (id) {
            case Intrinsic::vector_reduce_add: r = C.Add(r, x.e); break;
            case Intrinsic::vector_reduce_mul: r = C.Mul(r, x.e); break;
            case Intrinsic::vector_reduce_and: r = C.And(r, x.e); break;
            case Intrinsic::vector_reduce_or: r = C.Or(r, x.e); break;
            case Intrinsic::vector_reduce_xor: r = C.Xor(r, x.e); break;
            case Intrinsic::vector_reduce_smax: r = C.Ite(C.Slt(r, x.e), x.e, r); break;
            case Intrinsic::vector_reduce_smin: r = C.Ite(C.Slt(x.e, r), x.e, r); break;
            case Intrinsic::vector_reduce_umax: r = C.Ite(C.Ult(r, x.e), x.e, r); break;
            case Intrinsic::vector_reduce_umin: r = C.Ite(C.Ult(x.e, r), x.e, r); break;
            case Intrinsic::vector_reduce_fmax: r = minmaxnum(r, x.e, false); break;
            default: r = minmaxnum(r, x.e, true); break;
          }
        }
        out = Val(r);
        return true;
      }
      case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: {
        E r = arg(0).e;
        Val v = arg(1);
        for (auto& x : *v.agg) r = C.F2(id == Intrinsic::vector_reduce_fadd ? O_FADD : O_FMUL, r, x.e);
        out = Val(r);
        return true;
      }
      default: break;
    }
    unsigned na = I->arg_size();
    std::vector<Val> av;
    for (unsigned i = 0; i < na; i++) av.push_back(arg(i));
    if (auto* vt = dyn_cast<FixedVectorType>(rt)) {
      std::vector<Val> res;
      for (unsigned l = 0; l < vt->getNumElements(); l++) {
        std::vector<E> a;
        for (auto& v : av) a.push_back(v.isAgg() ? (*v.agg)[l].e : v.e);
        E r = nullptr;
        if (!scalarIntrinsic(s, I, id, a, vt->getElementType(), f.fi->strict, r)) return false;
        res.push_back(Val(r));
      }
      out = mkAgg(res);
      return true;
    }
    std::vector<E> a;
    for (auto& v : av) a.push_back(v.e);
    for (auto& v : av) if (v.isAgg()) return false;
    E r = nullptr;
    if (!scalarIntrinsic(s, I, id, a, rt, f.fi->strict, r)) return false;
    out = Val(r);
    return true;
  }

  // ---------- stepping ----------
  void jump(Frame& f, const BasicBlock* to) {
    f.prev = f.bb;
    f.bb = to;
    f.it = to->begin();
    // evaluate phis in parallel
    std::vector<std::pair<const Instruction*, Val>> v;
    for (auto& i : *to) {
      auto* p = dyn_cast<PHINode>(&i);
      if (!p) break;
      v.push_back({p, get(f, p->getIncomingValueForBlock(f.prev))});
      ++f.it;
    }
    for (auto& x : v) set(f, x.first, x.second);
  }
  // ---------- exceptions ----------
  bool catches(const GlobalVariable* thrown, const Constant* c) {
    if (c->isNullValue()) return true;
    auto* t = dyn_cast<GlobalVariable>(c->stripPointerCasts());
    if (!t) return false;
    for (const GlobalVariable* g = thrown; g;) {
      if (g->getName() == t->getName()) return true;
      // the single base class, of the type information of a class that has one
      if (!g->hasInitializer()) {
        const GlobalVariable* d = nullptr;
        for (auto& m : mods) if (auto* x = m->getGlobalVariable(g->getName(), true)) if (x->hasInitializer()) d = x;
        if (!d) return false;
        g = d;
      }
      auto* i = g->getInitializer();
      if (i->getNumOperands() < 3) return false;
      g = dyn_cast<GlobalVariable>(i->getOperand(i->getNumOperands() == 3 ? 2 : 4)->stripPointerCasts());
    }
    return false;
  }
  uint64_t typeId(const Constant* c) {
    if (c->isNullValue()) return 1;
    std::string n = c->stripPointerCasts()->getName().str();
    for (size_t i = 0; i < typeIds.size(); i++) if (typeIds[i] == n) return i + 2;
    typeIds.push_back(n);
    return typeIds.size() + 1;
  }
  std::vector<std::string> typeIds;
  bool caughtAt(const CallBase* cb, const GlobalVariable* g, bool& cleanup, uint64_t& sel) {
    auto* inv = dyn_cast_or_null<InvokeInst>(cb);
    if (!inv) return false;
    auto* lp = inv->getLandingPadInst();
    for (unsigned i = 0; i < lp->getNumClauses(); i++)
      if (lp->isCatch(i) && catches(g, lp->getClause(i))) { sel = typeId(lp->getClause(i)); return true; }
    cleanup = lp->isCleanup();
    return false;
  }
  bool handled(State& s, const GlobalVariable* g, const CallBase* cb) {
    bool cl;
    uint64_t sel;
    for (size_t i = s.st.size(); i-- > 0; cb = s.st[i]->call) if (caughtAt(cb, g, cl, sel)) return true;
    return false;
  }
  void leave(State& s) {
    for (uint64_t a : s.st.back()->allocas) {
      auto it = s.mem.find(a);
      if (it == s.mem.end()) continue;
      if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
      it->second->alive = false;
      it->second->b.clear();
      it->second->b.shrink_to_fit();
    }
    s.st.pop_back();
  }
  // continue at the landing pad of the innermost call that has one
  void unwind(State& s, uint64_t obj, const GlobalVariable* g, const CallBase* cb) {
    for (;;) {
      bool cl = false;
      uint64_t sel = 0;
      if (caughtAt(cb, g, cl, sel) || cl) {
        Frame& f = top(s);
        jump(f, cast<InvokeInst>(cb)->getUnwindDest());
        set(top(s), cast<InvokeInst>(cb)->getLandingPadInst(), mkAgg({Val(C.C(64, obj)), Val(C.C(32, sel))}));
        return;
      }
      cb = s.st.back()->call;
      leave(s);
      if (s.st.empty() || !cb) fail(s, "exception", "uncaught C++ exception");
    }
  }
  void finishCall(State& s, const CallBase* cb, Val out) {
    Frame& f = *s.st.back();
    if (!cb->getType()->isVoidTy()) set(f, cb, out);
    if (auto* inv = dyn_cast<InvokeInst>(cb)) jump(f, inv->getNormalDest());
    else ++f.it;
  }
  Frame& top(State& s) {
    auto& p = s.st.back();
    if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
    return *p;
  }

  // ---------- merging ----------
  // A branch on a symbolic condition whose sides only compute, load and store
  // at known valid addresses and join again is executed as one path: both
  // sides are evaluated and joined with if-then-else.  Anything else (calls,
  // loops, symbolic addresses, possible errors) falls back to forking.
  int spec = 0;
  bool noMerge = false;
  uint64_t merges = 0;
  DenseMap<const BranchInst*, const BasicBlock*> joinOf;
  DenseMap<const Function*, std::shared_ptr<PostDominatorTree>> pdts;
  bool regionOk(const BasicBlock* b, const BasicBlock* m, unsigned& budget, unsigned depth, bool& stores) {
    if (b == m) return budget-- > 0;
    if (depth > 10 || budget == 0) return false;
    budget--;
    for (auto& i : *b) {
      if (i.isTerminator()) continue;
      if (auto* l = dyn_cast<LoadInst>(&i)) { if (l->isVolatile() || l->isAtomic()) return false; continue; }
      if (auto* st = dyn_cast<StoreInst>(&i)) { if (st->isVolatile() || st->isAtomic()) return false; stores = true; continue; }
      if (auto* ii = dyn_cast<IntrinsicInst>(&i)) {
        if (ii->getIntrinsicID() == Intrinsic::lifetime_start || ii->getIntrinsicID() == Intrinsic::lifetime_end) continue;
        if (ii->mayReadOrWriteMemory()) return false;
        continue;
      }
      if (isa<CallBase>(i) || isa<AllocaInst>(i) || i.mayReadOrWriteMemory()) return false;
      switch (i.getOpcode()) {
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: return false;
        default: break;
      }
    }
    auto* t = dyn_cast<BranchInst>(b->getTerminator());
    if (!t) return false;
    for (auto* x : t->successors()) if (!regionOk(x, m, budget, depth + 1, stores)) return false;
    return true;
  }
  const BasicBlock* joinBlock(const BranchInst* b) {
    auto it = joinOf.find(b);
    if (it != joinOf.end()) return it->second;
    const BasicBlock* r = nullptr;
    auto* fn = const_cast<Function*>(b->getFunction());
    auto& pt = pdts[fn];
    if (!pt) pt = std::make_shared<PostDominatorTree>(*fn);
    auto* n = pt->getNode(const_cast<BasicBlock*>(b->getParent()));
    auto* d = n ? n->getIDom() : nullptr;
    const BasicBlock* m = d ? d->getBlock() : nullptr;
    if (m && m != b->getParent()) {
      unsigned budget = 40;
      bool stores = false;
      if (regionOk(b->getSuccessor(0), m, budget, 0, stores) && regionOk(b->getSuccessor(1), m, budget, 0, stores)) {
        r = m;
        for (auto& ph : m->phis()) {
          if (ph.getType()->isPointerTy()) r = nullptr;
          // a position advanced together with a store: keep it concrete
          if (stores && ph.getType()->isIntegerTy() && ph.getType()->getIntegerBitWidth() >= 32) r = nullptr;
        }
      }
    }
    joinOf[b] = r;
    return r;
  }
  struct SpecStore { E guard; const StoreInst* st; Val v; E a; };
  std::vector<SpecStore> specStores;
  std::vector<Val> specRun(State& s, Frame& f, const BasicBlock* pred, const BasicBlock* b, const BasicBlock* m, E guard, bool stored) {
    std::vector<Val> ph;
    for (auto& p : b->phis()) ph.push_back(get(f, p.getIncomingValueForBlock(pred)));
    if (b == m) return ph;
    size_t k = 0;
    for (auto& p : b->phis()) set(f, &p, ph[k++]);
    for (auto& i : *b) {
      if (isa<PHINode>(i) || i.isTerminator()) continue;
      if (auto* st = dyn_cast<StoreInst>(&i)) {
        E a = getE(f, st->getPointerOperand());
        access(s, a, DL->getTypeStoreSize(st->getValueOperand()->getType()), true, "store");
        specStores.push_back({guard, st, get(f, st->getValueOperand()), a});
        stored = true;
        continue;
      }
      if (stored && isa<LoadInst>(i)) throw SpecAbort();
      f.it = i.getIterator();
      step(s);
    }
    auto* t = cast<BranchInst>(b->getTerminator());
    if (t->isUnconditional()) return specRun(s, f, b, t->getSuccessor(0), m, guard, stored);
    E c = getE(f, t->getCondition());
    if (Ctx::isC(c)) return specRun(s, f, b, t->getSuccessor(c->val ? 0 : 1), m, guard, stored);
    auto x = specRun(s, f, b, t->getSuccessor(0), m, C.And(guard, c), stored);
    auto y = specRun(s, f, b, t->getSuccessor(1), m, C.And(guard, C.Not(c)), stored);
    for (size_t i = 0; i < x.size(); i++) x[i] = selectVal(Val(c), x[i], y[i]);
    return x;
  }
  bool merge(State& s, Frame& f, const BranchInst* b, E c) {
    if (noMerge || spec) return false;
    const BasicBlock* m = joinBlock(b);
    if (!m) return false;
    specStores.clear();
    std::vector<Val> v;
    auto it = f.it;
    spec = 1;
    try {
      auto x = specRun(s, f, b->getParent(), b->getSuccessor(0), m, c, false);
      auto y = specRun(s, f, b->getParent(), b->getSuccessor(1), m, C.Not(c), false);
      for (size_t i = 0; i < x.size(); i++) v.push_back(selectVal(Val(c), x[i], y[i]));
    } catch (SpecAbort&) {
      spec = 0;
      f.it = it;
      return false;
    }
    spec = 0;
    for (auto& w : specStores) {
      Type* t = w.st->getValueOperand()->getType();
      Val old = load(s, t, w.a);
      store(s, t, selectVal(Val(w.guard), w.v, old), w.a);
    }
    merges++;
    f.prev = f.bb;
    f.bb = m;
    f.it = m->begin();
    size_t k = 0;
    for (auto& p : m->phis()) { set(f, &p, v[k++]); ++f.it; }
    return true;
  }

  void step(State& s) {
    Frame& f = top(s);
    const Instruction& I = *f.it;
    s.steps++;
    instrs++;
    bool strict = f.fi->strict;
    switch (I.getOpcode()) {
      case Instruction::Br: {
        auto& b = cast<BranchInst>(I);
        if (b.isUnconditional()) { jump(f, b.getSuccessor(0)); return; }
        E c = getE(f, b.getCondition());
        if (!Ctx::isC(c) && merge(s, f, &b, c)) return;
        bool d = decide(s, c);
        jump(top(s), b.getSuccessor(d ? 0 : 1));
        return;
      }
      case Instruction::Switch: {
        auto& sw = cast<SwitchInst>(I);
        E c = getE(f, sw.getCondition());
        if (Ctx::isC(c)) {
          for (auto& k : sw.cases())
            if (apToU(k.getCaseValue()->getValue()) == c->val) { jump(f, k.getCaseSuccessor()); return; }
          jump(f, sw.getDefaultDest());
          return;
        }
        u128 v = C.eval(c, s.model);
        // group: current model's target
        const BasicBlock* tgt = sw.getDefaultDest();
        for (auto& k : sw.cases()) if (apToU(k.getCaseValue()->getValue()) == v) tgt = k.getCaseSuccessor();
        E cond = C.False, anyCase = C.False;
        for (auto& k : sw.cases()) {
          E e = C.Eq(c, C.C(c->w, apToU(k.getCaseValue()->getValue())));
          anyCase = C.Or(anyCase, e);
          if (k.getCaseSuccessor() == tgt) cond = C.Or(cond, e);
        }
        if (sw.getDefaultDest() == tgt) cond = C.Or(cond, C.Not(anyCase));
        decide(s, cond);
        jump(top(s), tgt);
        return;
      }
      case Instruction::Ret: {
        auto& r = cast<ReturnInst>(I);
        Val v;
        if (r.getReturnValue()) v = get(f, r.getReturnValue());
        for (uint64_t a : f.allocas) {
          auto it = s.mem.find(a);
          if (it != s.mem.end()) {
            if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
            it->second->alive = false;
            it->second->b.clear();
            it->second->b.shrink_to_fit();
          }
        }
        const CallBase* cb = f.call;
        s.st.pop_back();
        if (s.st.empty()) { s.dead = true; s.endKind = "done"; return; }
        top(s);
        if (cb) finishCall(s, cb, cb->getType()->isVoidTy() ? Val() : reshape(v, cb->getType()));
        return;
      }
      case Instruction::Unreachable: fail(s, "unreachable", "reached an unreachable instruction (undefined behaviour)");
      case Instruction::Alloca: {
        auto& al = cast<AllocaInst>(I);
        uint64_t n = concretize(s, getE(f, al.getArraySize()));
        uint64_t sz = n * DL->getTypeAllocSize(al.getAllocatedType());
        uint64_t a = alloc(s, sz, OK_STACK, f.fi->f->getName().str() + ":" + (al.hasName() ? al.getName().str() : "tmp"), al.getAlign().value());
        top(s).allocas.push_back(a);
        set(top(s), &I, Val(C.C(64, a)));
        break;
      }
      case Instruction::Load: {
        auto& l = cast<LoadInst>(I);
        Val v = load(s, l.getType(), getE(f, l.getPointerOperand()));
        set(top(s), &I, v);
        break;
      }
      case Instruction::Store: {
        auto& st = cast<StoreInst>(I);
        if (st.isAtomic()) s.frzOff++;
        store(s, st.getValueOperand()->getType(), get(f, st.getValueOperand()), getE(f, st.getPointerOperand()));
        if (st.isAtomic()) s.frzOff--;
        break;
      }
      case Instruction::GetElementPtr: {
        auto& g = cast<GetElementPtrInst>(I);
        if (g.getType()->isVectorTy()) unsup(s, "vector GEP");
        E p = getE(f, g.getPointerOperand());
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
          const Value* idx = gti.getOperand();
          if (StructType* stt = gti.getStructTypeOrNull()) {
            p = C.Add(p, C.C(64, DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue())));
          } else {
            E i = getE(f, idx);
            i = C.SExt(i, 64);
            p = C.Add(p, C.Mul(i, C.C(64, gti.getSequentialElementStride(*DL))));
          }
        }
        set(f, &I, Val(p));
        break;
      }
      case Instruction::ICmp: case Instruction::FCmp: {
        auto& c = cast<CmpInst>(I);
        Val a = get(f, c.getOperand(0)), b = get(f, c.getOperand(1));
        bool fp = isa<FCmpInst>(I);
        if (a.isAgg()) {
          std::vector<Val> r;
          for (size_t i = 0; i < a.agg->size(); i++) r.push_back(Val(fp ? fcmp(c.getPredicate(), (*a.agg)[i].e, (*b.agg)[i].e) : icmp(c.getPredicate(), (*a.agg)[i].e, (*b.agg)[i].e)));
          set(f, &I, mkAgg(r));
        } else set(f, &I, Val(fp ? fcmp(c.getPredicate(), a.e, b.e) : icmp(c.getPredicate(), a.e, b.e)));
        break;
      }
      case Instruction::PHI: unsup(s, "phi in the middle of a block");
      case Instruction::Select: {
        auto& se = cast<SelectInst>(I);
        Val c = get(f, se.getCondition()), a = get(f, se.getTrueValue()), b = get(f, se.getFalseValue());
        set(f, &I, selectVal(c, a, b));
        break;
      }
      case Instruction::FNeg: {
        Val a = get(f, I.getOperand(0));
        auto ng = [&](E e) { return C.Xor(e, C.C(e->w, (u128)1 << (e->w - 1))); };
        if (a.isAgg()) { std::vector<Val> r; for (auto& x : *a.agg) r.push_back(Val(ng(x.e))); set(f, &I, mkAgg(r)); }
        else set(f, &I, Val(ng(a.e)));
        break;
      }
      case Instruction::Freeze: set(f, &I, get(f, I.getOperand(0))); break;
      case Instruction::ExtractValue: {
        Val a = get(f, I.getOperand(0));
        for (unsigned i : cast<ExtractValueInst>(I).indices()) { Val t = (*a.agg)[i]; a = t; }
        set(f, &I, a);
        break;
      }
      case Instruction::InsertValue: {
        auto& iv = cast<InsertValueInst>(I);
        Val a = get(f, iv.getAggregateOperand());
        set(f, &I, insertAt(a, iv.getIndices(), 0, get(f, iv.getInsertedValueOperand())));
        break;
      }
      case Instruction::ExtractElement: {
        Val a = get(f, I.getOperand(0));
        uint64_t i = concretize(s, getE(f, I.getOperand(1)));
        set(top(s), &I, i < a.agg->size() ? (*a.agg)[i] : undefVal(I.getType()));
        break;
      }
      case Instruction::InsertElement: {
        Val a = get(f, I.getOperand(0));
        Val v = get(f, I.getOperand(1));
        uint64_t i = concretize(s, getE(f, I.getOperand(2)));
        auto r = *a.agg;
        if (i < r.size()) r[i] = v;
        set(top(s), &I, mkAgg(r));
        break;
      }
      case Instruction::ShuffleVector: {
        auto& sv = cast<ShuffleVectorInst>(I);
        Val a = get(f, sv.getOperand(0)), b = get(f, sv.getOperand(1));
        std::vector<Val> r;
        for (int m : sv.getShuffleMask()) {
          if (m < 0) r.push_back(undefVal(eltTy(sv.getType(), 0)));
          else if ((size_t)m < a.agg->size()) r.push_back((*a.agg)[m]);
          else r.push_back((*b.agg)[m - a.agg->size()]);
        }
        set(f, &I, mkAgg(r));
        break;
      }
      case Instruction::BitCast: {
        Val a = get(f, I.getOperand(0));
        Type *from = I.getOperand(0)->getType(), *to = I.getType();
        if (!from->isVectorTy() && !to->isVectorTy()) set(f, &I, a);
        else {
          E x = toBits(a, from);
          if (x->w > 128 ) {
            // wide vectors: only same-width lane regrouping
            set(f, &I, regroup(a, from, to));
          } else set(f, &I, fromBits(x, to));
        }
        break;
      }
      case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(I)); return;
      case Instruction::AtomicRMW: {
        auto& rmw = cast<AtomicRMWInst>(I);
        E p = getE(f, rmw.getPointerOperand());
        Val old = load(s, rmw.getType(), p);
        E v = getE(f, rmw.getValOperand()), r = nullptr;
        switch (rmw.getOperation()) {
          case AtomicRMWInst::Xchg: r = v; break;
          case AtomicRMWInst::Add: r = C.Add(old.e, v); break;
          case AtomicRMWInst::Sub: r = C.Sub(old.e, v); break;
          case AtomicRMWInst::And: r = C.And(old.e, v); break;
          case AtomicRMWInst::Or: r = C.Or(old.e, v); break;
          case AtomicRMWInst::Xor: r = C.Xor(old.e, v); break;
          default: unsup(s, "atomicrmw");
        }
        s.frzOff++;
        store(s, rmw.getType(), Val(r), p);
        s.frzOff--;
        set(top(s), &I, old);
        break;
      }
      case Instruction::AtomicCmpXchg: {
        auto& cx = cast<AtomicCmpXchgInst>(I);
        E p = getE(f, cx.getPointerOperand());
        Type* t = cx.getCompareOperand()->getType();
        Val old = load(s, t, p);
        E eq = C.Eq(old.e, getE(f, cx.getCompareOperand()));
        s.frzOff++;
        store(s, t, Val(C.Ite(eq, getE(f, cx.getNewValOperand()), old.e)), p);
        s.frzOff--;
        set(top(s), &I, mkAgg({old, Val(eq)}));
        break;
      }
      case Instruction::Fence: break;
      case Instruction::LandingPad: break;   // unwind() has set it
      case Instruction::Resume: {
        uint64_t obj = concretize(s, (*get(f, I.getOperand(0)).agg)[0].e);
        const GlobalVariable* g = s.exc[obj];
        const CallBase* cb = s.st.back()->call;
        leave(s);
        if (s.st.empty() || !cb || !g) fail(s, "exception", "uncaught C++ exception");
        unwind(s, obj, g, cb);
        return;
      }
      default:
        if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
          Val a = get(f, bo->getOperand(0)), b = get(f, bo->getOperand(1));
          if (a.isAgg()) {
            std::vector<Val> r;
            for (size_t i = 0; i < a.agg->size(); i++) r.push_back(Val(binop(s, bo, bo->getOpcode(), (*a.agg)[i].e, (*b.agg)[i].e, strict)));
            set(top(s), &I, mkAgg(r));
          } else {
            E r = binop(s, bo, bo->getOpcode(), a.e, b.e, strict);
            set(top(s), &I, Val(r));
          }
          break;
        }
        if (auto* ci = dyn_cast<CastInst>(&I)) {
          Val a = get(f, ci->getOperand(0));
          if (a.isAgg()) {
            std::vector<Val> r;
            for (size_t i = 0; i < a.agg->size(); i++) r.push_back(Val(castOp(s, ci->getOpcode(), (*a.agg)[i].e, eltTy(ci->getSrcTy(), 0), eltTy(ci->getDestTy(), 0), strict, ci)));
            set(top(s), &I, mkAgg(r));
          } else {
            E r = castOp(s, ci->getOpcode(), a.e, ci->getSrcTy(), ci->getDestTy(), strict, ci);
            set(top(s), &I, Val(r));
          }
          break;
        }
        unsup(s, std::string("instruction ") + I.getOpcodeName());
    }
    ++top(s).it;
  }
  Val regroup(Val a, Type* from, Type* to) {
    unsigned n1 = numElts(from), n2 = numElts(to);
    std::vector<Val> r;
    if (n2 >= n1) {
      unsigned k = n2 / n1, w = (*a.agg)[0].e->w / k;
      for (unsigned i = 0; i < n2; i++) r.push_back(Val(C.Extract((*a.agg)[i / k].e, (i % k) * w, w)));
    } else {
      unsigned k = n1 / n2;
      for (unsigned i = 0; i < n2; i++) {
        E x = nullptr;
        for (unsigned j = 0; j < k; j++) { E y = (*a.agg)[i * k + j].e; x = x ? C.Concat(y, x) : y; }
        r.push_back(Val(x));
      }
    }
    return mkAgg(r);
  }
  Val selectVal(Val c, Val a, Val b) {
    if (a.isAgg()) {
      std::vector<Val> r;
      for (size_t i = 0; i < a.agg->size(); i++) r.push_back(selectVal(c.isAgg() ? (*c.agg)[i] : c, (*a.agg)[i], (*b.agg)[i]));
      return mkAgg(r);
    }
    return Val(C.Ite(c.e, a.e, b.e));
  }
  Val insertAt(Val a, ArrayRef<unsigned> idx, unsigned k, Val v) {
    if (k == idx.size()) return v;
    auto r = *a.agg;
    r[idx[k]] = insertAt(r[idx[k]], idx, k + 1, v);
    return mkAgg(r);
  }
  void doCall(State& s, const CallBase& cb) {
    Frame& f = *s.st.back();
    if (auto* ii = dyn_cast<IntrinsicInst>(&cb)) {
      Val out;
      if (!intrinsic(s, f, ii, out)) unsup(s, "intrinsic " + ii->getCalledFunction()->getName().str());
      top(s);
      finishCall(s, &cb, out);
      return;
    }
    if (cb.isInlineAsm()) {
      // optimisation barriers such as asm volatile("" ::: "memory")
      top(s);
      finishCall(s, &cb, cb.getType()->isVoidTy() ? Val() : undefVal(cb.getType()));
      return;
    }
    const Function* callee = cb.getCalledFunction();
    if (!callee) {
      const Value* cv = cb.getCalledOperand()->stripPointerCasts();
      callee = dyn_cast<Function>(cv);
      if (!callee) if (auto* ga = dyn_cast<GlobalAlias>(cv)) callee = dyn_cast<Function>(ga->getAliaseeObject());
      if (!callee) {
        uint64_t a = concretize(s, getE(f, cb.getCalledOperand()));
        auto it = addrFn.find(a);
        if (it == addrFn.end()) {
          if (a < 4096) fail(s, "null-call", "call through a null function pointer");
          fail(s, "bad-call", "indirect call to an address that is not a function");
        }
        callee = it->second;
      }
    }
    std::vector<Val> args;
    for (unsigned i = 0; i < cb.arg_size(); i++) args.push_back(get(f, cb.getArgOperand(i)));
    // The compiler may pass the first two arguments of a function registered as
    // commutative in either order (it compares addresses of IR values).
    if (callee->isDeclaration() && args.size() >= 2 && callee->hasFnAttribute("commutative") &&
        cb.getArgOperand(0)->getType() == cb.getArgOperand(1)->getType() && cb.getArgOperand(0) != cb.getArgOperand(1) && s.orders < 3) {
      while (orderVars.size() <= s.orders) orderVars.push_back(C.Var("order:" + std::to_string(orderVars.size()), 1));
      bool swap = decide(s, orderVars[s.orders]);
      s.orders++;
      if (swap) std::swap(args[0], args[1]);
    }
    const Function* t = resolve(callee);
    std::string name = t->getName().str();
    Val out;
    bool stubbed = name.rfind("jfstub_", 0) == 0;
    try {
    if (!stubbed && modelNames(name)) {
      if (model(s, name, args, &cb, out)) {
        if (!cb.getType()->isVoidTy() && !out.e && !out.agg) out = zeroVal(cb.getType());
        top(s);
        finishCall(s, &cb, out);
        return;
      }
    }
    if (t->isDeclaration()) {
      if (model(s, name, args, &cb, out)) {
        if (!cb.getType()->isVoidTy() && !out.e && !out.agg) out = zeroVal(cb.getType());
        top(s);
        finishCall(s, &cb, out);
        return;
      }
      unsup(s, "external function " + demangle(name));
    }
    } catch (Unwound&) { return; }
    pushCall(s, t, args, &cb);
  }
  // names whose model takes precedence over a definition in bitcode
  bool modelNames(const std::string& n) {
    return n == "malloc" || n == "free" || n.rfind("_ZNKSt8__detail20_Prime", 0) == 0 || n == "__clang_call_terminate" || (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) || n.rfind("jf_", 0) == 0;
  }

  // Run a state to its end.
  void runState(std::unique_ptr<State> sp, double deadline) {
    State& s = *sp;
    cur = &s;
    try {
      uint64_t k = 0;
      while (!s.dead) {
        step(s);
        if ((++k & 0xfff) == 0) {
          if (now() > deadline) { ends["timeout"]++; timedOut = true; return; }
          if (s.steps > opt.maxSteps) throw PathEnd{"step-limit"};
        }
      }
      ends[s.endKind]++;
      uint64_t nd = ends[s.endKind];
      if (s.endKind == "done" && (nd & (nd - 1)) == 0 && witnesses.size() < 5) {
        witnesses.emplace_back();
        for (auto& i : s.inputs) witnesses.back().push_back({i.name, {i.w, s.model.get(i.var) & maskw(i.w)}});
      }
    } catch (PathEnd& e) {
      ends[e.kind]++;
    } catch (std::exception& e) {
      unsupported[std::string("internal: ") + e.what()]++;
      ends["internal"]++;
    }
    paths++;
  }
  bool timedOut = false;
  std::vector<E> orderVars;
  std::vector<decltype(Failure::inputs)> witnesses;

  std::unique_ptr<State> base;
  // concrete initialisation before harnesses: global constructors and an init function
  bool runInit(const std::string& fn) {
    auto it = fnByName.find(fn);
    if (it == fnByName.end()) return false;
    auto s = std::make_unique<State>(*base);
    pushCall(*s, it->second, {}, nullptr);
    cur = s.get();
    try {
      while (!s->dead) step(*s);
    } catch (PathEnd& e) {
      fprintf(stderr, "jfsym: init %s ended with %s\n", fn.c_str(), e.kind.c_str());
      for (auto& u : unsupported) fprintf(stderr, "  %s\n", u.first.c_str());
      for (auto& u : failures) fprintf(stderr, "  %s %s (%s)\n", u.kind.c_str(), u.msg.c_str(), u.trace.c_str());
      return false;
    }
    s->dead = false;
    base = std::move(s);
    return true;
  }
  bool runCtors() {
    for (auto& m : mods) {
      auto* g = m->getGlobalVariable("llvm.global_ctors");
      if (!g || !g->hasInitializer()) continue;
      auto* arr = dyn_cast<ConstantArray>(g->getInitializer());
      if (!arr) continue;
      for (auto& op : arr->operands()) {
        auto* f = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1));
        if (!f) continue;
        auto s = std::make_unique<State>(*base);
        pushCall(*s, f, {}, nullptr);
        cur = s.get();
        try {
          while (!s->dead) step(*s);
        } catch (PathEnd& e) {
          fprintf(stderr, "jfsym: constructor %s ended with %s\n", f->getName().str().c_str(), e.kind.c_str());
          for (auto& u : unsupported) fprintf(stderr, "  %s\n", u.first.c_str());
          unsupported.clear();
          failures.clear();
          failKeys.clear();
          continue;
        }
        s->dead = false;
        base = std::move(s);
      }
    }
    return true;
  }
  void runHarness(const Function* f, const std::vector<uint64_t>& args, double limit) {
    encoded.clear();
    auto s = std::make_unique<State>(*base);
    s->heapLive = 0;
    s->steps = 0;
    std::vector<Val> av;
    unsigned i = 0;
    for (auto& a : f->args()) {
      unsigned w = scalarBits(a.getType());
      av.push_back(Val(C.C(w, i < args.size() ? args[i] : 0)));
      i++;
    }
    pushCall(*s, f, av, nullptr);
    double deadline = now() + limit;
    work.clear();
    work.push_back(std::move(s));
    while (!work.empty()) {
      if (now() > deadline) { timedOut = true; break; }
      if (paths >= opt.maxPaths) { ends["path-limit"]++; timedOut = true; break; }
      if (failures.size() >= opt.maxFailures) break;
      auto n = std::move(work.back());
      work.pop_back();
      runState(std::move(n), deadline);
      if (timedOut) break;
    }
  }
};

static std::string jesc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string hex(u128 v, unsigned w) {
  std::string r;
  for (int i = ((int)w + 3) / 4 - 1; i >= 0; i--) r += "0123456789abcdef"[(int)(v >> (i * 4)) & 15];
  return r;
}

struct Job { std::string id, fn; std::vector<uint64_t> args; double limit = 0; };

static void report(Engine& e, const Job& j, double secs, const std::string& out) {
  std::ofstream o(out + ".tmp");
  bool complete = !e.timedOut && e.unsupported.empty() && e.inconclusive == 0 && e.inconclusiveBranch == 0 && e.ends["step-limit"] == 0;
  if (e.failures.size() >= e.opt.maxFailures) complete = false;
  o << "{\"id\":" << jesc(j.id) << ",\"fn\":" << jesc(j.fn) << ",\"args\":[";
  for (size_t i = 0; i < j.args.size(); i++) o << (i ? "," : "") << j.args[i];
  o << "],\"secs\":" << secs << ",\"complete\":" << (complete ? "true" : "false") << ",\"timeout\":" << (e.timedOut ? "true" : "false");
  o << ",\"paths\":" << e.paths << ",\"forks\":" << e.forks << ",\"instrs\":" << e.instrs << ",\"obligations\":" << e.obligations << ",\"discharged\":" << e.discharged << ",\"syntactic\":" << e.trivially << ",\"inconclusive\":" << e.inconclusive << ",\"inconclusive_branches\":" << e.inconclusiveBranch;
  o << ",\"queries\":" << e.S.st.queries << ",\"query_cache_hits\":" << e.S.st.cacheHits << ",\"sat\":" << e.S.st.sat << ",\"unsat\":" << e.S.st.unsat << ",\"unknown\":" << e.S.st.unknown << ",\"byte_branches\":" << e.S.st.bytes << ",\"precise_fp\":" << e.S.st.precise << ",\"solver_s\":" << e.S.st.secs << ",\"max_query_s\":" << e.S.st.maxSecs;
  o << ",\"ends\":{";
  bool first = true;
  for (auto& x : e.ends) { if (!x.second) continue; o << (first ? "" : ",") << jesc(x.first) << ":" << x.second; first = false; }
  o << "},\"covers\":[";
  first = true;
  for (auto& x : e.covers) { o << (first ? "" : ",") << jesc(x); first = false; }
  o << "],\"unsupported\":{";
  first = true;
  for (auto& x : e.unsupported) { o << (first ? "" : ",") << jesc(x.first) << ":" << x.second; first = false; }
  o << "},\"encoded\":[";
  first = true;
  for (auto& x : e.encoded) { o << (first ? "" : ",") << jesc(x); first = false; }
  o << "],\"failures\":[";
  first = true;
  for (auto& f : e.failures) {
    o << (first ? "" : ",") << "{\"kind\":" << jesc(f.kind) << ",\"msg\":" << jesc(f.msg) << ",\"where\":" << jesc(f.where) << ",\"trace\":" << jesc(f.trace) << ",\"inputs\":[";
    for (size_t i = 0; i < f.inputs.size(); i++) o << (i ? "," : "") << "[" << jesc(f.inputs[i].first) << "," << f.inputs[i].second.first << "," << jesc(hex(f.inputs[i].second.second, f.inputs[i].second.first)) << "]";
    o << "]}";
    first = false;
  }
  o << "],\"witnesses\":[";
  first = true;
  for (auto& w : e.witnesses) {
    o << (first ? "" : ",") << "[";
    for (size_t i = 0; i < w.size(); i++) o << (i ? "," : "") << "[" << jesc(w[i].first) << "," << w[i].second.first << "," << jesc(hex(w[i].second.second, w[i].second.first)) << "]";
    o << "]";
    first = false;
  }
  o << "]}\n";
  o.close();
  rename((out + ".tmp").c_str(), out.c_str());
}

}  // namespace jfsym

using namespace jfsym;

static void usage() {
  fprintf(stderr, "usage: jfsym [-j N] [-t secs] [-T totalsecs] [-s solver ms] [-p precise ms] [-m MB] [-a aliasfile] [-i initfn] [-S strict.ll]... -o outdir -J jobfile mod.bc...\n");
  exit(2);
}

int main(int argc, char** argv) {
  Engine e;
  std::string outdir, jobfile;
  std::vector<std::string> inits, aliasFiles;
  int j = 8;
  uint64_t memMB = 6000;
  double total = 1e9;
  std::vector<std::string> mods, strict;
  bool noCtors = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { if (++i >= argc) usage(); return argv[i]; };
    if (a == "-j") j = atoi(nx().c_str());
    else if (a == "-t") e.opt.timeLimit = atof(nx().c_str());
    else if (a == "-T") total = atof(nx().c_str());
    else if (a == "-s") e.opt.solverMs = atoi(nx().c_str());
    else if (a == "-p") e.opt.preciseMs = atoi(nx().c_str());
    else if (a == "-m") memMB = atoi(nx().c_str());
    else if (a == "-o") outdir = nx();
    else if (a == "-J") jobfile = nx();
    else if (a == "-a") aliasFiles.push_back(nx());
    else if (a == "-i") inits.push_back(nx());
    else if (a == "-S") strict.push_back(nx());
    else if (a == "-n") noCtors = true;
    else if (a == "-M") e.noMerge = true;
    else mods.push_back(a);
  }
  if (outdir.empty() || jobfile.empty()) usage();
  for (auto& m : mods) e.load(m, false);
  for (auto& m : strict) e.load(m, true);
  for (auto& af : aliasFiles) {
    std::ifstream in(af);
    std::string line;
    while (std::getline(in, line)) {
      auto p = line.find('\t');
      if (p == std::string::npos) continue;
      e.alias[line.substr(0, p)] = line.substr(p + 1);
    }
  }
  e.finishLoad();
  e.base = std::make_unique<State>();
  if (!noCtors) e.runCtors();
  for (auto& i : inits) if (!e.runInit(i)) { fprintf(stderr, "jfsym: init %s failed\n", i.c_str()); return 3; }
  std::vector<Job> jobs;
  {
    std::ifstream in(jobfile);
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream is(line);
      Job job;
      if (!(is >> job.id >> job.limit >> job.fn)) continue;
      uint64_t v;
      while (is >> v) job.args.push_back(v);
      jobs.push_back(job);
    }
  }
  double t0 = now();
  std::map<pid_t, size_t> running;
  size_t nextJob = 0;
  auto reap = [&](bool block) {
    int st = 0;
    pid_t p = waitpid(-1, &st, block ? 0 : WNOHANG);
    if (p > 0) running.erase(p);
    return p;
  };
  while (nextJob < jobs.size() || !running.empty()) {
    while (nextJob < jobs.size() && (int)running.size() < j) {
      size_t k = nextJob++;
      const Job& job = jobs[k];
      double left = total - (now() - t0);
      if (left <= 1) continue;
      pid_t p = fork();
      if (p == 0) {
        struct rlimit rl;
        rl.rlim_cur = rl.rlim_max = memMB * 1024ull * 1024ull;
        setrlimit(RLIMIT_AS, &rl);
        rl.rlim_cur = rl.rlim_max = 512ull << 20;
        double lim = job.limit > 0 ? job.limit : e.opt.timeLimit;
        if (lim > left) lim = left;
        alarm((unsigned)(lim + 90));
        e.S.timeoutMs = e.opt.solverMs;
        e.S.preciseTimeoutMs = e.opt.preciseMs;
        e.S.init();
        auto it = e.fnByName.find(job.fn);
        double t = now();
        e.instrs = 0;
        if (it == e.fnByName.end()) e.unsupported["no harness function " + job.fn]++;
        else {
          try { e.runHarness(it->second, job.args, lim); }
          catch (std::bad_alloc&) { e.unsupported["out of memory"]++; }
        }
        report(e, job, now() - t, outdir + "/" + job.id + ".json");
        _exit(0);
      }
      running[p] = k;
    }
    if (running.empty()) break;
    reap(true);
  }
  return 0;
}
