"""Trees are accepted exactly when the typing rules allow them, and typed as the rules say."""
import random
from jf import Spec
from common import *

HARNESS = r'''
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>
#include "llvm/ExecutionEngine/Orc/LLJIT.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
#define private public
#include "function_registry.h"
#undef private
#include "diagnostic.h"
#include "validator.h"
''' + PRELUDE + r'''
// the texts of messages are not part of the property
#ifndef JF_WHERE
JF_STUB_R(std::string, _ZNK9jitfusion10Diagnostic6RenderB5cxx11Ev)(const Diagnostic*) { return "d"; }
#endif
JF_STUB_R(std::string, _ZNK9jitfusion17FunctionSignature8ToStringB5cxx11Ev)(const FunctionSignature*) { return "s"; }
JF_STUB_R(std::string, _ZN9jitfusion10TypeHelper12TypeToStringB5cxx11ENS_9ValueTypeE)(ValueType) { return "t"; }
JF_STUB_R(std::string, _ZN9jitfusion10TypeHelper20BinaryOPTypeToStringB5cxx11ENS_12BinaryOPTypeE)(BinaryOPType) { return "o"; }
JF_STUB_R(std::string, _ZN9jitfusion10TypeHelper19UnaryOPTypeToStringB5cxx11ENS_11UnaryOPTypeE)(UnaryOPType) { return "o"; }
static char g_code[16];
static const char g_source[] = "text";
// a subtree of any type, or one that is itself rejected
struct Leaf : ExecNode {
  ValueType t; bool good;
  Leaf(ValueType t_, bool g) : t(t_), good(g) {}
  Status Accept(Visitor*) override { if (!good) return Status::ParseError(Diagnostic(Diagnostic::Level::kError, "leaf", GetLocation()).Render()); SetReturnType(t); return Status::OK(); }
  ExecNodeType GetExecNodeType() override { return ExecNodeType::kFunctionNode; }
  std::string ToStringImpl(const std::string&) override { return ""; }
  std::unique_ptr<ExecNode> CloneImpl() override { return nullptr; }
};
// ---- the rules
typedef uint8_t Ty;   // numbered as in ValueType: 1 void, 2-5 u8.., 6-9 i8.., 10 f32, 11 f64, 12 string, 13-23 lists, 24 ptr
static bool num(Ty t) { return (t >= 2) & (t <= 11); }
static bool integer(Ty t) { return (t >= 2) & (t <= 9); }
static bool list(Ty t) { return (t >= 13) & (t <= 23); }
// i8 < u8 < i16 < u16 < i32 < u32 < i64 < u64 < f32 < f64
static uint64_t rank(Ty t) { return sel<uint64_t>(t >= 10, t, sel<uint64_t>(t >= 6, 2 * (t - 6), 2 * (t - 2) + 1)); }
static Ty promoted(Ty a, Ty b) { return sel<Ty>(rank(a) >= rank(b), a, b); }
struct Var { bool def; Ty t; bool c; };
struct Env {
  std::vector<std::vector<Var>> s;
  Env() { push(); }
  void push() { s.push_back(std::vector<Var>(3, Var{false, 0, false})); }
  void pop() { s.pop_back(); }
  Var* find(int n) { for (size_t i = s.size(); i-- > 0;) if (s[i][n].def) return &s[i][n]; return nullptr; }
  // true when the assignment is allowed
  bool set(int n, Ty t, bool c) {
    Var* v = find(n);
    bool ok = true;
    if (v) ok = !v->c & !c & (v->t == t);
    s.back()[n] = Var{true, t, c};
    return ok;
  }
};
typedef std::unique_ptr<ExecNode> NP;
struct Fn { char name; std::vector<Ty> p; Ty ret; };
struct T {
  const char* p;
  bool ok = true;      // everything so far is allowed
  bool dead = false;   // nothing after this is reached
  Env env;
  std::vector<Fn> fns;
  std::vector<std::pair<ExecNode*, Ty>> typed;
  int ids = 0;         // parts are numbered; a part's number is its column
  struct Rule { bool c; uint64_t at; };
  std::vector<Rule> rules;   // in the order of the text, with the parts an error may be shown at
  void rule(bool c, uint64_t at) { ok &= c; rules.push_back({c, at}); }
  int digit() { char x = *p++; return x <= '9' ? x - '0' : x - 'a' + 10; }
  Ty ty() { uint8_t t = sym<uint8_t>("type"); jf_assume((t >= 1) & (t <= 24)); return t; }
  // the oracle is only looked at while dead is false
  NP parse(Ty& t);
  NP done(NP n, Ty t, int id) { typed.push_back({n.get(), t}); n->SetLocation({g_source, 1, id, 1, id + 1}); return n; }
  // a part's number, and that of a child
  static uint64_t bit(int id) { return 1ull << (id & 63); }
};
template <class N> static NP constant(T&, uint64_t v) { return NP(new ConstantValueNode((N)v)); }
NP T::parse(Ty& t) {
  char k = *p++;
  const int id = ++ids;
  const uint64_t me = bit(id);
  switch (k) {
    case 'L': { t = ty(); return done(NP(new Leaf((ValueType)t, true)), t, id); }
    case 'N': { t = ty(); jf_assume(num(t)); return done(NP(new Leaf((ValueType)t, true)), t, id); }
    case 'X': { t = ty(); bool g = sym<uint8_t>("good") & 1; rule(g, me); return done(NP(new Leaf((ValueType)t, g)), t, id); }
    case 'K': {  // constant with a symbolic value
      int d = digit();
      static const Ty ts[] = {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
      t = ts[d];
      NP n;
      switch (d) {
        case 0: n = NP(new ConstantValueNode(sym<uint8_t>("const"))); break;
        case 1: n = NP(new ConstantValueNode(sym<uint16_t>("const"))); break;
        case 2: n = NP(new ConstantValueNode(sym<uint32_t>("const"))); break;
        case 3: n = NP(new ConstantValueNode(sym<uint64_t>("const"))); break;
        case 4: n = NP(new ConstantValueNode(sym<int8_t>("const"))); break;
        case 5: n = NP(new ConstantValueNode(sym<int16_t>("const"))); break;
        case 6: n = NP(new ConstantValueNode(sym<int32_t>("const"))); break;
        case 7: n = NP(new ConstantValueNode(sym<int64_t>("const"))); break;
        case 8: n = NP(new ConstantValueNode(sym<float>("const"))); break;
        case 9: n = NP(new ConstantValueNode(sym<double>("const"))); break;
        default: n = NP(new ConstantValueNode(std::string("s")));
      }
      return done(std::move(n), t, id);
    }
    case 'T': {
      int d = digit();
      t = 13 + d;
      NP n;
      switch (d) {
        case 0: n = NP(new ConstantListValueNode(std::vector<uint8_t>(1))); break;
        case 1: n = NP(new ConstantListValueNode(std::vector<uint16_t>(1))); break;
        case 2: n = NP(new ConstantListValueNode(std::vector<uint32_t>(1))); break;
        case 3: n = NP(new ConstantListValueNode(std::vector<uint64_t>(1))); break;
        case 4: n = NP(new ConstantListValueNode(std::vector<int8_t>(1))); break;
        case 5: n = NP(new ConstantListValueNode(std::vector<int16_t>(1))); break;
        case 6: n = NP(new ConstantListValueNode(std::vector<int32_t>(1))); break;
        case 7: n = NP(new ConstantListValueNode(std::vector<int64_t>(1))); break;
        case 8: n = NP(new ConstantListValueNode(std::vector<float>(1))); break;
        case 9: n = NP(new ConstantListValueNode(std::vector<double>(1))); break;
        default: n = NP(new ConstantListValueNode(std::vector<std::string>(1)));
      }
      return done(std::move(n), t, id);
    }
    case 'E': t = 24; return done(NP(new EntryArgumentNode), t, id);
    case 'e': t = 24; return done(NP(new ExecContextNode), t, id);
    case 'o': t = 24; return done(NP(new OutputNode), t, id);
    case 'U': {
      uint8_t op = sym<uint8_t>("op");
      jf_assume((op == 1) | (op == 2) | (op == 22) | (op == 32));
      Ty a; const uint64_t kid = bit(ids + 1); NP x = parse(a);
      rule(num(a) & ((op != 32) | integer(a)), me | kid);
      bool small = (a == 2) | (a == 3) | (a == 6) | (a == 7);
      t = sel<Ty>(op == 22, 2, sel<Ty>((op == 2) & small, 8, a));
      return done(NP(new UnaryOPNode((UnaryOPType)op, std::move(x))), t, id);
    }
    case 'B': {
      uint8_t op = sym<uint8_t>("op");
      jf_assume(((op >= 1) & (op <= 5)) | ((op >= 10) & (op <= 15)) | (op == 20) | (op == 21) | ((op >= 30) & (op <= 34)));
      Ty a, b;
      uint64_t kids = bit(ids + 1);
      NP x = parse(a);
      kids |= bit(ids + 1);
      NP y;
      bool zero = false;
      bool constant = *p == 'K';
      y = parse(b);
      if (constant) {
        auto& v = static_cast<ConstantValueNode*>(y.get())->GetVal();
        switch (b) {
          case 2: zero = std::get<uint8_t>(v) == 0; break;
          case 3: zero = std::get<uint16_t>(v) == 0; break;
          case 4: zero = std::get<uint32_t>(v) == 0; break;
          case 5: zero = std::get<uint64_t>(v) == 0; break;
          case 6: zero = std::get<int8_t>(v) == 0; break;
          case 7: zero = std::get<int16_t>(v) == 0; break;
          case 8: zero = std::get<int32_t>(v) == 0; break;
          case 9: zero = std::get<int64_t>(v) == 0; break;
          default: break;   // a zero float is a valid divisor
        }
      }
      bool logical = (op == 20) | (op == 21), rel = (op >= 10) & (op <= 15), bit = (op >= 30) & (op <= 34), shift = (op == 33) | (op == 34), add = op == 1, divmod = (op == 4) | (op == 5);
      bool nn = num(a) & num(b), ii = integer(a) & integer(b), ss = (a == 12) & (b == 12), ll = list(a) & (a == b);
      bool good = sel<bool>(bit, ii, sel<bool>(rel, nn | ss, sel<bool>(add, nn | ss | ll, nn)));
      good &= !(divmod & zero);
      rule(good, me | kids);
      t = sel<Ty>(logical | rel, 2, sel<Ty>(shift, a, sel<Ty>(nn, promoted(a, b), a)));
      return done(NP(new BinaryOPNode((BinaryOPType)op, std::move(x), std::move(y))), t, id);
    }
    case 'I': {
      int n = digit();
      std::vector<NP> v; std::vector<Ty> ts; std::vector<uint64_t> at;
      rule(n == 3, me);
      for (int i = 0; i < n; i++) { Ty a; at.push_back(me | bit(ids + 1)); v.push_back(parse(a)); rule(a != 1, at[i]); ts.push_back(a); }
      t = 0;
      if (n != 3) ;
      else {
        bool nn = num(ts[1]) & num(ts[2]);
        const bool alike = nn | (ts[1] == ts[2]);
        rule(num(ts[0]) & alike, sel<uint64_t>(num(ts[0]), 0, at[0]) | sel<uint64_t>(alike, 0, at[1] | at[2]));
        t = sel<Ty>(nn, promoted(ts[1], ts[2]), ts[1]);
      }
      return done(NP(new IfNode(std::move(v))), t, id);
    }
    case 'S': {
      int n = digit();
      std::vector<NP> v; std::vector<Ty> ts; std::vector<uint64_t> at;
      rule(n % 2 == 1, me);
      for (int i = 0; i < n; i++) { Ty a; at.push_back(me | bit(ids + 1)); v.push_back(parse(a)); rule(a != 1, at[i]); ts.push_back(a); }
      t = 0;
      if (n % 2 == 0) ;
      else {
        bool alln = true, same = true;
        Ty first = n == 1 ? ts[0] : ts[1], pr = first;
        uint64_t values = 0;
        bool conds = true;
        uint64_t badConds = 0;
        for (int i = 0; i + 1 < n; i += 2) { conds &= num(ts[i]); badConds |= sel<uint64_t>(num(ts[i]), 0, at[i]); }
        for (int i = 0; i < n; i++) {
          if (i % 2 == 0 && i + 1 < n) continue;
          values |= at[i];
          alln &= num(ts[i]);
          same &= ts[i] == first;
          pr = promoted(pr, ts[i]);
        }
        rule(conds & (alln | same), badConds | sel<uint64_t>(alln | same, 0, values));   // in either order
        t = sel<Ty>(alln, pr, first);
      }
      return done(NP(new SwitchNode(std::move(v))), t, id);
    }
    case 'C': {  // call of f or g with n arguments
      char name = sym<char>("callee");
      int n = digit();
      uint64_t kids = 0;
      std::vector<NP> v; std::vector<Ty> ts;
      for (int i = 0; i < n; i++) { Ty a; kids |= bit(ids + 1); v.push_back(parse(a)); ts.push_back(a); rule(a != 1, me | kids); }
      bool found = false;
      t = 0;
      for (auto& f : fns) if ((int)f.p.size() == n) {
        bool m = f.name == name;
        for (int i = 0; i < n; i++) m &= f.p[i] == ts[i];
        found |= m;
        t = sel<Ty>(m, f.ret, t);
      }
      rule(found, me | kids);
      return done(NP(new FunctionNode(std::string("f") + name, std::move(v))), t, id);
    }
    case 'n': case 'm': {   // n: statements one after another, m: isolated
      int n = digit();
      std::vector<VarInfo> vi; std::vector<NP> v;
      for (int i = 0; i < n; i++) {
        char name = *p++, c = *p++;
        bool isc = c == '?' ? sym<uint8_t>("isconst") & 1 : c == '1';
        if (k == 'm') env.push();
        Ty a; const uint64_t kid = bit(ids + 1); v.push_back(parse(a));
        if (name != '.') { rule(env.set(name - 'a', a, isc), me | kid); vi.emplace_back(std::string(1, name), isc); }
        else vi.emplace_back();
        if (k == 'm') env.pop();
      }
      t = 1;
      return done(NP(new NoOPNode(std::move(vi), std::move(v), k == 'm')), t, id);
    }
    case 'W': {  // conditions and bodies, perhaps a last body
      int n = digit();
      std::vector<NP> v;
      rule(n >= 2, me);
      for (int i = 0; i < n; i++) {
        bool body = i % 2 == 1 || i + 1 == n;
        if (body) env.push();
        Ty a; const uint64_t kid = bit(ids + 1); v.push_back(parse(a));
        if (body) env.pop();
        rule(body ? a == 1 : num(a), me | kid);
      }
      t = 1;
      return done(NP(new IfBlockNode(std::move(v))), t, id);
    }
    case 'R': {
      int n = *p++ - 'a';
      Var* v = env.find(n);
      rule(v, me);
      if (!v) t = 1;
      else t = v->t;
      return done(NP(new RefNode(std::string(1, 'a' + n))), t, id);
    }
  }
  jf_assert(false, "shape");
  jf_end();
}
JF_H h_tree(uint64_t i) {
  std::unique_ptr<FunctionRegistry> reg(new FunctionRegistry());
  T x;
  x.p = SHAPES[i];
  int nf = x.digit();
  for (int k = 0; k < nf; k++) {
    Fn f;
    f.name = 'a' + k % 2;
    int n = x.digit();
    std::vector<ValueType> p;
    for (int j = 0; j < n; j++) { Ty t = x.ty(); f.p.push_back(t); p.push_back((ValueType)t); }
    f.ret = x.ty();
    FunctionStructure fs;
    fs.func_type = FunctionType::kCFunc;
    fs.c_func_ptr = g_code + k;
    // a signature registered twice keeps the first
    Status st = reg->RegisterFunc(FunctionSignature(std::string("f") + f.name, p, (ValueType)f.ret), fs, false);
    if (st.ok()) x.fns.push_back(f);
  }
  Ty t;
  NP n = x.parse(t);
  jf_assert(*x.p == 0, "shape");
  Validator v(reg);
  Status st = v.Validate(n.get());
  jf_assert(st.ok() == x.ok, "accepted exactly when the typing rules allow the tree");
#ifdef JF_WHERE
  if (!st.ok()) {
    if (x.ids >= 63) return;   // not numbered
    std::string m = st.ToString();
    int line = 0;
    size_t k = m.find("--> line 1, column ");
    jf_assert(k != std::string::npos, "an error about a part of a program shows where it is");
    for (k += 19; k < m.size() && m[k] >= '0' && m[k] <= '9'; k++) line = line * 10 + (m[k] - '0');
    uint64_t at = 0;
    for (size_t i = x.rules.size(); i-- > 0;) at = sel<uint64_t>(x.rules[i].c, at, x.rules[i].at);
    jf_assert(at >> line & 1, "an error is shown at the part that breaks a rule, the first in the text");
  }
  return;
#endif
  bool all = true;
  if (st.ok()) {
    for (auto& e : x.typed) all &= (Ty)e.first->GetReturnType() == e.second;
    jf_assert(all, "every part has the type the rules give it");
  }
  // the same tree once more
  Validator w(reg);
  jf_assert(w.Validate(n.get()).ok() == x.ok, "a tree that was compiled before is judged the same again");
  if (!st.ok()) return;
  all = true;
  for (auto& e : x.typed) all &= (Ty)e.first->GetReturnType() == e.second;
  jf_assert(all, "and has the same types");
}
'''


def gen(r, d, env):
    """A random shape of the given depth; values only."""
    if d == 0:
        k = r.randrange(10)
        if k < 4:
            return "N"
        if k < 6:
            return "L"
        if k == 6 and env:
            return "R" + r.choice(sorted(env))
        if k == 7:
            return "K" + r.choice("068a")
        if k == 8:
            return "T" + r.choice("06a")
        return "N"
    k = r.randrange(8)
    if k < 2:
        return "U" + gen(r, d - 1, env)
    if k < 4:
        return "B" + gen(r, d - 1, env) + gen(r, 0, env) if r.random() < .5 else "B" + gen(r, 0, env) + gen(r, d - 1, env)
    if k == 4:
        v = [gen(r, 0, env) for _ in range(3)]
        v[r.randrange(3)] = gen(r, d - 1, env)
        return "I3" + "".join(v)
    if k == 5:
        v = [gen(r, 0, env) for _ in range(3)]
        v[r.randrange(3)] = gen(r, d - 1, env)
        return "S3" + "".join(v)
    if k == 6:
        return "B" + gen(r, d - 1, env) + "K" + r.choice("0123456789")
    return "U" + gen(r, d - 1, env)


def stmts(r, d, env, n, iso=False):
    """n statements; env is what may be read."""
    s = ("m" if iso else "n") + str(n)
    env = set(env)
    for _ in range(n):
        k = r.randrange(10)
        e = set(env)
        if k < 6 or d == 0:
            nm = r.choice("abc")
            v = r.choice(["L", "N", "N", "K6", "T6", "K8"] + [f"R{x}" for x in e] + [f"UR{x}" for x in e] + [f"BR{x}N" for x in e])
            s += nm + r.choice("00001?") + v
            if not iso:
                env.add(nm)
        elif k < 9:
            m = r.choice([2, 2, 3, 3, 4, 5])
            s += ".0W" + str(m)
            for i in range(m):
                if i % 2 == 1 or i + 1 == m:
                    s += stmts(r, d - 1, e, r.randint(1, 2), False)
                else:
                    s += r.choice(["N", "N", "L"] + [f"R{x}" for x in e])
        else:
            s += ".0" + stmts(r, d - 1, e, r.randint(1, 2), True)
    return s


class Bad(Exception):
    pass


class Gen:
    """A random tree and whether the rules allow it."""
    TS = ["u8", "i16", "i32", "u64", "f32", "f64", "str", "li32", "lu8", "lstr", "ptr", "void"]

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.env = [{}]
        self.ok = True
        self.wild = self.r.choice([0, 0, .02, .08])

    def find(self, n):
        for s in reversed(self.env):
            if n in s:
                return s[n]
        return None

    def need(self, x):
        self.ok = self.ok and x

    def of(self, t, d):
        """An expression meant to have type t; returns (text, type)."""
        r = self.r
        if r.random() < self.wild:
            t = r.choice(self.TS)
        vs = [n for n in "abcd" if self.find(n) and self.find(n)[0] == t]
        if vs and r.random() < .5:
            return f"(ref {r.choice(vs)})", t
        if self.wild and r.random() < self.wild:
            n = r.choice("abcd")
            self.need(self.find(n) is not None)
            return f"(ref {n})", (self.find(n) or ("i32",))[0]
        if t == "ptr":
            return r.choice(["(ea)", "(ec)", "(out)"]), t
        if t == "void":
            if d > 0 and r.random() < .6:
                return self.block(d - 1), t
            return r.choice(["(noop)", "(st i32 0 (in i32 0))", "(noopi)"]), t
        if d <= 0 or r.random() < .2:
            return (c(t, r.randint(0, 3)) if t in NUM and r.random() < .3 else f"(in {t} {r.randrange(6)})"), t
        k = r.randrange(5)
        if k == 0:
            x, a = self.of(t, d - 1)
            y, b_ = self.of(t, d - 1)
            z, e = self.of(r.choice(NUM), d - 1)
            self.need(e in NUM)
            if a in NUM and b_ in NUM:
                return f"(if {z} {x} {y})", promote(a, b_)
            self.need(a == b_ and a != "void")
            return f"(if {z} {x} {y})", a
        if k == 1:
            n = r.randint(0, 2)
            s, val = "(sw", []
            for _ in range(n):
                z, e = self.of(r.choice(NUM), d - 1)
                self.need(e in NUM)
                x, a = self.of(t, d - 1)
                val.append(a)
                s += f" {z} {x}"
            x, a = self.of(t, d - 1)
            val.append(a)
            self.need("void" not in val)
            if all(v in NUM for v in val):
                a = val[0]
                for v in val:
                    a = promote(a, v)
            else:
                self.need(len(set(val)) == 1)
                a = val[0]
            return s + f" {x})", a
        if t in NUM:
            if k == 2:
                o = r.choice(list(UOP))
                x, a = self.of(t, d - 1)
                self.need(a in NUM and (o != "bnot" or a in INT))
                return u(o, x), "u8" if o == "not_" else "i32" if o == "minus" and a in ("u8", "i8", "u16", "i16") else a
            o = r.choice(["sub", "mul", "add", "land", "lor", "lt", "eq", "bxor", "shl", "div"])
            if self.wild == 0 and t not in INT and o in ("bxor", "shl"):
                o = "mul"
            x, a = self.of(t, d - 1)
            y, b_ = self.of(r.choice(NUM) if r.random() < .2 and o not in ("bxor", "shl") else t, d - 1)
            if o in ("lt", "eq"):
                self.need((a in NUM and b_ in NUM) or a == b_ == "str")
                return b(o, x, y), "u8"
            if o in ("bxor", "shl"):
                self.need(a in INT and b_ in INT)
                return b(o, x, y), (a if o == "shl" or not (a in NUM and b_ in NUM) else promote(a, b_))
            if o == "add" and a == b_ and (a == "str" or a[0] == "l"):
                return b(o, x, y), a
            self.need(a in NUM and b_ in NUM)
            if o == "div" and y.startswith("(c ") and b_ in INT:
                self.need(y != c(b_, 0))
            return b(o, x, y), "u8" if o in ("land", "lor") else promote(a, b_) if a in NUM and b_ in NUM else a
        x, a = self.of(t, d - 1)
        y, b_ = self.of(t, d - 1)
        if a in NUM and b_ in NUM:
            return b("add", x, y), promote(a, b_)
        self.need(a == b_ and (a == "str" or a[0] == "l"))
        return b("add", x, y), a

    def block(self, d, top=False):
        r = self.r
        iso = not top and r.random() < .15
        s = "(noopi" if iso else "(noop"
        for _ in range(r.randint(1, 4 if top else 3)):
            if iso:
                self.env.append({})
            k = r.randrange(6)
            if k < 3 or d <= 0:
                n = r.choice("abcd")
                v = self.find(n)
                t = v[0] if v and r.random() >= self.wild else r.choice(self.TS)
                x, a = self.of(t, d)
                isc = r.random() < .12 and (not v or r.random() < self.wild)
                v = self.find(n)
                if v and v[1] and r.random() >= self.wild:
                    s += f" (const {n}x {x})" if self.find(n + "x") is None else " (noop)"
                    self.env[-1].setdefault(n + "x", (a, True))
                    if iso:
                        self.env.pop()
                    continue
                if v:
                    self.need(not v[1] and not isc and v[0] == a)
                self.env[-1][n] = (a, isc)
                s += f" ({'const' if isc else '='} {n} {x})"
            elif k < 5:
                s += " (ifb"
                for i in range(r.choice([1, 1, 2, 3])):
                    x, a = self.of(r.choice(NUM), d - 1)
                    self.need(a in NUM)
                    s += " " + x + " " + self.body(d - 1)
                s += (" " + self.body(d - 1) if r.random() < .6 else "") + ")"
            else:
                s += " " + self.of(r.choice(self.TS), d - 1)[0]
            if iso:
                self.env.pop()
        return s + ")"

    def body(self, d):
        self.env.append({})
        s = self.block(d)
        self.env.pop()
        return s


ERR = r"^(?!exception)(?!compiling it kills)"


def compiled(q):
    """The whole compiler on operators and forms over typed operands: it compiles what
    the rules allow and refuses, with an error, the rest."""
    progs, err = [], {}
    ts = ["u8", "i32", "u64", "f32", "str", "lu8", "lf32", "lstr", "ptr", "void"] if q else NUM + ["str"] + ["l" + t for t in NUM] + ["lstr", "ptr", "void"]
    num = lambda t: t in NUM
    intg = lambda t: t in INT

    def leaf(t, k):
        return "(ea)" if t == "ptr" else "(noop)" if t == "void" else f"(in {t} {k})"

    def add(name, sx, ok):
        progs.append((name, sx))
        if not ok:
            err[name] = ERR
    for a in ts:
        for o in UOP:
            add(f"u_{o}_{a}", u(o, leaf(a, 0)), num(a) and (o != "bnot" or intg(a)))
        for b_ in ts:
            for o in OP:
                nn, ii = num(a) and num(b_), intg(a) and intg(b_)
                if o in ("band", "bor", "bxor", "shl", "shr"):
                    ok = ii
                elif o in ("gt", "ge", "eq", "lt", "le", "ne"):
                    ok = nn or a == b_ == "str"
                elif o == "add":
                    ok = nn or (a == b_ and (a == "str" or a[0] == "l"))
                else:
                    ok = nn
                if q and nn and a != b_:
                    continue  # the operators' own properties compile every numeric pair
                add(f"b_{o}_{a}_{b_}", b(o, leaf(a, 0), leaf(b_, 1)), ok)
            value = (num(a) and num(b_)) or (a == b_ and a != "void")
            # a pointer is no result of a program, but may be passed on
            add(f"if_{a}_{b_}", f"(if (in i32 2) {leaf(a, 0)} {leaf(b_, 1)})", value and a != "ptr")
            add(f"sw_{a}_{b_}", f"(sw (in u8 2) {leaf(a, 0)} (in f64 3) {leaf(b_, 1)} {leaf(a, 4)})", value and a != "ptr")
            # the operand decides in a branch too
            add(f"v_{a}_{b_}", f"(noop (= x {leaf(a, 0)}) (= x {leaf(b_, 1)}))", a == b_)
            add(f"vb_{a}_{b_}", f"(noop (= x {leaf(a, 0)}) (ifb (in i32 2) (noop (= x {leaf(b_, 1)}))))", a == b_)
            add(f"ve_{a}_{b_}", f"(noop (= x {leaf(a, 0)}) (ifb (in i32 2) (noop (= x {leaf(a, 1)})) (in u8 3) (noop (= y {leaf(b_, 4)})) (noop (= x {leaf(b_, 1)}))))", a == b_)
            add(f"vn_{a}_{b_}", f"(noop (= x {leaf(a, 0)}) (ifb (in i32 2) (noop (= y {leaf(b_, 1)}) (ifb (in i32 3) (noop (= y {leaf(b_, 4)}) (= x {leaf(b_, 5)}))))))", a == b_)
            add(f"vi_{a}_{b_}", f"(noopi (= x {leaf(a, 0)}) (= x {leaf(b_, 1)}))", True)
        add(f"if_c_{a}", f"(if {leaf(a, 0)} (in i32 1) (in u8 2))", num(a))
        add(f"sw_c_{a}", f"(sw (in u8 3) (in i32 1) {leaf(a, 0)} (in i32 1) (in u8 2))", num(a))
        add(f"ifb_c_{a}", f"(noop (ifb {leaf(a, 0)} (noop)))", num(a))
        add(f"ifb_c2_{a}", f"(noop (ifb (in u8 1) (noop) {leaf(a, 0)} (noop) (noop)))", num(a))
        add(f"ifb_b_{a}", f"(noop (ifb (in u8 1) {leaf(a, 0)}))", a == "void")
        add(f"ifb_e_{a}", f"(noop (ifb (in u8 1) (noop) {leaf(a, 0)}))", a == "void")
        for z in INT + FLT:
            if num(a):
                for o in ("div", "mod", "add"):
                    add(f"z_{o}_{a}_{z}", b(o, leaf(a, 0), c(z, 0)), o == "add" or z in FLT)
        add(f"root_{a}", leaf(a, 0), a != "ptr")
        add(f"call_{a}", f"(f abs {leaf(a, 0)})" if a in ("i32", "i64") else f"(f abs {leaf(a, 0)} {leaf(a, 1)})", a in ("i32", "i64"))
    for n in (0, 1, 2, 4, 5):
        add(f"if_n{n}", "(if" + " (in i32 0)" * n + ")", False)
    for n in range(0, 9):
        add(f"sw_n{n}", "(sw" + " (in i32 0)" * n + ")", n % 2 == 1)
    for n in range(0, 9):
        add(f"ifb_n{n}", "(noop (ifb" + "".join(" (in i32 0)" if i % 2 == 0 and i + 1 < n else " (noop)" for i in range(n)) + "))", n >= 2)
    for k in range(600 if q else 6000):
        g = Gen(k)
        sx = g.block(1 + k % 4, True)
        add(f"r{k}", sx, g.ok)
    for k in range(300 if q else 3000):
        g = Gen(50000 + k)
        sx, t = g.of(g.r.choice(g.TS[:-2]), 1 + k % 4)
        add(f"e{k}", sx, g.ok and t != "ptr")
    return progs, err


def spec(tier, where=False):
    q = tier == "quick"
    sh = []
    add = sh.append
    for leaf in ("L", "X"):
        add("0U" + leaf)
        add("0UU" + leaf)
        add("0B" + leaf + leaf)
        for n in range(5):
            add(f"0I{n}" + leaf * n)
        for n in range(0, 8):
            add(f"0S{n}" + leaf * n) if n < 6 or leaf == "L" else None
        for n in range(0, 6):
            add(f"0W{n}" + leaf * n)
            add(f"0n{n}" + ("a0" + leaf) * n)
            add(f"0m{n}" + ("a?" + leaf) * n)
    for d in "0123456789a":
        add(f"0BLK{d}")
        add(f"0BK{d}L")
        add(f"0UK{d}")
        add(f"0BT{d}L")
        add(f"0I3LT{d}L")
        add(f"0S5NLNT{d}L")
        add(f"0n3a0K{d}a?L.0Ra")
    for e in "Eeo":
        add("0" + e); add("0U" + e); add("0B" + e + "L"); add("0I3N" + e + "L"); add("0S3NL" + e); add("0W2" + e + "n0"); add("0n2a0" + e + "a0L"); add("11C1" + e)
    add("0BBLLN"); add("0BNBLL"); add("0UBLL"); add("0BULN"); add("0I3NBLLN"); add("0S3NULL"); add("0BBLLK6"); add("0BLK0");
    for n in range(4):
        for nf, ps in ((1, "0"), (1, "1"), (1, "2"), (2, "11"), (2, "12"), (2, "22"), (3, "111"), (3, "121"), (3, "212"), (4, "1111")):
            add(f"{nf}{ps}C{n}" + "L" * n)
    add("21" + "1" + "C1C1L"); add("11C2LX"); add("211C1BLL"); add("12C2ULL")
    # variables
    for c1 in "01?":
        for c2 in "01?":
            add(f"0n2a{c1}La{c2}L"); add(f"0n3a{c1}La{c2}L.0Ra"); add(f"0n3a{c1}La{c2}La{c1}L")
            add(f"0n3a{c1}L.0W2Nn1a{c2}L.0Ra"); add(f"0n3a{c1}L.0W3Nn1a{c2}Ln1a{c1}L.0Ra"); add(f"0n3a{c1}L.0W2Nn2a{c2}La{c1}La0L")
            add(f"0n3.0W2Nn1a{c1}L.0W2Nn1a{c2}La?L"); add(f"0n2a{c1}L.0m2a{c2}La{c1}L"); add(f"0m2a{c1}La{c2}L"); add(f"0n2.0n1a{c1}La{c2}L")
            add(f"0n3a{c1}L.0W2Nn1.0W2Nn1a{c2}La{c2}L"); add(f"0n3a{c1}Lb{c2}Rab0L"); add(f"0m2.0n2a{c1}L.0Ra.0n2a{c2}L.0Ra")
    add("0n1.0Ra"); add("0n2.0W2Nn1a0L.0Ra"); add("0m2a0L.0Ra"); add("0n2.0m1a0L.0Ra"); add("0n2a0L.0m1.0Ra"); add("0W2Nn1.0Ra"); add("0W4Nn1a0LNn1.0Ra")
    add("0n2a0L.0W3Ran1b0Ran1b0L"); add("0n2a0L.0W5Nn1a0LRan1a0Ln1a0L"); add("0W3Nn1a0Ln1a0L"); add("0n3a0Lb0BRaN.0Rb")
    for s in range(120 if q else 1500):
        r = random.Random(900 + s)
        add("0" + gen(r, 2 + s % 2, set()))
    for s in range(200 if q else 2500):
        r = random.Random(7700 + s)
        add("0" + stmts(r, 1 + s % 3, set(), r.randint(2, 4)))
    sh = list(dict.fromkeys(sh))
    progs, err = compiled(q)
    h = "static const char* const SHAPES[] = {\n" + "".join(f'  "{x}",\n' for x in sh) + "};\n"
    jobs = [(f"t{i}", "h_tree", [i], 200) for i in range(len(sh))]
    if where:
        return h + "#define JF_WHERE\n" + HARNESS, jobs
    return Spec(progs=progs, expect_error=err, harness=h + HARNESS, jobs=jobs, exact_arena=False,
                wraps=["_ZNK9jitfusion10Diagnostic6RenderB5cxx11Ev", "_ZNK9jitfusion17FunctionSignature8ToStringB5cxx11Ev",
                       "_ZN9jitfusion10TypeHelper12TypeToStringB5cxx11ENS_9ValueTypeE", "_ZN9jitfusion10TypeHelper20BinaryOPTypeToStringB5cxx11ENS_12BinaryOPTypeE",
                       "_ZN9jitfusion10TypeHelper19UnaryOPTypeToStringB5cxx11ENS_11UnaryOPTypeE"],
                bounds=f"{len(sh)} tree shapes with every operator, type of every leaf, constant value and const flag; {len(progs)} concrete typed trees through the whole compiler",
                assumptions=["the text of messages is replaced", "hash containers are modelled with one bucket"],
                explanation="The validator runs on trees whose leaves have symbolic types; it must accept exactly what the rules allow and give every node the type the rules give.")
