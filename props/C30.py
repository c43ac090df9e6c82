"""A clone of a tree is the same program, and independent of the original."""
import random
from jf import Spec
from common import *
import genprog

HARNESS = r'''
#include <string>
#include <variant>
#include <vector>
#include "exec_node.h"
''' + PRELUDE + r'''
typedef std::unique_ptr<ExecNode> NP;
static const char g_text[] = "source";
static std::string symStr(uint64_t n) { std::string s; for (uint64_t i = 0; i < n; i++) s.push_back(sym<char>("char")); return s; }
// what was built, noted apart from the tree
struct Mem { ExecNodeType k; uint32_t op; ConstantValueType v; ConstantListValueType l; std::string name; std::vector<VarInfo> vars; bool iso; int loc[4]; size_t textlen; size_t n; };
struct B {
  const char* p;
  std::vector<Mem> mem;
  std::vector<ExecNode*> nodes;
  int digit() { return *p++ - '0'; }
  size_t note(ExecNodeType k) { Mem m{}; m.k = k; mem.push_back(m); nodes.push_back(nullptr); return mem.size() - 1; }
  NP fin(size_t i, NP n) {
    nodes[i] = n.get();
    SourceLocation l;
    l.source_code = std::string_view(g_text, 3);
    mem[i].textlen = 3;
    int* f[] = {&l.begin_line, &l.begin_col, &l.end_line, &l.end_col};
    for (int j = 0; j < 4; j++) *f[j] = mem[i].loc[j] = sym<int>("location");
    n->SetLocation(l);
    return n;
  }
  std::vector<NP> kids(int n) { std::vector<NP> v; for (int i = 0; i < n; i++) v.push_back(parse()); return v; }
  template <class T> NP con(size_t i) { T v = sym<T>("value"); mem[i].v = v; return fin(i, NP(new ConstantValueNode(v))); }
  template <class T> NP lst(size_t i, int n) { std::vector<T> v; for (int j = 0; j < n; j++) v.push_back(sym<T>("element")); mem[i].l = v; return fin(i, NP(new ConstantListValueNode(v))); }
  NP parse() {
    char k = *p++;
    switch (k) {
      case 'E': { size_t i = note(ExecNodeType::kEntryArgumentNode); return fin(i, NP(new EntryArgumentNode)); }
      case 'e': { size_t i = note(ExecNodeType::kExecContextNode); return fin(i, NP(new ExecContextNode)); }
      case 'o': { size_t i = note(ExecNodeType::kOutputNode); return fin(i, NP(new OutputNode)); }
      case 'K': {
        size_t i = note(ExecNodeType::kConstValueNode);
        char t = *p++;
        switch (t) {
          case '0': return con<uint8_t>(i);
          case '1': return con<uint16_t>(i);
          case '2': return con<uint32_t>(i);
          case '3': return con<uint64_t>(i);
          case '4': return con<int8_t>(i);
          case '5': return con<int16_t>(i);
          case '6': return con<int32_t>(i);
          case '7': return con<int64_t>(i);
          case '8': return con<float>(i);
          case '9': return con<double>(i);
          default: { std::string s = symStr(digit() * 9); mem[i].v = s; return fin(i, NP(new ConstantValueNode(s))); }
        }
      }
      case 'T': {
        size_t i = note(ExecNodeType::kConstListValueNode);
        char t = *p++;
        int n = digit();
        switch (t) {
          case '0': return lst<uint8_t>(i, n);
          case '1': return lst<uint16_t>(i, n);
          case '2': return lst<uint32_t>(i, n);
          case '3': return lst<uint64_t>(i, n);
          case '4': return lst<int8_t>(i, n);
          case '5': return lst<int16_t>(i, n);
          case '6': return lst<int32_t>(i, n);
          case '7': return lst<int64_t>(i, n);
          case '8': return lst<float>(i, n);
          case '9': return lst<double>(i, n);
          default: { std::vector<std::string> v; for (int j = 0; j < n; j++) v.push_back(symStr(j * 8)); mem[i].l = v; return fin(i, NP(new ConstantListValueNode(v))); }
        }
      }
      case 'U': { size_t i = note(ExecNodeType::kUnaryOPNode); uint8_t op = sym<uint8_t>("op"); mem[i].op = op; mem[i].n = 1; return fin(i, NP(new UnaryOPNode((UnaryOPType)op, parse()))); }
      case 'B': { size_t i = note(ExecNodeType::kBinaryOPNode); uint8_t op = sym<uint8_t>("op"); mem[i].op = op; mem[i].n = 2; NP a = parse(); NP b = parse(); return fin(i, NP(new BinaryOPNode((BinaryOPType)op, std::move(a), std::move(b)))); }
      case 'F': { size_t i = note(ExecNodeType::kFunctionNode); mem[i].name = symStr(3); int n = digit(); mem[i].n = n; return fin(i, NP(new FunctionNode(mem[i].name, kids(n)))); }
      case 'G': { size_t i = note(ExecNodeType::kFunctionNode); mem[i].name = symStr(20); int n = digit(); mem[i].n = n; auto* f = new FunctionNode(mem[i].name, {}); NP r(f); for (int j = 0; j < n; j++) f->AppendArgs(parse()); return fin(i, std::move(r)); }
      case 'I': { size_t i = note(ExecNodeType::kIfNode); int n = digit(); mem[i].n = n; return fin(i, NP(new IfNode(kids(n)))); }
      case 'J': { size_t i = note(ExecNodeType::kIfNode); int n = digit(); mem[i].n = n; auto* f = new IfNode(std::vector<NP>{}); NP r(f); for (int j = 0; j < n; j++) f->AppendArgs(parse()); return fin(i, std::move(r)); }
      case 'S': { size_t i = note(ExecNodeType::kSwitchNode); int n = digit(); mem[i].n = n; return fin(i, NP(new SwitchNode(kids(n)))); }
      case 'D': { size_t i = note(ExecNodeType::kSwitchNode); int n = digit(); mem[i].n = n; auto* f = new SwitchNode(std::vector<NP>{}); NP r(f); for (int j = 0; j < n; j++) f->AppendArgs(parse()); return fin(i, std::move(r)); }
      case 'W': { size_t i = note(ExecNodeType::kIfBlockNode); int n = digit(); mem[i].n = n; return fin(i, NP(new IfBlockNode(kids(n)))); }
      case 'R': { size_t i = note(ExecNodeType::kRefNode); mem[i].name = symStr(digit() * 9 + 1); return fin(i, NP(new RefNode(mem[i].name))); }
      case 'n': case 'm': {  // n: from lists, m: one by one
        size_t i = note(ExecNodeType::kNoOPNode);
        int n = digit();
        mem[i].n = n;
        bool iso = k == 'n' && (sym<uint8_t>("isolated") & 1);
        std::vector<VarInfo> vi; std::vector<NP> v;
        NoOPNode* app = k == 'm' ? new NoOPNode(std::vector<NP>{}) : nullptr;
        NP r(app);
        for (int j = 0; j < n; j++) {
          char named = *p++;   // 0: no name, 1: a name, 2: a name and const or not
          std::string name = named == '0' ? std::string() : symStr(j % 2 ? 17 : 2);
          bool c = named == '2' && (sym<uint8_t>("const") & 1);
          mem[i].vars.emplace_back(name, c);
          NP x = parse();
          if (app) { if (named == '0') app->AppendArgs(std::move(x)); else if (named == '1') app->AppendArgs(name, std::move(x)); else app->AppendArgs(name, std::move(x), c); }
          else { vi.emplace_back(name, c); v.push_back(std::move(x)); }
        }
        mem[i].iso = iso;
        if (app) return fin(i, std::move(r));
        return fin(i, NP(new NoOPNode(vi, std::move(v), iso)));
      }
    }
    jf_assert(false, "shape");
    jf_end();
  }
};
static bool eqStr(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
template <class T> bool bitsEq(const T& a, const T& b) { return same(a, b); }
template <> bool bitsEq(const std::string& a, const std::string& b) { return eqStr(a, b); }
static bool eqVal(const ConstantValueType& a, const ConstantValueType& b) {
  if (a.index() != b.index()) return false;
  return std::visit([&](const auto& x) { return bitsEq(x, std::get<std::decay_t<decltype(x)>>(b)); }, a);
}
static bool eqList(const ConstantListValueType& a, const ConstantListValueType& b) {
  if (a.index() != b.index()) return false;
  return std::visit([&](const auto& x) {
    const auto& y = std::get<std::decay_t<decltype(x)>>(b);
    if (x.size() != y.size()) return false;
    bool r = true;
    for (size_t i = 0; i < x.size(); i++) r &= bitsEq(x[i], y[i]);
    return r;
  }, a);
}
// the tree is what was noted; its nodes are noted in seen
static bool is(ExecNode* n, const std::vector<Mem>& mem, size_t& at, std::vector<ExecNode*>& seen) {
  if (!n || at >= mem.size()) return false;
  seen.push_back(n);
  const Mem& m = mem[at++];
  if (n->GetExecNodeType() != m.k) return false;
  const SourceLocation& l = n->GetLocation();
  bool r = (l.begin_line == m.loc[0]) & (l.begin_col == m.loc[1]) & (l.end_line == m.loc[2]) & (l.end_col == m.loc[3]) & (l.source_code.size() == m.textlen) & (l.source_code.data() == g_text);
  const std::vector<NP>* args = nullptr;
  switch (m.k) {
    case ExecNodeType::kConstValueNode: return r & eqVal(((ConstantValueNode*)n)->GetVal(), m.v);
    case ExecNodeType::kConstListValueNode: return r & eqList(((ConstantListValueNode*)n)->GetValList(), m.l);
    case ExecNodeType::kUnaryOPNode: { auto* u = (UnaryOPNode*)n; r &= (uint32_t)u->GetOp() == m.op; return r & is(u->GetChild(), mem, at, seen); }
    case ExecNodeType::kBinaryOPNode: { auto* u = (BinaryOPNode*)n; r &= (uint32_t)u->GetOp() == m.op; r &= is(u->GetLeft(), mem, at, seen); return r & is(u->GetRight(), mem, at, seen); }
    case ExecNodeType::kRefNode: return r & eqStr(((RefNode*)n)->GetName(), m.name);
    case ExecNodeType::kFunctionNode: r &= eqStr(((FunctionNode*)n)->GetFuncName(), m.name); args = &((FunctionNode*)n)->GetArgs(); break;
    case ExecNodeType::kIfNode: args = &((IfNode*)n)->GetArgs(); break;
    case ExecNodeType::kSwitchNode: args = &((SwitchNode*)n)->GetArgs(); break;
    case ExecNodeType::kIfBlockNode: args = &((IfBlockNode*)n)->GetArgs(); break;
    case ExecNodeType::kNoOPNode: {
      auto* u = (NoOPNode*)n;
      args = &u->GetArgs();
      auto& vi = u->GetVarInfos();
      if (vi.size() != m.vars.size()) return false;
      for (size_t i = 0; i < vi.size(); i++) { r &= eqStr(vi[i].name, m.vars[i].name); r &= vi[i].is_const == m.vars[i].is_const; }
      r &= u->IsIsolated() == m.iso;
      break;
    }
    default: return r;
  }
  if (args->size() != m.n) return false;
  for (auto& a : *args) r &= is(a.get(), mem, at, seen);
  return r;
}
static void check(ExecNode* n, const B& b, std::vector<ExecNode*>& seen, const char* msg) {
  size_t at = 0;
  bool r = is(n, b.mem, at, seen) & (at == b.mem.size());
  jf_assert(r, msg);
}
JF_H h_clone(uint64_t i, uint64_t how) {
  B b;
  b.p = SHAPES[i];
  NP t = b.parse();
  jf_assert(*b.p == 0, "shape");
  std::vector<ExecNode*> s0, s1, s2;
  check(t.get(), b, s0, "a tree holds what it was built from");
  NP c = t->Clone();
  check(t.get(), b, s1, "cloning leaves the original as it was");
  check(c.get(), b, s2, "a clone is the same program");
  for (auto* x : s2) for (auto* y : s0) jf_assert(x != y, "a clone shares no node with the original");
  if (how == 0) { t.reset(); }
  else if (how == 1) { c.reset(); std::vector<ExecNode*> s; check(t.get(), b, s, "the original outlives its clone"); return; }
  else { NP d = c->Clone(); c.reset(); t.reset(); c = std::move(d); }
  std::vector<ExecNode*> s;
  check(c.get(), b, s, "a clone outlives the original");
}
'''


def gen(r, d):
    if d == 0 or r.random() < .1:
        k = r.choice("EeoKKKTTRR")
        if k == "K":
            t = r.choice("0123456789a")
            return "K" + t + (r.choice("012") if t == "a" else "")
        if k == "T":
            return "T" + r.choice("0123456789a") + r.choice("0123")
        if k == "R":
            return "R" + r.choice("012")
        return k
    k = r.choice("UBFGIJSDWnmn")
    if k == "U":
        return "U" + gen(r, d - 1)
    if k == "B":
        return "B" + gen(r, d - 1) + gen(r, d - 1)
    n = r.randint(0, 4)
    s = k + str(n)
    for _ in range(n):
        s += (r.choice("0122") if k in "nm" else "") + gen(r, d - 1)
    return s


def spec(tier):
    q = tier == "quick"
    sh = ["E", "e", "o", "R0", "R1", "R2", "UR0", "BR0R1"]
    sh += ["K" + t for t in "0123456789"] + ["Ka0", "Ka1", "Ka2"]
    sh += [f"T{t}{n}" for t in "0123456789a" for n in (0, 1, 3)]
    for k in "FGIJSDW":
        sh += [k + str(n) + "".join(["K6", "UR0", "E", "Ka1", "T61"][i % 5] for i in range(n)) for n in range(0, 6)]
    for k in "nm":
        for n in range(0, 6):
            for st in ("0", "1", "2", "012"):
                sh.append(k + str(n) + "".join(st[i % len(st)] + ["K6", "UR0", "E", "Ka1", "T61"][i % 5] for i in range(n)))
    for s in range(120 if q else 1200):
        r = random.Random(60 + s)
        sh.append(gen(r, 2 + s % 3))
    sh = list(dict.fromkeys(x for x in sh if len(x) < 120))
    h = "static const char* const SHAPES[] = {\n" + "".join(f'  "{x}",\n' for x in sh) + "};\n"
    jobs = [(f"t{i}_{w}", "h_clone", [i, w], 200) for i in range(len(sh)) for w in (range(3) if not q or i < 130 else [i % 3])]
    # the compiled clone does what the original says
    progs = []
    hp = genprog.RUNTIME
    for s in range(60 if q else 600):
        if s % 2:
            g = genprog.Gen(70000 + s, maxcond=4)
            sx = g.program(2 + s % 3, 2)
        else:
            g, sx = genprog.varprog(70000 + s, 2)
        if s % 5 == 0:
            # variables of one group of an isolated list are not seen in the next
            sx = f"(noopi {sx} (noop (= x (in i32 0)) (= v0 (in i32 0)) (st i32 30 (b 1 (ref x) (ref v0)))))" if 30 not in g.outt and g.inputs and g.inputs[0] == "i32" else sx
            if sx.startswith("(noopi"):
                g.code = ["  {"] + g.code + ["  }"]
                g.emit("E.st(30, A<int32_t>::add(i0, i0));")
                g.outt[30] = "i32"
        sx = "(clone " + ("(clone " * (s % 3 == 2)) + sx + ")" * (s % 3 == 2) + ")"
        name = f"c{s}"
        progs.append((name, sx))
        hp += f"JF_DECL({name})\n" + genprog.function(name, g, sx, g.outt)
        jobs.append((name, f"h_{name}", [], 60))
    for name, sx, body in (("list", f"(clone {b('add', '(in li32 0)', '(cl li32 1 2 3)')})", "I32ListStruct"), ("str", f"(clone {b('add', '(in str 0)', '(cs 616200)')})", "StringStruct")):
        progs.append((name, sx))
        el, cnt = ("int32_t", 3) if name == "list" else ("char", 3)
        want = "k + 1" if name == "list" else '"ab\\0"[k]'
        hp += f'''
JF_DECL({name})
JF_H h_{name}() {{
  JfSlot in[1]; memset(in, 0, sizeof in);
  {el}* a = symArr<{el}>(2, "a"); in[0].ptr = a; in[0].len = 2;
  auto r = call<{body}>(jf::P JF_ENT1({name}), in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == {2 + cnt}, "length");
  bool ok = r.v.data[0] == a[0] && r.v.data[1] == a[1];
  for (int k = 0; k < {cnt}; k++) ok &= r.v.data[2 + k] == {want};
  jf_assert(ok, "the constant of the clone outlives the original");
}}
'''
        jobs.append((name, f"h_{name}", [], 60))
    return Spec(progs=progs, harness=h + HARNESS + hp, jobs=jobs, exact_arena=False,
                bounds=f"{len(sh)} tree shapes with symbolic constants, operators, names, flags and locations; {len(progs)} compiled clones, all input values",
                assumptions=[],
                explanation="What a tree was built from is noted apart from it; original and clone are compared with the notes before and after the other is destroyed.")
