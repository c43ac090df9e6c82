// Builds ASTs from s-expressions and registers the ld_/st_ functions.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "batch_exec_engine.h"
#include "exec_engine.h"
#include "exec_node.h"
#include "function_registry.h"
#include "jfio.h"

namespace jfdrv {
using namespace jitfusion;
typedef std::unique_ptr<ExecNode> NP;

inline Status RegisterIo(FunctionRegistry* r) {
#define X(n, T, k)                                                                                                 \
  JF_RETURN_NOT_OK(r->RegisterReadOnlyCFunc(FunctionSignature("ld_" #n, {ValueType::kPtr, ValueType::kI32}, ValueType::k), (void*)ld_##n)); \
  JF_RETURN_NOT_OK(r->RegisterStoreCFunc(FunctionSignature("st_" #n, {ValueType::kPtr, ValueType::kI32, ValueType::k}, ValueType::kVoid), (void*)st_##n, 1));
  JF_NUM_TYPES(X)
  JF_LIST_TYPES(X)
#undef X
#define X(n, T, k) JF_RETURN_NOT_OK(r->RegisterStoreCFunc(FunctionSignature("tick_" #n, {ValueType::kPtr, ValueType::kI32, ValueType::k}, ValueType::k), (void*)tick_##n, 1));
  JF_NUM_TYPES(X)
#undef X
#ifdef JF_USER
  JF_RETURN_NOT_OK(RegisterUser(r));
#endif
  return Status::OK();
}

struct Sexp { std::string a; std::vector<Sexp> l; bool atom = true; bool quoted = false; };
struct Parser {
  const std::string& s; size_t p = 0;
  explicit Parser(const std::string& x) : s(x) {}
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n')) p++; }
  Sexp parse() {
    ws();
    Sexp r;
    if (p < s.size() && s[p] == '(') {
      p++; r.atom = false;
      for (;;) { ws(); if (p >= s.size()) break; if (s[p] == ')') { p++; break; } r.l.push_back(parse()); }
      return r;
    }
    if (p < s.size() && s[p] == '"') {
      p++; r.quoted = true;
      while (p < s.size() && s[p] != '"') { if (s[p] == '\\') { p++; if (s[p] == 'n') { r.a += '\n'; p++; continue; } if (s[p] == '0') { r.a += '\0'; p++; continue; } } r.a += s[p++]; }
      p++;
      return r;
    }
    while (p < s.size() && s[p] != ' ' && s[p] != '(' && s[p] != ')' && s[p] != '\t' && s[p] != '\n') r.a += s[p++];
    return r;
  }
};
inline std::string unhex(const std::string& h) {
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return r;
}
template <typename T> T bits(const std::string& s) {
  uint64_t v = strtoull(s.c_str(), nullptr, 16);
  T t; memcpy(&t, &v, sizeof(T));
  return t;
}
[[noreturn]] inline void bad(const std::string& m) { fprintf(stderr, "jfdrv: bad program: %s\n", m.c_str()); exit(3); }

inline NP build(const Sexp& x);
inline std::vector<NP> builds(const Sexp& x, size_t from) {
  std::vector<NP> v;
  for (size_t i = from; i < x.l.size(); i++) v.push_back(build(x.l[i]));
  return v;
}
inline NP build(const Sexp& x) {
  if (x.atom) bad("atom " + x.a);
  const std::string& h = x.l[0].a;
  auto A = [&](size_t i) -> const std::string& { return x.l[i].a; };
  if (h == "in") {
    std::vector<NP> a;
    a.push_back(NP(new EntryArgumentNode));
    a.push_back(NP(new ConstantValueNode((int32_t)atoi(A(2).c_str()))));
    return NP(new FunctionNode("ld_" + A(1), std::move(a)));
  }
  if (h == "st") {
    std::vector<NP> a;
    a.push_back(NP(new OutputNode));
    a.push_back(NP(new ConstantValueNode((int32_t)atoi(A(2).c_str()))));
    a.push_back(build(x.l[3]));
    return NP(new FunctionNode("st_" + A(1), std::move(a)));
  }
  if (h == "tk") {
    std::vector<NP> a;
    a.push_back(NP(new OutputNode));
    a.push_back(NP(new ConstantValueNode((int32_t)atoi(A(2).c_str()))));
    a.push_back(build(x.l[3]));
    return NP(new FunctionNode("tick_" + A(1), std::move(a)));
  }
  if (h == "c") {
#define X(n, T, k) if (A(1) == #n) return NP(new ConstantValueNode(bits<T>(A(2))));
    JF_NUM_TYPES(X)
#undef X
  }
  if (h == "cs") return NP(new ConstantValueNode(x.l.size() > 1 ? unhex(A(1)) : std::string()));
  if (h == "cl") {
#define X(n, T, k) if (A(1) == "l" #n) { std::vector<T> v; for (size_t i = 2; i < x.l.size(); i++) v.push_back(bits<T>(A(i))); return NP(new ConstantListValueNode(v)); }
    JF_NUM_TYPES(X)
#undef X
    if (A(1) == "lstr") { std::vector<std::string> v; for (size_t i = 2; i < x.l.size(); i++) v.push_back(A(i) == "-" ? "" : unhex(A(i))); return NP(new ConstantListValueNode(v)); }
  }
  if (h == "u") return NP(new UnaryOPNode((UnaryOPType)atoi(A(1).c_str()), build(x.l[2])));
  if (h == "b") return NP(new BinaryOPNode((BinaryOPType)atoi(A(1).c_str()), build(x.l[2]), build(x.l[3])));
  if (h == "f") return NP(new FunctionNode(A(1), builds(x, 2)));
  if (h == "if") return NP(new IfNode(builds(x, 1)));
  if (h == "sw") return NP(new SwitchNode(builds(x, 1)));
  if (h == "ifb") return NP(new IfBlockNode(builds(x, 1)));
  if (h == "noop" || h == "noopi") {
    std::vector<VarInfo> vi;
    std::vector<NP> v;
    for (size_t i = 1; i < x.l.size(); i++) {
      const Sexp& e = x.l[i];
      if (!e.atom && e.l.size() == 3 && (e.l[0].a == "=" || e.l[0].a == "const")) {
        vi.emplace_back(e.l[1].a, e.l[0].a == "const");
        v.push_back(build(e.l[2]));
      } else { vi.emplace_back("", false); v.push_back(build(e)); }
    }
    return NP(new NoOPNode(std::move(vi), std::move(v), h == "noopi"));
  }
  if (h == "clone") {  // the original is gone before the clone is used
    NP o = build(x.l[1]);
    return o->Clone();
  }
  if (h == "ref") return NP(new RefNode(A(1)));
  if (h == "ea") return NP(new EntryArgumentNode);
  if (h == "ec") return NP(new ExecContextNode);
  if (h == "out") return NP(new OutputNode);
  bad("unknown form " + h);
}

struct Prog { std::string id; Sexp s; };
// file: <id> <sexp> per line
inline std::vector<Prog> readProgs(const char* path) {
  std::ifstream in(path);
  std::string line;
  std::vector<Prog> r;
  while (std::getline(in, line)) {
    size_t p = line.find(' ');
    if (p == std::string::npos) continue;
    std::string rest = line.substr(p + 1);
    Parser ps(rest);
    r.push_back({line.substr(0, p), ps.parse()});
  }
  return r;
}
}  // namespace jfdrv
