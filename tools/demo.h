// Small helpers for the demonstrations: build a program from its text form,
// set its inputs, run it on the real engine, look at the result.
#pragma once
#include <cmath>
#include <cstdio>
#include <deque>
#include <limits>

#include "athena.h"
#include "batch_exec_engine.h"
#include "exec_engine.h"
#include "exec_node.h"
#include "function_registry.h"
#include "jfdrv.h"
#include "jfio.h"

#define CHECK(c)                                                       \
  do {                                                                 \
    if (!(c)) {                                                        \
      fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c);           \
      exit(1);                                                         \
    }                                                                  \
  } while (0)

using namespace jitfusion;

inline std::unique_ptr<FunctionRegistry> demoRegistry() {
  std::unique_ptr<FunctionRegistry> reg;
  CHECK(FunctionRegistryFactory::CreateFunctionRegistry(&reg).ok());
#define X(n, T, k)                                                                                                              \
  CHECK(reg->RegisterReadOnlyCFunc(FunctionSignature("ld_" #n, {ValueType::kPtr, ValueType::kI32}, ValueType::k), (void*)ld_##n).ok()); \
  CHECK(reg->RegisterStoreCFunc(FunctionSignature("st_" #n, {ValueType::kPtr, ValueType::kI32, ValueType::k}, ValueType::kVoid), (void*)st_##n, 1).ok());
  JF_NUM_TYPES(X)
  JF_LIST_TYPES(X)
#undef X
  return reg;
}

inline std::unique_ptr<ExecNode> demoNode(const std::string& text) {
  jfdrv::Parser p(text);
  return jfdrv::build(p.parse());
}

struct Run {
  JfSlot in[32] = {}, out[32] = {};
  RetType ret;
  Status st;
  std::deque<std::vector<char>> keep;
  std::unique_ptr<FunctionRegistry> reg = demoRegistry();
  ExecEngine engine;
  explicit Run(const std::string& text, ExecEngineOption opt = {}) : engine(opt) {
    auto n = demoNode(text);
    st = engine.Compile(n, reg);
    if (!st.ok()) fprintf(stderr, "compile: %s\n", st.ToString().c_str());
  }
  template <class T> Run& set(int k, T v) { memcpy(&in[k].bits, &v, sizeof v); return *this; }
  template <class T> Run& list(int k, std::vector<T> v) {
    keep.emplace_back((char*)v.data(), (char*)(v.data() + v.size()));
    in[k].ptr = keep.back().data(); in[k].len = v.size();
    return *this;
  }
  Run& str(int k, std::string v) { return list<char>(k, std::vector<char>(v.begin(), v.end())); }
  bool go() { st = engine.Execute((void*)in, &ret); return st.ok(); }
  bool goV() { st = engine.Execute((void*)in, (void*)out); return st.ok(); }
  template <class T> T get() { return std::get<T>(ret); }
  template <class T> std::vector<T> vec() { return std::get<std::vector<T>>(ret); }
};
