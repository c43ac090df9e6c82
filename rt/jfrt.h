// Harness runtime.  Compiled twice: to bitcode for the symbolic executor, and
// natively (JF_NATIVE) to replay a counterexample against the real library.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>

#include "exec_engine.h"
#include "jfio.h"

extern "C" {
void jf_sym(void* p, uint64_t eltsize, uint64_t count, const char* name);
void jf_assume(bool c);
void jf_assert(bool c, const char* msg);
void jf_cover(const char* id);
uint64_t jf_concretize(uint64_t v);
void jf_fork_loads(uint64_t on);
void jf_readonly(const void* p);
void jf_writable(const void* p);
// 1 here, 2 (natively) around each execution: all that exists is shared, 0: no longer
void jf_freeze(uint64_t mode);
void jf_keep(const void* p, uint64_t n);
uint64_t jf_heap_live();
int jf_is_sym();
uint64_t jf_obj_size(const void* p);
void jf_allow_throw(uint64_t on);
[[noreturn]] void jf_end();
[[noreturn]] void jf_kill();
void jf_symlen_stop(uint64_t on);
void jf_sym_alloc(uint64_t max);
void jf_debug(const char* n, uint64_t v);
uint64_t jf_ite64(bool c, uint64_t a, uint64_t b);
}
// replaces a function of the library (list its mangled name in Spec.wraps too)
#ifdef JF_NATIVE
#define JF_STUB_R(R, name) extern "C" __attribute__((used)) R __wrap_##name
#else
#define JF_STUB_R(R, name) extern "C" __attribute__((used)) R jfstub_##name
#endif
#define JF_H extern "C" __attribute__((used, noinline)) void

namespace jf {
using namespace jitfusion;

template <class T> T sym(const char* name) { T v; jf_sym(&v, sizeof(T), 1, name); return v; }
// n symbolic elements in an allocation of exactly n elements
template <class T> T* symArr(uint64_t n, const char* name) {
  if (!n) return nullptr;
  T* p = (T*)malloc(n * sizeof(T));
  if constexpr (std::is_arithmetic_v<T> && !std::is_same_v<T, char>) {
    if (n > 36) {
      // long: ascending concrete values, symbolic at a few positions
      for (uint64_t i = 0; i < n; i++) p[i] = (T)((int)(i * 200 / n) - (std::is_signed_v<T> ? 100 : 0));
      uint64_t at[] = {32, 128, 255, 256, n - 1};
      for (uint64_t k = n > 64 ? 1 : 0; k < (n > 64 ? 5 : 1); k++) if (at[k] < n) jf_sym(p + at[k], sizeof(T), 1, name);
      return p;
    }
  }
  jf_sym(p, sizeof(T), n, name);
  return p;
}

// ---- value equality: same bits, or both NaN
inline bool same(double a, double b) {
  uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8);
  const uint64_t m = 0x7fffffffffffffffull, inf = 0x7ff0000000000000ull;
  return (x == y) | (((x & m) > inf) & ((y & m) > inf));
}
inline bool same(float a, float b) {
  uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4);
  const uint32_t m = 0x7fffffffu, inf = 0x7f800000u;
  return (x == y) | (((x & m) > inf) & ((y & m) > inf));
}
template <class T> std::enable_if_t<std::is_integral_v<T>, bool> same(T a, T b) { return a == b; }
inline bool isnan_(double a) { uint64_t x; memcpy(&x, &a, 8); return (x & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
inline bool isnan_(float a) { uint32_t x; memcpy(&x, &a, 4); return (x & 0x7fffffffu) > 0x7f800000u; }
template <class T> std::enable_if_t<std::is_integral_v<T>, bool> isnan_(T) { return false; }
// without a branch
template <class T> inline T sel(bool c, T a, T b) {
  uint64_t x = 0, y = 0;
  memcpy(&x, &a, sizeof a); memcpy(&y, &b, sizeof b);
  uint64_t r = jf_ite64(c, x, y);
  T t; memcpy(&t, &r, sizeof t);
  return t;
}

// ---- results
template <class T> struct Elem { typedef T type; static constexpr bool list = false; };
template <class T> struct ElemL { typedef T type; static constexpr bool list = true; };
template <> struct Elem<U8ListStruct> : ElemL<uint8_t> {};
template <> struct Elem<U16ListStruct> : ElemL<uint16_t> {};
template <> struct Elem<U32ListStruct> : ElemL<uint32_t> {};
template <> struct Elem<U64ListStruct> : ElemL<uint64_t> {};
template <> struct Elem<I8ListStruct> : ElemL<int8_t> {};
template <> struct Elem<I16ListStruct> : ElemL<int16_t> {};
template <> struct Elem<I32ListStruct> : ElemL<int32_t> {};
template <> struct Elem<I64ListStruct> : ElemL<int64_t> {};
template <> struct Elem<F32ListStruct> : ElemL<float> {};
template <> struct Elem<F64ListStruct> : ElemL<double> {};
template <> struct Elem<StringStruct> : ElemL<char> {};
template <> struct Elem<StringListStruct> : ElemL<StringStruct> {};
template <class T> struct ListOf;
template <> struct ListOf<uint8_t> { typedef U8ListStruct type; };
template <> struct ListOf<uint16_t> { typedef U16ListStruct type; };
template <> struct ListOf<uint32_t> { typedef U32ListStruct type; };
template <> struct ListOf<uint64_t> { typedef U64ListStruct type; };
template <> struct ListOf<int8_t> { typedef I8ListStruct type; };
template <> struct ListOf<int16_t> { typedef I16ListStruct type; };
template <> struct ListOf<int32_t> { typedef I32ListStruct type; };
template <> struct ListOf<int64_t> { typedef I64ListStruct type; };
template <> struct ListOf<float> { typedef F32ListStruct type; };
template <> struct ListOf<double> { typedef F64ListStruct type; };

template <class R> struct Res { bool ok; R v; };

// ---- program inputs
template <class T> void setIn(JfSlot& s, T v) { s.bits = 0; memcpy(&s.bits, &v, sizeof(T)); s.len = 0; s.written = 0; }
template <class T> void setList(JfSlot& s, const T* p, uint32_t n) { s.ptr = (void*)p; s.len = n; s.written = 0; }
template <class T> T getOut(const JfSlot& s) { T v; memcpy(&v, &s.bits, sizeof(T)); return v; }

#ifndef JF_NATIVE
template <class R> Res<R> run(R (*fn)(void*, void*, void*), const char*, JfSlot* in, JfSlot* out, ExecContext* ctx) {
  Res<R> r;
  r.v = fn(in, ctx, out);
  r.ok = !ctx->HasErrors();
  return r;
}
inline bool runV(void (*fn)(void*, void*, void*), const char*, JfSlot* in, JfSlot* out, ExecContext* ctx) {
  fn(in, ctx, out);
  return !ctx->HasErrors();
}
#else
RetType nativeRun(const char* id, JfSlot* in, bool* ok);
bool nativeRunV(const char* id, JfSlot* in, JfSlot* out);
template <class R> Res<R> run(R (*)(void*, void*, void*), const char* id, JfSlot* in, JfSlot*, ExecContext*) {
  Res<R> r;
  RetType* v = new RetType(nativeRun(id, in, &r.ok));  // kept alive: results point into it
  if constexpr (std::is_same_v<R, StringListStruct>) {
    auto* s = std::get_if<std::vector<std::string>>(v);
    r.v.len = s ? s->size() : 0;
    r.v.data = r.v.len ? new StringStruct[r.v.len] : nullptr;
    for (uint32_t i = 0; i < r.v.len; i++) { r.v.data[i].data = (*s)[i].data(); r.v.data[i].len = (*s)[i].size(); }
  } else if constexpr (std::is_same_v<R, StringStruct>) {
    auto* s = std::get_if<std::string>(v);
    r.v.data = s ? s->data() : nullptr;
    r.v.len = s ? s->size() : 0;
  } else if constexpr (Elem<R>::list) {
    auto* s = std::get_if<std::vector<typename Elem<R>::type>>(v);
    r.v.data = s ? s->data() : nullptr;
    r.v.len = s ? s->size() : 0;
  } else {
    auto* s = std::get_if<R>(v);
    if (s) r.v = *s; else memset(&r.v, 0, sizeof r.v);
  }
  return r;
}
inline bool runV(void (*)(void*, void*, void*), const char* id, JfSlot* in, JfSlot* out, ExecContext*) { return nativeRunV(id, in, out); }
#endif

#define JF_PROG(R, id) extern "C" R prog_##id(void*, void*, void*)
#ifndef JF_NATIVE
#define JF_RUN(id, in) jf::run(prog_##id, #id, in, nullptr, &jf::theCtx())
#define JF_RUNO(id, in, out) jf::runV(prog_##id, #id, in, out, &jf::theCtx())
#else
#define JF_RUN(id, in) jf::run((decltype(&prog_##id))nullptr, #id, in, nullptr, nullptr)
#define JF_RUNO(id, in, out) jf::runV(nullptr, #id, in, out, nullptr)
#endif
// programs by table: one harness body serves many programs
struct P { void* fn; const char* id; };
inline ExecContext& theCtx();
#ifndef JF_NATIVE
#define JF_DECL(id) extern "C" void prog_##id();
#define JF_ENT(id) {(void*)&prog_##id, #id},
template <class R> Res<R> call(const P& p, JfSlot* in) { return run((R (*)(void*, void*, void*))p.fn, p.id, in, nullptr, &theCtx()); }
inline bool callV(const P& p, JfSlot* in, JfSlot* out) { return runV((void (*)(void*, void*, void*))p.fn, p.id, in, out, &theCtx()); }
#else
#define JF_DECL(id)
#define JF_ENT(id) {nullptr, #id},
template <class R> Res<R> call(const P& p, JfSlot* in) { return run((R (*)(void*, void*, void*))nullptr, p.id, in, nullptr, nullptr); }
inline bool callV(const P& p, JfSlot* in, JfSlot* out) { return nativeRunV(p.id, in, out); }
#endif
inline ExecContext& theCtx() {
  ExecContext* c = new ExecContext(4096);
  return *c;
}
}  // namespace jf

#ifndef JF_NATIVE
#ifdef JF_EXACT_ARENA
// every arena allocation becomes an object of exactly the requested size, so
// that any access outside it is visible
extern "C" __attribute__((used)) uint8_t* jfstub__ZN9jitfusion5Arena8AllocateEmm(void*, uint64_t size, uint64_t) {
  return size ? (uint8_t*)malloc(size) : nullptr;
}
#endif
#endif
#ifndef JF_NATIVE
#define JF_ENT1(id) {(void*)&prog_##id, #id}
#else
#define JF_ENT1(id) {nullptr, #id}
#endif
