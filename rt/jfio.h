// Argument and result slots shared by the native driver, the harnesses and
// the replay build.  Programs read their inputs with ld_<T>(entry, k) and
// write outputs with st_<T>(output, k, v).
#pragma once
#include <cstdint>
#include <cstring>

#include "type.h"

struct JfSlot {
  union { uint64_t bits; void* ptr; };
  uint32_t len;
  uint32_t written;
};

#define JF_NUM_TYPES(X)                                                                                   \
  X(u8, uint8_t, kU8) X(u16, uint16_t, kU16) X(u32, uint32_t, kU32) X(u64, uint64_t, kU64)                \
  X(i8, int8_t, kI8) X(i16, int16_t, kI16) X(i32, int32_t, kI32) X(i64, int64_t, kI64) X(f32, float, kF32) \
  X(f64, double, kF64)
#define JF_LIST_TYPES(X)                                                                                            \
  X(lu8, jitfusion::U8ListStruct, kU8List) X(lu16, jitfusion::U16ListStruct, kU16List)                              \
  X(lu32, jitfusion::U32ListStruct, kU32List) X(lu64, jitfusion::U64ListStruct, kU64List)                           \
  X(li8, jitfusion::I8ListStruct, kI8List) X(li16, jitfusion::I16ListStruct, kI16List)                              \
  X(li32, jitfusion::I32ListStruct, kI32List) X(li64, jitfusion::I64ListStruct, kI64List)                           \
  X(lf32, jitfusion::F32ListStruct, kF32List) X(lf64, jitfusion::F64ListStruct, kF64List)                           \
  X(str, jitfusion::StringStruct, kString) X(lstr, jitfusion::StringListStruct, kStringList)

extern "C" {
#define X(n, T, k)                                       \
  __attribute__((noinline, used)) inline T ld_##n(void* p, int32_t i) {       \
    T v;                                                 \
    memcpy(&v, &((JfSlot*)p)[i].bits, sizeof(T));        \
    return v;                                            \
  }                                                      \
  __attribute__((noinline, used)) inline void st_##n(void* p, int32_t i, T v) { \
    memcpy(&((JfSlot*)p)[i].bits, &v, sizeof(T));        \
    ((JfSlot*)p)[i].written++;                           \
  }
JF_NUM_TYPES(X)
#undef X
#define X(n, T, k)                                       \
  __attribute__((noinline, used)) inline T ld_##n(void* p, int32_t i) {       \
    T v;                                                 \
    v.data = (decltype(v.data))((JfSlot*)p)[i].ptr;      \
    v.len = ((JfSlot*)p)[i].len;                         \
    return v;                                            \
  }                                                      \
  __attribute__((noinline, used)) inline void st_##n(void* p, int32_t i, T v) { \
    ((JfSlot*)p)[i].ptr = (void*)v.data;                 \
    ((JfSlot*)p)[i].len = v.len;                         \
    ((JfSlot*)p)[i].written++;                           \
  }
JF_LIST_TYPES(X)
#undef X
// an operand with a visible effect: counts the evaluation in slot i and notes
// the order of evaluations (slot 31 counts them all)
#define X(n, T, k)                                       \
  __attribute__((noinline, used)) inline T tick_##n(void* p, int32_t i, T v) { \
    ((JfSlot*)p)[i].written++;                           \
    ((JfSlot*)p)[i].len = ++((JfSlot*)p)[31].len;        \
    return v;                                            \
  }
JF_NUM_TYPES(X)
#undef X
}
