S("c01_mod_narrow", "C01", [("src/codegen/binary_op_codegen.cc",
'''      case BinaryOPType::kMod: {
        value_ = TypeHelper::IsIntegerType(binary_node.GetReturnType())
                     ? TypeHelper::IsSignedType(binary_node.GetReturnType())''',
'''      case BinaryOPType::kMod: {
        value_ = TypeHelper::IsIntegerType(binary_node.GetReturnType())
                     ? TypeHelper::IsSignedType(binary_node.GetLeft()->GetReturnType())''')],
'''
int main() {
  Run r("(b 5 (in i32 0) (in u32 1))");
  CHECK(r.st.ok());
  r.set<int32_t>(0, -7).set<uint32_t>(1, 4);
  CHECK(r.go());
  // the operands promote: i32 < u32, so the result is the unsigned remainder of 2^32-7
  CHECK(r.get<uint32_t>() == (uint32_t)-7 % 4u);
  return 0;
}
''', "a modulo whose left operand is signed and whose promoted type is unsigned, with a negative left value", "mixed-sign modulo uses the signedness of the left operand instead of the promoted type")

S("c09_bitmap_tail", "C09", [("src/function/list_comparison.cc",
'''  auto last_index = (vec_loop_len / 8);
  result.data[last_index] = 0;
  for (int j = 0; i + j < a.len; j++) {
    uint32_t is_true;
    if constexpr (BinaryOPType::kLarge == OpType) {
      is_true = (a.data[i + j] > b ? 1U : 0U);
    } else if constexpr (BinaryOPType::kLargeEqual == OpType) {
      is_true = (a.data[i + j] >= b ? 1U : 0U);
    } else if constexpr (BinaryOPType::kEqual == OpType) {
      is_true = (a.data[i + j] == b ? 1U : 0U);
    } else if constexpr (BinaryOPType::kLess == OpType) {
      is_true = (a.data[i + j] < b ? 1U : 0U);''',
'''  auto last_index = (vec_loop_len / 8);
  result.data[last_index] = 0;
  for (int j = 0; i + j < a.len; j++) {
    uint32_t is_true;
    if constexpr (BinaryOPType::kLarge == OpType) {
      is_true = (a.data[i + j] > b ? 1U : 0U);
    } else if constexpr (BinaryOPType::kLargeEqual == OpType) {
      is_true = (a.data[i + j] < b ? 0U : 1U);
    } else if constexpr (BinaryOPType::kEqual == OpType) {
      is_true = (a.data[i + j] == b ? 1U : 0U);
    } else if constexpr (BinaryOPType::kLess == OpType) {
      is_true = (a.data[i + j] < b ? 1U : 0U);''')],
'''
int main() {
  Run r("(f GenLargeEqualBitmap (in lf64 0) (in f64 1))");
  CHECK(r.st.ok());
  r.list<double>(0, {1, std::nan(""), 5}).set<double>(1, 2);
  CHECK(r.go());
  CHECK(r.vec<uint8_t>()[0] == 4);
  return 0;
}
''', "a NaN among the last elements of a list whose length is not a multiple of eight", "NaN >= x gives 1 in the tail byte of the bitmap")


S("c11_unique", "C11", [("src/function/list_basic.cc",
'''    std::string_view sv(a.data[i].data, a.data[i].len);
    if (seen.emplace(sv).second) {''',
'''    std::string_view sv(a.data[i].data, strnlen(a.data[i].data, a.data[i].len));
    if (seen.emplace(sv).second) {''')],
'''
int main() {
  Run r("(f Unique (cl lstr 610062 610063 61))");
  CHECK(r.st.ok());
  CHECK(r.go());
  auto v = r.vec<std::string>();
  CHECK(v.size() == 3);
  return 0;
}
''', "two different strings that agree up to an embedded NUL byte", "Unique treats strings with a common prefix up to a NUL as equal")

S("c13_keys_string", "C13", [("src/function/list_group.cc",
'''    std::string_view sv(keys.data[i].data, keys.data[i].len);
    auto [it, inserted] = table.try_emplace(sv, next_id);''',
'''    std::string_view sv(keys.data[i].data, keys.data[i].len);
    while (!sv.empty() && sv.back() == '\\0') {
      sv.remove_suffix(1);
    }
    auto [it, inserted] = table.try_emplace(sv, next_id);''')],
'''
int main() {
  Run r("(f GroupIndex (cl lstr 61 6100 62))");
  CHECK(r.st.ok());
  CHECK(r.go());
  auto v = r.vec<uint32_t>();
  CHECK(v[0] == 0 && v[1] == 1 && v[2] == 2);
  return 0;
}
''', "two string keys that differ only in trailing NUL bytes", "distinct keys fall into one group")

S("c02_ne_nan", "C02", [("src/codegen/binary_op_codegen.cc",
'''ctx_.builder.CreateFCmpUNE(lhs_value, rhs_value)''', '''ctx_.builder.CreateFCmpONE(lhs_value, rhs_value)''')],
'''
int main() {
  Run r("(b 15 (in f64 0) (in f32 1))");
  CHECK(r.st.ok());
  r.set<double>(0, std::nan("")).set<float>(1, 1);
  CHECK(r.go());
  CHECK(r.get<uint8_t>() == 1);
  return 0;
}
''', "a NaN operand of !=", "NaN != x yields 0")

S("c03_nan_lhs", "C03", [("src/codegen/binary_op_codegen.cc",
'''lhs_bool = ctx_.builder.CreateFCmpONE(''', '''lhs_bool = ctx_.builder.CreateFCmpUNE(''')],
'''
int main() {
  Run r("(b 20 (in f64 0) (in f64 1))");
  CHECK(r.st.ok());
  r.set<double>(0, std::nan("")).set<double>(1, 1);
  CHECK(r.go());
  CHECK(r.get<uint8_t>() == 0);
  return 0;
}
''', "a NaN as the left operand of && or ||", "NaN counts as true on the left and as false on the right")

S("c04_same_value", "C04", [("src/scope_stack.h",
'''      for (auto it = stack_.rbegin() + 1; it != stack_.rend(); ++it) {
        if (it->find(name) != it->end()) {
          shadowed[name] = value;
          break;
        }
      }''',
'''      bool outer = false;
      bool changed = true;
      for (auto it = stack_.rbegin() + 1; it != stack_.rend(); ++it) {
        if (auto found = it->find(name); found != it->end()) {
          outer = true;
          if constexpr (std::is_pointer_v<V>) {
            changed = changed && found->second != value;
          }
        }
      }
      if (outer && changed) {
        shadowed[name] = value;
      }''')],
'''
int main() {
  // x starts as y; the outer branch sets it to 7; the inner branch puts y back
  Run r("(noop (= y (in i32 0)) (= x (ref y)) (ifb (in u8 1) (noop (= x (in i32 3)) (ifb (in u8 2) (noop (= x (ref y)))))) (st i32 0 (ref x)))");
  CHECK(r.st.ok());
  r.set<int32_t>(0, 10).set<int32_t>(3, 7).set<uint8_t>(1, 1).set<uint8_t>(2, 1);
  CHECK(r.goV());
  CHECK((int32_t)r.out[0].bits == 10);
  return 0;
}
''', "a nested branch that assigns the value the variable had two scopes out", "the inner assignment is taken for a no-change and the variable keeps the outer branch's value")

S("c07_cast_u64", "C07", [("src/codegen/codegen.cc",
'''      if (TypeHelper::IsSignedType(to)) {
        *value =
            ctx.builder.CreateFPToSI(''',
'''      if (TypeHelper::IsSignedType(to) || TypeHelper::GetBitWidthFromType(to) == 64) {
        *value =
            ctx.builder.CreateFPToSI(''')],
'''
int main() {
  Run r("(f CastU64 (in f64 0))");
  CHECK(r.st.ok());
  r.set<double>(0, 9223372036854775808.0 + 4096.0 * 3);
  CHECK(r.go());
  CHECK(r.get<uint64_t>() == 9223372036854775808ull + 4096 * 3);
  return 0;
}
''', "a float of 2^63 or more cast to u64", "casts of large floats to u64 go through the signed conversion")

S("c08_div_recip", "C08", [("src/function/list_arithmetic.cc",
'''    result.data[i] = a.data[i] / b;
''',
'''    if constexpr (sizeof(typename ListType::CElementType) >= 4 && !std::is_integral_v<typename ListType::CElementType>) {
      result.data[i] = a.data[i] * (1 / b);
    } else {
      result.data[i] = a.data[i] / b;
    }
''')],
'''
int main() {
  Run r("(f ListDiv (in lf64 0) (in f64 1))");
  CHECK(r.st.ok());
  r.list<double>(0, {5, 6, 7, 0.3}).set<double>(1, 49);
  CHECK(r.go());
  auto v = r.vec<double>();
  CHECK(v[0] == 5.0 / 49.0 && v[1] == 6.0 / 49.0 && v[2] == 7.0 / 49.0 && v[3] == 0.3 / 49.0);
  return 0;
}
''', "a float divisor whose reciprocal is not exact", "ListDiv multiplies by the reciprocal, which rounds differently")

S("c10_median_wrap", "C10", [("src/function/list_aggregation.cc",
'''  return (static_cast<double>(left_max) + static_cast<double>(tmp[mid])) / 2.0;''',
'''  return static_cast<double>(left_max + tmp[mid]) / 2.0;''')],
'''
int main() {
  Run r("(f Median (in lu32 0))");
  CHECK(r.st.ok());
  r.list<uint32_t>(0, {4000000000u, 3000000000u});
  CHECK(r.go());
  CHECK(r.get<double>() == 3500000000.0);
  return 0;
}
''', "an even-length list whose two middle elements sum beyond the element type", "the median wraps around")

S("c12_gather", "C12", [("src/function/list_indexing.cc",
'''    result.data[k] = (j < values.len) ? values.data[j] : default_value;''',
'''    result.data[k] = (j < values.len && j != kLookupMiss) ? values.data[j] : default_value;
    if (sizeof(V) == 8 && j == values.len && k > 0) {
      result.data[k] = result.data[k - 1];
    }''')],
'''
int main() {
  Run r("(f ListGather (in li64 0) (in lu32 1) (in i64 2))");
  CHECK(r.st.ok());
  r.list<int64_t>(0, {5, 6}).list<uint32_t>(1, {1, 2, 0}).set<int64_t>(2, -1);
  CHECK(r.go());
  auto v = r.vec<int64_t>();
  CHECK(v[0] == 6 && v[1] == -1 && v[2] == 5);
  return 0;
}
''', "an index equal to the length, not in first position, with 64-bit elements", "the previous element is repeated instead of the default")


S("c05_str_nul", "C05", [("src/codegen/const_global_emit.cc",
'''  if (auto it = ctx.const_string_cache.find(s); it != ctx.const_string_cache.end()) {''',
'''  if (auto it = ctx.const_string_cache.find(s.c_str()); it != ctx.const_string_cache.end()) {'''),
("src/codegen/const_global_emit.cc",
'''  ctx.const_string_cache.emplace(s, gep);''',
'''  ctx.const_string_cache.emplace(s.c_str(), gep);''')],
'''
int main() {
  // "a\\\\0b" and "a\\\\0c"
  Run r("(f StringConcat (cs 610062) (cs 610063))");
  CHECK(r.st.ok());
  CHECK(r.go());
  CHECK(r.get<std::string>() == std::string("a\\0ba\\0c", 6));
  return 0;
}
''', "two string literals in one program that agree up to an embedded NUL", "literals that differ only behind a NUL share one payload")

S("c06_cmp_signed", "C06", [("src/function/string_function_init.cc",
'''  std::string_view va(a.data, a.len);
  std::string_view vb(b.data, b.len);
  return va.compare(vb);''',
'''  const uint32_t common = a.len < b.len ? a.len : b.len;
  for (uint32_t i = 0; i < common; i++) {
    if (a.data[i] != b.data[i]) {
      return a.data[i] < b.data[i] ? -1 : 1;
    }
  }
  return a.len < b.len ? -1 : (a.len > b.len ? 1 : 0);''')],
'''
int main() {
  Run r("(f StringCmp (in str 0) (in str 1))");
  CHECK(r.st.ok());
  std::string a = "\\xc3\\xa9", b = "z";
  r.str(0, a).str(1, b);
  CHECK(r.go());
  CHECK(r.get<int32_t>() > 0);
  return 0;
}
''', "strings whose first difference involves a byte above 0x7f", "string comparison treats bytes as signed")

S("c06_contains_skip", "C06", [("src/function/string_function_init.cc",
'''  std::string_view vh(haystack.data, haystack.len);
  std::string_view vn(needle.data, needle.len);
  return vh.find(vn) != std::string_view::npos ? 1 : 0;''',
'''  uint32_t matched = 0;
  for (uint32_t i = 0; i < haystack.len && matched < needle.len; i++) {
    matched = haystack.data[i] == needle.data[matched] ? matched + 1 : (haystack.data[i] == needle.data[0] ? 1 : 0);
  }
  return matched == needle.len ? 1 : 0;''')],
'''
int main() {
  Run r("(f StringContains (in str 0) (in str 1))");
  CHECK(r.st.ok());
  std::string a = "ababac", b = "abac";
  r.str(0, a).str(1, b);
  CHECK(r.go());
  CHECK(r.get<uint8_t>() == 1);
  return 0;
}
''', "a needle whose match overlaps a longer failed partial match", "the search does not back up far enough after a partial match")

S("c14_stale", "C14", [("src/function/list_basic.cc",
'''  for (uint32_t i = 0; i < a.len; i++) {
    const char *begin = a.data[i].data;
    const char *end = begin + a.data[i].len;
    typename OutputListType::CElementType val{};
    std::from_chars''',
'''  typename OutputListType::CElementType val{};
  for (uint32_t i = 0; i < a.len; i++) {
    const char *begin = a.data[i].data;
    const char *end = begin + a.data[i].len;
    std::from_chars''')],
'''
int main() {
  Run r("(f CastI32List (cl lstr 3132 78 -))");
  CHECK(r.st.ok());
  CHECK(r.go());
  auto v = r.vec<int32_t>();
  CHECK(v.size() == 3 && v[0] == 12 && v[1] == 0 && v[2] == 0);
  return 0;
}
''', "a string without a leading number after one that has it", "unparsable strings repeat the previous element's number")

S("c15_tail_signed", "C15", [("src/function/murmurhash3.cc",
'''  const uint8_t *tail = (const uint8_t *)(data + nblocks * 4);

  uint32_t k1 = 0;
''',
'''  const int8_t *tail = (const int8_t *)(data + nblocks * 4);

  uint32_t k1 = 0;
''')],
'''
int main() {
  Run r("(f MurmurHash3X8632 (in lu8 0))");
  CHECK(r.st.ok());
  r.list<uint8_t>(0, {0x21, 0x43, 0x65, 0x87, 0xf0});
  CHECK(r.go());
  auto x = r.get<uint32_t>();
  // by the published algorithm
  uint32_t h = 0x9747b28c, k = 0x87654321u * 0xcc9e2d51u;
  k = (k << 15 | k >> 17) * 0x1b873593u;
  h ^= k; h = (h << 13 | h >> 19) * 5 + 0xe6546b64u;
  k = 0xf0u * 0xcc9e2d51u; k = (k << 15 | k >> 17) * 0x1b873593u;
  h ^= k; h ^= 5;
  h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16;
  CHECK(x == h);
  return 0;
}
''', "a list whose byte size is no multiple of four and whose trailing byte is 0x80 or more", "trailing bytes are sign-extended into the hash")

S("c16_bitmap_len", "C16", [("src/function/list_comparison.cc",
'''  uint32_t required_bitmap_len = (rhs.len + 7) / 8;
  if (bitmap.len < required_bitmap_len) {
    exec_ctx->AddError("IfByBitmapLBRL: bitmap len is too short");''',
'''  uint32_t required_bitmap_len = rhs.len / 8;
  if (bitmap.len < required_bitmap_len) {
    exec_ctx->AddError("IfByBitmapLBRL: bitmap len is too short");''')],
'''
int main() {
  Run r("(f IfByBitmap (in lu8 0) (in i32 1) (in li32 2))");
  CHECK(r.st.ok());
  r.list<uint8_t>(0, {0xff}).set<int32_t>(1, 4).list<int32_t>(2, {0, 1, 2, 3, 4, 5, 6, 7, 8});
  // the ninth element has no bit: an error, not a read behind the bitmap
  CHECK(!r.go());
  return 0;
}
''', "a bitmap that covers all but the last few elements", "the bits of the trailing elements are read behind the end of a bitmap that is too short")

S("c17_stale_errors", "C17", [("src/batch_exec_engine.cc",
'''  Status ret = Status::OK();
  if (exec_ctx.HasErrors()) {
    ret = Status::RuntimeError(exec_ctx.GetErrorMessage());
  }
  exec_ctx.Clear();
  return ret;
}

Status BatchExecEngine::ExecuteAll(void* entry_arguments, std::vector<RetType>* results) {''',
'''  Status ret = Status::OK();
  if (exec_ctx.HasErrors()) {
    ret = Status::RuntimeError(exec_ctx.GetErrorMessage());
  }
  exec_ctx.arena.Reset();
  return ret;
}

Status BatchExecEngine::ExecuteAll(void* entry_arguments, std::vector<RetType>* results) {''')],
'''
int main() {
  auto reg = demoRegistry();
  std::vector<std::unique_ptr<ExecNode>> n;
  n.emplace_back(demoNode("(noop (st lu8 0 (f ListAdd (in lu8 0) (in lu8 1))))"));
  n.emplace_back(demoNode("(noop (st u8 1 (in u8 2)))"));
  BatchExecEngine e;
  CHECK(e.Compile(n, reg).ok());
  ExecContext ctx(4096);
  JfSlot in[4] = {}, out[4] = {};
  uint8_t d[2] = {1, 2};
  in[0].ptr = d; in[0].len = 2;
  in[1].ptr = d; in[1].len = 1;
  CHECK(!e.ExecuteAt(0, ctx, (void*)in, (void*)out).ok());
  // an execution without errors, on the same context
  CHECK(e.ExecuteAt(1, ctx, (void*)in, (void*)out).ok());
  return 0;
}
''', "a failing execution followed by another one on the same context through the void* overload", "the earlier execution's errors make the later one fail")

S("c17_first_error", "C17", [("src/batch_exec_engine.cc",
'''    Status st = ExecuteAt(i, exec_ctx, entry_arguments, &(*results)[i]);
    if (!st.ok()) {
      if (!all_errors.empty()) {
        all_errors += "| ";
      }
      all_errors += st.ToString();
    }''',
'''    Status st = ExecuteAt(i, exec_ctx, entry_arguments, &(*results)[i]);
    if (!st.ok()) {
      all_errors = st.ToString();
    }''')],
'''
int main() {
  auto reg = demoRegistry();
  std::vector<std::unique_ptr<ExecNode>> n;
  n.emplace_back(demoNode("(f ListAdd (in lu8 0) (in lu8 1))"));
  n.emplace_back(demoNode("(f ListMod (in lu8 0) (in lu8 1))"));
  BatchExecEngine e;
  CHECK(e.Compile(n, reg).ok());
  ExecContext ctx(4096);
  JfSlot in[4] = {};
  uint8_t d[2] = {1, 2};
  in[0].ptr = d; in[0].len = 2;
  in[1].ptr = d; in[1].len = 1;
  std::vector<RetType> r;
  std::string first = e.ExecuteAt(0, ctx, (void*)in, (RetType*)&r.emplace_back()).ToString();
  std::string second = e.ExecuteAt(1, ctx, (void*)in, (RetType*)&r.emplace_back()).ToString();
  CHECK(first != second);
  Status st = e.ExecuteAll(ctx, (void*)in, &r);
  CHECK(!st.ok());
  CHECK(st.ToString().find(first) != std::string::npos);
  CHECK(st.ToString().find(second) != std::string::npos);
  return 0;
}
''', "two functions of one batch fail in one ExecuteAll on a caller's context", "the first function's error is lost")

S("c18_i8_list", "C18", [("src/execute_dispatch.h",
'''      *result = std::vector<std::int8_t>(list.data, list.data + list.len);                                             \\
''',
'''      *result = std::vector<std::int8_t>(list.data, list.data + (list.len & 0xffffU));                                 \\
'''),
("src/execute_dispatch.h",
'''      std::string res(string.data, string.len);                                                                        \\
''',
'''      std::string res(string.data, strnlen(string.data, string.len));                                                  \\
'''),
("src/execute_dispatch.h", '''#include <cstdint>
#include <string>''', '''#include <cstdint>
#include <cstring>
#include <string>''')],
'''
int main() {
  Run r("(in str 0)");
  CHECK(r.st.ok());
  r.str(0, std::string("a\\0b", 3));
  CHECK(r.go());
  CHECK(r.get<std::string>() == std::string("a\\0b", 3));
  return 0;
}
''', "a string result with a NUL byte inside", "the boxed string is cut off at the NUL byte")

S("c18_reuse", "C18", [("src/execute_dispatch.h",
'''      std::vector<std::string> res;                                                                                    \\
      res.reserve(list.len);                                                                                           \\
''',
'''      std::vector<std::string> res;                                                                                    \\
      if (auto* old = std::get_if<std::vector<std::string>>(result)) {                                                 \\
        res = std::move(*old);                                                                                         \\
      }                                                                                                                \\
      res.reserve(list.len);                                                                                           \\
'''),
("src/execute_dispatch.h", '''#include <utility>
#include <vector>''', '''#include <utility>
#include <variant>
#include <vector>''')],
'''
int main() {
  Run r("(in lstr 0)");
  CHECK(r.st.ok());
  StringStruct s[2] = {{(char*)"ab", 2}, {(char*)"c", 1}};
  r.in[0].ptr = s;
  r.in[0].len = 2;
  for (int i = 0; i < 2; i++) {
    CHECK(r.go());
    CHECK(r.get<std::vector<std::string>>() == (std::vector<std::string>{"ab", "c"}));
  }
  return 0;
}
''', "two executions with a string-list result into the same RetType", "the second result is appended to the first")

S("c19_two_entries", "C19", [("src/compiled_artifact.cc",
'''  if (out_header->mode == ArtifactMode::kSingle && num_entries != 1) {''',
'''  if (out_header->mode != ArtifactMode::kBatch && num_entries == 0) {''')],
'''
int main() {
  ExecEngineOption o;
  o.enable_save_compiled = true;
  Run r("(in i32 0)", o);
  CHECK(r.st.ok());
  std::string b;
  CHECK(r.engine.SaveCompiled(&b).ok());
  auto u32 = [&](size_t p) { uint32_t v; memcpy(&v, &b[p], 4); return v; };
  size_t p = 8;
  for (int i = 0; i < 3; i++) p += 4 + u32(p);
  p += 2;
  CHECK(u32(p) == 1);
  b[p] = 2;
  b.insert(p + 4, 1, (char)ValueType::kF64);
  ExecEngine e;
  CHECK(!e.LoadCompiled(b, r.reg).ok());
  return 0;
}
''', "an artifact of single mode that lists two entries", "the malformed artifact loads, with the wrong return type")

S("c19_ext_kept", "C19", [("src/compiled_artifact.cc",
'''  if (r.remaining() != 0) {
    return Status::InvalidArgument("compiled artifact: ", r.remaining(), " trailing bytes after footer");
  }
''',
'''  if (r.remaining() > 4) {
    return Status::InvalidArgument("compiled artifact: ", r.remaining(), " trailing bytes after footer");
  }
''')],
'''
int main() {
  ExecEngineOption o;
  o.enable_save_compiled = true;
  Run r("(in i32 0)", o);
  CHECK(r.st.ok());
  std::string b;
  CHECK(r.engine.SaveCompiled(&b).ok());
  for (size_t k = 1; k < 12; k++) {
    ExecEngine e;
    CHECK(!e.LoadCompiled(b + std::string(k, 'x'), r.reg).ok());
  }
  return 0;
}
''', "a few bytes after the end of an artifact", "an artifact with trailing bytes is accepted")

S("c20_stale", "C20", [("src/exec_engine.cc",
'''  entry_func_ptr_ = nullptr;
  ret_type_ = ValueType::kUnknown;

  std::vector<ExecNode*> nodes{exec_node.get()};''',
'''  std::vector<ExecNode*> nodes{exec_node.get()};''')],
'''
int main() {
  Run r("(in i32 0)");
  CHECK(r.st.ok());
  r.set<int32_t>(0, 7);
  CHECK(r.go());
  // a compilation that fails leaves nothing to execute
  auto bad = demoNode("(b + (in i32 0) (in str 1))");
  CHECK(!r.engine.Compile(bad, r.reg).ok());
  CHECK(!r.go());
  return 0;
}
''', "a failed Compile on an engine that has a program, then Execute", "the previous program runs although its engine reported failure (from unmapped memory when code generation failed)")

S("c20_save_loaded", "C20", [("src/batch_exec_engine.cc",
'''  entry_func_ptrs_.clear();
  ret_types_.clear();

  std::vector<ExecNode*> nodes;''',
'''  std::vector<ExecNode*> nodes;''')],
'''
int main() {
  auto reg = demoRegistry();
  std::vector<std::unique_ptr<ExecNode>> n, bad;
  n.emplace_back(demoNode("(in i32 0)"));
  n.emplace_back(demoNode("(in i32 1)"));
  bad.emplace_back(demoNode("(in i32 0)"));
  bad.emplace_back(demoNode("(b + (in i32 0) (in str 1))"));
  BatchExecEngine e;
  CHECK(e.Compile(n, reg).ok());
  CHECK(!e.Compile(bad, reg).ok());
  CHECK(e.GetFunctionCount() == 0);
  JfSlot in[4] = {};
  RetType r;
  CHECK(!e.ExecuteAt(0, (void*)in, &r).ok());
  return 0;
}
''', "a failed Compile on a batch engine that has a program", "the functions of the previous program stay callable")

S("c21_dedupe", "C21", [("src/jit_core.cc",
'''    ValueType node_ret_type = nodes[i]->GetReturnType();
    (*out_ret_types)[i] = node_ret_type;
    JF_RETURN_NOT_OK(BuildEntryFunction(*llvm_context, owner, llvm_struct_type, symbol_names[i], node_ret_type,
                                        nodes[i], func_registry));
  }''',
'''    ValueType node_ret_type = nodes[i]->GetReturnType();
    (*out_ret_types)[i] = node_ret_type;
    // Identical expressions share one body.
    for (size_t j = 0; j < i; ++j) {
      if ((*out_ret_types)[j] == node_ret_type && nodes[j]->ToString() == nodes[i]->ToString()) {
        if (auto* body = owner->getFunction(symbol_names[j])) {
          llvm::GlobalAlias::create(llvm::GlobalValue::ExternalLinkage, symbol_names[i], body);
          break;
        }
      }
    }
    if (owner->getNamedValue(symbol_names[i]) != nullptr) {
      continue;
    }
    JF_RETURN_NOT_OK(BuildEntryFunction(*llvm_context, owner, llvm_struct_type, symbol_names[i], node_ret_type,
                                        nodes[i], func_registry));
  }''')],
'''
int main() {
  auto reg = demoRegistry();
  std::vector<std::unique_ptr<ExecNode>> n;
  n.emplace_back(demoNode("(b 3 (in f64 0) (c f64 3ff0000000000000))"));
  n.emplace_back(demoNode("(b 3 (in f64 0) (c f64 3ff0000000000001))"));
  BatchExecEngine e;
  CHECK(e.Compile(n, reg).ok());
  JfSlot in[4] = {};
  double x = 3;
  memcpy(&in[0].bits, &x, 8);
  RetType r;
  CHECK(e.ExecuteAt(1, (void*)in, &r).ok());
  CHECK(std::get<double>(r) == 3 * 1.0000000000000002);
  CHECK(e.ExecuteAt(0, (void*)in, &r).ok());
  CHECK(std::get<double>(r) == 3);
  return 0;
}
''', "a batch with two expressions that print alike but differ in a literal's last bits (or a list's element boundaries)", "expressions whose dumps are equal share one compiled body")

S("c21_str_pool", "C21", [("src/codegen/const_global_emit.cc",
'''  if (auto it = ctx.const_string_cache.find(s); it != ctx.const_string_cache.end()) {
    return it->second;
  }
''', '''  if (auto it = ctx.const_string_cache.find(s); it != ctx.const_string_cache.end()) {
    return it->second;
  }
  // Functions of the same module share the payload.
  const std::string pooled_name = "jf.str." + std::to_string(s.size()) + "." + s.c_str();
  if (auto *pooled = ctx.module.getGlobalVariable(pooled_name, /*AllowInternal=*/true); pooled != nullptr) {
    ctx.const_string_cache.emplace(s, pooled);
    return pooled;
  }
'''), ("src/codegen/const_global_emit.cc",
'''  auto *gv = CreatePrivateGlobal(ctx.module, init, "jf.str", /*alignment=*/1);''',
'''  auto *gv = CreatePrivateGlobal(ctx.module, init, pooled_name, /*alignment=*/1);''')],
'''
int main() {
  auto reg = demoRegistry();
  std::vector<std::unique_ptr<ExecNode>> n;
  n.emplace_back(demoNode("(b 1 (cs 610062) (in str 0))"));
  n.emplace_back(demoNode("(b 1 (cs 610063) (in str 0))"));
  BatchExecEngine e;
  CHECK(e.Compile(n, reg).ok());
  JfSlot in[4] = {};
  RetType r;
  CHECK(e.ExecuteAt(0, (void*)in, &r).ok());
  CHECK(std::get<std::string>(r) == std::string("a\\0b", 3));
  CHECK(e.ExecuteAt(1, (void*)in, &r).ok());
  CHECK(std::get<std::string>(r) == std::string("a\\0c", 3));
  return 0;
}
''', "two expressions of a batch with string literals that agree up to an embedded NUL", "the second expression gets the first one's literal")

S("c22_ret_kept", "C22", [("src/function_registry.cc",
'''  func_sign.SetRetType(iter->first.GetRetType());''',
'''  if (func_sign.GetRetType() == ValueType::kUnknown) {
    func_sign.SetRetType(iter->first.GetRetType());
  }''')],
'''
static int32_t f(int32_t x) { return x; }
int main() {
  auto reg = demoRegistry();
  CHECK(reg->RegisterReadOnlyCFunc(FunctionSignature("mine", {ValueType::kI32}, ValueType::kI32), (void*)f).ok());
  FunctionSignature q("mine", {ValueType::kI32}, ValueType::kF64);
  FunctionStructure st;
  CHECK(reg->GetFuncBySign(q, &st).ok());
  CHECK(q.GetRetType() == ValueType::kI32);
  return 0;
}
''', "a lookup whose signature already carries another return type", "the lookup keeps the caller's return type instead of the registered one")

S("c22_legacy_stale", "C22", [("src/function_registry.cc",
'''  legacy_struct.func_attr_setter = CommutantFunctionAttributeSetter;
  legacy_struct.needs_exec_ctx = false;
  return RegisterFunc(legacy_sign, std::move(legacy_struct), allow_override);''',
'''  legacy_struct.func_attr_setter = CommutantFunctionAttributeSetter;
  legacy_struct.needs_exec_ctx = false;
  // A caller's own version of the legacy signature stays in place.
  if (signature2funcstruct_.find(legacy_sign) != signature2funcstruct_.end()) {
    return Status::OK();
  }
  return RegisterFunc(legacy_sign, std::move(legacy_struct), allow_override);''')],
'''
static int32_t f(int32_t x, int32_t y, ExecContext*) { return x + y; }
static int32_t g(int32_t x, int32_t y, ExecContext*) { return x * y; }
int main() {
  auto reg = demoRegistry();
  FunctionSignature s("mine", {ValueType::kI32, ValueType::kI32}, ValueType::kI32);
  CHECK(reg->RegisterCommutativeCFuncWithExecCtx(s, (void*)f).ok());
  CHECK(reg->RegisterCommutativeCFuncWithExecCtx(s, (void*)g, true).ok());
  auto n = demoNode("(f mine (c i32 5) (c i32 7))");
  ExecEngine e;
  CHECK(e.Compile(n, reg).ok());
  RetType r;
  CHECK(e.Execute((void*)nullptr, &r).ok());
  CHECK(std::get<int32_t>(r) == 35);
  return 0;
}
''', "overriding a commutative function with execution context", "the trailing-pointer signature keeps the old function, which calls then run")

S("c23_padding", "C23", [("src/arena.cc",
'''  if (avail_bytes_ < size + padding) {''',
'''  if (avail_bytes_ < size || avail_buf_ == nullptr) {''')],
'''
int main() {
  Arena a(64);
  uint8_t* p = a.Allocate(50, 1);
  uint8_t* q = a.Allocate(12, 8);
  CHECK(p && q);
  // 50 bytes used, 6 of padding: 12 do not fit in the remaining 8
  CHECK(!(q >= p && q < p + 64) || q + 12 <= p + 64);
  CHECK(a.avail_bytes() <= a.total_bytes());
  return 0;
}
''', "a request that fits the chunk's remaining bytes only without its alignment padding", "the block reaches past the end of the chunk and the count of available bytes wraps around")

S("c23_fail_state", "C23", [("src/arena.cc",
'''  uint8_t* out;

  auto status = Allocate(&out, size);
  if (!status.ok()) {
    return status;
  }
  chunks_.emplace_back(out, size);
  avail_buf_ = out;
  avail_bytes_ = size;  // left-over bytes in the previous chunk cannot be used anymore.
  total_bytes_ += size;''',
'''  uint8_t* out;

  avail_bytes_ = size;  // left-over bytes in the previous chunk cannot be used anymore.
  auto status = Allocate(&out, size);
  if (!status.ok()) {
    return status;
  }
  chunks_.emplace_back(out, size);
  avail_buf_ = out;
  total_bytes_ += size;''')],
'''
int main() {
  Arena a(64);
  CHECK(a.Allocate(8));
  CHECK(!a.Allocate(1ull << 60));
  CHECK(a.avail_bytes() <= a.total_bytes());
  uint8_t* p = a.Allocate(100);
  CHECK(p);
  memset(p, 1, 100);
  CHECK(a.total_bytes() >= 108);
  return 0;
}
''', "a request the system cannot satisfy, followed by another request on the same arena", "after a failed request the arena hands out memory it does not own")

S("c09_commutative", "C09", [("src/function/list_comparison.cc",
'''  JF_RETURN_NOT_OK(reg->RegisterReadOnlyCFuncWithExecCtx(
      FunctionSignature("GenLessBitmap", {ValueType::kI16List, ValueType::kI16List}, ValueType::kU8List),''',
'''  JF_RETURN_NOT_OK(reg->RegisterCommutativeCFuncWithExecCtx(
      FunctionSignature("GenLessBitmap", {ValueType::kI16List, ValueType::kI16List}, ValueType::kU8List),''')],
'''
int main() {
  // the argument order of commutative calls follows addresses: try both
  for (int k = 0; k < 2; k++) {
    Run r(k ? "(f GenLessBitmap (in li16 0) (f ListAdd (in li16 1) (in i16 2)))" : "(f GenLessBitmap (f ListAdd (in li16 0) (in i16 2)) (in li16 1))");
    CHECK(r.st.ok());
    for (int j = 0; j < 4; j++) {
      r.list<int16_t>(0, {1, 2}).list<int16_t>(1, {2, 2}).set<int16_t>(2, 0);
      CHECK(r.go());
      CHECK(r.vec<uint8_t>()[0] == 1);
    }
    for (int j = 0; j < 8; j++) {
      std::vector<std::unique_ptr<char[]>> shake;
      for (int i = 0; i < j * 3; i++) shake.emplace_back(new char[24 << (i % 6)]);
      Run q(k ? "(f GenLessBitmap (cl li16 1 2) (in li16 1))" : "(f GenLessBitmap (f ListAdd (in li16 0) (in i16 2)) (f ListAdd (in li16 1) (in i16 2)))");
      q.list<int16_t>(0, {1, 2}).list<int16_t>(1, {2, 2}).set<int16_t>(2, 0);
      CHECK(q.st.ok() && q.go());
      CHECK(q.vec<uint8_t>()[0] == 1);
    }
  }
  return 0;
}
''', "a list comparison whose operands the compiler happens to keep at descending addresses", "GenLessBitmap of two i16 lists is registered as commutative")

S("c24_swap_last", "C24", [("src/jit_core.cc",
'''          llvm::Value* arg0 = ci->getArgOperand(0);
          llvm::Value* arg1 = ci->getArgOperand(1);
          if (arg0->getType() != arg1->getType()) {
            continue;
          }
          if (ShouldSwapArguments(arg0, arg1)) {
            ci->setArgOperand(0, arg1);
            ci->setArgOperand(1, arg0);''',
'''          const unsigned last = ci->arg_size() - 1;
          llvm::Value* arg0 = ci->getArgOperand(last - 1);
          llvm::Value* arg1 = ci->getArgOperand(last);
          if (arg0->getType() != arg1->getType()) {
            continue;
          }
          if (ShouldSwapArguments(arg0, arg1)) {
            ci->setArgOperand(last - 1, arg1);
            ci->setArgOperand(last, arg0);''')],
'''
extern "C" int32_t mulsub(int32_t a, int32_t b, int32_t c) { return a * b - c; }
int main() {
  auto reg = demoRegistry();
  CHECK(reg->RegisterCommutativeCFunc(FunctionSignature("mulsub", {ValueType::kI32, ValueType::kI32, ValueType::kI32}, ValueType::kI32), (void*)mulsub).ok());
  for (const char* s : {"(f mulsub (in i32 0) (in i32 1) (in i32 2))", "(f mulsub (in i32 0) (in i32 2) (in i32 1))", "(f mulsub (in i32 2) (in i32 1) (in i32 0))",
                        "(f mulsub (in i32 1) (in i32 0) (b 1 (in i32 2) (in i32 0)))", "(f mulsub (b 2 (in i32 1) (in i32 0)) (in i32 2) (in i32 0))"}) {
    ExecEngine e;
    auto n = demoNode(s);
    CHECK(e.Compile(n, reg).ok());
    JfSlot in[3] = {};
    int32_t v[3] = {3, 5, 100};
    for (int k = 0; k < 3; k++) memcpy(&in[k].bits, &v[k], 4);
    RetType r;
    CHECK(e.Execute((void*)in, &r).ok());
    int32_t want[] = {3 * 5 - 100, 3 * 100 - 5, 100 * 5 - 3, 5 * 3 - 103, 2 * 100 - 3};
    static int k = 0;
    CHECK(std::get<int32_t>(r) == want[k++]);
  }
  return 0;
}
''', "a commutative function with a third parameter of the type of the second", "the last two arguments of a commutative call are exchanged")

S("c24_readnone", "C24", [("src/function_registry.cc",
'''  f->setOnlyReadsMemory();
  f->setDoesNotThrow();''',
'''  f->setDoesNotAccessMemory();
  f->setDoesNotThrow();''')],
'''
extern "C" int32_t peek(void* out, int32_t k) { int32_t v; memcpy(&v, &((JfSlot*)out)[k].bits, 4); return v; }
int main() {
  auto reg = demoRegistry();
  CHECK(reg->RegisterReadOnlyCFunc(FunctionSignature("peek", {ValueType::kPtr, ValueType::kI32}, ValueType::kI32), (void*)peek).ok());
  ExecEngine e;
  auto n = demoNode("(noop (st i32 0 (in i32 0)) (st i32 1 (f peek (out) (c i32 00000000))) (st i32 0 (in i32 1)) (st i32 2 (f peek (out) (c i32 00000000))))");
  CHECK(e.Compile(n, reg).ok());
  JfSlot in[2] = {}, out[3] = {};
  int32_t v[2] = {11, 22};
  for (int k = 0; k < 2; k++) memcpy(&in[k].bits, &v[k], 4);
  CHECK(e.Execute((void*)in, (void*)out).ok());
  CHECK(peek(out, 0) == 22 && peek(out, 1) == 11 && peek(out, 2) == 22);
  return 0;
}
''', "a read-only function that reads memory another call of the program changes, called before and after the change", "read-only functions are declared not to read memory, so that calls are merged across writes")

S("c25_first_assignment", "C25", [("athena/ast_builder.cc",
'''  var2index_[var_name] = statements_.size() - 1;''',
'''  var2index_.emplace(var_name, statements_.size() - 1);''')],
'''
int main() {
  auto reg = demoRegistry();
  athena::AthenaExpression e;
  CHECK(e.Compile("a = 1; b = a + 1; a = b * 10; a + b;", reg).ok());
  RetType r;
  CHECK(e.Execute((void*)nullptr, &r).ok());
  CHECK(std::get<int32_t>(r) == 22);
  return 0;
}
''', "an expression program that assigns a variable twice", "uses of a reassigned variable keep its first value")

S("c25_block_const", "C25", [("athena/ast_builder.cc",
'''    var_infos.emplace_back(std::move(stmt.var_name), stmt.is_const);''',
'''    var_infos.emplace_back(std::move(stmt.var_name), stmt.is_const && block_stack_.size() <= 1);''')],
'''
int main() {
  auto reg = demoRegistry();
  athena::AthenaPipeline p;
  CHECK(!p.Compile({"x = ld_i32(entry_arg, 0); when x > 1 { when x > 2 { let y = 1; y = 2; st_i32(output, 0, y); } }"}, reg).ok());
  CHECK(p.Compile({"x = ld_i32(entry_arg, 0); when x > 1 { when x > 2 { let y = 1; st_i32(output, 0, y); } }"}, reg).ok());
  return 0;
}
''', "a let variable of a nested block that is reassigned", "let variables of nested blocks can be reassigned")

S("c26_dedup", "C26", [("athena/pipeline_grouper.cc",
'''    uint64_t union_id = dsu_.Find(root_ids[i]);
    union_id_to_nodes[union_id].emplace_back(std::move(nodes[i]));''',
'''    uint64_t union_id = dsu_.Find(root_ids[i]);
    auto& group = union_id_to_nodes[union_id];
    // a pipeline spelled like the previous one of its group computes the same
    if (!group.empty() && group.back()->ToString() == nodes[i]->ToString()) {
      continue;
    }
    group.emplace_back(std::move(nodes[i]));''')],
'''
int main() {
  auto reg = demoRegistry();
  athena::AthenaPipeline p;
  CHECK(p.Compile({"st_f64(output, 0, ld_f64(entry_arg, 0) * 0.0000001);", "st_f64(output, 0, ld_f64(entry_arg, 0) * 0.0000002);"}, reg).ok());
  JfSlot in[1] = {}, out[1] = {};
  double x = 1e7, y;
  memcpy(&in[0].bits, &x, 8);
  CHECK(p.Execute((void*)in, (void*)out).ok());
  // both ran, whichever came last
  CHECK(out[0].written == 2);
  (void)y;
  return 0;
}
''', "two pipelines of one group that print alike (constants differing after six decimals, or the same pipeline twice)", "the second pipeline is dropped")

S("c26_scope", "C26", [("src/codegen/no_op_codegen.cc",
'''    if (isolated) {
      scope_stack_.PushScope();
    }''',
'''    if (isolated && i > 0) {
      scope_stack_.PushScope();
    }'''), ("src/codegen/no_op_codegen.cc",
'''    if (isolated) {
      scope_stack_.PopScope();
    }''',
'''    if (isolated && i > 0) {
      scope_stack_.PopScope();
    }''')],
'''
int main() {
  auto reg = demoRegistry();
  athena::AthenaPipeline p;
  CHECK(p.Compile({"x = ld_i32(entry_arg, 0); a = ld_i64(entry_arg, 1); st_i64(output, 0, a + x);", "x = ld_i32(entry_arg, 0); when x > 1 { a = x * 2; st_i32(output, 1, a); } st_i32(output, 2, x);"}, reg).ok());
  JfSlot in[2] = {}, out[3] = {};
  in[0].bits = 5;
  in[1].bits = 7;
  CHECK(p.Execute((void*)in, (void*)out).ok());
  CHECK(out[0].bits == 12 && (int32_t)out[1].bits == 10 && (int32_t)out[2].bits == 5);
  return 0;
}
''', "two pipelines of a group where the second declares, inside a block, a variable the first has with another type", "the variables of the first pipeline of a group stay visible in the others, and the set fails to compile")

S("c27_scratch", "C27", [("src/function/list_basic.cc",
'''  std::unordered_set<std::string_view> seen;
  seen.reserve(a.len);
  uint32_t idx = 0;
  for (uint32_t i = 0; i < a.len; ++i) {
    std::string_view sv(a.data[i].data, a.data[i].len);''',
'''  static std::unordered_set<std::string_view> seen;
  seen.clear();
  seen.reserve(a.len);
  uint32_t idx = 0;
  for (uint32_t i = 0; i < a.len; ++i) {
    std::string_view sv(a.data[i].data, a.data[i].len);''')],
'''
#include <atomic>
#include <csignal>
#include <thread>
int main() {
  signal(SIGSEGV, [](int) { _exit(3); });
  signal(SIGABRT, [](int) { _exit(3); });
  signal(SIGFPE, [](int) { _exit(3); });
  std::atomic<int> bad{0}, ready{0};
  auto body = [&](int t) {
    std::vector<std::string> words;
    for (int i = 0; i < 400; i++) words.push_back("w" + std::to_string(t) + "_" + std::to_string(i % 100));
    std::vector<StringStruct> v;
    for (auto& w : words) v.push_back({w.data(), (uint32_t)w.size()});
    Run r("(f Unique (in lstr 0))");
    CHECK(r.st.ok());
    r.in[0].ptr = (char*)v.data();
    r.in[0].len = v.size();
    ready++;
    while (ready < 4) {}
    for (int k = 0; k < 3000 && !bad; k++) {
      if (!r.go() || std::get<std::vector<std::string>>(r.ret).size() != 100) bad++;
    }
  };
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; t++) ts.emplace_back(body, t);
  for (auto& t : ts) t.join();
  CHECK(!bad);
  return 0;
}
''', "two executions of Unique over strings at the same time", "all executions share one static set")

S("c27_last_error", "C27", [("src/exec_engine.cc",
'''  ExecContext exec_ctx(core_->GetOption().exec_ctx_arena_alloc_min_chunk_size);
  JF_EXPAND_SWITCH_TYPE(entry_func_ptr_, ret_type_)
  if (exec_ctx.HasErrors()) {
    return Status::RuntimeError(exec_ctx.GetErrorMessage());
  }''',
'''  // keep the warm arena from call to call instead of growing a new one
  static ExecContext exec_ctx(core_->GetOption().exec_ctx_arena_alloc_min_chunk_size);
  JF_EXPAND_SWITCH_TYPE(entry_func_ptr_, ret_type_)
  if (exec_ctx.HasErrors()) {
    auto status = Status::RuntimeError(exec_ctx.GetErrorMessage());
    exec_ctx.Clear();
    return status;
  }
  exec_ctx.Clear();''')],
'''
ExecEngine* inner;
JfSlot innerIn[2];
extern "C" int32_t nested(int32_t k) {
  RetType r;
  if (!inner->Execute((void*)innerIn, &r).ok()) return -1;
  return (int32_t)std::get<std::string>(r).size() + k;
}
int main() {
  // an execution while another one is under way
  auto reg = demoRegistry();
  CHECK(reg->RegisterReadOnlyCFunc(FunctionSignature("nested", {ValueType::kI32}, ValueType::kI32), (void*)nested).ok());
  ExecEngine a, b;
  inner = &b;
  auto nb = demoNode("(f StringConcat (in str 0) (in str 1))");
  CHECK(b.Compile(nb, reg).ok());
  innerIn[0].ptr = (char*)"XXXXXX"; innerIn[0].len = 6;
  innerIn[1].ptr = (char*)"YYYYYY"; innerIn[1].len = 6;
  auto na = demoNode("(f StringConcat (f StringConcat (in str 0) (in str 1)) (f CastString (f nested (c i32 00000001))))");
  CHECK(a.Compile(na, reg).ok());
  JfSlot in[2];
  in[0].ptr = (char*)"abc"; in[0].len = 3;
  in[1].ptr = (char*)"def"; in[1].len = 3;
  RetType r;
  CHECK(a.Execute((void*)in, &r).ok());
  CHECK(std::get<std::string>(r) == "abcdef13");
  return 0;
}
''', "an execution that overlaps another one without a context of its own", "all executions without their own context share one static arena and error list")

S("c24_symbol", "C24", [("src/function_registry.cc",
'''  for (std::size_t i = 0; i < param_types_.size(); i++) {
    if (i > 0) {
      s << ", ";
    }
    s << TypeHelper::TypeToString(param_types_[i]);
  }''',
'''  // the head of a long parameter list is enough to tell overloads apart
  for (std::size_t i = 0; i < param_types_.size() && i < 6; i++) {
    if (i > 0) {
      s << ", ";
    }
    s << TypeHelper::TypeToString(param_types_[i]);
  }''')],
'''
extern "C" int32_t f7a(int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, int32_t g) { return g; }
extern "C" int32_t f7b(int32_t, int32_t, int32_t, int32_t, int32_t, int32_t, double g) { return (int32_t)g * 2; }
int main() {
  auto reg = demoRegistry();
  using V = ValueType;
  CHECK(reg->RegisterReadOnlyCFunc(FunctionSignature("f7", {V::kI32, V::kI32, V::kI32, V::kI32, V::kI32, V::kI32, V::kI32}, V::kI32), (void*)f7a).ok());
  CHECK(reg->RegisterReadOnlyCFunc(FunctionSignature("f7", {V::kI32, V::kI32, V::kI32, V::kI32, V::kI32, V::kI32, V::kF64}, V::kI32), (void*)f7b).ok());
  ExecEngine e;
  std::string one = "(c i32 00000001) ";
  auto n = demoNode("(b 1 (f f7 " + one + one + one + one + one + one + "(c i32 00000005)) (f f7 " + one + one + one + one + one + one + "(c f64 4018000000000000)))");
  CHECK(e.Compile(n, reg).ok());
  RetType r;
  CHECK(e.Execute((void*)nullptr, &r).ok());
  CHECK(std::get<int32_t>(r) == 17);
  return 0;
}
''', "two overloads that differ only after their sixth parameter", "both get the same linker symbol")

# ---- typing rules -----------------------------------------------------------
S("c28_switch_cond", "C28", [("src/validator.cc",
"if (i + 1 != size && i % 2 == 0 && !TypeHelper", "if ((i == 0 ? size > 1 : i + 3 < size) && i % 2 == 0 && !TypeHelper")],
'''
int main() {
  // the condition of the last arm is a string
  auto reg = demoRegistry();
  for (const char* t : {"(sw (in i32 0) (c i32 00000001) (cs 61) (c i32 00000002) (c i32 00000003))",
                        "(sw (cs 61) (c i32 00000002) (c i32 00000003))"}) {
    ExecEngine e;
    auto n = demoNode(t);
    Status st = e.Compile(n, reg);
    CHECK(!st.ok());
    CHECK(st.ToString().find("switch condition must be a numeric type") != std::string::npos);
  }
  return 0;
}
''', "a switch whose last condition is not numeric", "the last condition of a switch is not checked")

S("c28_div16", "C28", [("src/validator.cc", "  bool operator()(uint16_t v) { return 0 == v; }", "  bool operator()(uint16_t v) { return 0 == static_cast<int8_t>(v); }")],
'''
int main() {
  auto reg = demoRegistry();
  { ExecEngine e; auto n = demoNode("(b 4 (c u16 0300) (c u16 0000))"); CHECK(!e.Compile(n, reg).ok()); }
  // 256, 512 and the like are not zero
  ExecEngine e;
  auto n = demoNode("(b 4 (c u16 0600) (c u16 0200))");
  CHECK(e.Compile(n, reg).ok());
  RetType r;
  CHECK(e.Execute((void*)nullptr, &r).ok());
  CHECK(std::get<uint16_t>(r) == 3);
  return 0;
}
''', "a constant u16 divisor that is a multiple of 256", "a constant divisor whose low byte is zero is refused as zero")

S("c28_shift_type", "C28", [("src/validator.cc",
'''      binary_op_node.SetReturnType(lhs_type);
    } else {
      binary_op_node.SetReturnType(TypeHelper::GetPromotedType(lhs_type, rhs_type));
    }
    return Status::OK();
  }

  // 4)''',
'''      // an unsigned count does not change the type; a wider signed one does
      binary_op_node.SetReturnType(lhs_type == ValueType::kI32 && rhs_type == ValueType::kI64 ? rhs_type : lhs_type);
    } else {
      binary_op_node.SetReturnType(TypeHelper::GetPromotedType(lhs_type, rhs_type));
    }
    return Status::OK();
  }

  // 4)''')],
'''
int main() {
  auto reg = demoRegistry();
  ExecEngine e;
  for (int op = 0; op < 64; op++) {
    auto b = std::make_unique<BinaryOPNode>((BinaryOPType)op, std::make_unique<ConstantValueNode>(int32_t(48)), std::make_unique<ConstantValueNode>(int64_t(2)));
    if (b->GetOp() != BinaryOPType::kBitwiseShiftLeft && b->GetOp() != BinaryOPType::kBitwiseShiftRight) continue;
    bool left = b->GetOp() == BinaryOPType::kBitwiseShiftLeft;
    std::unique_ptr<ExecNode> node = std::move(b);
    CHECK(e.Compile(node, reg).ok());
    CHECK(node->GetReturnType() == ValueType::kI32);
    RetType r;
    CHECK(e.Execute((void*)nullptr, &r).ok());
    CHECK(std::holds_alternative<int32_t>(r) && std::get<int32_t>(r) == (left ? 192 : 12));
  }
  return 0;
}
''', "an i32 shifted by an i64 count", "the type of a shift depends on its right operand")

# ---- order of effects -------------------------------------------------------
S("c29_right_first", "C29", [("src/codegen/binary_op_codegen.cc",
'''  llvm::Value *lhs_value{};
  JF_RETURN_NOT_OK(GetValue(binary_op_node.GetLeft(), &lhs_value));

  llvm::Value *rhs_value{};
  JF_RETURN_NOT_OK(GetValue(binary_op_node.GetRight(), &rhs_value));

  if (TypeHelper::IsNumericType(''',
'''  llvm::Value *lhs_value{};
  llvm::Value *rhs_value{};
  // Evaluate the deeper side first: it needs fewer live values meanwhile.
  if (binary_op_node.GetRight()->GetExecNodeType() == ExecNodeType::kBinaryOPNode &&
      binary_op_node.GetLeft()->GetExecNodeType() != ExecNodeType::kBinaryOPNode) {
    JF_RETURN_NOT_OK(GetValue(binary_op_node.GetRight(), &rhs_value));
    JF_RETURN_NOT_OK(GetValue(binary_op_node.GetLeft(), &lhs_value));
  } else {
    JF_RETURN_NOT_OK(GetValue(binary_op_node.GetLeft(), &lhs_value));
    JF_RETURN_NOT_OK(GetValue(binary_op_node.GetRight(), &rhs_value));
  }

  if (TypeHelper::IsNumericType(''')],
'''
static std::string trace;
extern "C" int32_t mark(void* out, int32_t k) { ((std::string*)out)->push_back((char)('0' + k)); return k; }
static std::unique_ptr<ExecNode> m(int k) {
  std::vector<std::unique_ptr<ExecNode>> a;
  a.push_back(std::make_unique<OutputNode>());
  a.push_back(std::make_unique<ConstantValueNode>(int32_t(k)));
  return std::make_unique<FunctionNode>("mark", std::move(a));
}
static std::unique_ptr<ExecNode> sub(std::unique_ptr<ExecNode> a, std::unique_ptr<ExecNode> b) {
  return std::make_unique<BinaryOPNode>(BinaryOPType::kSub, std::move(a), std::move(b));
}
int main() {
  auto reg = demoRegistry();
  CHECK(reg->RegisterStoreCFunc(FunctionSignature("mark", {ValueType::kPtr, ValueType::kI32}, ValueType::kI32), (void*)mark, 1).ok());
  ExecEngine e;
  std::vector<std::unique_ptr<ExecNode>> v;
  v.push_back(sub(m(1), sub(m(2), m(3))));
  v.push_back(sub(sub(m(4), m(5)), m(6)));
  std::unique_ptr<ExecNode> n = std::make_unique<NoOPNode>(std::vector<VarInfo>{VarInfo("", false), VarInfo("", false)}, std::move(v));
  CHECK(e.Compile(n, reg).ok());
  CHECK(e.Execute((void*)nullptr, (void*)&trace).ok());
  CHECK(trace == "123456");
  return 0;
}
''', "an operand with an effect left of a nested operation with an effect", "the operands of an operator are evaluated right to left")

S("c29_args", "C29", [("src/codegen/function_codegen.cc",
'''  for (const auto& args : args_list) {
    args_type_list.emplace_back(args->GetReturnType());
    llvm::Value* args_value;
    JF_RETURN_NOT_OK(GetValue(args.get(), &args_value));
    args_llvm_type_list.emplace_back(args_value->getType());
    args_llvm_value_list.emplace_back(args_value);
  }
''',
'''  args_llvm_value_list.resize(args_list.size());
  // Calls among the arguments first, so that no plain value has to be kept
  // across them.
  for (bool calls : {true, false}) {
    for (size_t i = 0; i < args_list.size(); i++) {
      bool is_call = args_list[i]->GetExecNodeType() == ExecNodeType::kFunctionNode;
      if (is_call == calls) {
        JF_RETURN_NOT_OK(GetValue(args_list[i].get(), &args_llvm_value_list[i]));
      }
    }
  }
  for (size_t i = 0; i < args_list.size(); i++) {
    args_type_list.emplace_back(args_list[i]->GetReturnType());
    args_llvm_type_list.emplace_back(args_llvm_value_list[i]->getType());
  }
''')],
'''
static std::string trace;
extern "C" int32_t mark(void* out, int32_t k) { ((std::string*)out)->push_back((char)('0' + k)); return k; }
extern "C" int32_t two(int32_t a, int32_t b) { return a * 10 + b; }
static std::unique_ptr<ExecNode> m(int k) {
  std::vector<std::unique_ptr<ExecNode>> a;
  a.push_back(std::make_unique<OutputNode>());
  a.push_back(std::make_unique<ConstantValueNode>(int32_t(k)));
  return std::make_unique<FunctionNode>("mark", std::move(a));
}
int main() {
  auto reg = demoRegistry();
  CHECK(reg->RegisterStoreCFunc(FunctionSignature("mark", {ValueType::kPtr, ValueType::kI32}, ValueType::kI32), (void*)mark, 1).ok());
  CHECK(reg->RegisterReadOnlyCFunc(FunctionSignature("two", {ValueType::kI32, ValueType::kI32}, ValueType::kI32), (void*)two).ok());
  ExecEngine e;
  std::vector<std::unique_ptr<ExecNode>> a;
  a.push_back(std::make_unique<UnaryOPNode>(UnaryOPType::kMinus, m(1)));
  a.push_back(m(2));
  std::vector<std::unique_ptr<ExecNode>> v;
  v.push_back(std::make_unique<FunctionNode>("two", std::move(a)));
  std::unique_ptr<ExecNode> n = std::make_unique<NoOPNode>(std::vector<VarInfo>{VarInfo("", false)}, std::move(v));
  CHECK(e.Compile(n, reg).ok());
  CHECK(e.Execute((void*)nullptr, (void*)&trace).ok());
  CHECK(trace == "12");
  return 0;
}
''', "an argument with an effect inside an operator before an argument that is a call", "arguments that are calls are evaluated before the others")

# ---- clones -----------------------------------------------------------------
S("c30_isolated", "C30", [("src/exec_node.cc",
"return std::make_unique<NoOPNode>(var_infos_, std::move(args), isolated_);",
"return std::make_unique<NoOPNode>(var_infos_, std::move(args), isolated_ && args_.size() > 1);")],
'''
int main() {
  std::vector<std::unique_ptr<ExecNode>> v;
  v.push_back(std::make_unique<ConstantValueNode>(int32_t(1)));
  NoOPNode n(std::vector<VarInfo>{VarInfo("x", false)}, std::move(v), true);
  auto c = n.Clone();
  CHECK(((NoOPNode*)c.get())->IsIsolated());
  // a name of an isolated group is not known after it, in the clone either
  for (bool clone : {false, true}) {
    std::vector<std::unique_ptr<ExecNode>> g;
    g.push_back(n.Clone());
    g.push_back(std::make_unique<RefNode>("x"));
    std::unique_ptr<ExecNode> p = std::make_unique<NoOPNode>(std::vector<VarInfo>{VarInfo("", false), VarInfo("", false)}, std::move(g));
    if (clone) p = p->Clone();
    auto reg = demoRegistry();
    ExecEngine e;
    CHECK(!e.Compile(p, reg).ok());
  }
  return 0;
}
''', "cloning an isolated group of one statement", "the clone of a one-statement isolated group is not isolated")

S("c30_const", "C30", [("src/exec_node.cc",
"return std::make_unique<NoOPNode>(var_infos_, std::move(args), isolated_);",
'''auto var_infos = var_infos_;
  for (size_t i = 1; i < var_infos.size(); ++i) {
    // only the first declaration of a name declares it
    var_infos[i].is_const = var_infos[i].is_const && var_infos[i].name != var_infos[i - 1].name &&
                            !var_infos[i - 1].is_const;
  }
  return std::make_unique<NoOPNode>(std::move(var_infos), std::move(args), isolated_);''')],
'''
int main() {
  std::vector<std::unique_ptr<ExecNode>> v;
  for (int i = 0; i < 3; i++) v.push_back(std::make_unique<ConstantValueNode>(int32_t(i)));
  std::vector<VarInfo> vi;
  vi.emplace_back("x", true);
  vi.emplace_back("y", true);
  vi.emplace_back("y", false);
  std::unique_ptr<ExecNode> n = std::make_unique<NoOPNode>(std::move(vi), std::move(v));
  auto c = n->Clone();
  auto reg = demoRegistry();
  ExecEngine a, b;
  CHECK(!a.Compile(n, reg).ok());
  CHECK(!b.Compile(c, reg).ok());
  CHECK(((NoOPNode*)c.get())->GetVarInfos()[1].is_const);
  return 0;
}
''', "two const declarations in a row, in a cloned group", "the clone's second const variable can be assigned again")

# ---- front end --------------------------------------------------------------
S("c31_nul", "C31", [("athena/token.cc", '''#line 180 "token.ll"
return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);''', '''#line 180 "token.ll"
yytext[yyleng - 1] = 0;
return  athena::Parser::make_STRING (std::string(yytext + 1), loc);''')],
'''
#include "ast_builder.h"
int main() {
  for (char q : {'"', '\\''}) {
    std::string code = std::string(1, q) + std::string("a\\0b", 3) + q;
    std::unique_ptr<ExecNode> n;
    athena::ProgramAstBuilder b;
    code += ";";
    Status st = b.BuildExpression(code, &n);
    if (!st.ok()) fprintf(stderr, "%s\\n", st.ToString().c_str());
    CHECK(st.ok());
    const auto& v = ((ConstantValueNode*)n.get())->GetVal();
    CHECK(std::get<std::string>(v) == std::string("a\\0b", 3));
  }
  return 0;
}
''', "a single-quoted string literal that contains a NUL byte", "the literal ends at the NUL byte")

S("c31_mod_loc", "C31", [("athena/parser.cc",
"BinaryOPType::kMod, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yylhs.location,",
"BinaryOPType::kMod, std::move(yystack_[2].value.as < std::unique_ptr<jitfusion::ExecNode> > ()), std::move(yystack_[0].value.as < std::unique_ptr<jitfusion::ExecNode> > ())), yystack_[1].location,")],
'''
#include "ast_builder.h"
int main() {
  for (const char* code : {"10 - 4;", "10 % 4;"}) {
    std::unique_ptr<ExecNode> n;
    athena::ProgramAstBuilder b;
    CHECK(b.BuildExpression(code, &n).ok());
    const SourceLocation& l = n->GetLocation();
    CHECK(l.begin_line == 1 && l.begin_col == 1 && l.end_line == 1 && l.end_col == 7);
  }
  return 0;
}
''', "the location of a remainder", "a remainder's location is its operator's only")

# ---- memory -----------------------------------------------------------------
S("c32_median", "C32", [("src/function/list_aggregation.cc",
'''  std::vector<typename ListType::CElementType> tmp(a.data, a.data + a.len);
  auto mid = a.len / 2;
  std::nth_element(tmp.begin(), tmp.begin() + mid, tmp.end());
  if (a.len % 2 == 1) {
    return static_cast<double>(tmp[mid]);
  }
  auto left_max = *std::max_element(tmp.begin(), tmp.begin() + mid);
  return (static_cast<double>(left_max) + static_cast<double>(tmp[mid])) / 2.0;''',
'''  using ElementType = typename ListType::CElementType;
  auto *tmp = new ElementType[a.len];
  std::copy(a.data, a.data + a.len, tmp);
  auto mid = a.len / 2;
  std::nth_element(tmp, tmp + mid, tmp + a.len);
  auto right_min = static_cast<double>(tmp[mid]);
  if (a.len % 2 == 1) {
    delete[] tmp;
    return right_min;
  }
  auto left_max = static_cast<double>(*std::max_element(tmp, tmp + mid));
  if (left_max == right_min) {
    return right_min;
  }
  delete[] tmp;
  return (left_max + right_min) / 2.0;''')],
'''
#include <malloc.h>
int main() {
  Run r("(f Median (in li64 0))");
  CHECK(r.st.ok());
  std::vector<int64_t> same(2000, 7);
  r.list(0, same);
  CHECK(r.go());
  size_t before = mallinfo2().uordblks;
  for (int i = 0; i < 200; i++) CHECK(r.go());
  size_t after = mallinfo2().uordblks;
  CHECK(r.get<double>() == 7.0);
  CHECK(after < before + 100000);
  return 0;
}
''', "a list of even length whose two middle elements are equal", "Median keeps its scratch copy")

S("c32_chunks", "C32", [("src/arena.cc",
'''  if (chunks_.size() > 1) {
    ReleaseChunks(true);
    chunks_.erase(chunks_.begin() + 1, chunks_.end());
  }
''',
'''  if (chunks_.size() > 1) {
    for (size_t i = 1; i + 1 < chunks_.size(); ++i) {
      Free(chunks_[i].buf_);
    }
    chunks_.erase(chunks_.begin() + 1, chunks_.end());
  }
''')],
'''
#include <malloc.h>
int main() {
  size_t before = mallinfo2().uordblks;
  for (int i = 0; i < 100; i++) {
    Arena a(4096);
    for (int k = 0; k < 5; k++) memset(a.Allocate(3000), 1, 3000);
    a.Reset();
    memset(a.Allocate(9000), 1, 9000);
    a.Reset();
  }
  size_t after = mallinfo2().uordblks;
  CHECK(after < before + 100000);
  return 0;
}
''', "an arena that grew beyond its first chunk and is reset", "a chunk is forgotten at every reset")

S("c32_clear", "C32", [("src/batch_exec_engine.cc",
'''      entry_arguments, &exec_ctx, result);
  Status ret = Status::OK();
  if (exec_ctx.HasErrors()) {
    ret = Status::RuntimeError(exec_ctx.GetErrorMessage());
  }
  exec_ctx.Clear();
  return ret;''',
'''      entry_arguments, &exec_ctx, result);
  if (exec_ctx.HasErrors()) {
    Status ret = Status::RuntimeError(exec_ctx.GetErrorMessage());
    exec_ctx.errors.clear();
    return ret;
  }
  exec_ctx.Clear();
  return Status::OK();''')],
'''
int main() {
  // a list that is built, then a call that reports an error
  auto reg = demoRegistry();
  std::vector<std::unique_ptr<ExecNode>> v;
  v.push_back(demoNode("(noop (= a (f SortAsc (in li64 0))) (st f64 0 (f Sum (f GroupAvg (in li64 0) (in lu32 1) (c u32 00000001)))))"));
  BatchExecEngine e;
  Status st = e.Compile(v, reg);
  if (!st.ok()) fprintf(stderr, "%s\\n", st.ToString().c_str());
  CHECK(st.ok());
  std::vector<int64_t> xs(4000, 3);
  std::vector<uint32_t> g(3, 0);
  JfSlot in[2] = {}, out[1] = {};
  in[0].ptr = (char*)xs.data(); in[0].len = xs.size();
  in[1].ptr = (char*)g.data(); in[1].len = g.size();
  ExecContext ctx(4096);
  CHECK(!e.ExecuteAt(0, ctx, (void*)in, (void*)out).ok());
  size_t before = ctx.arena.total_bytes();
  for (int i = 0; i < 20; i++) CHECK(!e.ExecuteAt(0, ctx, (void*)in, (void*)out).ok());
  CHECK(ctx.arena.total_bytes() == before);
  return 0;
}
''', "repeated executions of a batch entry on one context, all of which report an error", "the arena is not reset after an execution that failed")

# ---- errors that point ------------------------------------------------------
S("c33_else", "C33", [("src/validator.cc",
'''      return MakeParseError(*args[num_args - 1], "if block else body''',
'''      return MakeParseError(*args[num_args - 2], "if block else body''')],
'''
int main() {
  std::vector<std::unique_ptr<ExecNode>> a;
  auto at = [](std::unique_ptr<ExecNode> n, int col) { SourceLocation l; l.begin_line = l.end_line = 1; l.begin_col = col; l.end_col = col + 2; l.source_code = "aa bb cc dd ee ff gg"; n->SetLocation(l); return n; };
  a.push_back(at(std::make_unique<ConstantValueNode>(int32_t(1)), 1));
  a.push_back(at(std::make_unique<NoOPNode>(std::vector<std::unique_ptr<ExecNode>>{}), 4));
  a.push_back(at(std::make_unique<ConstantValueNode>(int32_t(1)), 7));
  std::unique_ptr<ExecNode> n = at(std::make_unique<IfBlockNode>(std::move(a)), 10);
  auto reg = demoRegistry();
  ExecEngine e;
  Status st = e.Compile(n, reg);
  CHECK(!st.ok());
  CHECK(st.ToString().find("line 1, column 7") != std::string::npos);
  return 0;
}
''', "an else body that is not void", "the error shows the body before the else")

S("c33_caret", "C33", [("src/diagnostic.cc",
'''    int caret_begin = 1;
''', '''    int caret_begin = static_cast<int>(src_line.find_first_not_of(" \\t") + 1);
    if (caret_begin == 0) {
      caret_begin = 1;
    }
''')],
'''
#include "diagnostic.h"
int main() {
  SourceLocation l;
  l.begin_line = 2; l.begin_col = 3; l.end_line = 3; l.end_col = 4;
  std::string code = "x\\nabcd\\n  efg";
  l.source_code = code;
  std::string s = Diagnostic(Diagnostic::Level::kError, "m", l).Render();
  CHECK(s == "error: m\\n  --> line 2, column 3\\n   |\\n 2 | abcd\\n   |   ^^\\n 3 |   efg\\n   | ^^^");
  return 0;
}
''', "a location that continues on an indented line", "the marking of a continued line starts at its first letter")

S("c33_status", "C33", [("include/status.h",
"  Status& operator=(Status&& rhs) = default;",
'''  Status& operator=(Status&& rhs) noexcept {
    if (state_ != nullptr && rhs.state_ != nullptr && state_->code_ == rhs.state_->code_) {
      // same kind of error: the first message is the cause
      return *this;
    }
    state_ = std::move(rhs.state_);
    return *this;
  }''')],
'''
int main() {
  Status st = Status::RuntimeError("first");
  st = Status::RuntimeError("second");
  CHECK(st.ToString() == "Runtime Error: second");
  st = Status::OK();
  CHECK(st.ok());
  return 0;
}
''', "assigning an error to a status that holds one of the same kind", "the old message stays")


S("c09_lanes", "C09", [("src/function/list_aggregation.cc",
'''    uint64_t val;
    memcpy(&val, a.data + i, 8);
    cnt += static_cast<uint32_t>(Popcountll(val));
  }
''',
'''    // sum the bits of each byte lane, fold the lanes once at the end
    uint64_t val;
    memcpy(&val, a.data + i, 8);
    val = val - ((val >> 1) & 0x5555555555555555ULL);
    val = (val & 0x3333333333333333ULL) + ((val >> 2) & 0x3333333333333333ULL);
    lanes += (val + (val >> 4)) & 0x0F0F0F0F0F0F0F0FULL;
  }
  for (uint32_t k = 0; k < 8; k++) {
    cnt += static_cast<uint32_t>(lanes >> (8 * k)) & 0xFFU;
  }
'''), ("src/function/list_aggregation.cc",
'''  uint32_t batch_end = a.len & ~7U;
''',
'''  uint64_t lanes = 0;
  uint32_t batch_end = a.len & ~7U;
''')],
'''
int main() {
  Run r("(f CountBits (in lu8 0))");
  CHECK(r.st.ok());
  std::vector<uint8_t> v(300, 0xff);
  r.list<uint8_t>(0, v);
  CHECK(r.go());
  CHECK(r.get<uint32_t>() == 2400);
  return 0;
}
''', "a bitmap of more than 31 words with nearly all bits set", "a byte lane of the running count overflows into its neighbour")

S("c12_index8", "C12", [("src/function/list_indexing.cc",
'''      result.data[out++] = i;
''',
'''      result.data[out++] = (i & 0xFFU) | ((i >> 8U) << 9U);
''')],
'''
int main() {
  Run r("(f ListCompactPositions (in lu32 0))");
  CHECK(r.st.ok());
  std::vector<uint32_t> v(300, 0xffffffffu);
  v[7] = 1; v[299] = 2;
  r.list<uint32_t>(0, v);
  CHECK(r.go());
  auto o = r.vec<uint32_t>();
  CHECK(o.size() == 2 && o[0] == 7 && o[1] == 299);
  return 0;
}
''', "a hit beyond position 255", "the position of the hit is mangled")
