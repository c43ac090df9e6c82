From ec894aa753345f5fffb5271f556600ac4f22819e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 01/25] fix: widen integers by the signedness of their source
 type

NumericTypeConvert extended by the signedness of the target, so a u32 above
2^31 became negative when promoted to i64, -x of a u8 above 127 gave the wrong
value, and a negative i32 lost its sign when promoted to u64.
---
 src/codegen/codegen.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/codegen.cc b/src/codegen/codegen.cc
index 4ab4f88..a29b732 100644
--- a/src/codegen/codegen.cc
+++ b/src/codegen/codegen.cc
@@ -98,7 +98,7 @@ Status CodeGen::NumericTypeConvert(IRCodeGenContext &ctx, ValueType from, ValueT
     if (TypeHelper::IsIntegerType(to)) {
       *value =
           ctx.builder.CreateIntCast(*value, llvm::IntegerType::get(ctx.context, TypeHelper::GetBitWidthFromType(to)),
-                                    TypeHelper::IsSignedType(to));
+                                    TypeHelper::IsSignedType(from));
       return Status::OK();
     }
     if (TypeHelper::IsFloatType(to)) {
-- 
2.43.0


From 0d2ae806d8122bfc82dee3ebea72e799a879fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 02/25] fix: if block without else accepts conditions that span
 blocks

The phi for the fall-through edge named the block the last condition starts in,
so a condition containing &&, ||, if or switch failed module verification.
---
 src/codegen/if_block_codegen.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codegen/if_block_codegen.cc b/src/codegen/if_block_codegen.cc
index 9a09732..ea25643 100644
--- a/src/codegen/if_block_codegen.cc
+++ b/src/codegen/if_block_codegen.cc
@@ -61,10 +61,6 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
     llvm::BasicBlock *cond_block = llvm::BasicBlock::Create(ctx_.context, "ifblock.cond", cur_function);
     ctx_.builder.SetInsertPoint(cond_block);
 
-    if (last_cond_block == nullptr) {
-      last_cond_block = cond_block;
-    }
-
     llvm::Value *cond_value{};
     JF_RETURN_NOT_OK(GetValue(args[cond_idx].get(), &cond_value));
     if (cond_value->getType()->isIntegerTy()) {
@@ -75,6 +71,12 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
       return Status::RuntimeError("[internal] unsupported type for if block condition (should be caught by validator)");
     }
 
+    if (last_cond_block == nullptr) {
+      // Evaluating the condition may have opened new blocks (&&, ||, if, switch): the
+      // edge to the merge block leaves from the block the condition ends in.
+      last_cond_block = ctx_.builder.GetInsertBlock();
+    }
+
     llvm::BasicBlock *body_block = llvm::BasicBlock::Create(ctx_.context, "ifblock.body", cur_function);
     ctx_.builder.CreateCondBr(cond_value, body_block, prev_false_block);
 
-- 
2.43.0


From f512ce973df19d57696fc876469201cca1d88879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 03/25] fix: integer power of a double takes the whole i32
 exponent

---
 src/function/math_function_init.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/function/math_function_init.cc b/src/function/math_function_init.cc
index e95bea8..d00c39e 100644
--- a/src/function/math_function_init.cc
+++ b/src/function/math_function_init.cc
@@ -86,9 +86,6 @@ llvm::Value *CallBuiltinPowIFunction(const FunctionSignature &sign,
   if (value->getType()->isIntegerTy()) {
     (void)CodeGen::NumericTypeConvert(ctx, sign.GetParamTypes().at(0), ValueType::kF64, &value);
   }
-  if (value->getType()->isDoubleTy()) {
-    (void)CodeGen::NumericTypeConvert(ctx, ValueType::kI32, ValueType::kI16, &power);
-  }
   llvm::Function *func =
       llvm::Intrinsic::getDeclaration(&ctx.module, llvm::Intrinsic::powi, {value->getType(), power->getType()});
   return ctx.builder.CreateCall(func, {value, power}, "powi");
-- 
2.43.0


From 816df7045fc5f9176b03ddc28468a876072ae033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 04/25] fix: bitmap of a list whose length is a multiple of
 eight stays within its allocation

---
 src/function/list_comparison.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index e7b2912..b0f9bac 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -289,6 +289,9 @@ U8ListStruct GenBitmap(ListType a, typename ListType::CElementType b, void *exec
     }
     result.data[(i / 8)] = mask_bit;
   }
+  if (vec_loop_len == a.len) {
+    return result;
+  }
   auto last_index = (vec_loop_len / 8);
   result.data[last_index] = 0;
   for (int j = 0; i + j < a.len; j++) {
@@ -349,6 +352,9 @@ U8ListStruct GenBitmapList(ListType a, ListType b, void *exec_context) {
     }
     result.data[(i / 8)] = mask_bit;
   }
+  if (vec_loop_len == len) {
+    return result;
+  }
   auto last_index = (vec_loop_len / 8);
   result.data[last_index] = 0;
   for (int j = 0; i + j < len; j++) {
-- 
2.43.0


From 2b75ecc8d4a3097841b5c035e992cea2ac751c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:22 +0000
Subject: [PATCH 05/25] fix: group maximum and minimum of an infinite value are
 that value

---
 src/function/list_group.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/list_group.cc b/src/function/list_group.cc
index c577528..001e78f 100644
--- a/src/function/list_group.cc
+++ b/src/function/list_group.cc
@@ -129,7 +129,7 @@ VList GroupMax(VList values, U32ListStruct group_index, uint32_t distinct, void
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
-  V seed = std::numeric_limits<V>::lowest();
+  V seed = std::numeric_limits<V>::has_infinity ? -std::numeric_limits<V>::infinity() : std::numeric_limits<V>::lowest();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
     result.data[group_index.data[i]] = std::max(result.data[group_index.data[i]], values.data[i]);
@@ -149,7 +149,7 @@ VList GroupMin(VList values, U32ListStruct group_index, uint32_t distinct, void
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
-  V seed = std::numeric_limits<V>::max();
+  V seed = std::numeric_limits<V>::has_infinity ? std::numeric_limits<V>::infinity() : std::numeric_limits<V>::max();
   std::fill_n(result.data, distinct, seed);
   for (uint32_t i = 0; i < values.len; ++i) {
     result.data[group_index.data[i]] = std::min(result.data[group_index.data[i]], values.data[i]);
-- 
2.43.0


From 124bec5d7d691d93ffd19d8653e936bd3dda6dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:01 +0000
Subject: [PATCH 06/25] fix: FilterByBitmap rejects a wrong bit count before
 writing its result

---
 src/function/list_comparison.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/function/list_comparison.cc b/src/function/list_comparison.cc
index b0f9bac..8d11fb0 100644
--- a/src/function/list_comparison.cc
+++ b/src/function/list_comparison.cc
@@ -4,6 +4,7 @@
  * @Last Modified by: victorika
  * @Last Modified time: 2026-05-11 16:35:09
  */
+#include <bitset>
 #include <cstring>
 #include "codegen/codegen.h"
 #include "exec_engine.h"
@@ -385,6 +386,15 @@ ListType FilterByBitmap(ListType a, U8ListStruct bitmap, uint32_t bits_cnt, void
     exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to list len");
     return {nullptr, 0};
   }
+  // The result holds bits_cnt elements, so a wrong count has to be rejected before anything is written.
+  uint64_t set_bits = 0;
+  for (uint32_t i = 0; i < bitmap.len; i++) {
+    set_bits += std::bitset<8>(bitmap.data[i]).count();
+  }
+  if (set_bits != bits_cnt) {
+    exec_ctx->AddError("FilterByBitmap: bitmap len is not corresponding to bits_cnt");
+    return {nullptr, 0};
+  }
   ListType result;
   result.data = reinterpret_cast<T *>(exec_ctx->arena.Allocate((bits_cnt + 1) * sizeof(T)));
   result.len = bits_cnt;
-- 
2.43.0


From f5c971b713c5e5f29cbbb7db18def2bec333b004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:01 +0000
Subject: [PATCH 07/25] fix: group aggregates reject group ids outside the
 result

---
 src/function/list_group.cc | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/function/list_group.cc b/src/function/list_group.cc
index 001e78f..90d7bc7 100644
--- a/src/function/list_group.cc
+++ b/src/function/list_group.cc
@@ -26,6 +26,18 @@ namespace jitfusion {
 
 namespace {
 
+// Every group id has to name one of the `distinct` groups of the result.
+bool CheckGroupIndex(const char *func_name, U32ListStruct group_index, uint32_t distinct, ExecContext *exec_ctx) {
+  for (uint32_t i = 0; i < group_index.len; ++i) {
+    if (group_index.data[i] >= distinct) {
+      exec_ctx->AddError(std::string(func_name) + ": group_index has group id " + std::to_string(group_index.data[i]) +
+                         ", but there are only " + std::to_string(distinct) + " groups");
+      return false;
+    }
+  }
+  return true;
+}
+
 template <typename KList>
 U32ListStruct GroupIndex(KList keys, void *exec_context) {
   auto *exec_ctx = reinterpret_cast<ExecContext *>(exec_context);
@@ -85,6 +97,9 @@ KList GroupKeys(KList keys, U32ListStruct group_index, uint32_t distinct, void *
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (!CheckGroupIndex("GroupKeys", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   KList result;
   result.data = reinterpret_cast<typename KList::CElementType *>(
       exec_ctx->arena.Allocate(sizeof(typename KList::CElementType) * distinct));
@@ -107,6 +122,9 @@ AccList GroupSum(VList values, U32ListStruct group_index, uint32_t distinct, voi
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (!CheckGroupIndex("GroupSum", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   AccList result;
   result.len = distinct;
   result.data = reinterpret_cast<Acc *>(exec_ctx->arena.Allocate(sizeof(Acc) * distinct));
@@ -126,6 +144,9 @@ VList GroupMax(VList values, U32ListStruct group_index, uint32_t distinct, void
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (!CheckGroupIndex("GroupMax", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
@@ -146,6 +167,9 @@ VList GroupMin(VList values, U32ListStruct group_index, uint32_t distinct, void
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (!CheckGroupIndex("GroupMin", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   VList result;
   result.len = distinct;
   result.data = reinterpret_cast<V *>(exec_ctx->arena.Allocate(sizeof(V) * distinct));
@@ -165,6 +189,9 @@ F64ListStruct GroupAvg(VList values, U32ListStruct group_index, uint32_t distinc
                        ", group_index len: " + std::to_string(group_index.len));
     return {nullptr, 0};
   }
+  if (!CheckGroupIndex("GroupAvg", group_index, distinct, exec_ctx)) {
+    return {nullptr, 0};
+  }
   F64ListStruct result;
   result.len = distinct;
   result.data = reinterpret_cast<double *>(exec_ctx->arena.Allocate(sizeof(double) * distinct));
-- 
2.43.0


From 615e97690979b9738671a3a6e3c96913d89f4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:26 +0000
Subject: [PATCH 08/25] fix: tell list literals with different float
 representations apart when sharing them

---
 include/function_registry.h | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/function_registry.h b/include/function_registry.h
index d6b8b4c..b98996d 100644
--- a/include/function_registry.h
+++ b/include/function_registry.h
@@ -6,10 +6,13 @@
  */
 #pragma once
 
+#include <cstring>
 #include <functional>
 #include <map>
 #include <string>
+#include <type_traits>
 #include <unordered_map>
+#include <variant>
 #include <vector>
 #include "llvm/ExecutionEngine/Orc/LLJIT.h"
 #include "llvm/IR/Attributes.h"
@@ -52,6 +55,30 @@ struct LLVMStructType {
 
 constexpr const char *kCommutative = "commutative";
 
+// Orders list literals by representation: 0.0 and -0.0 are different literals and
+// a NaN literal equals only itself, so sharing never changes a literal's value.
+struct ConstantListLess {
+  bool operator()(const ConstantListValueType &a, const ConstantListValueType &b) const {
+    if (a.index() != b.index()) {
+      return a.index() < b.index();
+    }
+    return std::visit(
+        [&b](const auto &lhs) {
+          using List = std::decay_t<decltype(lhs)>;
+          const auto &rhs = std::get<List>(b);
+          if constexpr (std::is_floating_point_v<typename List::value_type>) {
+            if (lhs.size() != rhs.size()) {
+              return lhs.size() < rhs.size();
+            }
+            return !lhs.empty() && std::memcmp(lhs.data(), rhs.data(), lhs.size() * sizeof(lhs[0])) < 0;
+          } else {
+            return lhs < rhs;
+          }
+        },
+        a);
+  }
+};
+
 struct IRCodeGenContext {
   IRCodeGenContext(llvm::LLVMContext &context, llvm::Module &module, llvm::IRBuilder<> &builder,
                    llvm::Function *entry_function, LLVMStructType complex_type,
@@ -68,7 +95,7 @@ struct IRCodeGenContext {
   llvm::IRBuilder<> &builder;
   llvm::Function *entry_function;
   LLVMStructType complex_type;
-  std::map<ConstantListValueType, llvm::Value *> const_list_cache;
+  std::map<ConstantListValueType, llvm::Value *, ConstantListLess> const_list_cache;
   std::map<std::string, llvm::Constant *> const_string_cache;
   const std::unique_ptr<FunctionRegistry> &function_registry;
 };
-- 
2.43.0


From fde72a3e37ee031370c4d97426114a442a64e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 09/25] fix: corrupt counts and sizes in a compiled artifact
 are refused instead of allocated for

---
 src/compiled_artifact.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/compiled_artifact.cc b/src/compiled_artifact.cc
index 2c55b07..d84c132 100644
--- a/src/compiled_artifact.cc
+++ b/src/compiled_artifact.cc
@@ -127,7 +127,7 @@ class ArtifactReader {
   }
 
   Status ReadBytesView(std::size_t n, std::string_view* out) {
-    if (pos_ + n > buf_.size()) {
+    if (n > remaining()) {
       return Status::InvalidArgument("compiled artifact: truncated blob (want ", n, " bytes, have ", buf_.size() - pos_,
                                      ")");
     }
@@ -254,6 +254,11 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
   if (out_header->mode == ArtifactMode::kSingle && num_entries != 1) {
     return Status::InvalidArgument("compiled artifact: single-mode artifact with num_entries=", num_entries);
   }
+  // Every entry takes one byte: check before a corrupt count makes us allocate for it.
+  if (num_entries > r.remaining()) {
+    return Status::InvalidArgument("compiled artifact: truncated return types (want ", num_entries, " bytes, have ",
+                                   r.remaining(), ")");
+  }
   out_header->per_entry_ret_types.resize(num_entries);
   for (std::uint32_t i = 0; i < num_entries; ++i) {
     std::uint8_t rt_byte = 0;
@@ -267,6 +272,11 @@ Status DeserializeArtifact(std::string_view blob, ArtifactHeader* out_header, st
 
   std::uint32_t ext_count = 0;
   JF_RETURN_NOT_OK(r.ReadU32LE(&ext_count));
+  // Every extension takes at least its tag and its length.
+  if (ext_count > r.remaining() / 8) {
+    return Status::InvalidArgument("compiled artifact: truncated extensions (want ", ext_count, " extensions, have ",
+                                   r.remaining(), " bytes)");
+  }
   out_header->extensions.clear();
   out_header->extensions.reserve(ext_count);
   for (std::uint32_t i = 0; i < ext_count; ++i) {
-- 
2.43.0


From 8922ae0c75c6be7a64c3a8975254ac3611db6e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 10/25] fix: executing an engine without a program through the
 void* overloads is refused

---
 src/exec_engine.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index b15c9eb..7f843a4 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -68,6 +68,9 @@ Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, RetType
 }
 
 Status ExecEngine::Execute(void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() first.");
+  }
   ExecContext exec_ctx(core_->GetOption().exec_ctx_arena_alloc_min_chunk_size);
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
@@ -78,6 +81,9 @@ Status ExecEngine::Execute(void* entry_arguments, void* result) {
 }
 
 Status ExecEngine::Execute(ExecContext& exec_ctx, void* entry_arguments, void* result) {
+  if (entry_func_ptr_ == nullptr) {
+    return Status::RuntimeError("Execute: nothing compiled yet. Call Compile() first.");
+  }
   reinterpret_cast<::jitfusion::execute_dispatch::return_void_function_type>(entry_func_ptr_)(entry_arguments,
                                                                                               &exec_ctx, result);
   Status ret = Status::OK();
-- 
2.43.0


From fbbe5be0fc4ba7ae4126135a1a3b32cdff586eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 11/25] fix: a failed batch Compile leaves no half-resolved
 functions behind

---
 src/batch_exec_engine.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 5484bb1..7403963 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -45,7 +45,13 @@ Status BatchExecEngine::Compile(const std::vector<std::unique_ptr<ExecNode>>& ex
     nodes.emplace_back(exec_nodes[i].get());
     names.emplace_back(kEntryFunctionName + std::to_string(i));
   }
-  return core_->BuildAndLink(nodes, names, func_registry, &entry_func_ptrs_, &ret_types_);
+  std::vector<char*> func_ptrs;
+  std::vector<ValueType> ret_types;
+  JF_RETURN_NOT_OK(core_->BuildAndLink(nodes, names, func_registry, &func_ptrs, &ret_types));
+
+  entry_func_ptrs_ = std::move(func_ptrs);
+  ret_types_ = std::move(ret_types);
+  return Status::OK();
 }
 
 Status BatchExecEngine::ExecuteAt(size_t index, void* entry_arguments, RetType* result) {
-- 
2.43.0


From 22cabb24b1111585f27f52e0a5f321a24ad8bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 12/25] fix: a failed LoadCompiled no longer leaves pointers
 into the unmapped previous program

---
 src/batch_exec_engine.cc | 4 ++++
 src/exec_engine.cc       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 7403963..782465f 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -218,6 +218,10 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
 
   ExecEngineOption new_opt = core_->GetOption();
   new_opt.fp_math_mode = header.fp_math_mode;
+  // Replacing the core unmaps the previous program: drop it first, so that a
+  // failed load leaves the engine cleanly uncompiled.
+  entry_func_ptrs_.clear();
+  ret_types_.clear();
   core_ = std::make_unique<JitCore>(new_opt);
 
   const size_t n = header.per_entry_ret_types.size();
diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index 7f843a4..ef2e9fb 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -136,6 +136,10 @@ Status ExecEngine::LoadCompiled(std::string_view bytes, const std::unique_ptr<Fu
   // linker flags stay consistent).
   ExecEngineOption new_opt = core_->GetOption();
   new_opt.fp_math_mode = header.fp_math_mode;
+  // Replacing the core unmaps the previous program: drop it first, so that a
+  // failed load leaves the engine cleanly uncompiled.
+  entry_func_ptr_ = nullptr;
+  ret_type_ = ValueType::kUnknown;
   core_ = std::make_unique<JitCore>(new_opt);
 
   std::vector<std::string> symbol_names{kEntryFunctionName};
-- 
2.43.0


From 49d759f3289e924134567c2e40909ddcc68c48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 13/25] fix: loading an artifact does not change the
 floating-point mode of later compilations

---
 src/batch_exec_engine.cc |  4 +---
 src/exec_engine.cc       | 10 +++-------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/batch_exec_engine.cc b/src/batch_exec_engine.cc
index 782465f..775d636 100644
--- a/src/batch_exec_engine.cc
+++ b/src/batch_exec_engine.cc
@@ -216,13 +216,11 @@ Status BatchExecEngine::LoadCompiled(std::string_view bytes, const std::unique_p
   JF_RETURN_NOT_OK(CheckHostCompatibility(header, opts, LLVM_VERSION_STRING, llvm::sys::getProcessTriple(),
                                           llvm::sys::getHostCPUName().str(), ArtifactMode::kBatch));
 
-  ExecEngineOption new_opt = core_->GetOption();
-  new_opt.fp_math_mode = header.fp_math_mode;
   // Replacing the core unmaps the previous program: drop it first, so that a
   // failed load leaves the engine cleanly uncompiled.
   entry_func_ptrs_.clear();
   ret_types_.clear();
-  core_ = std::make_unique<JitCore>(new_opt);
+  core_ = std::make_unique<JitCore>(ExecEngineOption(core_->GetOption()));
 
   const size_t n = header.per_entry_ret_types.size();
   std::vector<std::string> symbol_names;
diff --git a/src/exec_engine.cc b/src/exec_engine.cc
index ef2e9fb..8d53c68 100644
--- a/src/exec_engine.cc
+++ b/src/exec_engine.cc
@@ -130,17 +130,13 @@ Status ExecEngine::LoadCompiled(std::string_view bytes, const std::unique_ptr<Fu
   JF_RETURN_NOT_OK(CheckHostCompatibility(header, opts, LLVM_VERSION_STRING, llvm::sys::getProcessTriple(),
                                           llvm::sys::getHostCPUName().str(), ArtifactMode::kSingle));
 
-  // Rebuild a JitCore that reflects the FP mode actually baked into the
-  // artifact (FP mode affects codegen flags, but the object bytes are
-  // already codegen'd — we only need the LLJIT to match so that any
-  // linker flags stay consistent).
-  ExecEngineOption new_opt = core_->GetOption();
-  new_opt.fp_math_mode = header.fp_math_mode;
+  // The FP mode baked into the artifact only affects code that is already
+  // generated: the engine keeps its own options for a later Compile().
   // Replacing the core unmaps the previous program: drop it first, so that a
   // failed load leaves the engine cleanly uncompiled.
   entry_func_ptr_ = nullptr;
   ret_type_ = ValueType::kUnknown;
-  core_ = std::make_unique<JitCore>(new_opt);
+  core_ = std::make_unique<JitCore>(ExecEngineOption(core_->GetOption()));
 
   std::vector<std::string> symbol_names{kEntryFunctionName};
   std::vector<char*> func_ptrs;
-- 
2.43.0


From 90fc49326226e5a08debb0003ddecb72b1c5dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 14/25] fix: overriding a function takes over the new
 registration's return type

---
 src/function_registry.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index d706377..c0691db 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -111,7 +111,10 @@ Status FunctionRegistry::RegisterFunc(const FunctionSignature& func_sign, Functi
     return Status::InvalidArgument("function ", func_sign.ToString(),
                                    " is already registered; pass allow_override=true to overwrite");
   }
-  signature2funcstruct_[func_sign] = std::move(func_struct);
+  // Signatures compare equal regardless of their return type: replace the key
+  // as well, so that an override takes effect with its own return type.
+  signature2funcstruct_.erase(func_sign);
+  signature2funcstruct_.emplace(func_sign, std::move(func_struct));
   return Status::OK();
 }
 
-- 
2.43.0


From ccac3fd2f9d22ff25f6f63298ec6e8ab74cc90ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 15/25] fix: a refused registration with execution context
 changes nothing

---
 src/function_registry.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/function_registry.cc b/src/function_registry.cc
index c0691db..5ee9290 100644
--- a/src/function_registry.cc
+++ b/src/function_registry.cc
@@ -146,6 +146,14 @@ Status FunctionRegistry::RegisterReadOnlyCFuncWithExecCtx(const FunctionSignatur
   if (nullptr == c_func_ptr) {
     return Status::InvalidArgument("c_func_ptr is nullptr");
   }
+  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
+  legacy_params.emplace_back(ValueType::kPtr);
+  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
+  // Both signatures are registered or none.
+  if (!allow_override && signature2funcstruct_.find(legacy_sign) != signature2funcstruct_.end()) {
+    return Status::InvalidArgument("function ", legacy_sign.ToString(),
+                                   " is already registered; pass allow_override=true to overwrite");
+  }
   // Modern user-visible signature: no trailing kPtr; codegen auto-injects
   // exec_ctx when emitting the call so the C ABI (N+1 args) is preserved.
   {
@@ -160,9 +168,6 @@ Status FunctionRegistry::RegisterReadOnlyCFuncWithExecCtx(const FunctionSignatur
   // like the old RegisterReadOnlyCFunc registration. Existing callers
   // (AST builders that still create an ExecContextNode tail arg, or
   // athena DSL code using `EXEC_CTX`) keep working unchanged.
-  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
-  legacy_params.emplace_back(ValueType::kPtr);
-  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
   FunctionStructure legacy_struct;
   legacy_struct.func_type = FunctionType::kCFunc;
   legacy_struct.c_func_ptr = c_func_ptr;
@@ -200,6 +205,14 @@ Status FunctionRegistry::RegisterCommutativeCFuncWithExecCtx(const FunctionSigna
   if (nullptr == c_func_ptr) {
     return Status::InvalidArgument("c_func_ptr is nullptr");
   }
+  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
+  legacy_params.emplace_back(ValueType::kPtr);
+  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
+  // Both signatures are registered or none.
+  if (!allow_override && signature2funcstruct_.find(legacy_sign) != signature2funcstruct_.end()) {
+    return Status::InvalidArgument("function ", legacy_sign.ToString(),
+                                   " is already registered; pass allow_override=true to overwrite");
+  }
   // Modern user-visible signature: no trailing kPtr; codegen auto-injects.
   {
     FunctionStructure func_struct;
@@ -212,9 +225,6 @@ Status FunctionRegistry::RegisterCommutativeCFuncWithExecCtx(const FunctionSigna
   // Legacy compatibility signature: with trailing kPtr; identical to the
   // old RegisterCommutativeCFunc registration so existing AST/DSL code
   // that still passes ExecContextNode keeps resolving.
-  std::vector<ValueType> legacy_params = func_sign.GetParamTypes();
-  legacy_params.emplace_back(ValueType::kPtr);
-  FunctionSignature legacy_sign(func_sign.GetName(), std::move(legacy_params), func_sign.GetRetType());
   FunctionStructure legacy_struct;
   legacy_struct.func_type = FunctionType::kCFunc;
   legacy_struct.c_func_ptr = c_func_ptr;
-- 
2.43.0


From 2b9f949e390337145a5a6b1b4d8f8e4348d107a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 16/25] fix: expressions of a batch no longer share variables
 during validation

---
 src/jit_core.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jit_core.cc b/src/jit_core.cc
index 4a46789..92d40c5 100644
--- a/src/jit_core.cc
+++ b/src/jit_core.cc
@@ -241,9 +241,10 @@ Status JitCore::BuildAndLink(const std::vector<ExecNode*>& nodes, const std::vec
     return Status::RuntimeError("[internal] BuildAndLink: nodes.size() != symbol_names.size() (compiler bug)");
   }
 
-  // Validation runs up front on caller-supplied nodes.
-  Validator validator(func_registry);
+  // Validation runs up front on caller-supplied nodes. Each node becomes a
+  // function of its own, so each gets its own variables.
   for (auto* node : nodes) {
+    Validator validator(func_registry);
     JF_RETURN_NOT_OK(validator.Validate(node));
   }
 
-- 
2.43.0


From f9bbb4f346a91f2de03bcfab573834c04ce4158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 17/25] fix: structs that do not fit the remaining argument
 registers are passed in memory

---
 src/codegen/function_codegen.cc | 56 +++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/src/codegen/function_codegen.cc b/src/codegen/function_codegen.cc
index 42d39a0..9820245 100644
--- a/src/codegen/function_codegen.cc
+++ b/src/codegen/function_codegen.cc
@@ -13,6 +13,51 @@
 
 namespace jitfusion {
 
+namespace {
+
+#if defined(__x86_64__) && !defined(_WIN32)
+// The System V x86-64 calling convention passes a 16-byte struct either
+// entirely in two integer registers or entirely in memory, whereas LLVM lowers
+// a first-class struct argument field by field. Pass a struct that does not
+// fit into the remaining registers by value in memory, as the C callee expects.
+llvm::AttributeList LowerStructArgs(IRCodeGenContext& ctx, std::vector<llvm::Type*>& types,
+                                    std::vector<llvm::Value*>& values) {
+  constexpr uint32_t kIntegerArgRegs = 6;
+  constexpr uint32_t kStructRegs = 2;
+  llvm::AttributeList attrs;
+  uint32_t used_regs = 0;
+  for (uint32_t i = 0; i < types.size(); i++) {
+    llvm::Type* type = types[i];
+    if (!type->isStructTy()) {
+      if (!type->isFloatingPointTy() && used_regs < kIntegerArgRegs) {
+        used_regs++;
+      }
+      continue;
+    }
+    if (used_regs + kStructRegs <= kIntegerArgRegs) {
+      used_regs += kStructRegs;
+      continue;
+    }
+    llvm::BasicBlock& entry = ctx.entry_function->getEntryBlock();
+    llvm::IRBuilder<> entry_builder(&entry, entry.begin());
+    llvm::AllocaInst* arg_memory = entry_builder.CreateAlloca(type, nullptr, "struct_arg");
+    ctx.builder.CreateStore(values[i], arg_memory);
+    types[i] = arg_memory->getType();
+    values[i] = arg_memory;
+    attrs = attrs.addParamAttribute(ctx.context, i, llvm::Attribute::getWithByValType(ctx.context, type));
+    attrs = attrs.addParamAttribute(ctx.context, i, llvm::Attribute::getWithAlignment(ctx.context, llvm::Align(8)));
+  }
+  return attrs;
+}
+#else
+llvm::AttributeList LowerStructArgs(IRCodeGenContext& /*ctx*/, std::vector<llvm::Type*>& /*types*/,
+                                    std::vector<llvm::Value*>& /*values*/) {
+  return {};
+}
+#endif
+
+}  // namespace
+
 Status CodeGen::Visit(FunctionNode& function_node) {
   std::vector<ValueType> args_type_list;
   std::vector<llvm::Type*> args_llvm_type_list;
@@ -51,18 +96,23 @@ Status CodeGen::Visit(FunctionNode& function_node) {
         call_symbol_name = sign.ToString();
       }
 
+      llvm::AttributeList call_attrs = LowerStructArgs(ctx_, args_llvm_type_list, args_llvm_value_list);
+
       llvm::Type* llvm_ret_type;
       JF_RETURN_NOT_OK(ValueTypeToLLVMType(ctx_, function_node.GetReturnType(), &llvm_ret_type));
       llvm::FunctionType* func_type =
           llvm::FunctionType::get(llvm_ret_type, llvm::ArrayRef<llvm::Type*>(args_llvm_type_list), false);
 
-      llvm::FunctionCallee call_func_callee = ctx_.module.getOrInsertFunction(call_symbol_name, func_type);
+      llvm::FunctionCallee call_func_callee = ctx_.module.getOrInsertFunction(call_symbol_name, func_type, call_attrs);
 
       if (function_node.GetReturnType() == ValueType::kVoid) {
-        ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list);
+        ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list)->setAttributes(call_attrs);
         value_ = nullptr;
       } else {
-        value_ = ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list, "call_" + function_node.GetFuncName());
+        llvm::CallInst* call =
+            ctx_.builder.CreateCall(call_func_callee, args_llvm_value_list, "call_" + function_node.GetFuncName());
+        call->setAttributes(call_attrs);
+        value_ = call;
       }
     } break;
     default:
-- 
2.43.0


From 80471b6d8696ecf5851685b2f42cd4cfcc98029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 18/25] fix: let variables of an expression cannot be
 reassigned or redeclared

---
 athena/ast_builder.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index 81a9440..eaa4a33 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -7,6 +7,7 @@
 #include "ast_builder.h"
 #include <memory>
 #include <string>
+#include <utility>
 #include <vector>
 #include "diagnostic.h"
 #include "exec_node.h"
@@ -87,6 +88,23 @@ std::unique_ptr<ExecNode> ProgramAstBuilder::MakeRefNode(const std::string& var_
 }
 
 void ProgramAstBuilder::AddStatement(Statement statement) {
+  // In expression mode variables are substituted while parsing, so that the
+  // validator never sees the assignments.
+  if (IsExpressionMode() && custom_error_message_.empty() && !statement.var_name.empty()) {
+    if (auto it = var2index_.find(statement.var_name); it != var2index_.end()) {
+      std::string message;
+      if (statements_[it->second].is_const) {
+        message = "cannot reassign const variable '" + statement.var_name + "'";
+      } else if (statement.is_const) {
+        message = "cannot redeclare variable '" + statement.var_name + "' with let";
+      }
+      if (!message.empty()) {
+        jitfusion::Diagnostic diag(jitfusion::Diagnostic::Level::kError, std::move(message),
+                                   statement.expression->GetLocation());
+        custom_error_message_ = diag.Render();
+      }
+    }
+  }
   statements_.emplace_back(std::move(statement));
   const auto& var_name = statements_.back().var_name;
   if (var_name.empty()) {
-- 
2.43.0


From bda5bf944c154152e539735f16d6aa1741bfdbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 19/25] fix: characters outside the language are syntax errors,
 not echoed and ignored

---
 athena/token.cc | 3 +++
 athena/token.ll | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/athena/token.cc b/athena/token.cc
index 7eae7a9..bcda7ad 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -747,6 +747,9 @@ static const flex_int16_t yy_chk[277] =
 #include <climits>
 #include <cstdlib>
 #include <cstring>
+
+// Characters outside the language are syntax errors instead of being echoed.
+#define ECHO throw athena::Parser::syntax_error(loc, std::string("invalid character '") + yytext + "'")
 #line 750 "token.cc"
 #line 15 "token.ll"
 #if defined __clang__
diff --git a/athena/token.ll b/athena/token.ll
index 3c19b09..894409c 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -6,6 +6,9 @@
 #include <climits>
 #include <cstdlib>
 #include <cstring>
+
+// Characters outside the language are syntax errors instead of being echoed.
+#define ECHO throw athena::Parser::syntax_error(loc, std::string("invalid character '") + yytext + "'")
 %}
 
 %option prefix="athena_"
-- 
2.43.0


From 846dd9baea845e0fa1b5ee7ec4e0caff0b3c799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 20/25] fix: literals outside the range of their type are
 syntax errors

---
 athena/token.cc | 58 +++++++++++++++++++++++++++++++++++------------
 athena/token.ll | 60 ++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 89 insertions(+), 29 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index bcda7ad..2ae006a 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -745,11 +745,41 @@ static const flex_int16_t yy_chk[277] =
 #include "parser.hh"
 #include <cerrno>
 #include <climits>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
+#include <type_traits>
+
+namespace {
 
 // Characters outside the language are syntax errors instead of being echoed.
 #define ECHO throw athena::Parser::syntax_error(loc, std::string("invalid character '") + yytext + "'")
+
+// A literal of a signed type that unary minus does not widen may reach 2^(N-1),
+// so that "-2147483648" can be written.
+template <class T>
+T ParseInteger(const char *text, const athena::location &loc) {
+  constexpr bool kAllowMin = std::is_signed<T>::value && sizeof(T) >= sizeof(int32_t);
+  constexpr auto kLimit = static_cast<unsigned long long>(std::numeric_limits<T>::max()) + (kAllowMin ? 1 : 0);
+  errno = 0;
+  const unsigned long long value = std::strtoull(text, nullptr, 10);
+  if (errno == ERANGE || value > kLimit) {
+    throw athena::Parser::syntax_error(loc, std::string("integer literal out of range: ") + text);
+  }
+  return static_cast<T>(value);
+}
+
+template <class T>
+T ParseFloating(const char *text, const athena::location &loc, T (*parse)(const char *, char **)) {
+  const T value = parse(text, nullptr);
+  if (std::isinf(value)) {
+    throw athena::Parser::syntax_error(loc, std::string("floating-point literal out of range: ") + text);
+  }
+  return value;
+}
+
+}  // namespace
 #line 750 "token.cc"
 #line 15 "token.ll"
 #if defined __clang__
@@ -1387,72 +1417,72 @@ return  athena::Parser::make_IDENTIFIER (std::string(yytext), loc);
 case 47:
 YY_RULE_SETUP
 #line 162 "token.ll"
-return  athena::Parser::make_I32 (std::stoull(yytext), loc);
+return  athena::Parser::make_I32 (ParseInteger<int32_t>(yytext, loc), loc);
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
 #line 163 "token.ll"
-return  athena::Parser::make_U8 (std::stoull(yytext), loc);
+return  athena::Parser::make_U8 (ParseInteger<uint8_t>(yytext, loc), loc);
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
 #line 164 "token.ll"
-return  athena::Parser::make_U16 (std::stoull(yytext), loc);
+return  athena::Parser::make_U16 (ParseInteger<uint16_t>(yytext, loc), loc);
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
 #line 165 "token.ll"
-return  athena::Parser::make_U32 (std::stoull(yytext), loc);
+return  athena::Parser::make_U32 (ParseInteger<uint32_t>(yytext, loc), loc);
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
 #line 166 "token.ll"
-return  athena::Parser::make_U64 (std::stoull(yytext), loc);
+return  athena::Parser::make_U64 (ParseInteger<uint64_t>(yytext, loc), loc);
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
 #line 167 "token.ll"
-return  athena::Parser::make_I8 (std::stoull(yytext), loc);
+return  athena::Parser::make_I8 (ParseInteger<int8_t>(yytext, loc), loc);
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
 #line 168 "token.ll"
-return  athena::Parser::make_I16 (std::stoull(yytext), loc);
+return  athena::Parser::make_I16 (ParseInteger<int16_t>(yytext, loc), loc);
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
 #line 169 "token.ll"
-return  athena::Parser::make_I32 (std::stoull(yytext), loc);
+return  athena::Parser::make_I32 (ParseInteger<int32_t>(yytext, loc), loc);
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
 #line 170 "token.ll"
-return  athena::Parser::make_I64 (std::stoull(yytext), loc);
+return  athena::Parser::make_I64 (ParseInteger<int64_t>(yytext, loc), loc);
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
 #line 172 "token.ll"
-return  athena::Parser::make_F64 (std::stod(yytext), loc);
+return  athena::Parser::make_F64 (ParseFloating<double>(yytext, loc, std::strtod), loc);
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
 #line 173 "token.ll"
-return  athena::Parser::make_F32 (std::stof(yytext), loc);
+return  athena::Parser::make_F32 (ParseFloating<float>(yytext, loc, std::strtof), loc);
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
 #line 174 "token.ll"
-return  athena::Parser::make_F64 (std::stod(yytext), loc);
+return  athena::Parser::make_F64 (ParseFloating<double>(yytext, loc, std::strtod), loc);
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
 #line 175 "token.ll"
-return  athena::Parser::make_F32 (std::stof(yytext), loc);
+return  athena::Parser::make_F32 (ParseFloating<float>(yytext, loc, std::strtof), loc);
 	YY_BREAK
 case 60:
 YY_RULE_SETUP
 #line 176 "token.ll"
-return  athena::Parser::make_F64 (std::stod(yytext), loc);
+return  athena::Parser::make_F64 (ParseFloating<double>(yytext, loc, std::strtod), loc);
 	YY_BREAK
 case 61:
 /* rule 61 can match eol */
diff --git a/athena/token.ll b/athena/token.ll
index 894409c..1af8610 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -4,11 +4,41 @@
 #include "parser.hh"
 #include <cerrno>
 #include <climits>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
+#include <type_traits>
+
+namespace {
 
 // Characters outside the language are syntax errors instead of being echoed.
 #define ECHO throw athena::Parser::syntax_error(loc, std::string("invalid character '") + yytext + "'")
+
+// A literal of a signed type that unary minus does not widen may reach 2^(N-1),
+// so that "-2147483648" can be written.
+template <class T>
+T ParseInteger(const char *text, const athena::location &loc) {
+  constexpr bool kAllowMin = std::is_signed<T>::value && sizeof(T) >= sizeof(int32_t);
+  constexpr auto kLimit = static_cast<unsigned long long>(std::numeric_limits<T>::max()) + (kAllowMin ? 1 : 0);
+  errno = 0;
+  const unsigned long long value = std::strtoull(text, nullptr, 10);
+  if (errno == ERANGE || value > kLimit) {
+    throw athena::Parser::syntax_error(loc, std::string("integer literal out of range: ") + text);
+  }
+  return static_cast<T>(value);
+}
+
+template <class T>
+T ParseFloating(const char *text, const athena::location &loc, T (*parse)(const char *, char **)) {
+  const T value = parse(text, nullptr);
+  if (std::isinf(value)) {
+    throw athena::Parser::syntax_error(loc, std::string("floating-point literal out of range: ") + text);
+  }
+  return value;
+}
+
+}  // namespace
 %}
 
 %option prefix="athena_"
@@ -161,21 +191,21 @@ blank [ \t\r]
 
 {id}       return  athena::Parser::make_IDENTIFIER (std::string(yytext), loc);
 
-{int}      return  athena::Parser::make_I32 (std::stoull(yytext), loc);
-{int}"u8"  return  athena::Parser::make_U8 (std::stoull(yytext), loc);
-{int}"u16" return  athena::Parser::make_U16 (std::stoull(yytext), loc);
-{int}"u32" return  athena::Parser::make_U32 (std::stoull(yytext), loc);
-{int}"u64" return  athena::Parser::make_U64 (std::stoull(yytext), loc);
-{int}"i8"  return  athena::Parser::make_I8 (std::stoull(yytext), loc);
-{int}"i16" return  athena::Parser::make_I16 (std::stoull(yytext), loc);
-{int}"i32" return  athena::Parser::make_I32 (std::stoull(yytext), loc);
-{int}"i64" return  athena::Parser::make_I64 (std::stoull(yytext), loc);
-
-{float}       return  athena::Parser::make_F64 (std::stod(yytext), loc);
-{float}"f32"  return  athena::Parser::make_F32 (std::stof(yytext), loc);
-{float}"f64"  return  athena::Parser::make_F64 (std::stod(yytext), loc);
-{int}"f32"    return  athena::Parser::make_F32 (std::stof(yytext), loc);
-{int}"f64"    return  athena::Parser::make_F64 (std::stod(yytext), loc);
+{int}      return  athena::Parser::make_I32 (ParseInteger<int32_t>(yytext, loc), loc);
+{int}"u8"  return  athena::Parser::make_U8 (ParseInteger<uint8_t>(yytext, loc), loc);
+{int}"u16" return  athena::Parser::make_U16 (ParseInteger<uint16_t>(yytext, loc), loc);
+{int}"u32" return  athena::Parser::make_U32 (ParseInteger<uint32_t>(yytext, loc), loc);
+{int}"u64" return  athena::Parser::make_U64 (ParseInteger<uint64_t>(yytext, loc), loc);
+{int}"i8"  return  athena::Parser::make_I8 (ParseInteger<int8_t>(yytext, loc), loc);
+{int}"i16" return  athena::Parser::make_I16 (ParseInteger<int16_t>(yytext, loc), loc);
+{int}"i32" return  athena::Parser::make_I32 (ParseInteger<int32_t>(yytext, loc), loc);
+{int}"i64" return  athena::Parser::make_I64 (ParseInteger<int64_t>(yytext, loc), loc);
+
+{float}       return  athena::Parser::make_F64 (ParseFloating<double>(yytext, loc, std::strtod), loc);
+{float}"f32"  return  athena::Parser::make_F32 (ParseFloating<float>(yytext, loc, std::strtof), loc);
+{float}"f64"  return  athena::Parser::make_F64 (ParseFloating<double>(yytext, loc, std::strtod), loc);
+{int}"f32"    return  athena::Parser::make_F32 (ParseFloating<float>(yytext, loc, std::strtof), loc);
+{int}"f64"    return  athena::Parser::make_F64 (ParseFloating<double>(yytext, loc, std::strtod), loc);
 
 
 \"([^\\\"]|\\.)*\"     return  athena::Parser::make_STRING (std::string(yytext + 1, yyleng - 2), loc);
-- 
2.43.0


From 2584b941d07c1d054c4a9690e0ee990ca1c40bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 21/25] fix: source text after a NUL byte is no longer silently
 ignored

---
 athena/token.cc | 2 +-
 athena/token.ll | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index 2ae006a..5c4ada8 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -2641,7 +2641,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
   yyscan_t scanner;
   yylex_init(&scanner);
-  auto *buffer = yy_scan_string(code.c_str(), scanner);
+  auto *buffer = yy_scan_bytes(code.data(), code.size(), scanner);
   athena::Parser parser(scanner, *this);
   int res = parser();
   yy_delete_buffer(buffer, scanner);
diff --git a/athena/token.ll b/athena/token.ll
index 1af8610..62d7cf3 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -217,7 +217,7 @@ blank [ \t\r]
 jitfusion::Status athena::ProgramAstBuilder::Scan(const std::string &code) {
   yyscan_t scanner;
   yylex_init(&scanner);
-  auto *buffer = yy_scan_string(code.c_str(), scanner);
+  auto *buffer = yy_scan_bytes(code.data(), code.size(), scanner);
   athena::Parser parser(scanner, *this);
   int res = parser();
   yy_delete_buffer(buffer, scanner);
-- 
2.43.0


From f9b84940d0257e2b96432ed3677395252e5f80f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:29 +0000
Subject: [PATCH 22/25] fix: variables holding void call results can be
 assigned in when blocks

---
 src/codegen/if_block_codegen.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codegen/if_block_codegen.cc b/src/codegen/if_block_codegen.cc
index ea25643..c208f9b 100644
--- a/src/codegen/if_block_codegen.cc
+++ b/src/codegen/if_block_codegen.cc
@@ -116,6 +116,10 @@ Status CodeGen::Visit(IfBlockNode &if_block_node) {
 
     for (const auto &var_name : all_modified_vars) {
       llvm::Value *original_value = *scope_stack_.Lookup(var_name);
+      // A variable assigned from a void call has no value to merge.
+      if (original_value == nullptr) {
+        continue;
+      }
       llvm::PHINode *phi = ctx_.builder.CreatePHI(original_value->getType(), num_incoming, var_name + ".phi");
       for (const auto &info : branch_infos) {
         auto it = info.modified.find(var_name);
-- 
2.43.0


From 6fef3100d1d5d8a89038257c0fa6a47130f022c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 23/25] fix: locations after string literals and comments that
 span lines are right

---
 athena/token.cc | 22 ++++++++++++++--------
 athena/token.ll | 22 ++++++++++++++--------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/athena/token.cc b/athena/token.cc
index 5c4ada8..a1bcc4a 100644
--- a/athena/token.cc
+++ b/athena/token.cc
@@ -779,6 +779,17 @@ T ParseFloating(const char *text, const athena::location &loc, T (*parse)(const
   return value;
 }
 
+// Characters of a lexeme move the end of its location, line by line.
+inline void Advance(athena::location &loc, const char *text, int length) {
+  for (int i = 0; i < length; ++i) {
+    if (text[i] == '\n') {
+      loc.lines(1);
+    } else {
+      loc.columns(1);
+    }
+  }
+}
+
 }  // namespace
 #line 750 "token.cc"
 #line 15 "token.ll"
@@ -855,7 +866,7 @@ T ParseFloating(const char *text, const athena::location &loc, T (*parse)(const
 #define YY_NO_INPUT 1
 #line 94 "token.ll"
   // Code run each time a pattern is matched.
-  # define YY_USER_ACTION  loc.columns (yyleng);
+  # define YY_USER_ACTION  Advance (loc, yytext, yyleng);
 #line 826 "token.cc"
 #line 827 "token.cc"
 
@@ -1186,7 +1197,7 @@ case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
 #line 106 "token.ll"
-loc.lines (yyleng); loc.step ();
+loc.step ();
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
@@ -1197,12 +1208,7 @@ case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
 #line 109 "token.ll"
-{
-                                for (int i = 0; i < yyleng; ++i) {
-                                  if (yytext[i] == '\n') loc.lines(1);
-                                }
-                                loc.step();
-                              }
+loc.step ();
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
diff --git a/athena/token.ll b/athena/token.ll
index 62d7cf3..e034971 100644
--- a/athena/token.ll
+++ b/athena/token.ll
@@ -38,6 +38,17 @@ T ParseFloating(const char *text, const athena::location &loc, T (*parse)(const
   return value;
 }
 
+// Characters of a lexeme move the end of its location, line by line.
+inline void Advance(athena::location &loc, const char *text, int length) {
+  for (int i = 0; i < length; ++i) {
+    if (text[i] == '\n') {
+      loc.lines(1);
+    } else {
+      loc.columns(1);
+    }
+  }
+}
+
 }  // namespace
 %}
 
@@ -125,7 +136,7 @@ blank [ \t\r]
 
 %{
   // Code run each time a pattern is matched.
-  # define YY_USER_ACTION  loc.columns (yyleng);
+  # define YY_USER_ACTION  Advance (loc, yytext, yyleng);
 %}
 %%
 %{
@@ -135,15 +146,10 @@ blank [ \t\r]
   loc.step ();
 %}
 {blank}+   loc.step ();
-\n+        loc.lines (yyleng); loc.step ();
+\n+        loc.step ();
 
 "//"[^\n]*                    loc.step ();
-"/*"([^*]|\*+[^*/])*\*+"/"   {
-                                for (int i = 0; i < yyleng; ++i) {
-                                  if (yytext[i] == '\n') loc.lines(1);
-                                }
-                                loc.step();
-                              }
+"/*"([^*]|\*+[^*/])*\*+"/"   loc.step ();
 
 "let"         return  athena::Parser::make_LET                         (loc);
 "when"        return  athena::Parser::make_WHEN                        (loc);
-- 
2.43.0


From 5a1519f2293472346b019c2c7d5180caa56b4530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 24/25] fix: using a variable after an undefined one was
 assigned to it no longer crashes

---
 athena/ast_builder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index eaa4a33..6424469 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -84,7 +84,8 @@ std::unique_ptr<ExecNode> ProgramAstBuilder::MakeRefNode(const std::string& var_
   jitfusion::Diagnostic diag(jitfusion::Diagnostic::Level::kError, "variable '" + var_name + "' is not defined",
                              jitfusion::SourceLocation{source_code_, begin_line, begin_col, end_line, end_col});
   custom_error_message_ = diag.Render();
-  return nullptr;
+  // The result is discarded, but what is parsed after it may still copy this node.
+  return std::make_unique<RefNode>(var_name);
 }
 
 void ProgramAstBuilder::AddStatement(Statement statement) {
-- 
2.43.0


From ed9223c37ecd6ac61cc3316378aad0ab33c458d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 25/25] fix: a builder that failed inside a block forgets the
 block's surroundings

ProgramAstBuilder kept the statements around an unfinished when block, so
that the next text read by the same builder could use their variables.
---
 athena/ast_builder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/athena/ast_builder.cc b/athena/ast_builder.cc
index 6424469..55ecce4 100644
--- a/athena/ast_builder.cc
+++ b/athena/ast_builder.cc
@@ -21,6 +21,7 @@ using jitfusion::RefNode;
 Status ProgramAstBuilder::BuildExpression(const std::string& code, std::unique_ptr<ExecNode>* result) {
   statements_.clear();
   var2index_.clear();
+  block_stack_.clear();
   parser_error_message_.clear();
   custom_error_message_.clear();
   source_code_ = code;
@@ -41,6 +42,7 @@ Status ProgramAstBuilder::BuildPipeline(const std::string& code, std::unique_ptr
   std::vector<std::unique_ptr<ExecNode>> args;
   statements_.clear();
   var2index_.clear();
+  block_stack_.clear();
   parser_error_message_.clear();
   custom_error_message_.clear();
   source_code_ = code;
-- 
2.43.0

