SE = "symbolic execution of the compiler's optimised IR and of the C++ sources' LLVM IR, decided by Z3 over all inputs within stated bounds; counterexamples replayed on the native build"
BC = "bounded: "

prop("C01", "Scalar arithmetic is machine arithmetic in the promoted type",
     "For every pair of numeric operand types, + - * / % first converts both operands, preserving their numeric value whenever the target type can represent it (otherwise modulo 2^n as in C), to the wider of the two types in the order i8<u8<i16<u16<i32<u32<i64<u64<f32<f64, and returns the machine result of that type (integers wrap, division truncates toward zero, floats follow IEEE). Unary minus of an integer narrower than 32 bits yields i32, any other unary plus or minus keeps the operand's type, and the value is the negation of the operand's value.",
     ["inputs", "programs"], "every value of both operands, every pair of the ten numeric types, every arithmetic operator",
     "Type pairs times values is 2^128 per operator; the existing tests try a few literals per type and missed two sign-extension defects that this check found.",
     ["src/codegen/binary_op_codegen.cc", "src/codegen/unary_op_codegen.cc", "src/codegen/codegen.cc", "src/validator.cc", "src/type.cc", "include/type.h"],
     [("numeric promotion", "TypeHelper::GetPromotedType"), ("conversion", "CodeGen::NumericTypeConvert"), ("operators", "CodeGen::SolveBinaryOpNumericType"), ("unary", "CodeGen::Visit(UnaryOPNode)")],
     SE, "Every value of both operands; the program family is all 100 type pairs x 5 operators and 10 types x 2 unary operators. Machine-code generation below LLVM IR is trusted.")

prop("C02", "Comparisons, bitwise operators and shifts",
     "A comparison of two numbers converts both to the promoted type, compares them there (signed, unsigned or IEEE ordered; != is true for NaN) and yields u8 1 or 0; two strings compare lexicographically by unsigned byte with a proper prefix smaller. Bitwise and/or/xor act in the promoted integer type, a shift keeps its left operand's type and shifts right arithmetically exactly when that type is signed, ~ flips every bit, and ! is 1 exactly for zero.",
     ["inputs", "programs"], "every value of both operands, every type pair; all string contents up to the stated lengths",
     "Signedness and width mistakes only show at boundary values of particular type pairs; tests cover a handful of pairs.",
     ["src/codegen/binary_op_codegen.cc", "src/codegen/unary_op_codegen.cc", "src/validator.cc", "src/function/string_function_init.cc"],
     [("relational and bitwise code generation", "CodeGen::SolveBinaryOpNumericType"), ("string comparison", "CodeGen::SolveBinaryOpComplexType / StringCmp")],
     SE, BC + "string lengths up to 5 (quick) or 9 (thorough); numbers unbounded.")

prop("C03", "Logical operators short-circuit and give 0 or 1",
     "Operands of && and || are evaluated left to right, the right one exactly when the left one does not decide the result, and the result is u8 1 or 0 by the operands' truth, where an integer is true when non-zero and a float when it is ordered and not equal to zero. A right operand that would trap or report an error has no effect when it is not evaluated.",
     ["inputs", "programs"], "every value of the operands, every type pair, every nesting of && and || up to the stated size",
     "Which operands are evaluated, and how often, depends on every combination of truth values along the nesting; tests check a few results, not the evaluation.",
     ["src/codegen/binary_op_codegen.cc", "src/validator.cc"],
     [("short circuit", "CodeGen::SolveShortCircuitLogicalOp")],
     SE, BC + "trees of up to 4 (quick) or 5 (thorough) operands; all operand values.")

prop("C04", "Exactly the selected branch runs; variables hold the merged value",
     "if, switch and if-block evaluate conditions in order until one is true and then execute exactly that branch (or the default, or nothing), so effects of other branches and later conditions never happen, and the value is the selected branch's converted to the promoted type of all branches. A variable assigned in branches holds afterwards the value of the branch that ran or its previous value, assignments to new names inside a branch or an isolated group stay local, statements run in order, and this holds for conditions and bodies of any nesting.",
     ["inputs", "programs"], "every input value, for a family of nested programs",
     "The value of each variable depends on the path taken through nested conditions; unit tests take one path through a few shapes (a condition containing && in an if-block without else did not even compile).",
     ["src/codegen/if_codegen.cc", "src/codegen/switch_codegen.cc", "src/codegen/if_block_codegen.cc", "src/codegen/no_op_codegen.cc", "src/codegen/ref_node_codegen.cc", "src/scope_stack.h", "src/validator.cc"],
     [("if", "CodeGen::Visit(IfNode)"), ("switch", "CodeGen::Visit(SwitchNode)"), ("if block and phi merge", "CodeGen::Visit(IfBlockNode)"), ("scopes", "ScopeStack")],
     SE, BC + "a fixed family of generated programs (160 quick, 1500 thorough) plus hand-written shapes; all inputs of each.")

prop("C07", "Scalar math builtins and numeric casts compute the named function",
     "Every scalar builtin applied to every operand type it accepts returns the value of the function it names on that operand at that width: abs/min/max/floor/ceil/round/sqrt and the casts between the ten numeric types exactly (casts convert as C does, sign- or zero-extending by the source's signedness), and exp/log/log2/log10/sin/cos/tan/pow as the library function of the right operands in the right order and precision.",
     ["inputs", "programs"], "every operand value, every function and operand type",
     "One wrong width or signedness shows only at extreme values of one of ~150 overloads; a 32-bit exponent was silently cut to 16 bits while all tests passed.",
     ["src/function/math_function_init.cc", "src/codegen/function_codegen.cc"],
     [("math intrinsics", "InitMathInternalFunc"), ("casts", "Cast* registrations"), ("call code generation", "CodeGen::Visit(FunctionNode)")],
     SE, "Every operand value; the domain of partial operations (float-to-integer range, abs of the minimum) is a precondition. libm functions are uninterpreted.")

prop("C08", "List arithmetic is element-wise scalar arithmetic",
     "ListAdd/Sub/Mul/Div/Mod, ListBitwiseAnd/Or/Xor, ListMin/ListMax (list with list, and list with scalar) and ListExp/Log/Log2/Log10/Ceil/Floor/Round return a list of the same length whose i-th element is the scalar operation on the i-th elements in the element type; two lists of different lengths record an error, which makes the execution fail instead of returning a value; the operands are not modified.",
     ["inputs", "programs"], "every content of the lists, every element type, all lengths up to the bound including the remainder of the vectorised main loop",
     "Vector bodies, remainders and 10 element types multiply; a wrong lane or remainder shows only at particular lengths and contents.",
     ["src/function/list_arithmetic.cc", "src/function_registry.cc"],
     [("list arithmetic", "ListAdd… templates"), ("registration", "InitListArithmeticFunc")],
     SE, BC + "list lengths 0..9 (selected), all contents.")

prop("C09", "List comparisons, bitmaps and conditional selection agree with the scalar comparison per element",
     "IfLarge/IfLargeEqual/IfEqual/IfLess/IfLessEqual/IfNotEqual, the corresponding Gen…Bitmap builtins (list with value, list with list), IfByBitmap, FilterByBitmap and CountBits act per element exactly as the scalar comparison does: bit i (least significant first) of a bitmap over n elements is the comparison of element i and bits beyond n are zero; IfByBitmap picks the left operand's element exactly where the bit is set; FilterByBitmap keeps exactly the elements whose bit is set, in order; CountBits is the number of set bits; a bitmap that does not fit the list makes execution fail, and nothing outside the lists' allocations is read or written.",
     ["inputs", "programs"], "every content, every element type, lengths around the multiples of eight, every bitmap",
     "Byte packing breaks only at lengths around multiples of eight and particular bit patterns; a heap overflow at lengths divisible by eight went unnoticed by the tests.",
     ["src/function/list_comparison.cc", "src/function/list_aggregation.cc"],
     [("replacement", "IfLarge…"), ("bitmaps", "*Bitmap templates"), ("filter", "FilterByBitmap"), ("count", "CountBits")],
     SE, BC + "lists of up to 17 elements (u8/i32/f64), up to 9 for the other types.")

prop("C10", "Aggregates equal their definition",
     "Sum, Avg, Max, Min, CountDistinct, Median, SortedMedian, Len and GetAt of a list equal the mathematical definition over its elements in the documented result type (sums of narrow integers do not wrap in the narrow type, Avg is f64, empty lists give the documented zero value), and GetAt outside the list makes execution fail.",
     ["inputs", "programs"], "every content, every element type, lengths up to the bound, every index",
     "Overflow in the wrong accumulator type or an unstable selection shows only for extreme contents.",
     ["src/function/list_aggregation.cc", "src/function/list_basic.cc", "src/function/list_indexing.cc"],
     [("sum and mean", "Sum / Avg"), ("extremes", "Max / Min"), ("median", "Median / SortedMedian"), ("indexing", "GetAt")],
     SE, BC + "list lengths up to 5 (9 for sums).")

prop("C11", "Sorting, de-duplication, concatenation and membership",
     "SortAsc/SortDesc return the ordered permutation of their input, Unique keeps exactly the first occurrence of each value in order, list + list (ListConcat) is the first list followed by the second, in(x, list) is 1 exactly when some element equals x, Truncate keeps exactly the first min(n, length) elements; strings compare by content, and the input list is unchanged.",
     ["inputs", "programs"], "every content (numbers and short strings), every count",
     "Permutations and duplicate patterns explode combinatorially; a solver covers all of them for each length.",
     ["src/function/list_basic.cc"],
     [("sorting", "SortAsc / SortDesc"), ("unique", "Unique"), ("concatenation", "ListConcat"), ("membership", "In"), ("truncation", "Truncate")],
     SE, BC + "lists of up to 5 elements (sorting additionally 17..20 two-valued), strings up to 3 bytes.")

prop("C12", "Search, lookup, gather and bucketing builtins return the defined positions",
     "Find and FindSorted return the position of the first match or FindMiss() (the largest u32); ListLookupIndex(a, b) gives for each element of a the first position of that value in b or FindMiss(); ListCompactPositions/ListCompactIndex keep, in order, the positions/values of the entries that are not FindMiss(); ListGather(values, idx, default) takes the element at each index and the default for every index outside values; Bucketize gives for each value the number of boundaries not greater than it (boundaries ascending); strings compare by content.",
     ["inputs", "programs"], "every content of probes, tables, indices and boundaries up to the bound",
     "Off-by-one boundaries, duplicates in the table and absent probes interact; tests pick a few.",
     ["src/function/list_indexing.cc", "src/function/list_basic.cc"],
     [("lookup", "ListLookupIndex"), ("gather", "Gather"), ("buckets", "Bucketize"), ("search", "Find / FindSorted")],
     SE, BC + "lists of up to 4 elements (Bucketize up to 18 boundaries), strings up to 3 bytes.")

prop("C13", "Grouping partitions by key and aggregates each group independently",
     "GroupIndex gives equal keys the same dense id in order of first appearance, GroupCount the number of ids, GroupKeys the key of each id, and GroupSum/Max/Min/Avg aggregate for each id exactly the values carrying it in the documented accumulator type; the two-argument forms equal the explicit ones with GroupCount; unequal lengths make execution fail.",
     ["inputs", "programs"], "every key list, every assignment of group ids and every values list up to the bound",
     "Set partitions times contents; mixing two groups or a wrong seed value shows only for particular combinations (the maximum of a group of -inf was wrong).",
     ["src/function/list_group.cc"],
     [("ids", "GroupIndex"), ("keys", "GroupKeys"), ("aggregates", "GroupSum / GroupMax / GroupMin / GroupAvg"), ("two-argument forms", "EmitGroup…Sugar")],
     SE, BC + "lists of up to 4 elements.")

prop("C05", "Literals keep their value",
     "A constant or constant list in a program has, wherever it is used and however many other literals (equal, similar, or of another type) the program holds, exactly the value it was built with: every integer bit, every float including the sign of zero and NaN-ness, every byte of a string including NUL, every element and the length of a list, including empty ones.",
     ["inputs", "programs"], "boundary literals of every type combined in one program; every pair of list literals for the sharing decision",
     "Literals are shared between uses; a lossy sharing key only shows when two particular literals meet in one program (0.0 and -0.0, or NaN and any number, were confused).",
     ["src/codegen/const_value_codegen.cc", "src/codegen/const_list_value_codegen.cc", "src/codegen/const_global_emit.cc", "include/function_registry.h"],
     [("scalar literals", "CodeGen::Visit(ConstantValueNode)"), ("list literals", "CodeGen::Visit(ConstantListValueNode)"), ("sharing", "IRCodeGenContext::const_list_cache")],
     SE, BC + "13 boundary values per float type, 8 per integer type, up to 39 list literals per program; sharing decided for every content of lists of up to 2 (quick) or 4 elements.")

prop("C06", "String builtins and string/integer conversions",
     "StringConcat and + return the bytes of the first operand followed by those of the second; StringCmp is negative, zero or positive as the first string is lexicographically (by unsigned byte) smaller, equal or larger; StringLen is the length in bytes; StringContains is 1 exactly when the second string occurs in the first (the empty string always does); CastString of an integer is its decimal text without leading zeros; CastU8..CastI64 of a string is the value of its leading decimal integer (a minus sign only for signed types, no whitespace or plus sign), or 0 when there is none or it does not fit the type. NUL bytes are ordinary bytes.",
     ["inputs", "programs"], "every string content up to the stated lengths, every integer value",
     "Byte content, length limits and the edges of each integer width interact; tests pick a few strings.",
     ["src/function/string_function_init.cc", "src/codegen/binary_op_codegen.cc"],
     [("strings", "StringConcat / StringCmp / StringContains"), ("conversions", "CastNumericToString / CastStringToNumeric")],
     SE, BC + "strings up to 4 (quick) or 7 bytes, conversions of every value with the listed digit counts, texts around the 32- and 64-bit limits.")

prop("C14", "String-list products and list conversions are element-wise",
     "CrossJoin(a, b, sep) is the list of a[i]+sep+b[j] with i outer and j inner; ZipConcat(a, b, sep) is the list of a[i]+sep+b[i], and fails for different lengths; CastXXList converts every element of a numeric list exactly as the scalar cast, and of a string list to its leading decimal integer (0 when there is none or it does not fit); CastStringList of integers gives each element's decimal text. Lengths are preserved and the inputs are not modified.",
     ["inputs", "programs"], "every content of the lists and the separator",
     "Offsets into one shared result buffer depend on all the lengths together; 90 cast pairs times extreme values.",
     ["src/function/list_basic.cc"],
     [("products", "CrossJoinString / ZipConcatString"), ("casts", "ListCastNumericToNumeric / ListCastStringToNumeric / ListCastNumericToString")],
     SE, BC + "string lists of up to 3 strings (quick), numeric lists of up to 3 (quick) or 8 elements.")

prop("C15", "MurmurHash3X8632 is the published MurmurHash3 x86 32-bit hash",
     "MurmurHash3X8632 of a numeric list is MurmurHash3_x86_32 with seed 0x9747b28c over the bytes of its elements in memory order (little endian), for every list length and element type.",
     ["inputs"], "every content, every length up to the bound",
     "A hash that differs from the published one for some lengths or byte values silently breaks compatibility with stored hashes.",
     ["src/function/murmurhash3.cc", "src/function/list_basic.cc"],
     [("hash", "MurmurHash3_x86_32"), ("builtin", "MurmurHash3X8632")],
     SE, BC + "0, 1 and 3..19 bytes (quick) or 0..32, every content.")

prop("C16", "Builtins stay inside their operands' memory and leave the operands unchanged",
     "Whatever lists, strings, indices, counts and bitmaps a builtin is called with (mismatched lengths, empty lists, indices beyond the end included), it reads only the elements of its operands, writes only memory allocated for its result, never modifies an operand, and returns either an error or a list or string all of whose elements can be read.",
     ["inputs", "programs"], "every content and every scalar operand for each of the ~900 list and string signatures, over matched and mismatched lengths",
     "Reads past the end are invisible to tests unless the neighbouring memory happens to matter; two out-of-bounds accesses (GroupX and FilterByBitmap with inconsistent operands) passed all tests.",
     ["src/function/list_basic.cc", "src/function/list_comparison.cc", "src/function/list_group.cc", "src/function/list_indexing.cc", "src/function/list_aggregation.cc", "src/function/list_arithmetic.cc", "src/function/string_function_init.cc"],
     [("length checks of every list builtin", "e.g. IfByBitmapLLRL, CheckGroupIndex, FilterByBitmap"), ("result allocation", "exec_ctx->arena.Allocate")],
     SE, BC + "lists of up to 9 elements, strings up to 2 bytes; integer division operands are restricted to the defined domain.")

prop("C17", "An execution fails exactly when something reported an error in it",
     "Execute, ExecuteAt and ExecuteAll (every overload) run the compiled function (of that index, or each one once and in order) exactly once with the caller's arguments, output and context, return an error status exactly when an error was recorded during that execution, with every recorded message in the status text and none from anywhere else, and leave a caller-supplied context without errors and with its arena empty, so that the next execution on it, or the next function of the same batch, starts clean. An index without a function is refused and runs nothing.",
     ["inputs", "history"], "every combination of errors over successive executions and batch entries, every index, every return type and overload",
     "A lost or stale error shows only for particular combinations of failing and succeeding executions on one context and for particular overloads; tests take one or two.",
     ["src/exec_engine.cc", "src/batch_exec_engine.cc", "include/exec_engine.h"],
     [("single execution", "ExecEngine::Execute"), ("batch execution", "BatchExecEngine::ExecuteAt / ExecuteAll"), ("error collection", "ExecContext::GetErrorStatus / Clear")],
     SE, BC + "up to 2 executions in a row, up to 3 batch entries, up to 2 errors per execution.")

prop("C18", "The boxed result is a copy of the returned value, in its type",
     "For each of the 22 result types, the RetType filled by Execute, ExecuteAt or ExecuteAll holds the alternative of exactly that type with the value the compiled function returned, bit for bit: every element and the length of a list, every byte (NUL included) and the length of a string, every string of a string list; whatever the RetType held before. Lists and strings are copies that stay valid and unchanged when the execution's arena is reused.",
     ["inputs", "history"], "every value of every result type, every earlier content of the result",
     "22 types times two engines times two contexts; a wrong alternative, a length mix-up or a reference into the arena is only visible for particular types and contents.",
     ["src/exec_engine.cc", "src/batch_exec_engine.cc", "include/exec_engine.h"],
     [("dispatch on the return type", "ExecEngine::Execute / BatchExecEngine::ExecuteAt")],
     SE, BC + "lists of up to 3 (quick) or 8 elements, strings likewise.")

prop("C19", "Compiled artifacts decode to what was encoded, and nothing else is accepted",
     "DeserializeArtifact(SerializeArtifact(header, object)) yields exactly the header (texts, mode, floating-point mode, return types, extensions) and the object. For any other bytes decoding either fails cleanly (no crash, no read outside the blob, no allocation out of proportion to it) or yields a header and object whose encoding is exactly those bytes; truncated and extended artifacts are always refused. CheckHostCompatibility accepts exactly when the mode is the engine's and each enabled check's text equals the host's.",
     ["inputs"], "every header and object content of the stated shapes, every corruption of a word of a valid artifact, every byte string of the stated lengths",
     "Length fields of a damaged file take 2^32 or 2^64 values, and the dangerous ones are few (a corrupt entry or extension count allocated gigabytes and a corrupt object size wrapped around); tests corrupt a few fixed bytes.",
     ["src/compiled_artifact.cc", "src/compiled_artifact.h"],
     [("encoder", "SerializeArtifact"), ("decoder", "DeserializeArtifact / ArtifactReader"), ("compatibility", "CheckHostCompatibility")],
     SE, BC + "see the evidence's bounds; artifacts of up to about 100 bytes.")

prop("C20", "An engine always executes the last program it successfully compiled or loaded, or refuses",
     "Over any history of Compile, LoadCompiled, SaveCompiled and Execute calls, with the compiler or the loader failing at any point: after a success Execute runs exactly that program; after a failed Compile, and after a LoadCompiled that failed while linking, every Execute overload refuses without running anything, and so does an engine that never compiled; after an artifact was refused up front the earlier program still runs or is refused, and code that has been unmapped is never run. SaveCompiled succeeds exactly for a program compiled by this engine with saving enabled and stores that program's object, return types, mode and floating-point mode. Compile always uses the options the engine was constructed with.",
     ["history", "faults"], "every history of the stated length with every point of failure, every option",
     "State left behind by a failure only matters to a later call; no test executes after a failed compilation or load (four defects of this kind were found, two of them calls through dangling or null pointers).",
     ["src/exec_engine.cc", "src/batch_exec_engine.cc"],
     [("single engine", "ExecEngine::Compile / LoadCompiled / SaveCompiled / Execute"), ("batch engine", "BatchExecEngine::Compile / LoadCompiled / SaveCompiled / ExecuteAt")],
     SE, BC + "histories of 2 (quick) or 3 compilations or loads with executions and saves in between.")

prop("C21", "Every expression of a batch behaves as it does alone",
     "Compiling expressions as one batch gives each of them exactly the behaviour it has when compiled alone: variables of one are invisible to the others (the same name may have another type, or be a constant, in another expression; reading a name only another expression defines is refused), literals shared by the module keep their values, and running one function never changes what another computes. A batch is accepted exactly when each of its expressions is.",
     ["inputs", "programs"], "every input of the listed and generated batches",
     "What the entries share (validator, module, literal pool, helper functions) matters only for particular pairs of expressions; tests batch unrelated ones. A shared validator was found this way.",
     ["src/jit_core.cc", "src/batch_exec_engine.cc", "src/validator.cc", "src/codegen/codegen.cc"],
     [("shared module", "JitCore::BuildAndLink / BuildEntryFunction"), ("variables", "Validator::TrySetVar")],
     SE, BC + "batches of 2 or 3 expressions, fixed (names, literals) and generated (seeded) ones.")

prop("C22", "The function registry is a map from name and parameter types to the last successful registration",
     "A registration (any of the eight ways) succeeds exactly when a function is given and either overriding is on or nothing with that name and those parameter types is registered; looking a signature up succeeds exactly when such a registration succeeded and yields the kind, code, return type and need for an execution context of the last one. A function registered with execution context is also found under the signature with a trailing pointer, as a plain function. A refused registration changes nothing.",
     ["inputs", "history"], "every name, parameter and return types, overriding flag and missing function in every registration of a history",
     "What overriding keeps of the earlier registration shows only for a particular sequence and a later query; two defects of this kind were found.",
     ["src/function_registry.cc", "include/function_registry.h"],
     [("registration", "FunctionRegistry::Register*"), ("lookup", "FunctionRegistry::GetFuncBySign"), ("identity of signatures", "FunctionSignature::operator== / hash")],
     SE, BC + "histories of 2 or 3 registrations, signatures of 1 and 2 parameters.")

prop("C23", "The arena hands out disjoint, aligned, live memory and accounts for it",
     "For any history of Allocate, Create and Reset on an Arena: a block is aligned as asked, lies inside one chunk obtained from the system that stays alive until the next Reset or destruction, and is apart from every other block handed out since; an empty request returns null and changes nothing; a request fails (returns null, changing nothing) exactly when the system refuses memory, which is asked at most once and never while there is room; total_bytes is exactly what is held; Reset keeps the first chunk and makes all of it available; destruction returns every chunk once. Objects made by Create are destroyed exactly once each, latest first, on Reset or destruction and before their memory is reused.",
     ["inputs", "history", "faults"], "every size, minimum chunk size, address the system may return and pattern of its failures, over histories of up to 5 operations",
     "Padding, exact fits and allocation failures depend on addresses and sizes no test controls.",
     ["src/arena.cc", "include/arena.h"],
     [("bump allocation", "Arena::Allocate / AllocateChunk"), ("recycling", "Arena::Reset / ReleaseChunks / RunFinalizers"), ("objects", "Arena::Create")],
     SE, "malloc and free are replaced by a model with symbolic addresses and failures. " + BC + "histories of 2 to 5 operations; number ranges as in the evidence.")

prop("C24", "Calls reach C functions with arguments, context and result intact",
     "A registered C function called from compiled code receives every argument unchanged, whatever the number, order and kinds of its parameters (integers, floats, strings, lists), with the output pointer first for store functions and the execution context last for functions that ask for it, runs exactly once for each evaluation of the call, and its result arrives unchanged in the program: the caller follows the C calling convention the function was compiled with.",
     ["inputs", "programs"], "every argument value, every sequence of parameter kinds up to the stated length, every way of registering",
     "Which register or stack slot carries an argument depends on all parameters before it: a structure that straddles the last register was passed wrongly, which only functions with that exact shape show; tests call functions of one to three parameters.",
     ["src/codegen/function_codegen.cc", "src/function_registry.cc", "include/function_registry.h", "src/pass/commutative_call_canonicalizer_pass.cc"],
     [("call emission", "CodeGen::Visit(FunctionNode) / CallFunc"), ("registration", "FunctionRegistry::Register*CFunc*"), ("argument canonicalisation", "CommutativeCallCanonicalizerPass")],
     SE, BC + "all parameter kind sequences up to length 4 (quick) or 6 (thorough), samples up to 13.")

prop("C25", "Athena source means what the language says; malformed programs are rejected",
     "A program text compiles to the behaviour of the syntax tree the language description gives it: operators bind with C's precedence and associate to the left, `and`, `or`, `not`, `in` and their symbols are the same operators, literals have the type of their suffix and exactly the value written, comments and white space do not matter, names are resolved to the latest assignment, let-variables are never reassigned, and when/elif/else run like an if chain in both text modes. A text that is not in the language (bad characters, syntax, literals outside their type, undefined or reassigned constant variables) is rejected with an error status, never an exception or a crash, and nothing of it influences another program.",
     ["inputs", "programs"], "every input value for each of the program texts, which enumerate the operator pairs and are otherwise generated",
     "Precedence, literal ranges and scoping interact; tests compile a few texts and look at one result. Four kinds of malformed programs were accepted or threw.",
     ["athena/token.cc", "athena/token.ll", "athena/parser.cc", "athena/parser.yy", "athena/ast_builder.cc", "athena/athena.cc"],
     [("lexer", "athena::Lexer"), ("parser", "athena::Parser"), ("variables", "ExpressionASTBuilder / ProgramAstBuilder"), ("literals", "token.ll conversions")],
     SE, "All input values per text; the texts are an enumerated and generated family of about 700 (quick) or 2500, parsed concretely by the real front end.")

prop("C26", "Each pipeline of a set runs exactly once with its own variables, whatever the grouping",
     "Compiling several pipelines together gives functions whose execution one after another has exactly the effects of running each of the given pipelines once on its own: no pipeline is lost, repeated or merged with another, its statements keep their order, and its variables (name, type, constness, value) are its own, however pipelines are grouped because they share loaded values.",
     ["inputs", "programs"], "every input value for each set of pipelines",
     "Which pipelines land in one function depends on which subtrees they share; a lost or leaking pipeline only shows for particular sharing patterns.",
     ["athena/pipeline_grouper.cc", "athena/pipeline_grouper.h", "athena/athena.cc", "src/codegen/codegen.cc", "src/validator.cc"],
     [("grouping", "PipelineGrouper"), ("joint compilation", "AthenaPipeline::Compile"), ("isolated blocks", "NoOPNode")],
     SE, BC + "sets of 1 to 8 pipelines, fixed sharing patterns and generated ones.")

prop("C27", "Execution only reads what concurrent executions share",
     "After a successful Compile or load, an execution (any Execute, ExecuteAt or ExecuteAll overload, with or without its own context, succeeding or failing) changes nothing that existed before it apart from its own context, its output and its result: not the engine, not the compiled program's literals or tables, not a global or static variable, not the arguments or operands. Hence executions on one engine with a context each do not interfere under any schedule.",
     ["inputs", "programs", "schedules"], "every input of a call of every builtin signature, of generated programs and of every engine overload, with every combination of reported errors",
     "A data race shows under a rare schedule at best; no test runs two executions at once. Showing that an execution writes nothing shared covers all schedules.",
     ["src/exec_engine.cc", "src/batch_exec_engine.cc", "src/codegen/codegen.cc", "src/function", "include/exec_options.h"],
     [("engine execution", "ExecEngine::Execute / BatchExecEngine::ExecuteAt / ExecuteAll"), ("builtins", "src/function/*"), ("literals", "CodeGen constant pool")],
     SE, BC + "one call of each builtin signature with lists of up to 9 elements, generated programs, up to 2 batch entries. Schedules are covered by the frame condition, not enumerated.")

prop("C28", "Trees are accepted exactly when the typing rules allow them, and typed as the rules say",
     "Compile accepts a syntax tree exactly when the typing rules allow it, and otherwise returns an error status; it never crashes. The rules: unary operators take a numeric operand (~ an integer); minus of an integer narrower than 32 bits is i32, `not` is u8, other unary operators keep the type; logical operators take numeric operands and give u8; relational operators take two numeric or two string operands and give u8; bitwise operators take integers, a shift has its left operand's type, the others the promoted type; + takes two numeric operands, two strings or two lists of one type, - * / % two numeric operands, with the promoted result type, and a constant integer zero divisor is an error; if takes a numeric condition and two values, switch an odd number of arguments with numeric conditions, their values being all numeric (promoted) or all of one type; an if block has a numeric condition for each body, bodies are void; a name must be defined before it is read, keeps its type, a const is assigned once, names first assigned in a branch or an isolated group end with it; a call must match a registered signature and no argument is void; the program itself does not return a pointer. A tree that was compiled before, successfully or not, is judged the same again.",
     ["inputs", "programs"], "every operator, every type of every operand, every constant value and every const flag, for each tree shape",
     "Acceptance depends on the combination of operator, all operand types and the variables in scope; a wrongly accepted tree is miscompiled or crashes the process, which only that tree shows.",
     ["src/validator.cc", "src/validator.h", "src/scope_stack.h", "src/type.cc", "src/exec_node.cc", "src/jit_core.cc", "src/codegen"],
     [("typing", "Validator::Visit"), ("variables", "Validator::TrySetVar / ScopeStack"), ("promotion", "TypeHelper::GetPromotedType"), ("whole compiler", "ExecEngine::Compile")],
     "symbolic execution of the validator's LLVM IR with symbolic operators, types, constants and flags, decided by Z3 against an independent statement of the rules; the compiler is run on trees instantiated with concrete types as a complement", BC + "about 640 (quick) or 4500 tree shapes of up to 4 levels and 7 arguments; code generation is run on about 3400 concrete typed trees.")

prop("C29", "Effects, and reads of what they wrote, happen in program order",
     "Statements run in the order written, the operands of an operator left to right and the arguments of a call first to last: a read of the output by a registered read-only function sees what the effects before it wrote and nothing of those after it, no effect is dropped, repeated or moved because of optimisation, whichever way the functions were registered (read-only, store with the output at any position, or without any declaration), and a store function's result is the value it returned.",
     ["inputs", "programs"], "every input value and every initial content of the output, for each program",
     "Whether the optimiser merges or moves two calls depends on the attributes declared for both functions and on everything between them; tests never read back what a program wrote.",
     ["src/function_registry.cc", "src/codegen/function_codegen.cc", "src/codegen/binary_op_codegen.cc", "src/codegen/if_codegen.cc", "src/codegen/switch_codegen.cc", "src/codegen/if_block_codegen.cc", "src/codegen/no_op_codegen.cc", "src/jit_core.cc"],
     [("function attributes", "ReadOnlyFunctionAttributeSetter / StoreFunctionSetter"), ("statement order", "CodeGen::Visit(NoOPNode)"), ("optimisation", "JITCore")],
     SE, BC + "260 (quick) or 2500 generated programs of up to 6 statements over 6 slots that are written and read again.")

prop("C30", "A clone of a tree is the same program, and independent of the original",
     "ExecNode::Clone returns a tree with the same node kinds, operators, names, variable declarations (name, constness), isolation, constants, argument order and source locations, at every depth, sharing no node with the original; cloning changes nothing in the original; each of the two can be used, compiled or destroyed without the other being affected, and the clone compiles to the original's behaviour. A node built by appending arguments equals one built from the list.",
     ["inputs", "programs"], "every constant, operator, name, flag and location, for each tree shape",
     "A field lost in one node's copy only shows when a clone of such a node is compiled and that field matters; tests clone a handful of trees.",
     ["src/exec_node.cc", "include/exec_node.h"],
     [("clone", "ExecNode::Clone / CloneImpl"), ("appending", "NoOPNode::AppendArgs, FunctionNode::AppendArgs, IfNode::AppendArgs, SwitchNode::AppendArgs")],
     SE, BC + "about 220 (quick) or 1300 tree shapes of up to 4 levels, names and strings up to 20 bytes, lists up to 3 elements; 62 (quick) compiled clones.")


prop("C31", "Every text is read as the language defines it, or refused where it is first wrong",
     "In both text modes, whatever its bytes, a text of the Athena language is read into exactly the tree its grammar defines: node kinds, operators with their precedence and grouping, names, literals with the value and type written, list elements, statements with the variable each assigns and its constness; and each node's location is that of its text, line and column. A text outside the language is refused with an error that gives the line and column of the first token that cannot continue a program (or the character or literal that is none); a use of an undefined variable and, in an expression, an assignment to a constant are refused and shown at the place. Reading never crashes or touches memory outside the text. What a builder has read before, or refused, makes no difference.",
     ["inputs"], "every byte value at each open position of each text pattern",
     "A scanner and a parser are tables of hundreds of states; a wrong entry, or a position that goes wrong after a certain token, shows only for the bytes and the order that lead there. Positions after multi-line strings and comments were wrong, and a use of an undefined variable's copy crashed.",
     ["athena/token.cc", "athena/token.ll", "athena/parser.cc", "athena/parser.yy", "athena/ast_builder.cc", "athena/ast_builder.h", "athena/location.hh", "src/diagnostic.cc"],
     [("scanner", "yylex / YY_USER_ACTION"), ("parser", "athena::Parser::parse / WithLoc"), ("tree", "ProgramAstBuilder"), ("messages", "Parser::error / jitfusion::Diagnostic::Render")],
     "symbolic execution of the scanner's, parser's and tree builder's LLVM IR on texts with symbolic bytes, decided by Z3 against an independent reader of the language",
     BC + "about 410 (quick) text patterns of up to 45 bytes with one or two arbitrary bytes, up to four blanks, two or three operators, or two digits of a literal open; thorough adds a third. Reading the digits of floating-point literals is the C library's.")

prop("C32", "What an execution allocates is released",
     "A finished execution leaves no memory behind: everything it allocated, directly or in its execution context's arena, is released when the context is cleared or destroyed (or, for the overloads without a context, when the call returns), whether it succeeded or reported an error; repeating an execution on the same context holds no more memory than the first; and an engine that was used, recompiled, reloaded or failed to compile holds nothing once it is destroyed.",
     ["inputs", "programs", "histories"], "every input of a call of each builtin signature, of generated programs and of each engine history",
     "A leak changes no result, and only inputs that reach the forgotten buffer show it; the tests do not run under a leak checker.",
     ["src/arena.cc", "include/arena.h", "include/exec_node.h", "src/exec_engine.cc", "src/batch_exec_engine.cc", "src/function", "src/codegen"],
     [("arena", "Arena::Reset / ~Arena / RunFinalizers"), ("context", "ExecContext::Clear"), ("builtins", "src/function/*"), ("engines", "ExecEngine::Execute / BatchExecEngine")],
     SE, "The executor's heap and, on replay, the process's live allocations are counted before and after. " + BC + "one call of each builtin signature with lists of up to 9 elements, generated programs, engine histories of up to 3 steps.")

prop("C33", "An error shows the part of the program that is wrong, and the text that is there",
     "When Compile refuses a tree because a part of it breaks a typing rule, the error's location is that of the first part in the text that breaks one (or of the operand, argument, condition or value at fault), never that of a correct part. A rendered error quotes the text at its location: the level and message first, then the line and column, each line of the location exactly as it is in the source with its number, marked from the location's first column to its last, then notes in order, then hints in order; without a location or a text only the message, notes and hints. A location outside the text crashes nothing. A status keeps its kind and message when it is moved or assigned.",
     ["inputs", "programs"], "every operator and operand type for each tree shape; every byte, place, message and note for each shape of a text",
     "Tests look for a phrase in a message of a few small programs; which part is blamed depends on everything before it, and quoting on where the line breaks are.",
     ["src/diagnostic.cc", "include/diagnostic.h", "include/status.h", "src/validator.cc", "include/exec_node.h"],
     [("rendering", "Diagnostic::Render / SplitLines"), ("blame", "MakeParseError"), ("status", "Status")],
     SE, BC + "about 640 (quick) or 4500 tree shapes; texts of up to 18 bytes (quick) or 104 with up to four arbitrary bytes.")
