"""Calls reach C functions with their arguments, context and results intact."""
import itertools
import random
from jf import Spec
from common import *

LISTS = ["l" + t for t in NUM] + ["lstr"]
S = ["str"] + LISTS
ST = dict(CT, str="StringStruct", lstr="StringListStruct", **{"l" + t: LT[t] for t in NUM})
VT = dict({t: "k" + t.upper() for t in NUM}, str="kString", lstr="kStringList", **{"l" + t: "k" + t.upper() + "List" for t in NUM})
KINDS = {"G": INT, "F": FLT, "S": S}


def shapes(tier):
    full = 4 if tier == "quick" else 6
    out = ["".join(p) for n in range(1, full + 1) for p in itertools.product("GFS", repeat=n)]
    rnd = random.Random(7)
    for n, k in ((5, 24), (6, 24), (7, 16), (8, 10), (10, 6), (12, 4)):
        if n > full:
            out += ["".join(rnd.choice("GFSS") for _ in range(n)) for _ in range(k if tier == "quick" else 4 * k)]
    # more floating-point arguments than registers, and structs around the boundary
    out += ["F" * 9, "F" * 8 + "SF", "SF" * 5, "FFFFFFFFFSSSG", "GGGGGS", "GGGGS", "GGGSS", "GGGGGGS", "GGGGGSG", "GGGGGSSGG"]
    return out


def spec(tier):
    user = '''
#include "exec_engine.h"
#include "jfio.h"
#include "function_registry.h"
using namespace jitfusion;
template <class T> inline auto recAbi(JfSlot& s, T v) -> decltype((void)v.data) { s.ptr = (void*)v.data; s.len = v.len; s.written++; }
inline void recAbi1(JfSlot& s, const void* p, unsigned n) { memcpy(&s.bits, p, n); s.len = 0; s.written++; }
template <class T> inline auto recAbi(JfSlot& s, T v) -> decltype((void)(v + 1)) { recAbi1(s, &v, sizeof v); }
template <class T> inline auto valAbi(T v) -> decltype((uint64_t)(uintptr_t)v.data) { return (uint64_t)(uintptr_t)v.data * 31 + v.len; }
template <class T> inline auto valAbi(T v) -> decltype((void)(v + 1), (uint64_t)0) { uint64_t r = 0; memcpy(&r, &v, sizeof v); return r; }
'''
    reg = ""
    progs, jobs, cases = [], [], ""
    h = PRELUDE + '''
template <class T> void inAbi(JfSlot& s) { if constexpr (Elem<T>::list) { s.bits = sym<uint64_t>("pointer"); s.len = sym<uint32_t>("length"); s.written = 0; } else setIn(s, sym<T>("value")); }
template <class T> bool gotAbi(const JfSlot& o, const JfSlot& i) {
  bool r = o.written == 1;
  if constexpr (Elem<T>::list) return r & (o.bits == i.bits) & (o.len == i.len);
  else return r & (memcmp(&o.bits, &i.bits, sizeof(T)) == 0);
}
template <class T> uint64_t valOf(const JfSlot& i) {
  if constexpr (Elem<T>::list) return i.bits * 31 + i.len;
  else { uint64_t r = 0; memcpy(&r, &i.bits, sizeof(T)); return r; }
}
'''
    defs = ""
    pos = {"G": 0, "F": 0, "S": 0}
    for idx, sh in enumerate(shapes(tier)):
        ty = []
        for k in sh:
            ty.append(KINDS[k][pos[k] % len(KINDS[k])])
            pos[k] += 1
        n = len(ty)
        params = [f"{ST[t]} a{i}" for i, t in enumerate(ty)]
        ins = [inn(t, i) for i, t in enumerate(ty)]
        vts = ", ".join("ValueType::" + VT[t] for t in ty)
        init = " ".join(f"inAbi<{ST[t]}>(in[{i}]);" for i, t in enumerate(ty))
        # three ways to call: a store function whose output comes first, a
        # read-only function returning one of its arguments' values, and a
        # function given the execution context as its last argument
        for way in "src":
            name = f"abi_{sh}_{idx}_{way}"
            pid = f"p{way}{idx}"
            if way == "s":
                body = " ".join(f"recAbi(((JfSlot*)o)[{i}], a{i});" for i in range(n))
                user += f'extern "C" __attribute__((noinline, used)) inline void {name}({", ".join(["void* o"] + params)}) {{ {body} }}\n'
                reg += f'  JF_RETURN_NOT_OK(r->RegisterStoreCFunc(FunctionSignature("{name}", {{ValueType::kPtr, {vts}}}, ValueType::kVoid), (void*){name}, 1));\n'
                progs.append((pid, f(name, "(out)", *ins)))
                chk = " & ".join(f"gotAbi<{ST[t]}>(out[{i}], in[{i}])" for i, t in enumerate(ty))
                h += f"JF_DECL({pid})\n"
                defs += f'''JF_H h_{pid}() {{
  JfSlot in[{n}], out[{n}]; memset(out, 0, sizeof out);
  {init}
  bool ok = callV(jf::P JF_ENT1({pid}), in, out);
  jf_assert(ok, "evaluates without error");
  jf_assert({chk}, "every argument arrives unchanged, exactly once");
}}
'''
            else:
                if way == "c" and idx % 2 and tier == "quick":
                    continue
                ctx = way == "c"
                sel = " ".join(f"if (k == {i}) return valAbi(a{i});" for i in range(n))
                last = "return ((ExecContext*)c)->HasErrors() ? 1 : 77;" if ctx else "return 5;"
                user += f'extern "C" __attribute__((noinline, used)) inline uint64_t {name}({", ".join(["uint8_t k"] + params + (["void* c"] if ctx else []))}) {{ {sel} {last} }}\n'
                fn = "RegisterReadOnlyCFuncWithExecCtx" if ctx else "RegisterReadOnlyCFunc"
                reg += f'  JF_RETURN_NOT_OK(r->{fn}(FunctionSignature("{name}", {{ValueType::kU8, {vts}}}, ValueType::kU64), (void*){name}));\n'
                progs.append((pid, f(name, inn("u8", n), *ins)))
                exp = "".join(f"k == {i} ? valOf<{ST[t]}>(in[{i}]) : " for i, t in enumerate(ty)) + ("77" if ctx else "5")
                h += f"JF_DECL({pid})\n"
                defs += f'''JF_H h_{pid}(uint64_t k) {{
  JfSlot in[{n + 1}];
  {init}
  setIn<uint8_t>(in[{n}], (uint8_t)k);
  auto r = call<uint64_t>(jf::P JF_ENT1({pid}), in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == ({exp}), "the function sees its arguments and the context");
}}
'''
            if way == "s":
                jobs.append((pid, f"h_{pid}", [], 30))
            else:
                ks = range(n + 1) if tier != "quick" or n > 4 else sorted({0, n - 1, n} | {i for i, k in enumerate(sh) if k == "S"})
                for k in ks:
                    jobs.append((f"{pid}_{k}", f"h_{pid}", [k], 30))
    # every type as a result, after enough structs to use the stack
    for t in NUM + ["str"] + LISTS:
        for nm, pre in (("0", []), ("1", ["i32", "str", "lf64", "li8"])):
            name, pid = f"abiret_{t}_{nm}", f"ret_{t}_{nm}"
            ty = pre + [t]
            user += f'extern "C" __attribute__((noinline, used)) inline {ST[t]} {name}({", ".join(f"{ST[x]} a{i}" for i, x in enumerate(ty))}) {{ return a{len(pre)}; }}\n'
            reg += f'  JF_RETURN_NOT_OK(r->RegisterReadOnlyCFunc(FunctionSignature("{name}", {{{", ".join("ValueType::" + VT[x] for x in ty)}}}, ValueType::{VT[t]}), (void*){name}));\n'
            progs.append((pid, f"(st {t} 0 " + f(name, *[inn(x, i) for i, x in enumerate(ty)]) + ")"))
            h += f"JF_DECL({pid})\n"
            init = " ".join(f"inAbi<{ST[x]}>(in[{i}]);" for i, x in enumerate(ty))
            defs += f'''JF_H h_{pid}() {{
  JfSlot in[{len(ty)}], out[1]; memset(out, 0, sizeof out);
  {init}
  bool ok = callV(jf::P JF_ENT1({pid}), in, out);
  jf_assert(ok, "evaluates without error");
  jf_assert(gotAbi<{ST[t]}>(out[0], in[{len(pre)}]), "the function's result reaches the program unchanged");
}}
'''
            jobs.append((pid, f"h_{pid}", [], 30))
    # overloads of one name that differ in a single parameter, called together
    nov = 0
    for n in range(1, 9 if tier == "quick" else 13):
        base = [KINDS["GFS"[(i + n) % 3]][(3 * i + n) % len(KINDS["GFS"[(i + n) % 3]])] for i in range(n)]
        variants = [base]
        for j in range(n):
            for d in range(1 if tier == "quick" else 3):
                alt = (NUM + S)[(7 * j + 5 * n + 11 * d) % len(NUM + S)]
                v = base[:j] + [alt] + base[j + 1:]
                if v not in variants:
                    variants.append(v)
        variants += [base + ["i32"], base + base[:1]]  # and in their number
        variants = [v for k, v in enumerate(variants) if v not in variants[:k]]
        terms, exp, ins0, slots = [], [], [], []
        for k, v in enumerate(variants):
            user += f'extern "C" __attribute__((noinline, used)) inline uint64_t ov{n}_{k}({", ".join(f"{ST[t]} a{i}" for i, t in enumerate(v))}) {{ return ({" ^ ".join(f"valAbi(a{i}) * {2 * i + 1}" for i in range(len(v)))}) + {1000 + k}; }}\n'
            reg += f'  JF_RETURN_NOT_OK(r->RegisterReadOnlyCFunc(FunctionSignature("ov{n}", {{{", ".join("ValueType::" + VT[t] for t in v)}}}, ValueType::kU64), (void*)ov{n}_{k}));\n'
            idx = []
            for i, t in enumerate(v):
                if (i, t) not in slots:
                    slots.append((i, t))
                idx.append(slots.index((i, t)))
            terms.append(f(f"ov{n}", *[inn(t, s) for t, s in zip(v, idx)]))
            exp.append("((" + " ^ ".join(f"valOf<{ST[t]}>(in[{s}]) * {2 * i + 1}" for i, (t, s) in enumerate(zip(v, idx))) + f") + {1000 + k})")
        for k in range(0, len(variants)):
            pid = f"ov{nov}"
            nov += 1
            m = (k + 1) % len(variants)
            progs.append((pid, f"(b 2 (b 3 {terms[k]} {c('u64', 3)}) {terms[m]})"))
            h += f"JF_DECL({pid})\n"
            init = " ".join(f"inAbi<{ST[t]}>(in[{i}]);" for i, (_, t) in enumerate(slots))
            defs += f'''JF_H h_{pid}() {{
  JfSlot in[{len(slots)}];
  {init}
  auto r = call<uint64_t>(jf::P JF_ENT1({pid}), in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == {exp[k]} * 3 - {exp[m]}, "each overload runs its own function");
}}
'''
            jobs.append((pid, f"h_{pid}", [], 30))
    # functions registered as commutative: their first two arguments may be
    # exchanged, no others
    for t in NUM + ["str", "lu8", "lf64", "lstr"]:
        for m in (2, 3, 4, 6):
            for ctx in (0, 1):
                name, tys = f"com_{t}_{m}_{ctx}", [t] * m
                if m == 6:
                    tys = [t, t, "f32", t, "i16", t]
                params = ", ".join([f"{ST[x]} a{i}" for i, x in enumerate(tys)] + (["void* c"] if ctx else []))
                body = "(valAbi(a0) ^ valAbi(a1))" + "".join(f" + valAbi(a{i}) * {2 * i + 1}" for i in range(2, m))
                user += f'extern "C" __attribute__((noinline, used)) inline uint64_t {name}({params}) {{ return {body + (" + ((ExecContext*)c)->HasErrors()" if ctx else "")}; }}\n'
                reg += f'  JF_RETURN_NOT_OK(r->RegisterCommutativeCFunc{"WithExecCtx" if ctx else ""}(FunctionSignature("{name}", {{{", ".join("ValueType::" + VT[x] for x in tys)}}}, ValueType::kU64), (void*){name}));\n'
                # several calls with their arguments in different orders
                orders = [list(range(m)), [1, 0] + list(range(2, m))]
                if m > 2 and m < 6:
                    orders += [list(reversed(range(m))), list(range(1, m)) + [0]]
                if m == 6:
                    orders += [[0, 3, 2, 5, 4, 1], [5, 1, 2, 0, 4, 3]]
                terms = [f(name, *[inn(tys[i], i) for i in o]) for o in orders]
                exps = ["((" + f"valOf<{ST[t]}>(in[{o[0]}]) ^ valOf<{ST[t]}>(in[{o[1]}]))" + "".join(f" + valOf<{ST[tys[i]]}>(in[{o[i]}]) * {2 * i + 1}" for i in range(2, m)) + ")" for o in orders]
                acc, ea = terms[0], exps[0]
                for k in range(1, len(orders)):
                    acc, ea = f"(b 2 (b 3 {acc} {c('u64', 5)}) {terms[k]})", f"({ea} * 5 - {exps[k]})"
                progs.append((name, acc))
                h += f"JF_DECL({name})\n"
                init = " ".join(f"inAbi<{ST[x]}>(in[{i}]);" for i, x in enumerate(tys))
                defs += f'''JF_H h_{name}() {{
  JfSlot in[{m}];
  {init}
  auto r = call<uint64_t>(jf::P JF_ENT1({name}), in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == {ea}, "only the first two arguments of a commutative function are exchanged");
}}
'''
                jobs.append((name, f"h_{name}", [], 30))
    user += "inline Status RegisterUser(FunctionRegistry* r) {\n" + reg + "  return Status::OK();\n}\n"
    return Spec(progs=progs, user=user, harness=h + defs, jobs=jobs,
                bounds=f"every sequence of up to {4 if tier == 'quick' else 6} parameters over integer, floating-point and struct kinds (concrete types rotate through all 22), sampled and boundary sequences of up to 13 parameters, behind one leading pointer or integer; every argument value; every result type; overloads of one name differing in one parameter at each position or in their number; functions registered as commutative with two to six parameters in several argument orders",
                assumptions=["System V x86-64 calling convention, the target of this build; lowering by the JIT's code generator is represented by LLVM's documented placement rule for first-class values and byval memory"],
                explanation="User functions registered in each way record or return their arguments. The caller side is the generated IR, the callee side clang's lowering of the C prototype; the executor passes every value through the registers and stack slots each side uses, and a parameter read from a place the call does not set is a violation.")
