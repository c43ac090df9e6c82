"""Effects, and reads of what earlier effects wrote, happen in program order."""
import random
from jf import Spec
from common import *
import genprog

SLOT = ["i32", "i64", "u8", "i32", "u32", "i16"]   # what lives in each output slot

USER = '''
#include "exec_engine.h"
#include "jfio.h"
#include "function_registry.h"
using namespace jitfusion;
'''
for _t in sorted(set(SLOT)):
    USER += f'''
extern "C" __attribute__((noinline, used)) inline {CT[_t]} peek_{_t}(void* o, int32_t k) {{ {CT[_t]} v; memcpy(&v, &((JfSlot*)o)[k].bits, sizeof v); return v; }}
extern "C" __attribute__((noinline, used)) inline {CT[_t]} xchg_{_t}(void* o, int32_t k, {CT[_t]} v) {{ {CT[_t]} r; memcpy(&r, &((JfSlot*)o)[k].bits, sizeof r); memcpy(&((JfSlot*)o)[k].bits, &v, sizeof v); ((JfSlot*)o)[k].written++; return r; }}
extern "C" __attribute__((noinline, used)) inline int32_t put_{_t}(int32_t k, {CT[_t]} v, void* o) {{ memcpy(&((JfSlot*)o)[k].bits, &v, sizeof v); ((JfSlot*)o)[k].written++; return k + 1; }}
'''
USER += '''
extern "C" __attribute__((noinline, used)) inline uint32_t ticks(void* o) { return ((JfSlot*)o)[31].len; }
extern "C" __attribute__((noinline, used)) inline uint32_t times(int32_t k, void* o) { return ((JfSlot*)o)[k].written; }
extern "C" __attribute__((noinline, used)) inline int64_t mix3(int64_t a, int32_t b, int64_t c) { return a ^ ((int64_t)((uint64_t)(int64_t)b << 7)) ^ ~c; }
extern "C" __attribute__((noinline, used)) inline int64_t mix2(int32_t b, int64_t c) { return ((int64_t)((uint64_t)(int64_t)b << 9)) ^ c; }
// nothing is known about this one
extern "C" __attribute__((noinline, used)) inline uint32_t mark(void* o, int32_t k) { return ((JfSlot*)o)[k].len = ++((JfSlot*)o)[31].len; }
inline Status RegisterUser(FunctionRegistry* r) {
'''
for _t in sorted(set(SLOT)):
    v = "ValueType::k" + _t.upper()
    USER += f'''  JF_RETURN_NOT_OK(r->RegisterReadOnlyCFunc(FunctionSignature("peek_{_t}", {{ValueType::kPtr, ValueType::kI32}}, {v}), (void*)peek_{_t}));
  JF_RETURN_NOT_OK(r->RegisterStoreCFunc(FunctionSignature("xchg_{_t}", {{ValueType::kPtr, ValueType::kI32, {v}}}, {v}), (void*)xchg_{_t}, 1));
  JF_RETURN_NOT_OK(r->RegisterStoreCFunc(FunctionSignature("put_{_t}", {{ValueType::kI32, {v}, ValueType::kPtr}}, ValueType::kI32), (void*)put_{_t}, 3));
'''
USER += '''  JF_RETURN_NOT_OK(r->RegisterReadOnlyCFunc(FunctionSignature("ticks", {ValueType::kPtr}, ValueType::kU32), (void*)ticks));
  JF_RETURN_NOT_OK(r->RegisterReadOnlyCFunc(FunctionSignature("times", {ValueType::kI32, ValueType::kPtr}, ValueType::kU32), (void*)times));
  JF_RETURN_NOT_OK(r->RegisterReadOnlyCFunc(FunctionSignature("mix3", {ValueType::kI64, ValueType::kI32, ValueType::kI64}, ValueType::kI64), (void*)mix3));
  FunctionStructure m;
  m.func_type = FunctionType::kCFunc;
  m.c_func_ptr = (void*)mix2;
  JF_RETURN_NOT_OK(r->RegisterFunc(FunctionSignature("mix2", {ValueType::kI32, ValueType::kI64}, ValueType::kI64), m));
  m.c_func_ptr = (void*)mark;
  return r->RegisterFunc(FunctionSignature("mark", {ValueType::kPtr, ValueType::kI32}, ValueType::kU32), m);
}
'''


class Gen(genprog.Gen):
    """Programs over a few slots that are written and read again."""
    def __init__(self, seed, slots, **k):
        super().__init__(seed, types=SLOT, **k)
        self.slots = slots
        self.busy = 0

    def leaf(self, want=None):
        r = self.r
        if self.busy == 0 and r.random() < .45:
            k = r.random()
            ks = [i for i in range(self.slots) if want in (None, SLOT[i])]
            if k < .6 and ks:
                i = r.choice(ks)
                t = SLOT[i]
                return f"(f peek_{t} (out) {c('i32', i)})", t, self.tmp(t, f"E.get<{CT[t]}>({i})")
            if want in (None, "u32"):
                if k < .75:
                    return "(f ticks (out))", "u32", self.tmp("u32", "E.o[31].len")
                if k < .9:
                    i = r.randrange(self.slots)
                    return f"(f times {c('i32', i)} (out))", "u32", self.tmp("u32", f"E.o[{i}].written")
                i = r.randrange(24, 30)
                return f"(f mark (out) {c('i32', i)})", "u32", self.tmp("u32", f"E.o[{i}].len = ++E.o[31].len")
        return super().leaf(want)

    def value(self, t, depth):
        for _ in range(6):
            s, t2, x = self.expr_try(depth, t)
            if t2 == t:
                return s, x
        s, t2, x = self.leaf(t)
        return s, x

    def expr(self, depth, want=None):
        r = self.r
        if want in (None, "i64") and depth > 0 and r.random() < .12:
            v = [self.value(t, depth - 1) for t in r.choice([("i64", "i32", "i64"), ("i32", "i64")])]
            n = "mix" + str(len(v))
            return f"(f {n} " + " ".join(x[0] for x in v) + ")", "i64", self.tmp("i64", f"{n}({', '.join(x[1] for x in v)})")
        if r.random() < .2:
            ks = [i for i in range(self.slots) if want in (None, SLOT[i])]
            if ks:
                i = r.choice(ks)
                t = SLOT[i]
                s, x = self.value(t, depth - 1)
                if r.random() < .5 and want in (None, "i32"):
                    n = self.tmp("i32", f"E.put({i}, {x})")
                    return f"(f put_{t} {c('i32', i)} {s} (out))", "i32", n
                n = self.tmp(t, f"E.xchg<{CT[t]}>({i}, {x})")
                return f"(f xchg_{t} (out) {c('i32', i)} {s})", t, n
        return super().expr(depth, want)

    def stmt(self, depth):
        r = self.r
        k = r.random()
        if k < .5 or (depth > 1 and k > .7):
            if k >= .5 and self.conds < self.maxcond:
                return self.ifb(depth)
            i = r.randrange(self.slots)
            t = SLOT[i]
            s, x = self.value(t, depth)
            self.emit(f"E.put({i}, {x});")
            return f"(st {t} {i} {s})"
        if k < .62:
            return self.expr(depth)[0]
        vis = self.visible()
        if vis and r.random() < .5:
            n, (t, cv) = r.choice(vis)
            s, x = self.value(t, depth)
            self.emit(f"{cv} = {x};")
            return f"(= {n} {s})"
        s, t, x = self.expr(depth)
        n = f"v{self.nv}"
        self.nv += 1
        self.scopes[-1][n] = (t, n)
        self.emit(f"{CT[t]} {n} = {x};")
        return f"(= {n} {s})"


RUNTIME = genprog.RUNTIME.replace('''  template <class T> void st(int k''', '''  template <class T> T get(int k) { T v; memcpy(&v, &o[k].bits, sizeof v); return v; }
  template <class T> int32_t put(int k, T v) { memcpy(&o[k].bits, &v, sizeof v); o[k].written++; return k + 1; }
  template <class T> T xchg(int k, T v) { T r = get<T>(k); put(k, v); return r; }
  template <class T> void st(int k''')


def function(name, g):
    ins = "".join(f"  {CT[t]} i{k} = sym<{CT[t]}>(\"i{k}\"); setIn(in[{k}], i{k});\n" for k, t in enumerate(g.inputs))
    body = "\n".join(g.code)
    return f'''
JF_H h_{name}() {{
  JfSlot in[8], out[32];
  memset(out, 0, sizeof out);
  for (int k = 0; k < {len(SLOT)}; k++) out[k].bits = sym<uint64_t>("before");
  Env E;
  memcpy(E.o, out, sizeof out);
{ins}  bool ok = callV(jf::P JF_ENT1({name}), in, out);
  jf_assert(ok, "evaluates without error");
{body}
  bool val = true, cnt = true, ord = true;
  for (int k = 0; k < 32; k++) {{
    val &= out[k].bits == E.o[k].bits;
    cnt &= out[k].written == E.o[k].written;
    ord &= out[k].len == E.o[k].len;
  }}
  jf_assert(cnt, "every effect happens exactly when its branch is taken");
  jf_assert(ord, "effects happen in program order");
  jf_assert(val, "each value is computed from what the effects before it left");
}}
'''


def spec(tier):
    q = tier == "quick"
    progs, jobs = [], []
    h = PRELUDE + RUNTIME
    n = 260 if q else 2500
    for s in range(n):
        g = Gen(4000 + s, 2 + s % 5, maxcond=2 + s % 3)
        ss = [g.stmt(1 + s % 3) for _ in range(2 + s % 5)]
        # what is still visible is stored too
        for nm, (t, cv) in g.visible():
            i = next((i for i in range(len(SLOT)) if SLOT[i] == t), None)
            if i is not None:
                ss.append(f"(f xchg_{t} (out) {c('i32', i)} (ref {nm}))")
                g.emit(f"E.xchg<{CT[t]}>({i}, {nm});")
        name = f"p{s}"
        progs.append((name, "(noop " + " ".join(ss) + ")"))
        h += f"JF_DECL({name})\n" + function(name, g)
        jobs.append((name, f"h_{name}", [], 60))
    return Spec(progs=progs, harness=h, jobs=jobs, user=USER, bounds=f"{n} generated programs of 2 to 6 statements over 2 to 6 output slots, nested branches up to depth 3; every input and every initial content of the slots",
                assumptions=["user functions access only the pointer they are given"],
                explanation="Programs store to, exchange, read back and count their effects on a few slots; the straight C++ meaning runs the same effects in program order.")
