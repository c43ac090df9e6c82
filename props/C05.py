"""Literals: every constant and constant list in a program is the value it was built with."""
import random
from jf import Spec
from common import *
import lists

F32 = ["0", "80000000", "7fc00000", "ffc00001", "7f800000", "ff800000", "3f800000", "bf800000", "1", "80000001", "7f7fffff", "3dcccccd", "7fc12345"]
F64 = ["0", "8000000000000000", "7ff8000000000000", "fff8000000000001", "7ff0000000000000", "fff0000000000000", "3ff0000000000000",
       "bff0000000000000", "1", "8000000000000001", "7fefffffffffffff", "3fb999999999999a", "7ff8000000012345"]


def vals(ty):
    if ty == "f32":
        return F32
    if ty == "f64":
        return F64
    w = W[ty]
    return [format(v & ((1 << w) - 1), "x") for v in (0, 1, (1 << (w - 1)) - 1, 1 << (w - 1), (1 << w) - 1, 0x55, 10, 1 << (w // 2))]


def arr(T, xs):
    return ",".join(f"0x{x}ull" for x in xs) or "0"


def spec(tier):
    q = tier == "quick"
    t = lists.Tab()
    rnd = random.Random(5)
    h = PRELUDE + lists.RUNTIME + r'''
#include "function_registry.h"
template <class T> T lit(uint64_t bits) { T v; memcpy(&v, &bits, sizeof v); return v; }
template <class T> void scalar(const P& p, uint64_t bits) {
  auto r = call<T>(p, nullptr);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(same(r.v, lit<T>(bits)), "the literal");
}
template <class T> void list_(const P& p, const uint64_t* e, uint32_t n) {
  JfSlot in[1];
  setIn(in[0], sym<uint32_t>("which"));
  auto r = call<typename ListOf<T>::type>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n, "as many elements as the literals have");
  for (uint32_t i = 0; i < n; i++) jf_assert(same(r.v.data[i], lit<T>(e[i])), "the elements of the literals, in order");
}
// one of several literals, chosen by an input
template <class T> void pick(const P& p, const uint64_t* e, const uint32_t* len, uint32_t k) {
  JfSlot in[1];
  uint32_t w = sym<uint32_t>("which");
  jf_assume(w < k);
  setIn(in[0], w);
  auto r = call<typename ListOf<T>::type>(p, in);
  jf_assert(r.ok, "evaluates without error");
  w = (uint32_t)jf_concretize(w);
  for (uint32_t i = 0; i < w; i++) e += len[i];
  jf_assert(r.v.len == len[w], "the length of the chosen literal");
  for (uint32_t i = 0; i < len[w]; i++) jf_assert(same(r.v.data[i], lit<T>(e[i])), "the elements of the chosen literal");
}
inline void str_(const P& p, const char* e, uint64_t n) {
  auto r = call<StringStruct>(p, nullptr);
  jf_assert(r.ok, "evaluates without error");
  assertStr(r.v, e, n, "the bytes of the literal");
}
inline void strs_(const P& p, const StringStruct* e, uint64_t n) {
  auto r = call<StringListStruct>(p, nullptr);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v.len == n, "as many strings as the literals have");
  for (uint64_t i = 0; i < n; i++) assertStr(r.v.data[i], e[i].data, e[i].len, "the strings of the literals, in order");
}
inline char* K(const char* s) { return (char*)s; }
// the compiler shares equal literals of a program: the key it uses tells any two different lists apart
template <class C, class = void> struct HasCache : std::false_type {};
template <class C> struct HasCache<C, std::void_t<decltype(std::declval<typename decltype(C::const_list_cache)::key_compare>()(std::declval<ConstantListValueType>(), std::declval<ConstantListValueType>()))>> : std::true_type {};
template <class C, class T> void sharing(uint64_t n, uint64_t m) {
  if constexpr (HasCache<C>::value) {
    T *a = symArr<T>(n, "a"), *b = symArr<T>(m, "b");
    ConstantListValueType x(std::vector<T>(a, a + n)), y(std::vector<T>(b, b + m));
    typename decltype(C::const_list_cache)::key_compare less;
    bool eq = n == m;
    if (eq) for (uint64_t i = 0; i < n; i++) eq &= same(a[i], b[i]);
    bool shared = !less(x, y) && !less(y, x);
    if (shared) jf_assert(eq, "two literals are shared only if their elements are the same");
    if (n == m && memcmp(a, b, n * sizeof(T)) == 0) jf_assert(shared, "a literal equals itself");
  }
}
'''
    h += "template <class T> void share(uint64_t n, uint64_t m) { sharing<IRCodeGenContext, T>(n, m); }\n"
    k = 0
    for ty in NUM:
        T, vs = CT[ty], vals(ty)
        for i, v in enumerate(vs):
            t.add(f"lit_{ty}_{i}", f"(c {ty} {v})", f"scalar<{T}>($P, 0x{v}ull)")

        def lists_of(name, groups, sx=None):
            nonlocal h
            flat = [v for g in groups for v in g]
            h += f"static const uint64_t E_{name}[] = {{{arr(T, flat)}}};\n"
            parts = [f"(cl l{ty}{''.join(' ' + v for v in g)})" for g in groups]
            s = parts[0]
            for p_ in parts[1:]:
                s = f("ListConcat", s, p_)
            t.add(name, s, f"list_<{T}>($P, E_{name}, {len(flat)})")

        def picks(name, groups):
            nonlocal h
            flat = [v for g in groups for v in g]
            h += f"static const uint64_t E_{name}[] = {{{arr(T, flat)}}}; static const uint32_t L_{name}[] = {{{','.join(str(len(g)) for g in groups)}}};\n"
            s = ""
            for i, g in enumerate(groups[:-1]):
                s += f" {b('eq', inn('u32', 0), c('u32', i))} (cl l{ty}{''.join(' ' + v for v in g)})"
            t.add(name, f"(sw{s} (cl l{ty}{''.join(' ' + v for v in groups[-1])}))", f"pick<{T}>($P, E_{name}, L_{name}, {len(groups)})")

        one = [[v] for v in vs]
        lists_of(f"each_{ty}", one)
        lists_of(f"eachr_{ty}", one[::-1])
        lists_of(f"all_{ty}", [vs, vs[::-1], vs])
        lists_of(f"empty_{ty}", [[], [vs[0]], [], [vs[1], vs[1]], [vs[1]]])
        picks(f"pick_{ty}", one)
        picks(f"pickr_{ty}", one[::-1])
        picks(f"pickp_{ty}", [vs[:j] for j in range(len(vs))])
        for j in range(4 if q else 20):
            groups = [[rnd.choice(vs) for _ in range(rnd.choice([0, 1, 2, 2, 3]))] for _ in range(6)]
            picks(f"pickx{j}_{ty}", groups)
        t.add(f"share_{ty}", f"(c {ty} 0)", f"share<{T}>(x, y)", [(0, 1), (1, 1), (2, 2), (1, 2)] + ([] if q else [(3, 3), (2, 3), (4, 4)]), 120)
    # the same elements at different types
    cross = []
    for i, ty in enumerate(("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64")):
        cross.append(f("CastI64List", f"(cl l{ty} 1 2 3)") if ty != "i64" else "(cl li64 1 2 3)")
    s = cross[0]
    for p_ in cross[1:]:
        s = f("ListConcat", s, p_)
    h += f"static const uint64_t E_cross[] = {{{','.join(['1,2,3'] * 8)}}};\n"
    t.add("cross", s, "list_<int64_t>($P, E_cross, 24)")
    S = ["", "61", "6100", "610062", "00", "0000", "61", "ff80", "61" * 40]
    for i, x in enumerate(S):
        lit = "".join(f"\\{int(x[j:j + 2], 16):03o}" for j in range(0, len(x), 2))
        t.add(f"str_{i}", f"(cs {x})" if x else "(cs)", f'str_($P, "{lit}", {len(x) // 2})')
    for name, groups in [("a", [S, S[::-1]]), ("b", [[x] for x in S]), ("c", [[x] for x in S[::-1]]), ("d", [["61", "62"], ["6162"], [], ["61", "62"], ["", "6162"]])]:
        flat = [x for g in groups for x in g]
        h += f"static const StringStruct ES_{name}[] = {{{', '.join('{K(' + chr(34) + ''.join(f'{chr(92)}{int(x[j:j + 2], 16):03o}' for j in range(0, len(x), 2)) + chr(34) + f'), {len(x) // 2}}}' for x in flat)}}};\n"
        parts = [f"(cl lstr{''.join(' ' + (v or '-') for v in g)})" for g in groups]
        s = parts[0]
        for p_ in parts[1:]:
            s = f("ListConcat", s, p_)
        t.add(f"strs_{name}", s, f"strs_($P, ES_{name}, {len(flat)})")
    ss = "(cs)"
    for x in S:
        ss = b("add", ss, f"(cs {x})" if x else "(cs)")
    allx = "".join(S)
    lit = "".join(f"\\{int(allx[j:j + 2], 16):03o}" for j in range(0, len(allx), 2))
    t.add("strcat", ss, f'str_($P, "{lit}", {len(allx) // 2})')
    return Spec(progs=t.progs, harness=h + t.cpp(), jobs=t.jobs,
                bounds="boundary values of every type as scalar literals, several programs per type that combine up to 39 list literals with zero, negative zero, infinities, NaNs, empty lists and shared prefixes, and the choice among them for every input; the sharing of equal list literals for every content of lists of up to 2 (quick) or 4 (thorough) elements",
                assumptions=["a NaN literal may come back as any NaN"],
                explanation="The optimised IR returns the literals' bytes for every input; the ordering the compiler uses to share equal list literals is executed symbolically over all list contents.")
