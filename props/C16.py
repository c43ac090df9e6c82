"""No builtin reads or writes outside the lists and strings it was given, or
outside what it allocated, and it leaves its operands as they were."""
import os
from jf import Spec
from common import *
import lists

SIGS = [l.split() for l in open(os.path.join(os.path.dirname(__file__), "sigs.txt")) if l.strip()]
# forms with an explicit count that the documentation leaves out
for _t in NUM:
    SIGS.append([f"{_t}list", "FilterByBitmap", f"{_t}list", "u8list", "u32"])
    SIGS.append([f"{_t}list", "GroupKeys", f"{_t}list", "u32list", "u32"])
    w = "f64" if isf(_t) else "i64" if _t[0] == "i" else "u64"
    for _f in ("GroupSum", "GroupMax", "GroupMin", "GroupAvg"):
        SIGS.append([f"{w if _f == 'GroupSum' else 'f64' if _f == 'GroupAvg' else _t}list", _f, f"{_t}list", "u32list", "u32"])
SIGS.append(["stringlist", "GroupKeys", "stringlist", "u32list", "u32"])


def islist(t):
    return t.endswith("list") or t == "string"


def tok(t):
    return {"string": "str", "stringlist": "lstr"}.get(t, "l" + t[:-4] if t.endswith("list") else t)


def rt(t):
    d = {"string": "StringStruct", "stringlist": "StringListStruct"}
    return d[t] if t in d else LT[t[:-4]] if t.endswith("list") else CT[t]


# lengths by the number of list operands
SHAPES = {1: [(0,), (1,), (2,), (3,), (8,)], 2: [(0, 0), (0, 2), (2, 0), (1, 2), (3, 2), (2, 3), (3, 3), (8, 1), (9, 2)],
          3: [(0, 0, 0), (1, 2, 0), (2, 1, 1), (0, 2, 1), (2, 0, 1), (2, 2, 2), (1, 9, 9), (2, 9, 9), (1, 8, 8), (1, 3, 2), (1, 2, 3), (2, 9, 3)]}


# small shapes for C27
FROZEN = {0: (), 1: (2,), 2: (2, 1), 3: (2, 1, 1)}


def spec(tier, frozen=False):
    q = tier == "quick"
    t = lists.Tab()
    h = PRELUDE + lists.RUNTIME + r'''
template <class T> void touch(const T* p, uint64_t n) {
  for (uint64_t i = 0; i < n; i++) { T v = *(volatile const T*)(p + i); (void)v; }
}
template <class R> void look(const R& r) {
  if constexpr (std::is_same_v<R, StringListStruct>) {
    for (uint64_t i = 0; i < r.len; i++) touch(r.data[i].data, r.data[i].len);
  } else if constexpr (Elem<R>::list) {
    touch(r.data, r.len);
  }
}
template <class T> T* ro(T* p) { if (p) jf_readonly(p); return p; }
template <class T> void lst(JfSlot& s, uint64_t n, const char* name) { setList(s, ro(symArr<T>(n, name)), n); }
void lstS(JfSlot& s, uint64_t n, const char* name) {
  // the strings' lengths differ: 2, 0, 1, 2, 0, …
  uint64_t len[16];
  for (uint64_t i = 0; i < n; i++) len[i] = (5 - i % 3) % 3;
  StringStruct* p = symStrs(len, n, name);
  for (uint64_t i = 0; i < n; i++) ro(p[i].data);
  setList(s, (const uint8_t*)ro(p), n);
}
// long texts for the conversions
void lstD(JfSlot& s, uint64_t n, const char* name) {
  StringStruct* p = n ? (StringStruct*)malloc(n * sizeof(StringStruct)) : nullptr;
  for (uint64_t i = 0; i < n; i++) { p[i].len = i; p[i].data = ro(symArr<char>(i, name)); }
  setList(s, (const uint8_t*)ro(p), n);
}
template <class T> T few(const T v) { if constexpr (std::is_integral_v<T>) jf_assume((v <= 12) & (v >= 9)); return v; }
template <class T> T nz(const T v) {
  jf_assume(v != 0);
  if constexpr (std::is_integral_v<T> && std::is_signed_v<T> && sizeof(T) >= 4) jf_assume(v != (T)-1);
  return v;
}
// the number of groups is the size of the result
uint32_t cnt(const char* name) { uint32_t c = sym<uint32_t>(name); jf_assume(c <= 2); return (uint32_t)jf_concretize(c); }
void lstG(JfSlot& s, uint64_t n, const char* name, uint32_t max) {
  uint32_t* p = symArr<uint32_t>(n, name);
  for (uint64_t i = 0; i < n; i++) jf_assume(p[i] <= max);
  setList(s, ro(p), n);
}
template <class T> void lstFew(JfSlot& s, uint64_t n, const char* name) {
  T* p = symArr<T>(n, name);
  for (uint64_t i = 0; i < n; i++) few(p[i]);
  setList(s, ro(p), n);
}
template <class T> void lstNz(JfSlot& s, uint64_t n, const char* name) {
  T* p = symArr<T>(n, name);
  for (uint64_t i = 0; i < n; i++) nz(p[i]);
  setList(s, ro(p), n);
}
'''
    nsig = 0
    for k, (ret, fn, *args) in enumerate(SIGS):
        nl = sum(map(islist, args))
        if not nl and ret != "string" and not frozen:
            continue
        if not frozen and fn.startswith("CastString") and args[0][1:3] in ("32", "64"):
            continue  # decided, digit count by digit count, with C06 and C14
        if frozen and fn.startswith("CastString") and isf(args[0].replace("list", "")):
            continue  # formatted by the C++ library
        nsig += 1
        ty = {a[:-4] if a.endswith("list") else a for a in args} & set(NUM)
        conv = fn.startswith("Cast")
        shapes = SHAPES.get(nl, [()])
        if q:
            # every signature at one awkward shape, four element types at more
            main = not conv and (ty <= {"u8", "i32", "f64", "u32"} or "string" in args or "stringlist" in args)
            shapes = {0: [()], 1: [(0,), (3,)] if main else [(2,)], 2: [(0, 2), (2, 0), (3, 2), (2, 3), (3, 3)] if main else [(2, 3)],
                      3: [(0, 2, 1), (2, 1, 1), (2, 9, 9), (2, 2, 3)] if main else [(1, 9, 9)]}[nl]
            if fn.startswith("Gen") and nl == 1:
                shapes = [(8,), (9,)] if main else [(8,)]
            if fn == "FilterByBitmap":
                shapes = [(9, 2), (9, 1), (3, 1), (2, 0), (8, 1)] if main else [(9, 2), (8, 1)]
            if fn in ("SortAsc", "SortDesc", "Median"):
                shapes = [(0,), (3,)] if main else [(2,)]
        else:
            if fn.startswith("Gen"):
                shapes = [s + ((0,) * 0) for s in ([(0,), (1,), (7,), (8,), (9,), (16,)] if nl == 1 else [(0, 0), (8, 8), (9, 9), (9, 8), (8, 9), (2, 3), (16, 16)])]
            elif nl == 1 and fn in ("SortAsc", "SortDesc", "Median", "Unique", "CountDistinct", "GroupIndex"):
                shapes = [(0,), (1,), (2,), (3,)] + ([(17,)] if fn.startswith("Sort") and ty <= {"u8"} else [])
            elif fn == "FilterByBitmap":
                shapes = [(0, 0), (9, 2), (9, 1), (3, 1), (2, 0), (8, 1), (16, 2), (1, 2)]
        if frozen:
            shapes = [FROZEN[nl]] if q else ([FROZEN[nl]] + SHAPES.get(nl, [()])[:4])
            if fn.startswith("Gen") or fn == "FilterByBitmap":
                shapes = shapes[1:] + [{0: (), 1: (8,), 2: (8, 1), 3: (1, 9, 9)}[nl]]
        set_ = ""
        li = 0
        for i, a in enumerate(args):
            div = fn in ("ListDiv", "ListMod") and i == 1
            if islist(a):
                n = "xyz"[li]
                li += 1
                if a == "stringlist":
                    set_ += f"{'lstD' if conv else 'lstS'}(in[{i}], {n}, \"a{i}\"); "
                elif a == "string":
                    set_ += f"lst<char>(in[{i}], {n}, \"a{i}\"); "
                elif fn.startswith("Group") and i == 1:
                    set_ += f"lstG(in[{i}], {n}, \"a{i}\", {3 if len(args) == 2 else 9}); "
                else:
                    set_ += f"{'lstFew' if fn == 'CastStringList' else 'lstNz' if div and not isf(a[:-4]) else 'lst'}<{CT[a[:-4]]}>(in[{i}], {n}, \"a{i}\"); "
            elif fn.startswith("Group"):
                set_ += f"setIn<uint32_t>(in[{i}], cnt(\"a{i}\")); "
            else:
                v = f'sym<{CT[a]}>("a{i}")'
                if fn.startswith("CastString"):
                    v = f"few({v})"
                set_ += f"setIn<{CT[a]}>(in[{i}], {'nz(' + v + ')' if div and not isf(a) else v}); "
        t.add(f"m{k}_{fn}_{'_'.join(args)}", f(fn, *[inn(tok(a), i) for i, a in enumerate(args)]),
              f"{{ JfSlot in[4]; {set_}auto r = {'callFrozen' if frozen else 'call'}<{rt(ret)}>($P, in); if (r.ok) look(r.v); }}", shapes, 30 if q else 200)
    if frozen:
        return t, h, nsig
    return Spec(progs=t.progs, harness=h + t.cpp(), jobs=t.jobs, merge=True, mem_mb=2500,
                bounds=f"{nsig} documented signatures (and the undocumented forms with a count) that take or return lists or strings; "
                + ("one awkward shape each, up to five for u8/i32/f64/strings, lists of up to 9 elements" if q else "up to twelve shapes each, matched and mismatched, lists of up to 9 elements (17 for bitmaps and u8 sorting)")
                + "; every content, every scalar operand (indices and counts beyond the list included), group numbers up to 9 with up to 2 groups; CastString and CastStringList of 32- and 64-bit integers are decided under C06 and C14",
                assumptions=["integer divisors are non-zero, and not -1 for 32- and 64-bit signed types (the operation is undefined otherwise)",
                             "every allocation of the execution's arena is treated as an object of its own, so an access next to it is seen although the arena would happen to have room",
                             "lists of 2^32 bytes or more in total are outside the bounds"],
                explanation="The optimised IR of each call with the builtin's IR runs on symbolic contents; each memory access must lie inside one live object, no access may write an operand, and every element of the result must be readable.")
