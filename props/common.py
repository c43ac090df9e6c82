"""Type tables shared by the properties.  Everything here is written from the
documentation of the language, not from the implementation's tables."""
NUM = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64"]
INT = [t for t in NUM if t[0] != "f"]
FLT = ["f32", "f64"]
CT = {"u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t", "u64": "uint64_t", "i8": "int8_t", "i16": "int16_t",
      "i32": "int32_t", "i64": "int64_t", "f32": "float", "f64": "double"}
W = {t: int(t[1:]) for t in NUM}
RANK = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"]
LT = {t: f"{t.upper()}ListStruct" for t in NUM}
OP = dict(add=1, sub=2, mul=3, div=4, mod=5, gt=10, ge=11, eq=12, lt=13, le=14, ne=15, land=20, lor=21, band=30, bor=31, bxor=32, shl=33, shr=34)
UOP = dict(plus=1, minus=2, not_=22, bnot=32)


def promote(a, b):
    return a if RANK.index(a) > RANK.index(b) else b


def isf(t):
    return t[0] == "f"


def isi(t):
    return t[0] != "f"


def signed(t):
    return t[0] in "if"


def table(name, ids):
    """Declarations and a table of programs, indexed in the order of ids."""
    return "\n".join(f"JF_DECL({i})" for i in ids) + f"\nstatic const jf::P {name}[] = {{\n" + "\n".join(f"  JF_ENT({i})" for i in ids) + "\n};\n"


def inn(t, k):
    return f"(in {t} {k})"


def b(op, l, r):
    return f"(b {OP[op]} {l} {r})"


def u(op, x):
    return f"(u {UOP[op]} {x})"


def f(name, *args):
    return "(f " + name + "".join(" " + a for a in args) + ")"


def hexbits(t, v):
    import struct
    if t == "f32":
        return struct.pack(">f", v).hex()
    if t == "f64":
        return struct.pack(">d", v).hex()
    return format(v & ((1 << W[t]) - 1), "x")


def c(t, v):
    return f"(c {t} {hexbits(t, v)})"


PRELUDE = '''
#include "jfrt.h"
#include <cmath>
using namespace jitfusion;
using namespace jf;
'''
