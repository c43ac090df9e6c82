"""Athena source text for an s-expression program, written with as few
parentheses as C's operator precedence allows (plus, at random, superfluous
ones), with random spelling, spacing and comments."""
import random
import struct
from common import *


def parse(s):
    toks = s.replace("(", " ( ").replace(")", " ) ").split()
    pos = 0

    def one():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t != "(":
            return t
        r = []
        while toks[pos] != ")":
            r.append(one())
        pos += 1
        return r
    return one()


SPELL = {1: ["+"], 2: ["-"], 3: ["*"], 4: ["/"], 5: ["%"], 10: [">"], 11: [">="], 12: ["=="], 13: ["<"], 14: ["<="], 15: ["!=", "<>"],
         20: ["and", "&&"], 21: ["or", "||"], 30: ["&"], 31: ["|"], 32: ["^"], 33: ["<<"], 34: [">>"]}
# C's precedence levels; "in" lies between "and" and "|"
LEVEL = {21: 1, 20: 2, "in": 3, 31: 4, 32: 5, 30: 6, 12: 7, 15: 7, 10: 8, 11: 8, 13: 8, 14: 8, 33: 9, 34: 9, 1: 10, 2: 10, 3: 11, 4: 11, 5: 11}
USPELL = {1: ["+"], 2: ["-"], 22: ["not", "!"], 32: ["~"]}
COMMENTS = ["/**/", "/* a + b; */", "/* // */", "/***/", "/* * / */", "// x = 1;\n", "//\n", "/* \"quote */", "/*\n\n*/", "// /* \n"]


class Text:
    def __init__(self, seed, noise=True):
        self.r = random.Random(seed)
        self.noise = noise

    def lit(self, t, bits):
        v = int(bits, 16)
        r = self.r
        if t in FLT:
            v = struct.unpack(">f" if t == "f32" else ">d", v.to_bytes(W[t] // 8, "big"))[0]
            neg, a = v < 0 or str(v)[0] == "-", abs(v)
            x = format(a, "f") if float(format(a, "f")) == a else format(a, ".60f")
            x = x.rstrip("0") if r.random() < 0.5 else x
            if x.endswith(".") and r.random() < 0.5:
                x += "0"
            if x.startswith("0.") and len(x) > 2 and r.random() < 0.5:
                x = x[1:]
            suf = "f32" if t == "f32" else r.choice(["", "f64"])
            if a == int(a) and suf and r.random() < 0.4:
                x = str(int(a))
            toks = [x + suf]
        else:
            w = W[t]
            neg = signed(t) and v >> (w - 1) & 1
            a = (1 << w) - v if neg else v
            toks = [("0" * r.choice([0, 0, 0, 1, 3]) if self.noise else "") + str(a) + (r.choice(["", "i32"]) if t == "i32" else t)]
        return (["-"] + toks, 12) if neg else (toks, 13)

    def string(self, h):
        b_ = bytes.fromhex(h).decode("latin1")
        q = self.r.choice(['"', "'"])
        if q in b_.replace("\\" + q, ""):
            q = "'" if q == '"' else '"'
        return q + b_ + q

    def paren(self, x, need):
        toks, lv = x
        if lv < need or (self.noise and self.r.random() < 0.08):
            return ["("] + toks + [")"]
        return toks

    def args(self, xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(",")
            out += self.paren(self.expr(x), 0)
        return out

    def call(self, name, xs):
        return [name, "("] + self.args(xs) + [")"], 13

    # returns (tokens, binding level)
    def expr(self, x):
        h = x[0]
        if h == "in":
            return [f"ld_{x[1]}", "(", "entry_arg", ",", x[2], ")"], 13
        if h in ("st", "tk"):
            return [f"{'st' if h == 'st' else 'tick'}_{x[1]}", "(", "output", ",", x[2], ","] + self.args([x[3]]) + [")"], 13
        if h == "c":
            return self.lit(x[1], x[2])
        if h == "cs":
            return [self.string(x[1] if len(x) > 1 else "")], 13
        if h == "cl":
            out = ["["]
            for i, v in enumerate(x[2:]):
                if i:
                    out.append(",")
                out += [self.string("" if v == "-" else v)] if x[1] == "lstr" else self.lit(x[1][1:], v)[0]
            return out + ["]"], 13
        if h == "ref":
            return [x[1]], 13
        if h == "out":
            return ["output"], 13
        if h == "ea":
            return ["entry_arg"], 13
        if h == "u":
            # a unary operator binds tighter than every binary one
            return [self.r.choice(USPELL[int(x[1])])] + self.paren(self.expr(x[2]), 12), 12
        if h == "b" or (h == "f" and x[1] == "in"):
            op = int(x[1]) if h == "b" else "in"
            l, r = x[2], x[3]
            lv = LEVEL[op]
            return self.paren(self.expr(l), lv) + [self.r.choice(SPELL[op]) if op != "in" else "in"] + self.paren(self.expr(r), lv + 1), lv
        if h == "f":
            return self.call(x[1], x[2:])
        if h == "if":
            return self.call("if", x[1:])
        if h == "sw":
            return self.call("switch", x[1:])
        raise ValueError(h)

    def block(self, xs):
        out = []
        for s in xs:
            if s[0] in ("=", "const"):
                out += (["let"] if s[0] == "const" else []) + [s[1], "="] + self.paren(self.expr(s[2]), 0) + [";"]
            elif s[0] == "ifb":
                a = s[1:]
                for k in range(0, len(a) - 1, 2):
                    out += ["when" if k == 0 else "elif"] + self.paren(self.expr(a[k]), 0) + ["{"] + self.body(a[k + 1]) + ["}"]
                if len(a) % 2:
                    out += ["else", "{"] + self.body(a[-1]) + ["}"]
            else:
                out += self.paren(self.expr(s), 0) + [";"]
        return out

    def body(self, x):
        return self.block(x[1:] if x[0] == "noop" else [x])

    def join(self, toks):
        out = ""
        for t in toks:
            glue = bool(out) and (out[-1].isalnum() or out[-1] in "_.") and (t[0].isalnum() or t[0] in "_.")
            glue |= bool(out) and out[-1] in "=<>!&|/*-+" and t[0] in "=<>&|/*-+"
            k = self.r.random() if self.noise else 1
            if k < 0.05:
                sep = " " + self.r.choice(COMMENTS) + self.r.choice(["", " "])
            elif k < 0.10:
                sep = self.r.choice(["\n", "\t", "  ", "\r\n", " \n\n "])
            elif k < 0.45 and not glue:
                sep = ""
            else:
                sep = " "
            out += sep + t
        return out

    def program(self, sexp):
        """A program in pipeline mode."""
        return self.join(self.body(parse(sexp)))

    def expression(self, sexp):
        return self.join(self.paren(self.expr(parse(sexp)), 0) + [";"])


def quote(text):
    return '"' + text.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\0", "\\0") + '"'


def athena(text):
    return f"(athena {quote(text)})"


def pipeline(*texts):
    return "(pipeline " + " ".join(quote(t) for t in texts) + ")"
