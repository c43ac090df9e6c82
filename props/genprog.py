"""Random typed programs of the expression language, each with its meaning
written as straight C++ (statement by statement, in evaluation order)."""
import random
from common import *

OUTS = 31


class Gen:
    def __init__(self, seed, types=("i32", "i64", "u8", "u32", "f64", "i16"), maxcond=5):
        self.r = random.Random(seed)
        self.types = list(types)
        self.nin = 0
        self.inputs = []      # (type)
        self.ntick = 0
        self.nst = 0
        self.code = []
        self.ind = 1
        self.nt = 0
        self.scopes = [{}]    # name -> (type, C++ variable)
        self.conds = 0
        self.maxcond = maxcond
        self.nv = 0
        self.outt = {}

    def emit(self, s):
        self.code.append("  " * self.ind + s)

    def tmp(self, t, e):
        n = f"t{self.nt}"
        self.nt += 1
        self.emit(f"{CT[t]} {n} = {e};")
        return n

    def lookup(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None

    def visible(self, t=None):
        v = {}
        for s in self.scopes:
            v.update(s)
        return [(n, x) for n, x in sorted(v.items()) if t is None or x[0] == t]

    # every expression returns (sexp, type, C++ temporary)
    def leaf(self, want=None):
        r = self.r
        vis = self.visible(want)
        if vis and r.random() < 0.5:
            n, (t, cv) = r.choice(vis)
            return f"(ref {n})", t, self.tmp(t, cv)
        t = want or r.choice(self.types)
        if r.random() < 0.25:
            v = r.choice([0, 1, 2, 3, 5, 7, 100]) if isi(t) else r.choice([0.0, 1.0, -2.5, 0.5])
            return c(t, v), t, self.tmp(t, f"({CT[t]}){v}")
        same_t = [k for k, x in enumerate(self.inputs) if x == t]
        if same_t and (r.random() < 0.4 or len(self.inputs) >= 8):
            k = r.choice(same_t)
        elif len(self.inputs) < 8:
            k = len(self.inputs)
            self.inputs.append(t)
        else:
            return c(t, 1), t, self.tmp(t, f"({CT[t]})1")
        return inn(t, k), t, self.tmp(t, f"i{k}")

    def truthy(self, t, x):
        return f"tr({x})"

    def cond(self, depth):
        """An expression used as a condition."""
        self.conds += 1
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.3:
            s, t, x = self.leaf()
        elif k < 0.6:
            s, t, x = self.rel(depth)
        elif k < 0.85 and self.conds < self.maxcond:
            s, t, x = self.logic(depth)
        else:
            s, t, x = self.expr(depth - 1)
        if r.random() < 0.4 and self.ntick < 24:
            s, t, x = self.tick(s, t, x)
        return s, t, x

    def tick(self, s, t, x):
        k = self.ntick
        self.ntick += 1
        self.emit(f"E.tick({k});")
        return f"(tk {t} {k} {s})", t, x

    def rel(self, depth):
        op = self.r.choice(["gt", "ge", "eq", "lt", "le", "ne"])
        s1, t1, x1 = self.expr(depth - 1)
        s2, t2, x2 = self.expr(depth - 1)
        R = CT[promote(t1, t2)]
        o = dict(gt=">", ge=">=", eq="==", lt="<", le="<=", ne="!=")[op]
        return b(op, s1, s2), "u8", self.tmp("u8", f"({R}){x1} {o} ({R}){x2}")

    def logic(self, depth):
        op = self.r.choice(["land", "lor"])
        s1, t1, x1 = self.cond(depth - 1)
        n = f"t{self.nt}"
        self.nt += 1
        self.emit(f"uint8_t {n} = {0 if op == 'land' else 1};")
        self.emit(f"if ({'' if op == 'land' else '!'}tr({x1})) {{")
        self.ind += 1
        s2, t2, x2 = self.cond(depth - 1)
        self.emit(f"{n} = tr({x2});")
        self.ind -= 1
        self.emit("}")
        return b(op, s1, s2), "u8", n

    def expr(self, depth, want=None):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.2:
            return self.leaf(want)
        if k < 0.5:
            op = r.choice(["add", "sub", "mul", "band", "bor", "bxor"] if not want or isi(want) else ["add", "sub"])
            isb = op[0] == "b"
            s1, t1, x1 = self.expr(depth - 1)
            if op == "mul":
                # by a constant only: the property is about control flow, not about multipliers
                t2, v = r.choice(INT), r.choice([2, 3, 5, 7])
                s2, x2 = c(t2, v), self.tmp(t2, f"({CT[t2]}){v}")
            else:
                s2, t2, x2 = self.expr(depth - 1)
            if isf(t1) or isf(t2):
                # floating-point arithmetic has its own property; here only values and comparisons
                R = CT[promote(t1, t2)]
                return b("lt", s1, s2), "u8", self.tmp("u8", f"({R}){x1} < ({R}){x2}")
            t = promote(t1, t2)
            return b(op, s1, s2), t, self.tmp(t, f"A<{CT[t]}>::{op}(({CT[t]}){x1}, ({CT[t]}){x2})")
        if k < 0.6:
            s1, t1, x1 = self.expr(depth - 1)
            if r.random() < 0.5:
                t = "i32" if isi(t1) and W[t1] < 32 else t1
                return u("minus", s1), t, self.tmp(t, f"A<{CT[t]}>::neg(({CT[t]}){x1})")
            return u("not_", s1), "u8", self.tmp("u8", f"{x1} == 0")
        if k < 0.7:
            return self.rel(depth)
        if self.conds >= self.maxcond:
            return self.leaf(want)
        if k < 0.78:
            return self.logic(depth)
        if k < 0.93:
            return self.ifsw(depth)
        s, t, x = self.expr(depth - 1)
        return self.tick(s, t, x) if self.ntick < 24 else (s, t, x)

    def block(self, f):
        """Runs f with its emitted code captured."""
        old, self.code = self.code, []
        self.ind += 1
        v = f()
        self.ind -= 1
        got, self.code = self.code, old
        return v, got

    def ifsw(self, depth):
        r = self.r
        n = 1 if r.random() < 0.6 else r.randint(1, 3)
        arms = []
        for _ in range(n):
            cnd, cc = self.block(lambda: self.cond(depth - 1))
            body, bc = self.block(lambda: self.expr(depth - 1))
            arms.append((cnd, cc, body, bc))
        d, dc = self.block(lambda: self.expr(depth - 1))
        t = d[1]
        for a in arms:
            t = promote(t, a[2][1])
        v = f"t{self.nt}"
        self.nt += 1
        self.emit(f"{CT[t]} {v} = 0;")
        ind = self.ind

        def put(k):
            if k == len(arms):
                self.code.extend(dc)
                self.emit(f"  {v} = ({CT[t]}){d[2]};")
                return
            cnd, cc, body, bc = arms[k]
            self.emit("{")
            self.code.extend(cc)
            self.emit(f"  if (tr({cnd[2]})) {{")
            self.code.extend(bc)
            self.emit(f"    {v} = ({CT[t]}){body[2]};")
            self.emit("  } else {")
            put(k + 1)
            self.emit("  }")
            self.emit("}")
        put(0)
        if n == 1 and r.random() < 0.8:
            s = f"(if {arms[0][0][0]} {arms[0][2][0]} {d[0]})"
        else:
            s = "(sw " + " ".join(a[0][0] + " " + a[2][0] for a in arms) + f" {d[0]})"
        return s, t, v

    # statements
    def stmt(self, depth):
        r = self.r
        k = r.random()
        if k < 0.45:
            vis = self.visible()
            if vis and r.random() < 0.6:
                n, (t, cv) = r.choice(vis)
                for _ in range(20):
                    s, t2, x = self.expr_try(depth, t)
                    if t2 == t:
                        break
                else:
                    s, t2, x = self.leaf(t)
                self.emit(f"{cv} = {x};")
                return f"(= {n} {s})"
            s, t, x = self.expr(depth)
            n = f"v{self.nv}"
            self.nv += 1
            # the declaration goes where the enclosing scope starts
            self.scopes[-1][n] = (t, n)
            self.emit(f"{CT[t]} {n} = {x};")
            return f"(= {n} {s})"
        if k < 0.75 or depth <= 1 or self.conds >= self.maxcond:
            s, t, x = self.expr(depth)
            if self.nst < 30:
                j = self.nst
                self.nst += 1
                self.outt[j] = t
                self.emit(f"E.st({j}, {x});")
                return f"(st {t} {j} {s})"
            return s
        return self.ifb(depth)

    def expr_try(self, depth, want):
        save = (list(self.code), self.nt, self.ntick, list(self.inputs), self.conds)
        v = self.expr(depth, want)
        if v[1] != want:
            self.code, self.nt, self.ntick, self.inputs, self.conds = save
        return v

    def body(self, depth):
        self.scopes.append({})
        n = self.r.randint(1, 3)
        ss = [self.stmt(depth) for _ in range(n)]
        self.scopes.pop()
        return "(noop " + " ".join(ss) + ")"

    def ifb(self, depth):
        r = self.r
        n = r.randint(1, 2)
        arms = []
        for _ in range(n):
            cnd, cc = self.block(lambda: self.cond(depth - 1))
            body, bc = self.block(lambda: self.body(depth - 1))
            arms.append((cnd, cc, body, bc))
        has_else = r.random() < 0.5
        if has_else:
            e, ec = self.block(lambda: self.body(depth - 1))

        def put(k):
            if k == len(arms):
                if has_else:
                    self.code.extend(ec)
                return
            cnd, cc, body, bc = arms[k]
            self.emit("{")
            self.code.extend(cc)
            self.emit(f"  if (tr({cnd[2]})) {{")
            self.code.extend(bc)
            self.emit("  } else {")
            put(k + 1)
            self.emit("  }")
            self.emit("}")
        put(0)
        return "(ifb " + " ".join(a[0][0] + " " + a[2] for a in arms) + (f" {e}" if has_else else "") + ")"

    def program(self, nst, depth):
        ss = [self.stmt(depth) for _ in range(nst)]
        # every variable that is still visible is an observable result
        for n, (t, cv) in self.visible():
            if self.nst < 30:
                self.emit(f"E.st({self.nst}, {cv});")
                self.outt[self.nst] = t
                ss.append(f"(st {t} {self.nst} (ref {n}))")
                self.nst += 1
        return "(noop " + " ".join(ss) + ")"


RUNTIME = '''
template <class T> bool tr(T v) { if constexpr (std::is_floating_point_v<T>) return (v < 0) | (v > 0); else return v != 0; }
template <class T> struct A {
  typedef std::conditional_t<std::is_floating_point_v<T>, T, std::conditional_t<sizeof(T) < 4, unsigned, std::make_unsigned_t<std::conditional_t<std::is_floating_point_v<T>, int, T>>>> U;
  static T add(T a, T b) { return (T)((U)a + (U)b); }
  static T sub(T a, T b) { return (T)((U)a - (U)b); }
  static T mul(T a, T b) { return (T)((U)a * (U)b); }
  static T neg(T a) { if constexpr (std::is_floating_point_v<T>) return -a; else return (T)((U)0 - (U)a); }
  static T band(T a, T b) { if constexpr (std::is_integral_v<T>) return a & b; else return 0; }
  static T bor(T a, T b) { if constexpr (std::is_integral_v<T>) return a | b; else return 0; }
  static T bxor(T a, T b) { if constexpr (std::is_integral_v<T>) return a ^ b; else return 0; }
};
// what the program must do to the outside
struct Env {
  JfSlot o[32];
  Env() { memset(o, 0, sizeof o); }
  void tick(int k) { o[k].written++; o[k].len = ++o[31].len; }
  template <class T> void st(int k, T v) { o[k].bits = 0; memcpy(&o[k].bits, &v, sizeof v); o[k].written += 0x10000; }
};
template <class T> void chk(const JfSlot& got, const JfSlot& want) {
  if (want.written >> 16) jf_assert(same(getOut<T>(got), getOut<T>(want)), "stored value");
}
'''


def function(name, g, sexp, out_types):
    """C++ text of the harness that compares program `name` with its meaning."""
    ins = "".join(f"  {CT[t]} i{k} = sym<{CT[t]}>(\"i{k}\"); setIn(in[{k}], i{k});\n" for k, t in enumerate(g.inputs))
    body = "\n".join(g.code)
    chks = "".join(f"  chk<{CT[t]}>(out[{k}], E.o[{k}]);\n" for k, t in sorted(out_types.items()))
    return f'''
JF_H h_{name}() {{
  JfSlot in[8], out[32];
  memset(out, 0, sizeof out);
{ins}  bool ok = callV(jf::P JF_ENT1({name}), in, out);
  jf_assert(ok, "evaluates without error");
  Env E;
{body}
  for (int k = 0; k < 32; k++) {{
    jf_assert(out[k].written == (E.o[k].written >> 16) + (E.o[k].written & 0xffff), "effects happen exactly when their branch is taken");
    jf_assert(out[k].len == E.o[k].len, "operands are evaluated in order");
  }}
{chks}}}
'''


def varprog(seed, depth=3):
    """Programs about variables: a few variables copied around through nested if-blocks."""
    import random
    r = random.Random(seed)
    g = Gen(seed)
    g.code, g.inputs, g.outt = [], ["i32", "i32", "i32"] + ["i32"] * 5, {}
    outs = [0]

    def assign(vs, ind):
        n = r.choice(vs)
        k = r.random()
        m = r.choice(vs)
        if k < 0.65:
            s, x = f"(ref {m})", m
        elif k < 0.8:
            j = r.randrange(3)
            s, x = f"(in i32 {j})", f"i{j}"
        elif k < 0.9:
            v = r.choice([0, 1, 7])
            s, x = c("i32", v), str(v)
        else:
            m2 = r.choice(vs)
            s, x = b("bxor", f"(ref {m})", f"(ref {m2})"), f"({m} ^ {m2})"
        g.code.append(f"{ind}{n} = {x};")
        return f"(= {n} {s})"

    def out(vs, ind):
        if outs[0] >= 30:
            return None
        j = outs[0]
        outs[0] += 1
        n = r.choice(vs)
        g.outt[j] = "i32"
        g.code.append(f"{ind}E.st({j}, {n});")
        return f"(st i32 {j} (ref {n}))"

    nc = [3]

    def cond(ind):
        j = nc[0]
        if j >= 8:
            j = r.randrange(3, 8)
        else:
            nc[0] += 1
        if r.random() < 0.2:
            v = r.choice(("x", "y", "z"))
            return f"(b 10 (in i32 {j}) (ref {v}))", f"i{j} > {v}"
        return f"(in i32 {j})", f"i{j} != 0"

    def block(vs, d, ind):
        vs = list(vs)
        ss = []
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if k < 0.5 or d == 0:
                ss.append(assign(vs, ind))
            elif k < 0.6:
                n = f"t{len(g.code)}"
                m = r.choice(vs)
                g.code.append(f"{ind}int32_t {n} = {m};")
                vs.append(n)
                ss.append(f"(= {n} (ref {m}))")
            else:
                ss.append(ifb(vs, d - 1, ind))
        if r.random() < 0.3:
            o = out(vs, ind)
            if o:
                ss.append(o)
        return "(noop " + " ".join(ss) + ")"

    def ifb(vs, d, ind):
        n = r.randint(1, 2)
        parts = []
        end = ""
        for i in range(n):
            s, x = cond(ind)
            g.code.append(f"{ind}if ({x}) {{")
            parts += [s, block(vs, d, ind + "  ")]
            g.code.append(f"{ind}}}")
            if i + 1 < n:
                g.code.append(f"{ind}else {{")
                end = f"{ind}}}"
        if r.random() < 0.4:
            g.code.append(f"{ind}else {{")
            parts.append(block(vs, d, ind + "  "))
            g.code.append(f"{ind}}}")
        if end:
            g.code.append(end)
        return "(ifb " + " ".join(parts) + ")"

    ss = []
    for j, n in enumerate("xyz"):
        if j and r.random() < 0.5:
            m = r.choice("xyz"[:j])
            ss.append(f"(= {n} (ref {m}))")
            g.code.append(f"  int32_t {n} = {m};")
        else:
            ss.append(f"(= {n} (in i32 {j}))")
            g.code.append(f"  int32_t {n} = i{j};")
    for _ in range(r.randint(1, 3)):
        ss.append(ifb(list("xyz"), depth, "  "))
        if r.random() < 0.5:
            ss.append(assign(list("xyz"), "  "))
    outs[0] = min(outs[0], 27)
    for j, n in enumerate("xyz"):
        k = outs[0]
        outs[0] += 1
        g.outt[k] = "i32"
        g.code.append(f"  E.st({k}, {n});")
        ss.append(f"(st i32 {k} (ref {n}))")
    return g, "(noop " + " ".join(ss) + ")"
