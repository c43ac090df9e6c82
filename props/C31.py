"""The front end turns every text into the tree its grammar defines, or says where it is wrong."""
from jf import Spec
from common import *

HEAD = PRELUDE + r'''
#include "athena/ast_builder.h"
#include "jfathref.h"
#ifndef JF_NATIVE
// the text a floating-point literal is read from is what matters, not how the C library reads it
static std::string* g_f[16];
static int g_nf;
extern "C" __attribute__((used)) double jfstub_strtod(const char* s, char**) { g_f[g_nf & 15] = new std::string(s); return 1 + g_nf++; }
extern "C" __attribute__((used)) float jfstub_strtof(const char* s, char**) { g_f[g_nf & 15] = new std::string(s); return 1 + g_nf++; }
template <class T> bool isText(T v, const std::string& t) { int i = (int)v - 1; return i >= 0 && i < g_nf && *g_f[i & 15] == t; }
#else
inline bool isText(double v, const std::string& t) { return same(v, strtod(t.c_str(), nullptr)); }
inline bool isText(float v, const std::string& t) { return same(v, strtof(t.c_str(), nullptr)); }
#endif
using namespace athena;
static const char* g_text;
static size_t g_len;
template <class T> struct VT;
#define X(n, T, k) template <> struct VT<T> { static constexpr ValueType v = ValueType::k; };
JF_NUM_TYPES(X)
#undef X
static bool litIs(const ref::Reader& r, const ref::Tok& t, const ConstantValueType& v) {
  return std::visit([&](const auto& x) -> bool {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, std::string>) {
      if (t.k != ref::T_STR || x.size() != t.e - t.b - 2) return false;
      return memcmp(x.data(), r.s + t.b + 1, x.size()) == 0;
    } else {
      if (t.k == ref::T_STR || t.t != VT<T>::v) return false;
      if constexpr (std::is_floating_point_v<T>) return isText(x, r.text(t));
      else return x == (T)t.v;
    }
  }, v);
}
static bool spanIs(const ExecNode* n, const ref::Node* x) {
  const SourceLocation& l = n->GetLocation();
  if (!x->spanned) return true;
  return l.begin_line == x->from.line && l.begin_col == x->from.col && l.end_line == x->to.line && l.end_col == x->to.col
      && l.source_code.data() == g_text && l.source_code.size() == g_len;
}
#define TREE "the tree is the one the text stands for"
#define SPAN "a node's position is that of its text"
static void sameTree(const ref::Reader& r, ExecNode* n, const ref::Node* x);
static void sameTrees(const ref::Reader& r, const std::vector<std::unique_ptr<ExecNode>>& a, const ref::Node* x) {
  jf_assert(a.size() == x->c.size(), TREE);
  for (size_t i = 0; i < a.size(); i++) sameTree(r, a[i].get(), x->c[i]);
}
static void sameTree(const ref::Reader& r, ExecNode* n, const ref::Node* x) {
  jf_assert(n && x, TREE);
  jf_assert(n->GetExecNodeType() == x->k, TREE);
  jf_assert(spanIs(n, x), SPAN);
  switch (x->k) {
    case ExecNodeType::kConstValueNode: jf_assert(litIs(r, x->lit, static_cast<ConstantValueNode*>(n)->GetVal()), "a literal has its value and type"); break;
    case ExecNodeType::kConstListValueNode:
      std::visit([&](const auto& v) {
        jf_assert(v.size() == x->list.size(), TREE);
        for (size_t i = 0; i < v.size(); i++) jf_assert(litIs(r, x->list[i], ConstantValueType(v[i])), "a list's elements have their value and type");
      }, static_cast<ConstantListValueNode*>(n)->GetValList());
      break;
    case ExecNodeType::kUnaryOPNode: {
      auto* u = static_cast<UnaryOPNode*>(n);
      jf_assert((int)u->GetOp() == x->op, TREE);
      sameTree(r, u->GetChild(), x->c[0]);
      break;
    }
    case ExecNodeType::kBinaryOPNode: {
      auto* b = static_cast<BinaryOPNode*>(n);
      jf_assert((int)b->GetOp() == x->op, TREE);
      sameTree(r, b->GetLeft(), x->c[0]);
      sameTree(r, b->GetRight(), x->c[1]);
      break;
    }
    case ExecNodeType::kFunctionNode:
      jf_assert(static_cast<FunctionNode*>(n)->GetFuncName() == x->name, TREE);
      sameTrees(r, static_cast<FunctionNode*>(n)->GetArgs(), x);
      break;
    case ExecNodeType::kIfNode: sameTrees(r, static_cast<IfNode*>(n)->GetArgs(), x); break;
    case ExecNodeType::kSwitchNode: sameTrees(r, static_cast<SwitchNode*>(n)->GetArgs(), x); break;
    case ExecNodeType::kIfBlockNode: sameTrees(r, static_cast<IfBlockNode*>(n)->GetArgs(), x); break;
    case ExecNodeType::kRefNode: jf_assert(static_cast<RefNode*>(n)->GetName() == x->name, TREE); break;
    case ExecNodeType::kNoOPNode: {
      auto* b = static_cast<NoOPNode*>(n);
      sameTrees(r, b->GetArgs(), x);
      auto& v = b->GetVarInfos();
      jf_assert(v.size() == x->vars.size() && !b->IsIsolated(), TREE);
      for (size_t i = 0; i < v.size(); i++) jf_assert(v[i].name == x->vars[i] && v[i].is_const == x->lets[i], "each statement assigns the variable it names");
      break;
    }
    default: break;
  }
}
static std::string num(int v) { std::string r; do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return r; }
static bool starts(const std::string& s, const std::string& t) { return s.size() >= t.size() && memcmp(s.data(), t.data(), t.size()) == 0; }
// the text is read as the reference reads it
static const char* const g_before[] = {"", "e1;", "ex = 1; y = x + 2; x;", "py = 1; x = y; ", "plet x = 1; when 1 { x = 2; y = 3; }", "py = 1; when x { y = 2; ", "px = 1; when x { y = 2; when y { x", "ex;", "px = z;", "elet x = 1; x = 2;", "e1 $",
  "p\n\n  1 +;", "ewhen 1 { x = 1; }", "ex = 1; y = 99999999999;", "px = 1; when 1 { when 2 { y = 3; } elif", "e\"a\n\n"};
static void judge(const char* s, size_t n, bool pipe, uint64_t before = 0) {
  std::string code(s, n);
  g_text = code.data(); g_len = n;
  ProgramAstBuilder b;
  std::unique_ptr<ExecNode> root;
  if (before) {   // whatever the builder has read before
    std::string earlier(g_before[before] + 1);
    (void)(g_before[before][0] == 'p' ? b.BuildPipeline(earlier, &root) : b.BuildExpression(earlier, &root));
    root = nullptr;
  }
  jf_fork_loads(1);
  Status st = pipe ? b.BuildPipeline(code, &root) : b.BuildExpression(code, &root);
  jf_fork_loads(0);
  ref::Reader r(s, n, pipe);
  ref::Node* want = r.read();
  if (r.bad) {
    jf_assert(!st.ok(), "a text outside the language is refused");
    std::string m = st.ToString();
    std::string at = "Parse Error: " + num(r.badAt.line) + "." + num(r.badAt.col);
    jf_assert(starts(m, at) && (m[at.size()] == ':' || m[at.size()] == '-'), "an error is reported where the text is first wrong");
    size_t k = m.find(": ", at.size());
    jf_assert(k != std::string::npos, "an error has a message");
    std::string what = m.substr(k + 2);
    jf_assert(starts(what, r.whenInExpression ? "when block is not allowed in expression mode" : r.badKind == ref::T_BAD ? "invalid character '" : r.badKind == ref::T_RANGE ? "integer literal out of range: " : "syntax error, unexpected "),
        "an error says what is wrong");
    if (!r.whenInExpression && r.badKind == ref::T_BAD) jf_assert((unsigned char)what[19] == r.s[r.badByte] || !r.s[r.badByte], "the invalid character is shown");
    return;
  }
  if (!r.undefinedAt.empty()) {
    jf_assert(!st.ok(), "the use of an undefined variable is refused");
    std::string m = st.ToString();
    bool any = false;
    for (auto& t : r.undefinedAt)
      any = any || starts(m, "Parse Error: error: variable '" + r.text(t) + "' is not defined\n  --> line " + num(t.from.line) + ", column " + num(t.from.col) + "\n");
    jf_assert(any, "an undefined variable is named, and shown where it is used");
    return;
  }
  if (r.redefined) {
    jf_assert(!st.ok(), "a constant is not assigned again");
    std::string m = st.ToString();
    jf_assert(starts(m, "Parse Error: error: cannot re") && m.find("\n  --> line " + num(r.redefinedAt.line) + ", column " + num(r.redefinedAt.col) + "\n") != std::string::npos, "an assignment to a constant is shown where it is");
    return;
  }
  jf_assert(st.ok(), "a text of the language is accepted");
  jf_assert((bool)root, "a tree is returned");
  sameTree(r, root.get(), pipe ? want : want->c.back());
}
static const char* const g_ops[] = {"|", "^", "&", "==", "!=", "<>", "<", ">", "<=", ">=", "<<", ">>", "-", "+", "*", "/", "%", " and ", "&&", " or ", "||", " in "};
static const char* const g_un[] = {"", "-", "+", "~", "!", "not "};
// Template characters: \1 any byte, \2 a digit, \3 blank or newline, \4 a character of names, \5 a binary operator, \6 nothing or a unary operator,
// \7 any byte but a quote, backslash or newline
JF_H h_text(const uint8_t* p, uint64_t n, uint64_t pipe, uint64_t before) {
  static char buf[256];
  size_t k = 0;
  for (uint64_t i = 0; i < n; i++) {
    uint8_t c = p[i];
    if (c == 5 || c == 6) {
      uint8_t v = sym<uint8_t>("choice");
      jf_assume(v < (c == 5 ? sizeof g_ops : sizeof g_un) / sizeof(char*));
      v = (uint8_t)jf_concretize(v);
      for (const char* q = (c == 5 ? g_ops : g_un)[v]; *q; q++) buf[k++] = *q;
      continue;
    }
    if (c == 0 || c > 7) { buf[k++] = (char)c; continue; }
    uint8_t v = sym<uint8_t>("byte");
    if (c == 2) jf_assume((v >= '0') & (v <= '9'));
    if (c == 3) jf_assume((v == ' ') | (v == '\t') | (v == '\r') | (v == '\n'));
    if (c == 4) jf_assume(((v >= '0') & (v <= '9')) | ((v >= 'a') & (v <= 'z')) | ((v >= 'A') & (v <= 'Z')) | (v == '_'));
    if (c == 7) jf_assume((v != '"') & (v != '\'') & (v != '\\') & (v != '\n'));
    buf[k++] = (char)v;
  }
  judge(buf, k, pipe, before);
}
'''

# (text, pipeline)
ANY, DIG, WS, NAME, BIN, UN, PLAIN = "\1", "\2", "\3", "\4", "\5", "\6", "\7"


def spec(tier):
    q = tier == "quick"
    T = []
    # every byte in every kind of place
    one = ["1@2;", "@1;", "1@;", "1;@", "a = 1; a@;", "f(1@2);", "f(@);", "f@1);", "[1@2];", "[@];", "[1,@];", "(@);", "(1@;", "-@1;", "1.@;", "@.5;", "1.5@;", "1.5f@2;", "1u@;", "12i3@;", "1 @= 2;", "1 <@ 2;", "1 >@ 2;", "1 &@ 2;", "1 |@ 2;",
           "let@x = 1; x;", "le@ = 1;", "let @ = 2;", "x@ = 1; 2;", "x =@1; x;", "\"@\";", "'@';", "\"\\@\";", "'a\\@b';", "\"a@b\" ;$", "/*@*/1;", "/*@\n*/ $;", "/@/1;", "//@\n1;", "//@1;", "/@1;", "1; /@", "@", ";@", "1 @", "if@1,2,3);", "switch(1@2, 3);",
           "tru@;", "@rue;", "entry_ar@;", "f(entry_arg@, 1);", "exec_ct@;", "outpu@;", "1 i@ 2;", "1 @n 2;", "1 an@ 2;", "1 o@ 2;", "no@ 1;", "!@1;", "i@(1,2,3);", "swit@h(1);", "a.@;", "1..@;", "_@;", "a_@ = 1; 2;", "@\n$", "1 +\n@ 2;"]
    for x in one:
        T.append((x, 0))
    pipe = ["x@ = 1; y = x;", "when@1 { 2; }", "when 1 @ 2; }", "when 1 { 2; @", "when 1 { @; }", "when 1 { 2; } @", "whe@ 1 { 2; }", "when 1 { 2; } el@f 3 { 4; }", "when 1 { 2; } els@ { 3; }", "x = 1; when x { x = 2; y = 3;@ } x;", "when 1 { x = 1; } x@;", "let x@= 1;", "when 1 { y = 2; when y { z = y; } } elif 0 { 3; }@ else { 4; }",
            "x = 1; when 1 { let x = 2; z = x@; }", "x = [1u8,@2u8];", "x = \"@\"; y = x;", "x = 1;; @"]
    for x in pipe:
        T.append((x, 1))
    two = ["1@@2;", "@@", "1@@;", "a=1;@@;", "\"@@\";", "'@@;", "/*@@*/1;", "/@@/1;", "//@@1;", "1.@@;", "1u@@;", "let @@= 1;", "@@@;" if not q else "@;", "f(@@);", "[@@];", "[1@@];", "[1u8@@u8];", "-@@;", "x = 1; x @@ 1;", "1@ +@2;", "i@@1,2,3);", "1 @@ 2;", "1i@@;", "1f@@;", "1.5f@@;", "@1@;", "tr@@;", "\"\\@@\";"]
    if not q:
        two += ["when@1@{ 2; }", "@@ 1 { 2; }", "a@@ = 2; a;", "'\\@@';", "/*@*@*/1;", "/@@@/1;", "1@@@2;", "\"@@@\";", "'@\\@';", "@=@;", "[\"@\",\"@\"];", "f(@,@);", "o@@;", "1 o@ @;", "e@@e;", "@i@;", "0@@;", "1u1@@;", "(@@);", "(1)@@;", "(1@)@;"]
    for x in two:
        T.append((x, 0))
    # literals: every digit string
    top = {"": 2147483648, "u8": 255, "u16": 65535, "u32": 2**32 - 1, "u64": 2**64 - 1, "i8": 127, "i16": 32767, "i32": 2**31, "i64": 2**63}
    for sfx in top:
        m = str(top[sfx])
        k = 2 if q else 3
        # short ones, those around the largest, one digit more, leading zeros
        for x in {"#", "#" * k, m[:-k] + "#" * k, "#" + m[1:], m[:-2] + "##" if len(m) > 3 else "###", m + "#", "#" + m, "00" + m[:-1] + "#", m[: len(m) // 2] + "#" + m[len(m) // 2 + 1:]}:
            T.append((x + sfx + ";", 0))
        T.append(("[#" + sfx + ",#" + sfx + "];", 0))
        T.append(("-" + m[:-1] + "#" + sfx + ";", 0))
    for x in ["##.##;", ".##;", "##.;", "#.#f32;", ".#f32;", "#.f32;", "##f32;", "##f64;", "#.#f64;", "[#.#,#.];", "[#f32,.#f32];", "#.#.#;", "#.#f16;"]:
        T.append((x, 0))
    # names
    for x in ["^ = 1; 2;", "x^ = 1; 2;", "f^(1);", "x^^ = 1; x^^;" if not q else "x^ = 1; x^;", "let_^ = 1; 2;", "in^ = 1; 2;", "if^ = 1; 2;", "or^ = 1; 2;", "and^ = 1; 2;", "not^ = 1; 2;", "let^ = 1; 2;", "true^;", "output^;", "switch^ = 1; 2;", "else^ = 1; 2;", "x = 1; x ^ x;", "when^ = 1; 2;", "elif^ = 2; 3;", "entry_arg^ = 1; 1;", "exec_ctx^ = 1; 1;", "false^;"]:
        T.append((x, 0))
        if "x" in x:
            T.append((x, 1))
    # white space and positions
    for x in ["~1~~+~2~;~", "~~f~(~1~,~2~)~;", "x~=~1~;~y~=~x~;", "1~~;~~$", "~~y~;", "1~)~~;", "\"~~\"~;~$", "/*~~*/~$;", "//~\n~$", "1~+~99999999999~;", "let~x~=~1;~x~=~2;", "[~1~,~2~]~;", "-~1~;", "1.5~f32;", "1~u8;", "f~~~(1);", "/*~*/~1~/*~*/;", "\"\\~\"~;"]:
        T.append((x, 0))
        if x[0] != "[":
            T.append((x, 1))
    for x in ["~when~1~{~2~;~}~elif~3~{~4~;~}~", "when~1~{~x~=~1~;~}~x~;", "when 1 { 2; }~~else~{~3;~}~$"]:
        T.append((x, 1))
        T.append((x, 0))
    # operators against each other
    T += [("1%2%3;", 0), ("?1%?2;", 0), ("1%(2%3);", 0), ("(1%2)%3;", 0), ("?(1%2);", 0), ("a=1;b=2;?a%?b;", 1), ("f(1%2,?3)%4;", 0), ("if(1%2,3,?4);", 0)]
    if not q:
        T += [("?1%?2%?3;", 0), ("1%2%3%4;", 0), ("??1%2;", 0)]
    # statements
    for x in ["x = 1; x = x + 2; x;", "let x = 1; x = 2; x;", "x = 1; let x = 2;", "x = y; z = 1;", "x = y; x;", "x = 1 + y; z = x; z * x;", "x = f(y); x(x);", "x = -y; if(x, x, x);", "f();", "f(g(),h(1,2));", "x = [\"a\",'b'];", "switch(1,2,3);", "if(f(1),2,3);", "entry_arg; exec_ctx; output;", "1", "", ";", "x = ;", "1 2;", "f(1 2);", "f(,1);", "f(1,);", "[];", "[1,];", "[1,2u8];", "[-1];", "[true];",
              "if();", "switch();", "when 1 {}", "when {1;}", "let 1 = 2;", "let x;", "(x) = 1;", "1 = 2;", "x == ;", "((1));", "(((1)+2)*3);", "- - 1;", "not not 1;", "1 - - 1;", "1 not 2;", "1 in 2 in 3;", "a = 1; b = a; a = 2; b + a;", "a = f(1); a + a;", "1 && 2 || 3;", "1.5.2;", "1..2;", "x = 'it''s';", "\"a\" \"b\";", "/* a */ /* b */ 1;", "/* a /* b */ 1; */", "1; // end", "1; /* end"]:
        T.append((x, 0))
        T.append((x, 1))
    for x in ["when 1 { 2; } elif 3 { 4; } elif 5 { 6; } else { 7; }", "when x { 1; }", "x = 1; when x { y = x; when y { z = y; } elif z { 1; } }", "when 1 { x = 1; } y = x;", "when 1 { let x = 1; } x = 2; y = x;", "when 1 { x = 1; x = x + 1; }", "x = 1; when 1 { x = 2; } else { x = 3; } y = x;", "let c = 1; when c { c = 2; }", "when 1 { 2; } else { 3; } else { 4; }", "elif 1 { 2; }", "else { 1; }", "when 1 { when 2 { 3; } else { 4; } } else { 5; }", "x = when 1 { 2; };", "when (1) { 2; }", "when 1 2;", "when 1 { 2 }", "when 1 { 2; ", "} 1;", "when f(1) { g(output, 2); } h(3);"]:
        T.append((x, 1))
    code = dict(zip("@#~^%?", "\1\2\3\4\5\6"))
    # a builder that has read something before
    again = ["x@ = 1; y = x;", "@;", "x;@", "y = 1@;", "x = 2; y@ = x;", "\n~x = 1;@ $", "when 1 { x = 1; } x@;"]
    B = [(x, p, b) for b in range(1, 16) for x in again for p in (0, 1) if not q or (b + len(x) + p) % 3 == 0 or x == "x;@"]
    seen, jobs, h = set(), [], HEAD
    for x, p, b in [(x, p, 0) for x, p in T] + B:
        if (x, p, b) in seen:
            continue
        seen.add((x, p, b))
        # the marks are meant as themselves where a text has none of the bytes they stand for
        raw = "".join(code.get(c, c) for c in x).encode()
        k = len(jobs)
        h += f"static const uint8_t t{k}[] = {{{','.join(map(str, raw)) or '0'}}};\nJF_H h_t{k}() {{ h_text(t{k}, {len(raw)}, {p}, {b}); }}\n"
        jobs.append((f"t{k}:{'ep'[p]}{b or ''}:" + "".join(c if c.isalnum() or c in "@#~^?_;:=.,()[]{}+-<>&|!'" else "_" for c in x), f"h_t{k}", [], 300 if q else 600))
    return Spec(progs=[], harness=h, jobs=jobs, use_progs=False, athena=True, mem_mb=2500,
                bounds=f"{len(jobs)} text patterns of up to 45 bytes in both text modes: up to " + ("two" if q else "three") + " arbitrary bytes (every value) in every kind of place, every string of digits up to one longer than each literal type's largest, names, white space in every gap, texts read by a builder that read any of 15 others before, every combination of " + ("two" if q else "three") + " binary operators with unary ones",
                assumptions=["reading the digits of a floating-point literal is the C library's: that it is given the literal's text is checked",
                             "the printing of a message (numbers, positions) is replaced by code of the same format; the wording after \"syntax error, unexpected\" is not checked",
                             "hash values of strings are replaced by a constant"],
                explanation="The IR of the scanner, the parser and the tree builder reads a text with symbolic bytes, forking by what its tables say; on each path an independent reader of the language decides from the same bytes what the tree or the first error is, and the solver shows that they agree for all bytes of the path.")
