// The Athena language, written down independently of the scanner and parser
// under test: reads a text and says what tree it stands for, or where it is
// first wrong.
#pragma once
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "exec_node.h"
#include "type.h"
namespace ref {
using namespace jitfusion;
struct Pos { int line = 1, col = 1; };
enum Kind { T_END, T_BAD, T_RANGE, T_ID, T_INT, T_FLOAT, T_STR, T_WORD, T_OP };
enum Word { W_NONE, W_LET, W_WHEN, W_IF, W_ELIF, W_ELSE, W_SWITCH, W_IN, W_NOT, W_AND, W_OR, W_TRUE, W_FALSE, W_ARG, W_CTX, W_OUT };
// operators of one or two characters, two packed
constexpr int two(char a, char b) { return (unsigned char)a | (unsigned char)b << 8; }
struct Tok {
  Kind k = T_END;
  int w = 0;              // a word, or an operator's characters
  size_t b = 0, e = 0;    // where it is in the text
  Pos from, to;
  ValueType t = ValueType::kUnknown;  // a literal's type
  uint64_t v = 0;         // an integer's value
};
struct Node {
  ExecNodeType k;
  Tok lit;
  int op = 0;
  std::string name;
  std::vector<Tok> list;
  std::vector<Node*> c;
  std::vector<std::string> vars;   // a block's statements
  std::vector<bool> lets;
  Pos from, to;
  bool spanned = true;
};
struct Stop {};
class Reader {
 public:
  const unsigned char* s;
  size_t n, p = 0;
  Pos at;
  Tok t;          // the next token
  Pos lastTo;
  bool pipeline;
  bool bad = false;
  Pos badAt;
  Kind badKind = T_OP;
  size_t badByte = 0;
  std::vector<Tok> undefinedAt;
  struct Var { std::string name; Node* e; bool let; };
  std::vector<std::vector<Var>> scopes;
  bool redefined = false;
  Pos redefinedAt;
  bool whenInExpression = false;
  std::vector<Node*> statements;
  Reader(const char* text, size_t len, bool pipe) : s((const unsigned char*)text), n(len), pipeline(pipe) { scopes.emplace_back(); }

  static bool blank(unsigned char c) { return (c == ' ') | (c == '\t') | (c == '\r'); }
  static bool digit(unsigned char c) { return (c >= '0') & (c <= '9'); }
  static bool letter(unsigned char c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
  static bool inName(unsigned char c) { return letter(c) | digit(c) | (c == '_'); }
  bool is(size_t i, char c) const { return i < n && s[i] == (unsigned char)c; }
  void step(size_t k) {
    for (; k; k--, p++) {
      if (s[p] == '\n') { at.line++; at.col = 1; } else at.col++;
    }
  }
  // the length of a comment at i, or 0
  size_t comment(size_t i) const {
    if (!is(i, '/')) return 0;
    if (is(i + 1, '/')) { size_t j = i + 2; while (j < n && s[j] != '\n') j++; return j - i; }
    if (is(i + 1, '*'))
      for (size_t j = i + 2; j + 1 < n; j++) if (s[j] == '*' && s[j + 1] == '/') return j + 2 - i;
    return 0;
  }
  bool word(size_t b, size_t e, const char* w) const {
    if (strlen(w) != e - b) return false;
    bool r = true;
    for (size_t i = b; i < e; i++) r = r & (s[i] == (unsigned char)w[i - b]);
    return r;
  }
  int keyword(size_t b, size_t e) const {
    static const char* const w[] = {"", "let", "when", "if", "elif", "else", "switch", "in", "not", "and", "or", "true", "false", "entry_arg", "exec_ctx", "output"};
    for (int i = 1; i < 16; i++) if (word(b, e, w[i])) return i;
    return 0;
  }
  // the type a suffix at i gives, and its length
  ValueType suffix(size_t i, bool fp, size_t* len) const {
    static const struct { const char* s; ValueType t; } x[] = {{"u8", ValueType::kU8}, {"u16", ValueType::kU16}, {"u32", ValueType::kU32}, {"u64", ValueType::kU64},
        {"i8", ValueType::kI8}, {"i16", ValueType::kI16}, {"i32", ValueType::kI32}, {"i64", ValueType::kI64}, {"f32", ValueType::kF32}, {"f64", ValueType::kF64}};
    for (int k = fp ? 8 : 0; k < 10; k++) {
      size_t l = strlen(x[k].s);
      if (i + l <= n && word(i, i + l, x[k].s)) { *len = l; return x[k].t; }
    }
    *len = 0;
    return fp ? ValueType::kF64 : ValueType::kI32;
  }
  void number() {
    size_t i = p;
    while (i < n && digit(s[i])) i++;
    size_t d = i - p;
    bool fp = false;
    if (is(i, '.') && (d || (i + 1 < n && digit(s[i + 1])))) {
      fp = true;
      i++;
      while (i < n && digit(s[i])) i++;
    }
    size_t l;
    t.t = suffix(i, fp, &l);
    t.b = p;
    t.e = i + l;
    if (t.t == ValueType::kF32 || t.t == ValueType::kF64) { t.k = T_FLOAT; return; }
    t.k = T_INT;
    static const struct { ValueType t; const char* max; } lim[] = {{ValueType::kU8, "255"}, {ValueType::kU16, "65535"}, {ValueType::kU32, "4294967295"}, {ValueType::kU64, "18446744073709551615"},
        {ValueType::kI8, "127"}, {ValueType::kI16, "32767"}, {ValueType::kI32, "2147483648"}, {ValueType::kI64, "9223372036854775808"}};
    const char* m = "";
    for (auto& x : lim) if (x.t == t.t) m = x.max;
    // compared digit by digit, from the last
    size_t ml = strlen(m), nd = i - p;
    bool over = false;
    for (size_t k = 0; k < (nd > ml ? nd : ml); k++) {
      unsigned char x = k < nd ? s[i - 1 - k] : '0', y = k < ml ? (unsigned char)m[ml - 1 - k] : '0';
      over = (x > y) | ((x == y) & over);
    }
    uint64_t v = 0;
    for (size_t k = p; k < i; k++) v = v * 10 + (unsigned)(s[k] - '0');
    t.v = v;
    if (over) t.k = T_RANGE;
  }
  // a quoted string ends at the first such quote that no backslash precedes
  bool quoted() {
    unsigned char q = s[p];
    for (size_t i = p + 1; i < n;) {
      if (s[i] == '\\') {
        if (i + 1 >= n || s[i + 1] == '\n') return false;
        i += 2;
      } else if (s[i] == q) {
        t.k = T_STR; t.b = p; t.e = i + 1;
        return true;
      } else i++;
    }
    return false;
  }
  void advance() {
    for (;;) {
      if (p < n && (blank(s[p]) | (s[p] == '\n'))) { step(1); continue; }
      size_t c = p < n ? comment(p) : 0;
      if (!c) break;
      step(c);
    }
    lastTo = t.to;
    t = Tok();
    t.from = at;
    t.b = t.e = p;
    if (p == n) { t.k = T_END; t.to = at; return; }
    unsigned char c = s[p];
    if (letter(c)) {
      size_t i = p;
      while (i < n && inName(s[i])) i++;
      t.b = p; t.e = i;
      t.w = keyword(p, i);
      t.k = t.w ? T_WORD : T_ID;
    } else if (digit(c) || (c == '.' && p + 1 < n && digit(s[p + 1]))) {
      number();
    } else if ((c == '"' || c == '\'') && quoted()) {
    } else {
      static const char* const ops[] = {"==", "!=", "<>", "<=", ">=", "<<", ">>", "&&", "||", "{", "}", ";", "!", "-", "+", "*", "/", "(", ")", "%", "|", "^", "&", "~", "=", "<", ">", ",", "[", "]"};
      t.k = T_BAD;
      t.e = p + 1;
      for (auto o : ops) {
        size_t l = strlen(o);
        if (p + l <= n && word(p, p + l, o)) { t.k = T_OP; t.w = l == 1 ? o[0] : two(o[0], o[1]); t.e = p + l; break; }
      }
      // other spellings
      if (t.k == T_OP) {
        if (t.w == '!') { t.k = T_WORD; t.w = W_NOT; }
        else if (t.w == two('&', '&')) { t.k = T_WORD; t.w = W_AND; }
        else if (t.w == two('|', '|')) { t.k = T_WORD; t.w = W_OR; }
        else if (t.w == two('<', '>')) t.w = two('!', '=');
      }
    }
    if (t.k == T_BAD || t.k == T_RANGE) { badKind = t.k; badByte = t.b; wrong(); }
    step(t.e - t.b);
    t.to = at;
  }
  void wrong() {
    if (!bad) { bad = true; badAt = t.from; if (t.k != T_BAD && t.k != T_RANGE) badKind = t.k == T_END ? T_END : T_OP; }
    t = Tok();
    t.k = T_BAD;
  }
  bool op(int w) const { return !bad && t.k == T_OP && t.w == w; }
  bool wd(int w) const { return !bad && t.k == T_WORD && t.w == w; }
  bool want(int o) { if (!op(o)) { wrong(); return false; } advance(); return !bad; }
  Node* mk(ExecNodeType k) { Node* x = new Node; x->k = k; x->from = t.from; return x; }
  Node* done(Node* x) { x->to = lastTo; return x; }
  std::string text(const Tok& k) const { return std::string((const char*)s + k.b, k.e - k.b); }
  // -- expressions
  static int level(const Tok& t) {
    if (t.k == T_WORD) return t.w == W_OR ? 1 : t.w == W_AND ? 2 : t.w == W_IN ? 3 : 0;
    if (t.k != T_OP) return 0;
    switch (t.w) {
      case '|': return 4;
      case '^': return 5;
      case '&': return 6;
      case two('=', '='): case two('!', '='): return 7;
      case '<': case '>': case two('<', '='): case two('>', '='): return 8;
      case two('<', '<'): case two('>', '>'): return 9;
      case '-': case '+': return 10;
      case '*': case '/': case '%': return 11;
    }
    return 0;
  }
  static BinaryOPType binary(const Tok& t) {
    if (t.k == T_WORD) return t.w == W_OR ? BinaryOPType::kOr : BinaryOPType::kAnd;
    switch (t.w) {
      case '|': return BinaryOPType::kBitwiseOr;
      case '^': return BinaryOPType::kBitwiseXor;
      case '&': return BinaryOPType::kBitwiseAnd;
      case two('=', '='): return BinaryOPType::kEqual;
      case two('!', '='): return BinaryOPType::kNotEqual;
      case '<': return BinaryOPType::kLess;
      case '>': return BinaryOPType::kLarge;
      case two('<', '='): return BinaryOPType::kLessEqual;
      case two('>', '='): return BinaryOPType::kLargeEqual;
      case two('<', '<'): return BinaryOPType::kBitwiseShiftLeft;
      case two('>', '>'): return BinaryOPType::kBitwiseShiftRight;
      case '-': return BinaryOPType::kSub;
      case '+': return BinaryOPType::kAdd;
      case '*': return BinaryOPType::kMul;
      case '/': return BinaryOPType::kDiv;
    }
    return BinaryOPType::kMod;
  }
  // a phrase: its tree, and the text it takes up, parentheses included
  struct Sym { Node* n = nullptr; Pos from, to; };
  Sym finish(Node* x, Pos from) {
    if (bad) return {};
    x->from = from; x->to = lastTo;
    return {x, from, lastTo};
  }
  Sym expr(int least = 1) { return rest(operand(), least); }
  Sym arguments(Node* x, Pos from) {   // after the opening parenthesis
    for (;;) {
      Sym a = expr();
      if (bad) return {};
      x->c.push_back(a.n);
      if (op(',')) { advance(); if (bad) return {}; continue; }
      if (!want(')')) return {};
      return finish(x, from);
    }
  }
  static bool literal(const Tok& k) { return k.k == T_INT || k.k == T_FLOAT || k.k == T_STR; }
  Sym operand() {
    if (bad) return {};
    Pos from = t.from;
    Tok o = t;
    if (literal(t)) {
      Node* x = mk(ExecNodeType::kConstValueNode);
      x->lit = t;
      advance();
      // a word that is no operator cannot follow, but that is for who called to say
      return finish(x, from);
    }
    if (wd(W_TRUE) || wd(W_FALSE)) {
      Node* x = mk(ExecNodeType::kConstValueNode);
      x->lit = t; x->lit.k = T_INT; x->lit.t = ValueType::kU8; x->lit.v = t.w == W_TRUE;
      advance();
      return finish(x, from);
    }
    if (wd(W_ARG) || wd(W_CTX) || wd(W_OUT)) {
      Node* x = mk(t.w == W_ARG ? ExecNodeType::kEntryArgumentNode : t.w == W_CTX ? ExecNodeType::kExecContextNode : ExecNodeType::kOutputNode);
      advance();
      return finish(x, from);
    }
    if (op('-') || op('+') || op('~') || wd(W_NOT)) {
      Node* x = mk(ExecNodeType::kUnaryOPNode);
      x->op = (int)(t.k == T_WORD ? UnaryOPType::kNot : t.w == '-' ? UnaryOPType::kMinus : t.w == '+' ? UnaryOPType::kPlus : UnaryOPType::kBitwiseNot);
      advance();
      Sym a = operand();
      if (bad) return {};
      x->c = {a.n};
      x->from = from; x->to = a.to;
      return {x, from, a.to};
    }
    if (op('(')) {
      advance();
      Sym a = expr();
      if (!want(')') && bad) return {};
      return {a.n, from, lastTo};
    }
    if (op('[')) {
      advance();
      if (bad) return {};
      if (!literal(t)) { wrong(); return {}; }
      Node* x = mk(ExecNodeType::kConstListValueNode);
      Kind k = t.k;
      ValueType ty = t.t;
      for (;;) {
        if (bad) return {};
        if (!literal(t) || t.k != k || t.t != ty) { wrong(); return {}; }
        x->list.push_back(t);
        advance();
        if (op(',')) { advance(); continue; }
        if (!want(']')) return {};
        return finish(x, from);
      }
    }
    if (wd(W_IF) || wd(W_SWITCH)) {
      Node* x = mk(t.w == W_IF ? ExecNodeType::kIfNode : ExecNodeType::kSwitchNode);
      advance();
      if (!want('(')) return {};
      return arguments(x, from);
    }
    if (t.k == T_ID) {
      advance();
      return named(o, from);
    }
    wrong();
    return {};
  }
  // after a name
  Sym named(const Tok& o, Pos from) {
    if (bad) return {};
    if (op('(')) {
      Node* x = mk(ExecNodeType::kFunctionNode);
      x->name = text(o);
      advance();
      if (bad) return {};
      if (op(')')) { advance(); return finish(x, from); }
      return arguments(x, from);
    }
    std::string name = text(o);
    for (size_t d = scopes.size(); d-- > 0;) {
      for (size_t i = scopes[d].size(); i-- > 0;) {
        if (scopes[d][i].name != name) continue;
        Node* x = mk(ExecNodeType::kRefNode);
        if (pipeline) x->name = name;
        else if (scopes[d][i].e) *x = *scopes[d][i].e;
        else x = nullptr;
        if (!x) return {nullptr, from, lastTo};
        return finish(x, from);
      }
    }
    undefinedAt.push_back(o);
    return {nullptr, from, lastTo};
  }
  void define(const std::string& name, Node* e, bool let) {
    if (!pipeline && undefinedAt.empty() && !redefined)
      for (auto& v : scopes[0])
        if (v.name == name && (last(name)->let || let)) { redefined = true; redefinedAt = e ? e->from : Pos(); break; }
    scopes.back().push_back({name, e, let});
  }
  Var* last(const std::string& name) {
    for (size_t i = scopes[0].size(); i-- > 0;) if (scopes[0][i].name == name) return &scopes[0][i];
    return nullptr;
  }
  struct Block { std::vector<std::string> names; std::vector<bool> lets; std::vector<Node*> e; };
  void statement(Block& b) {
    Pos from = t.from;
    if (wd(W_WHEN)) {
      Node* x = mk(ExecNodeType::kIfBlockNode);
      advance();
      for (bool first = true;; first = false) {
        if (!first && wd(W_ELSE)) { advance(); }
        else {
          if (!first) { if (!wd(W_ELIF)) break; advance(); }
          Sym c = expr();
          if (bad) return;
          x->c.push_back(c.n);
        }
        if (!want('{')) return;
        x->c.push_back(block());
        if (bad) return;
        if (!want('}')) return;
      }
      if (bad) return;
      if (!pipeline) { bad = true; whenInExpression = true; badAt = from; return; }
      finish(x, from);
      b.names.push_back(""); b.lets.push_back(false); b.e.push_back(x);
      return;
    }
    bool let = wd(W_LET);
    if (let) advance();
    if (bad) return;
    std::string name;
    Sym e;
    if (t.k == T_ID) {
      Tok o = t;
      advance();
      if (bad) return;
      if (let || op('=')) {
        name = text(o);
        if (!want('=')) return;
        e = expr();
      } else {
        e = rest(named(o, from));
      }
    } else {
      if (let) { wrong(); return; }
      e = expr();
    }
    if (bad) return;
    if (!op(';')) { wrong(); return; }
    // the variable exists once the statement has ended: what follows is not looked at first
    if (!name.empty()) define(name, e.n, let);
    b.names.push_back(name); b.lets.push_back(let); b.e.push_back(e.n);
    advance();
  }
  // the operators that follow a first operand
  Sym rest(Sym l, int least = 1) {
    while (!bad) {
      int v = level(t);
      if (!v || v < least) break;
      Tok o = t;
      advance();
      if (bad) break;
      Sym r = expr(v + 1);
      if (bad) break;
      Node* x = mk(v == 3 ? ExecNodeType::kFunctionNode : ExecNodeType::kBinaryOPNode);
      if (v == 3) x->name = "in"; else x->op = (int)binary(o);
      x->c = {l.n, r.n};
      x->from = l.from; x->to = r.to;
      l = {x, l.from, r.to};
    }
    return l;
  }
  Node* block() {
    if (bad) return nullptr;
    scopes.emplace_back();
    Block b;
    do statement(b); while (!bad && !op('}'));
    scopes.pop_back();
    if (bad) return nullptr;
    Node* x = mk(ExecNodeType::kNoOPNode);
    x->spanned = false;
    x->c = b.e; x->vars = b.names; x->lets = b.lets;
    return x;
  }
  // the whole text
  Node* read() {
    advance();
    Block b;
    do statement(b); while (!bad && t.k != T_END);
    if (bad) return nullptr;
    Node* x = mk(ExecNodeType::kNoOPNode);
    x->spanned = false;
    x->c = b.e; x->vars = b.names; x->lets = b.lets;
    return x;
  }
};
}  // namespace ref
