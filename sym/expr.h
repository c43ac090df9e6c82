// Hash-consed bit-vector expression DAG with aggressive local simplification,
// concrete evaluation under a model, and translation to Z3.
#pragma once
#include <algorithm>
#include <cmath>
#include <iterator>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace jfsym {

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT, O_FMA, O_FRND, O_FREM,
  O_FOEQ, O_FOLT, O_FOLE, O_FUNO,
  O_FPTRUNC, O_FPEXT, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI,
  O_UF,
};

enum Rnd { R_NE = 0, R_NA = 1, R_TP = 2, R_TN = 3, R_TZ = 4 };

struct Expr {
  Op op;
  uint8_t nk;
  bool uninit;   // depends on an uninitialised byte
  uint16_t w;
  uint32_t id;
  uint64_t aux;  // VAR: var id; EXTRACT: low bit; FRND: mode; UF: name id
  u128 val;      // CONST
  const Expr* k[3];
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sx(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (s128)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; bool uninit; };

struct Model { std::vector<u128> v; u128 get(uint64_t i) const { return i < v.size() ? v[i] : 0; } };

class Ctx {
 public:
  std::vector<VarInfo> vars;
  std::vector<std::string> ufs;
  E True, False;
  Ctx() {
    tab_.assign(1 << 16, nullptr);
    True = C(1, 1);
    False = C(1, 0);
  }
  size_t numNodes() const { return n_; }

  E C(unsigned w, u128 v) { return mk(O_CONST, w, 0, v & maskw(w), nullptr, nullptr, nullptr); }
  E Var(const std::string& name, unsigned w, bool uninit = false) {
    vars.push_back({name, w, uninit});
    return mk(O_VAR, w, vars.size() - 1, 0, nullptr, nullptr, nullptr, uninit);
  }
  E B(bool b) { return b ? True : False; }
  static bool isC(E e) { return e->op == O_CONST; }
  static bool isZ(E e) { return e->op == O_CONST && e->val == 0; }
  static bool isOnes(E e) { return e->op == O_CONST && e->val == maskw(e->w); }

  E Not(E a) { return Xor(a, C(a->w, ~(u128)0)); }
  E Neg(E a) { return Sub(C(a->w, 0), a); }

  E Add(E a, E b) {
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return C(a->w, a->val + b->val);
    if (isZ(b)) return a;
    if (a->w == 1) return Xor(a, b);
    if (isC(b) && a->op == O_ADD && isC(a->k[1])) return Add(a->k[0], C(a->w, a->k[1]->val + b->val));
    if (isC(b) && a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], Add(a->k[1], b), Add(a->k[2], b));
    // (x - y) + y
    if (a->op == O_SUB && a->k[1] == b) return a->k[0];
    if (b->op == O_SUB && b->k[1] == a) return b->k[0];
    // float constants outwards
    if (!isC(b)) {
      if (a->op == O_ADD && isC(a->k[1])) return Add(Add(a->k[0], b), a->k[1]);
      if (b->op == O_ADD && isC(b->k[1])) return Add(Add(a, b->k[0]), b->k[1]);
      if (a->id > b->id) std::swap(a, b);
    }
    return mk(O_ADD, a->w, 0, 0, a, b);
  }
  E Sub(E a, E b) {
    if (a == b) return C(a->w, 0);
    if (isC(a) && isC(b)) return C(a->w, a->val - b->val);
    if (isC(b)) return Add(a, C(a->w, -b->val));
    if (a->w == 1) return Xor(a, b);
    // (x + c) - x, (x + y) - y
    if (a->op == O_ADD) {
      if (a->k[0] == b) return a->k[1];
      if (a->k[1] == b) return a->k[0];
      if (isC(a->k[1])) return Add(Sub(a->k[0], b), a->k[1]);
    }
    if (b->op == O_ADD && isC(b->k[1])) return Add(Sub(a, b->k[0]), C(a->w, -b->k[1]->val));
    return mk(O_SUB, a->w, 0, 0, a, b);
  }
  E Mul(E a, E b) {
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return C(a->w, a->val * b->val);
    if (isZ(b)) return b;
    if (isC(b) && b->val == 1) return a;
    if (a->w == 1) return And(a, b);
    if (isC(b) && (b->val & (b->val - 1)) == 0) {
      unsigned s = 0;
      while (!((b->val >> s) & 1)) s++;
      return Shl(a, C(a->w, s));
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(O_MUL, a->w, 0, 0, a, b);
  }
  E UDiv(E a, E b) {
    if (isC(b) && b->val == 1) return a;
    if (isC(a) && isC(b) && b->val) return C(a->w, a->val / b->val);
    if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) {
      unsigned s = 0;
      while (!((b->val >> s) & 1)) s++;
      return LShr(a, C(a->w, s));
    }
    return mk(O_UDIV, a->w, 0, 0, a, b);
  }
  E URem(E a, E b) {
    if (isC(b) && b->val == 1) return C(a->w, 0);
    if (isC(a) && isC(b) && b->val) return C(a->w, a->val % b->val);
    if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return And(a, C(a->w, b->val - 1));
    return mk(O_UREM, a->w, 0, 0, a, b);
  }
  E SDiv(E a, E b) {
    if (isC(b) && b->val == 1 && a->w > 1) return a;
    if (isC(a) && isC(b) && b->val) return C(a->w, sdivv(a->val, b->val, a->w));
    return mk(O_SDIV, a->w, 0, 0, a, b);
  }
  E SRem(E a, E b) {
    if (isC(a) && isC(b) && b->val) return C(a->w, sremv(a->val, b->val, a->w));
    return mk(O_SREM, a->w, 0, 0, a, b);
  }
  static u128 sdivv(u128 a, u128 b, unsigned w) {
    s128 x = sx(a, w), y = sx(b, w);
    if (y == -1) return (u128)0 - (u128)x;
    return (u128)(x / y);
  }
  static u128 sremv(u128 a, u128 b, unsigned w) {
    s128 x = sx(a, w), y = sx(b, w);
    if (y == -1) return 0;
    return (u128)(x % y);
  }
  E And(E a, E b) {
    if (a == b) return a;
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return C(a->w, a->val & b->val);
    if (isZ(b)) return b;
    if (isOnes(b)) return a;
    if (isC(b) && a->op == O_AND && isC(a->k[1])) return And(a->k[0], C(a->w, a->k[1]->val & b->val));
    if (isC(b) && a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return Ite(a->k[0], And(a->k[1], b), And(a->k[2], b));
    if (isC(b) && a->op == O_ZEXT) {
      if (b->val == maskw(a->k[0]->w)) return a;
      return ZExt(And(a->k[0], C(a->k[0]->w, b->val)), a->w);
    }
    if (isC(b)) {  // low mask -> zext(extract)
      u128 m = b->val;
      if ((m & (m + 1)) == 0 && m) {
        unsigned n = 0;
        while ((m >> n) & 1) n++;
        if (a->op == O_CONCAT || a->op == O_SEXT || a->op == O_EXTRACT) return ZExt(Extract(a, 0, n), a->w);
      }
    }
    if (a->w == 1 && (isNotOf(a, b))) return False;
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(O_AND, a->w, 0, 0, a, b);
  }
  E Or(E a, E b) {
    if (a == b) return a;
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return C(a->w, a->val | b->val);
    if (isZ(b)) return a;
    if (isOnes(b)) return b;
    if (isC(b) && a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], Or(a->k[1], b), Or(a->k[2], b));
    if (a->w == 1 && isNotOf(a, b)) return True;
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return ZExt(Or(a->k[0], b->k[0]), a->w);
    // zext(lo) | (zext(hi) << n)  -> concat
    if (E r = orConcat(a, b)) return r;
    if (E r = orConcat(b, a)) return r;
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(O_OR, a->w, 0, 0, a, b);
  }
  E orConcat(E lo, E hi) {
    // hi = CONCAT(h, 0_n), lo = ZEXT(l) with l.w <= n
    if (hi->op == O_CONCAT && isZ(hi->k[1]) && lo->op == O_ZEXT && lo->k[0]->w <= hi->k[1]->w)
      return Concat(hi->k[0], ZExt(lo->k[0], hi->k[1]->w));
    return nullptr;
  }
  bool isNotOf(E a, E b) {
    return (a->op == O_XOR && isOnes(a->k[1]) && a->k[0] == b) || (b->op == O_XOR && isOnes(b->k[1]) && b->k[0] == a);
  }
  E Xor(E a, E b) {
    if (a == b) return C(a->w, 0);
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return C(a->w, a->val ^ b->val);
    if (isZ(b)) return a;
    if (isC(b) && a->op == O_XOR && isC(a->k[1])) return Xor(a->k[0], C(a->w, a->k[1]->val ^ b->val));
    if (a->w == 1 && isC(b)) {
      // negate comparisons
      if (a->op == O_ULT) return Ule(a->k[1], a->k[0]);
      if (a->op == O_ULE) return Ult(a->k[1], a->k[0]);
      if (a->op == O_SLT) return Sle(a->k[1], a->k[0]);
      if (a->op == O_SLE) return Slt(a->k[1], a->k[0]);
    }
    if (isC(b) && a->op == O_ZEXT && b->val <= maskw(a->k[0]->w)) return ZExt(Xor(a->k[0], C(a->k[0]->w, b->val)), a->w);
    if (isC(b) && a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], Xor(a->k[1], b), Xor(a->k[2], b));
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(O_XOR, a->w, 0, 0, a, b);
  }
  E Shl(E a, E b) {
    if (isZ(b) || isZ(a)) return a;
    if (isC(b)) {
      if (b->val >= a->w) return C(a->w, 0);
      if (isC(a)) return C(a->w, a->val << (unsigned)b->val);
      unsigned s = (unsigned)b->val;
      return Concat(Extract(a, 0, a->w - s), C(s, 0));
    }
    return mk(O_SHL, a->w, 0, 0, a, b);
  }
  E LShr(E a, E b) {
    if (isZ(b) || isZ(a)) return a;
    if (isC(b)) {
      if (b->val >= a->w) return C(a->w, 0);
      if (isC(a)) return C(a->w, a->val >> (unsigned)b->val);
      unsigned s = (unsigned)b->val;
      return ZExt(Extract(a, s, a->w - s), a->w);
    }
    return mk(O_LSHR, a->w, 0, 0, a, b);
  }
  E AShr(E a, E b) {
    if (isZ(b) || isZ(a)) return a;
    if (isC(b)) {
      unsigned s = b->val >= a->w ? a->w - 1 : (unsigned)b->val;
      if (isC(a)) return C(a->w, (u128)(sx(a->val, a->w) >> s));
      return SExt(Extract(a, s, a->w - s), a->w);
    }
    return mk(O_ASHR, a->w, 0, 0, a, b);
  }
  E Eq(E a, E b) {
    if (a == b) return True;
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return B(a->val == b->val);
    if (a->w == 1) {
      if (isC(b)) return b->val ? a : Not(a);
    }
    if (isC(b)) {
      if (a->op == O_ITE) {
        if (isC(a->k[1]) && isC(a->k[2])) {
          bool t = a->k[1]->val == b->val, f = a->k[2]->val == b->val;
          if (t && f) return True;
          if (!t && !f) return False;
          return t ? a->k[0] : Not(a->k[0]);
        }
        if (isC(a->k[1])) {
          E r = Eq(a->k[2], b);
          return a->k[1]->val == b->val ? Or(a->k[0], r) : And(Not(a->k[0]), r);
        }
        if (isC(a->k[2])) {
          E r = Eq(a->k[1], b);
          return a->k[2]->val == b->val ? Or(Not(a->k[0]), r) : And(a->k[0], r);
        }
      }
      if (a->op == O_ZEXT) {
        if (b->val > maskw(a->k[0]->w)) return False;
        return Eq(a->k[0], C(a->k[0]->w, b->val));
      }
      if (a->op == O_SEXT) {
        unsigned iw = a->k[0]->w;
        if (((u128)sx(b->val & maskw(iw), iw) & maskw(a->w)) != b->val) return False;
        return Eq(a->k[0], C(iw, b->val));
      }
      if (a->op == O_ADD && isC(a->k[1])) return Eq(a->k[0], C(a->w, b->val - a->k[1]->val));
      if (a->op == O_XOR && isC(a->k[1])) return Eq(a->k[0], C(a->w, b->val ^ a->k[1]->val));
      if (a->op == O_CONCAT) {
        unsigned lw = a->k[1]->w;
        return And(Eq(a->k[0], C(a->k[0]->w, b->val >> lw)), Eq(a->k[1], C(lw, b->val)));
      }
    } else {
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return Eq(a->k[0], b->k[0]);
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return Eq(a->k[0], b->k[0]);
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[0]->w == b->k[0]->w)
        return And(Eq(a->k[0], b->k[0]), Eq(a->k[1], b->k[1]));
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(O_EQ, 1, 0, 0, a, b);
  }
  E Ne(E a, E b) { return Not(Eq(a, b)); }
  E Ult(E a, E b) {
    if (a == b) return False;
    if (isC(a) && isC(b)) return B(a->val < b->val);
    if (isZ(b)) return False;
    if (isC(b) && b->val == 1) return Eq(a, C(a->w, 0));
    if (isOnes(a)) return False;
    if (a->w == 1) return And(Not(a), b);
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return Ult(a->k[0], b->k[0]);
    if (a->op == O_ZEXT && isC(b)) {
      if (b->val > maskw(a->k[0]->w)) return True;
      return Ult(a->k[0], C(a->k[0]->w, b->val));
    }
    if (b->op == O_ZEXT && isC(a)) {
      if (a->val >= maskw(b->k[0]->w)) return False;
      return Ult(C(b->k[0]->w, a->val), b->k[0]);
    }
    if (isC(b) && a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], Ult(a->k[1], b), Ult(a->k[2], b));
    return mk(O_ULT, 1, 0, 0, a, b);
  }
  E Ule(E a, E b) {
    if (a == b) return True;
    if (isC(a) && isC(b)) return B(a->val <= b->val);
    if (isZ(a) || isOnes(b)) return True;
    if (isZ(b)) return Eq(a, b);
    if (isC(b)) return Ult(a, C(a->w, b->val + 1));
    if (isC(a)) return Ult(C(a->w, a->val - 1), b);
    if (a->w == 1) return Or(Not(a), b);
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return Ule(a->k[0], b->k[0]);
    return mk(O_ULE, 1, 0, 0, a, b);
  }
  E Slt(E a, E b) {
    if (a == b) return False;
    if (isC(a) && isC(b)) return B(sx(a->val, a->w) < sx(b->val, b->w));
    if (a->w == 1) return And(a, Not(b));
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return Ult(a->k[0], b->k[0]);
    if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return Slt(a->k[0], b->k[0]);
    if (a->op == O_ZEXT && isC(b)) return sx(b->val, b->w) <= 0 ? False : Ult(a, b);
    if (b->op == O_ZEXT && isC(a)) return sx(a->val, a->w) < 0 ? True : Ult(a, b);
    if (isC(b) && a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], Slt(a->k[1], b), Slt(a->k[2], b));
    return mk(O_SLT, 1, 0, 0, a, b);
  }
  E Sle(E a, E b) {
    if (a == b) return True;
    if (isC(a) && isC(b)) return B(sx(a->val, a->w) <= sx(b->val, b->w));
    u128 mx = maskw(a->w - 1), mn = (u128)1 << (a->w - 1);
    if (a->w > 1) {
      if (isC(b) && b->val != mx) return Slt(a, C(a->w, b->val + 1));
      if (isC(b)) return True;
      if (isC(a) && a->val != mn) return Slt(C(a->w, a->val - 1), b);
      if (isC(a)) return True;
    }
    if (a->w == 1) return Or(a, Not(b));
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return Ule(a->k[0], b->k[0]);
    if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return Sle(a->k[0], b->k[0]);
    return mk(O_SLE, 1, 0, 0, a, b);
  }
  E Ite(E c, E a, E b) {
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    if (c->op == O_XOR && isOnes(c->k[1])) return Ite(c->k[0], b, a);
    if (a->w == 1) {
      if (isC(a) && isC(b)) return a->val ? c : Not(c);
      if (isC(a)) return a->val ? Or(c, b) : And(Not(c), b);
      if (isC(b)) return b->val ? Or(Not(c), a) : And(c, a);
    }
    if (a->op == O_ITE && a->k[0] == c) return Ite(c, a->k[1], b);
    if (b->op == O_ITE && b->k[0] == c) return Ite(c, a, b->k[2]);
    return mk(O_ITE, a->w, 0, 0, c, a, b);
  }
  E Concat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo) && w <= 128) return C(w, (hi->val << lo->w) | lo->val);
    if (isZ(hi)) return ZExt(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
      return Extract(hi->k[0], lo->aux, w);
    if (lo->op == O_CONCAT) {  // right-nested -> try merging hi with lo.hi, keep left-nested
      return Concat(Concat(hi, lo->k[0]), lo->k[1]);
    }
    // (x ++ ext(y,..)) ++ ext(y,..)
    if (hi->op == O_CONCAT && lo->op == O_EXTRACT && hi->k[1]->op == O_EXTRACT && hi->k[1]->k[0] == lo->k[0] &&
        hi->k[1]->aux == lo->aux + lo->w)
      return Concat(hi->k[0], Extract(lo->k[0], lo->aux, lo->w + hi->k[1]->w));
    if (hi->op == O_CONCAT && isC(hi->k[1]) && isC(lo) && hi->k[1]->w + lo->w <= 128)
      return Concat(hi->k[0], C(hi->k[1]->w + lo->w, (hi->k[1]->val << lo->w) | lo->val));
    if (hi->op == O_ZEXT) return ZExt(Concat(hi->k[0], lo), w);
    if (hi->op == O_ITE && lo->op == O_ITE && hi->k[0] == lo->k[0])
      return Ite(hi->k[0], Concat(hi->k[1], lo->k[1]), Concat(hi->k[2], lo->k[2]));
    return mk(O_CONCAT, w, 0, 0, hi, lo);
  }
  // bits that hold the value as a signed / an unsigned number
  unsigned sfit(E a) {
    if (a->op == O_SEXT) return a->k[0]->w;
    if (a->op == O_ZEXT) return a->k[0]->w + 1;
    if (a->op == O_CONST && a->w <= 64) {
      int64_t v = (int64_t)(uint64_t)a->val << (64 - a->w) >> (64 - a->w);
      unsigned n = 1;
      while (n < a->w && (v < -((int64_t)1 << (n - 1)) || v > ((int64_t)1 << (n - 1)) - 1)) n++;
      return n;
    }
    return a->w;
  }
  unsigned ufit(E a) {
    if (a->op == O_ZEXT) return a->k[0]->w;
    if (a->op == O_CONST && a->w <= 64) { unsigned n = 1; while (n < a->w && ((uint64_t)a->val >> n)) n++; return n; }
    return a->w;
  }
  E Extract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
      case O_CONST: return C(w, a->val >> lo);
      case O_EXTRACT: return Extract(a->k[0], a->aux + lo, w);
      case O_CONCAT: {
        unsigned lw = a->k[1]->w;
        if (lo + w <= lw) return Extract(a->k[1], lo, w);
        if (lo >= lw) return Extract(a->k[0], lo - lw, w);
        return Concat(Extract(a->k[0], 0, lo + w - lw), Extract(a->k[1], lo, lw - lo));
      }
      case O_ZEXT: {
        unsigned iw = a->k[0]->w;
        if (lo >= iw) return C(w, 0);
        if (lo + w <= iw) return Extract(a->k[0], lo, w);
        return ZExt(Extract(a->k[0], lo, iw - lo), w);
      }
      case O_SEXT: {
        unsigned iw = a->k[0]->w;
        if (lo + w <= iw) return Extract(a->k[0], lo, w);
        if (lo < iw) return SExt(Extract(a->k[0], lo, iw - lo), w);
        return SExt(Extract(a->k[0], iw - 1, 1), w);
      }
      case O_AND: case O_OR: case O_XOR:
        return bit(a->op, Extract(a->k[0], lo, w), Extract(a->k[1], lo, w));
      case O_ADD: case O_SUB: case O_MUL:
        if (lo == 0) {
          E x = Extract(a->k[0], 0, w), y = Extract(a->k[1], 0, w);
          return a->op == O_ADD ? Add(x, y) : a->op == O_SUB ? Sub(x, y) : Mul(x, y);
        }
        break;
      case O_SDIV: case O_SREM: case O_UDIV: case O_UREM:
        // the low bits of a division whose operands fit them (SMT-LIB meaning of division by zero included)
        if (lo == 0) {
          bool sg = a->op == O_SDIV || a->op == O_SREM;
          if (sg ? (sfit(a->k[0]) <= w && sfit(a->k[1]) <= w) : (ufit(a->k[0]) <= w && ufit(a->k[1]) <= w)) {
            E x = Extract(a->k[0], 0, w), y = Extract(a->k[1], 0, w);
            return a->op == O_SDIV ? SDiv(x, y) : a->op == O_SREM ? SRem(x, y) : a->op == O_UDIV ? UDiv(x, y) : URem(x, y);
          }
        }
        break;
      case O_ITE:
        if (isC(a->k[1]) || isC(a->k[2]) || a->k[1]->op == O_ITE || a->k[2]->op == O_ITE || a->k[1]->op==O_CONCAT || a->k[1]->op==O_ZEXT)
          return Ite(a->k[0], Extract(a->k[1], lo, w), Extract(a->k[2], lo, w));
        break;
      default: break;
    }
    return mk(O_EXTRACT, w, lo, 0, a);
  }
  E bit(Op o, E a, E b) { return o == O_AND ? And(a, b) : o == O_OR ? Or(a, b) : Xor(a, b); }
  E ZExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (w < a->w) return Extract(a, 0, w);
    if (isC(a)) return C(w, a->val);
    if (a->op == O_ZEXT) return ZExt(a->k[0], w);
    if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], ZExt(a->k[1], w), ZExt(a->k[2], w));
    return mk(O_ZEXT, w, 0, 0, a);
  }
  E SExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (w < a->w) return Extract(a, 0, w);
    if (isC(a)) return C(w, (u128)sx(a->val, a->w));
    if (a->op == O_SEXT) return SExt(a->k[0], w);
    if (a->op == O_ZEXT) return ZExt(a->k[0], w);
    if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return Ite(a->k[0], SExt(a->k[1], w), SExt(a->k[2], w));
    return mk(O_SEXT, w, 0, 0, a);
  }
  // ---- floating point (operands are bit patterns, width 32 or 64) ----
  E F2(Op o, E a, E b) {
    if (isC(a) && isC(b)) return C(a->w, fop2(o, a->val, b->val, a->w));
    if ((o == O_FADD || o == O_FMUL) && a->id > b->id) std::swap(a, b);
    return mk(o, a->w, 0, 0, a, b);
  }
  E F1(Op o, E a, unsigned w, uint64_t aux = 0) {
    if (isC(a)) return C(w, fop1(o, a->val, a->w, w, aux));
    return mk(o, w, aux, 0, a);
  }
  E Fma(E a, E b, E c) {
    if (isC(a) && isC(b) && isC(c)) return C(a->w, fma3(a->val, b->val, c->val, a->w));
    return mk(O_FMA, a->w, 0, 0, a, b, c);
  }
  E FCmp(Op o, E a, E b) {
    if (isC(a) && isC(b)) return B(fcmp(o, a->val, b->val, a->w));
    if ((o == O_FOEQ || o == O_FUNO) && a->id > b->id) std::swap(a, b);
    return mk(o, 1, 0, 0, a, b);
  }
  E FIsNan(E a) {
    if (a->w == 64) return Ult(C(64, 0x7ff0000000000000ull), And(a, C(64, 0x7fffffffffffffffull)));
    return Ult(C(32, 0x7f800000u), And(a, C(32, 0x7fffffffu)));
  }
  unsigned ufId(const std::string& n) {
    for (size_t i = 0; i < ufs.size(); i++)
      if (ufs[i] == n) return i;
    ufs.push_back(n);
    return ufs.size() - 1;
  }
  E Uf(const std::string& n, unsigned w, std::vector<E> a) {
    bool allc = true;
    for (auto e : a) allc &= isC(e);
    if (allc && ufConcrete(n)) {
      u128 v[3] = {0, 0, 0};
      for (size_t i = 0; i < a.size(); i++) v[i] = a[i]->val;
      return C(w, ufEval(n, v, a[0]->w, w));
    }
    return mk(O_UF, w, ufId(n), 0, a.size() > 0 ? a[0] : nullptr, a.size() > 1 ? a[1] : nullptr, a.size() > 2 ? a[2] : nullptr);
  }
  static bool ufConcrete(const std::string& n) { return n[0] == 'm' && n[1] == ':'; }
  static double asD(u128 v, unsigned w) {
    if (w == 64) { double d; uint64_t x = (uint64_t)v; memcpy(&d, &x, 8); return d; }
    float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f;
  }
  static u128 ofD(double d, unsigned w) {
    if (w == 64) { uint64_t x; memcpy(&x, &d, 8); return x; }
    float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x;
  }
  static u128 ufEval(const std::string& n, const u128* v, unsigned aw, unsigned rw) {
    std::string f = n.size() > 2 ? n.substr(2) : n;
    double a = asD(v[0], aw), b = asD(v[1], aw);
    if (aw == 32) {
      float x = (float)a, y = (float)b, r = 0;
      if (f == "exp") r = expf(x); else if (f == "log") r = logf(x); else if (f == "log2") r = log2f(x);
      else if (f == "log10") r = log10f(x); else if (f == "sin") r = sinf(x); else if (f == "cos") r = cosf(x);
      else if (f == "tan") r = tanf(x); else if (f == "pow") r = powf(x, y); else if (f == "fmod") r = fmodf(x, y);
      return ofD(r, 32);
    }
    double r = 0;
    if (f == "exp") r = exp(a); else if (f == "log") r = log(a); else if (f == "log2") r = log2(a);
    else if (f == "log10") r = log10(a); else if (f == "sin") r = sin(a); else if (f == "cos") r = cos(a);
    else if (f == "tan") r = tan(a); else if (f == "pow") r = pow(a, b); else if (f == "fmod") r = fmod(a, b);
    return ofD(r, rw);
  }
  static u128 fop2(Op o, u128 a, u128 b, unsigned w) {
    if (w == 32) {
      float x = (float)asD(a, 32), y = (float)asD(b, 32), r = 0;
      switch (o) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break;
        case O_FDIV: r = x / y; break; case O_FREM: r = fmodf(x, y); break; default: break; }
      uint32_t u; memcpy(&u, &r, 4); return u;
    }
    double x = asD(a, 64), y = asD(b, 64), r = 0;
    switch (o) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break;
      case O_FDIV: r = x / y; break; case O_FREM: r = fmod(x, y); break; default: break; }
    return ofD(r, 64);
  }
  static u128 fma3(u128 a, u128 b, u128 c, unsigned w) {
    if (w == 32) { float r = fmaf(asD(a, 32), asD(b, 32), asD(c, 32)); uint32_t u; memcpy(&u, &r, 4); return u; }
    return ofD(fma(asD(a, 64), asD(b, 64), asD(c, 64)), 64);
  }
  static u128 fop1(Op o, u128 a, unsigned w, unsigned rw, uint64_t aux) {
    switch (o) {
      case O_FSQRT: return w == 32 ? ofD(sqrtf((float)asD(a, 32)), 32) : ofD(sqrt(asD(a, 64)), 64);
      case O_FRND: {
        double x = asD(a, w), r = 0;
        switch (aux) { case R_NE: r = nearbyint(x); break; case R_NA: r = round(x); break; case R_TP: r = ceil(x); break;
          case R_TN: r = floor(x); break; default: r = trunc(x); }
        return ofD(r, w);
      }
      case O_FPTRUNC: { float f = (float)asD(a, 64); uint32_t u; memcpy(&u, &f, 4); return u; }
      case O_FPEXT: return ofD(asD(a, 32), 64);
      case O_SITOFP: { s128 v = sx(a, w); if (rw == 32) { float f = (float)v; uint32_t u; memcpy(&u, &f, 4); return u; } return ofD((double)v, 64); }
      case O_UITOFP: { u128 v = a & maskw(w); if (rw == 32) { float f = (float)v; uint32_t u; memcpy(&u, &f, 4); return u; } return ofD((double)v, 64); }
      case O_FPTOSI: { double x = trunc(asD(a, w)); double lim = ldexp(1.0, (int)rw - 1); if (!(x >= -lim && x < lim)) return 0; return (u128)(s128)x & maskw(rw); }
      case O_FPTOUI: { double x = trunc(asD(a, w)); double lim = ldexp(1.0, (int)rw); if (!(x >= 0 && x < lim)) return 0; return (u128)x & maskw(rw); }
      default: return 0;
    }
  }
  static bool fcmp(Op o, u128 a, u128 b, unsigned w) {
    double x = asD(a, w), y = asD(b, w);
    switch (o) { case O_FOEQ: return x == y; case O_FOLT: return x < y; case O_FOLE: return x <= y; default: return std::isnan(x) || std::isnan(y); }
  }

  // ---- evaluation ----
  u128 eval(E e, const Model& m) {
    if (e->op == O_CONST) return e->val;
    if (e->op == O_VAR) return m.get(e->aux) & maskw(e->w);
    if (stampOf_ != &m || stampVer_ != m.v.size() || dirty_) { stamp_++; stampOf_ = &m; stampVer_ = m.v.size(); dirty_ = false; }
    return ev(e, m);
  }
  void invalidateEval() { dirty_ = true; }
  // support set
  const std::vector<uint32_t>& supp(E e) {
    if (supp_.size() <= e->id) supp_.resize(n_ + 1024);
    auto& p = supp_[e->id];
    if (p) return *p;
    auto r = std::make_unique<std::vector<uint32_t>>();
    if (e->op == O_VAR) r->push_back(e->aux);
    else for (int i = 0; i < e->nk; i++) {
      const auto& s = supp(e->k[i]);
      if (r->empty()) *r = s;
      else if (&s != r.get() && !s.empty()) {
        std::vector<uint32_t> t; t.reserve(r->size() + s.size());
        std::set_union(r->begin(), r->end(), s.begin(), s.end(), std::back_inserter(t));
        r->swap(t);
      }
    }
    auto* raw = r.get();
    supp_[e->id] = std::move(r);
    return *raw;
  }
  // number of known-zero low bits
  unsigned tz(E e) {
    switch (e->op) {
      case O_CONST: { if (!e->val) return e->w; unsigned n = 0; while (!((e->val >> n) & 1)) n++; return n; }
      case O_CONCAT: { unsigned t = tz(e->k[1]); return t == e->k[1]->w ? t + tz(e->k[0]) : t; }
      case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(tz(e->k[0]), tz(e->k[1]));
      case O_AND: return std::max(tz(e->k[0]), tz(e->k[1]));
      case O_MUL: return std::min<unsigned>(e->w, tz(e->k[0]) + tz(e->k[1]));
      case O_ITE: return std::min(tz(e->k[1]), tz(e->k[2]));
      case O_ZEXT: { unsigned t = tz(e->k[0]); return t == e->k[0]->w ? e->w : t; }
      case O_SEXT: { unsigned t = tz(e->k[0]); return t == e->k[0]->w ? e->w : t; }
      default: return 0;
    }
  }

 private:
  u128 ev(E e, const Model& m) {
    if (e->op == O_CONST) return e->val;
    if (e->op == O_VAR) return m.get(e->aux) & maskw(e->w);
    if (memoS_.size() <= e->id) { memoS_.resize(n_ + 4096, 0); memoV_.resize(n_ + 4096); }
    if (memoS_[e->id] == stamp_) return memoV_[e->id];
    u128 r = 0;
    if (e->op == O_ITE) {
      r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m);
    } else {
      u128 a = e->nk > 0 ? ev(e->k[0], m) : 0, b = e->nk > 1 ? ev(e->k[1], m) : 0;
      unsigned w = e->w, aw = e->nk > 0 ? e->k[0]->w : 0;
      switch (e->op) {
        case O_ADD: r = a + b; break; case O_SUB: r = a - b; break; case O_MUL: r = a * b; break;
        case O_UDIV: r = b ? a / b : ~(u128)0; break; case O_UREM: r = b ? a % b : a; break;
        case O_SDIV: r = b ? sdivv(a, b, w) : (sx(a, w) < 0 ? 1 : ~(u128)0); break;
        case O_SREM: r = b ? sremv(a, b, w) : a; break;
        case O_AND: r = a & b; break; case O_OR: r = a | b; break; case O_XOR: r = a ^ b; break;
        case O_SHL: r = b >= w ? 0 : a << (unsigned)b; break;
        case O_LSHR: r = b >= w ? 0 : a >> (unsigned)b; break;
        case O_ASHR: r = (u128)(sx(a, w) >> (b >= w ? w - 1 : (unsigned)b)); break;
        case O_EQ: r = a == b; break; case O_ULT: r = a < b; break; case O_ULE: r = a <= b; break;
        case O_SLT: r = sx(a, aw) < sx(b, aw); break; case O_SLE: r = sx(a, aw) <= sx(b, aw); break;
        case O_CONCAT: r = (a << e->k[1]->w) | b; break;
        case O_EXTRACT: r = a >> e->aux; break;
        case O_ZEXT: r = a; break; case O_SEXT: r = (u128)sx(a, aw); break;
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: r = fop2(e->op, a, b, w); break;
        case O_FMA: r = fma3(a, b, ev(e->k[2], m), w); break;
        case O_FSQRT: case O_FRND: case O_FPTRUNC: case O_FPEXT: case O_SITOFP: case O_UITOFP: case O_FPTOSI: case O_FPTOUI:
          r = fop1(e->op, a, aw, w, e->aux); break;
        case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO: r = fcmp(e->op, a, b, aw); break;
        case O_UF: { u128 v[3] = {a, b, e->nk > 2 ? ev(e->k[2], m) : 0}; r = ufConcrete(ufs[e->aux]) ? ufEval(ufs[e->aux], v, aw, w) : 0; break; }
        default: break;
      }
    }
    r &= maskw(e->w);
    memoS_[e->id] = stamp_;
    memoV_[e->id] = r;
    return r;
  }
  E mk(Op op, unsigned w, uint64_t aux, u128 val, E a, E b = nullptr, E c = nullptr, bool uninit = false) {
    uint64_t h = (uint64_t)op * 0x9E3779B97F4A7C15ull ^ w * 0xC2B2AE3D27D4EB4Full ^ aux * 0x165667B19E3779F9ull;
    h ^= (uint64_t)val * 0xD6E8FEB86659FD93ull ^ (uint64_t)(val >> 64) * 0xA0761D6478BD642Full;
    h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ull;
    if (a) h = (h ^ a->id * 0x9E3779B97F4A7C15ull) * 0xff51afd7ed558ccdull;
    if (b) h = (h ^ (h >> 31) ^ b->id * 0xC2B2AE3D27D4EB4Full) * 0xc4ceb9fe1a85ec53ull;
    if (c) h = (h ^ (h >> 30) ^ c->id * 0x165667B19E3779F9ull) * 0x94D049BB133111EBull;
    h ^= h >> 32;
    size_t mask = tab_.size() - 1, i = h & mask;
    while (Expr* e = tab_[i]) {
      if (e->op == op && e->w == w && e->aux == aux && e->val == val && e->k[0] == a && e->k[1] == b && e->k[2] == c) return e;
      i = (i + 1) & mask;
    }
    if (chunkPos_ == 0) { chunk_ = (Expr*)malloc(sizeof(Expr) * 8192); chunkPos_ = 8192; }
    Expr* e = &chunk_[--chunkPos_];
    e->op = op; e->w = w; e->aux = aux; e->val = val; e->k[0] = a; e->k[1] = b; e->k[2] = c;
    e->nk = (a != nullptr) + (b != nullptr) + (c != nullptr);
    e->uninit = uninit || (a && a->uninit) || (b && b->uninit) || (c && c->uninit);
    e->id = n_++;
    tab_[i] = e;
    hashes_.push_back(h);
    if ((size_t)n_ * 2 > tab_.size()) rehash();
    return e;
  }
  void rehash() {
    std::vector<Expr*> t(tab_.size() * 2, nullptr);
    size_t mask = t.size() - 1;
    for (Expr* e : tab_) if (e) {
      size_t i = hashes_[e->id] & mask;
      while (t[i]) i = (i + 1) & mask;
      t[i] = e;
    }
    tab_.swap(t);
  }
  std::vector<Expr*> tab_;
  std::vector<uint64_t> hashes_;
  Expr* chunk_ = nullptr;
  size_t chunkPos_ = 0;
  uint32_t n_ = 0;
  std::vector<uint32_t> memoS_;
  std::vector<u128> memoV_;
  uint32_t stamp_ = 1;
  const Model* stampOf_ = nullptr;
  size_t stampVer_ = 0;
  bool dirty_ = true;
  std::vector<std::unique_ptr<std::vector<uint32_t>>> supp_;
};

}  // namespace jfsym
