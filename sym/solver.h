// Z3 back end: constraint slicing, query cache, floating point first as
// uninterpreted functions (sound for UNSAT), then precisely.
#pragma once
#include <z3.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <bitset>
#include <map>
#include <set>
#include <stdexcept>
#include <tuple>
#include <unordered_map>

#include "expr.h"

namespace jfsym {

enum Res { SAT, UNSAT, UNKNOWN };

struct SolverStats {
  uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, precise = 0, validatedModels = 0;
  double secs = 0, maxSecs = 0;
  uint64_t bytes = 0;
};

class Solver {
 public:
  Ctx& c;
  SolverStats st;
  unsigned timeoutMs = 20000;
  unsigned preciseTimeoutMs = 60000;
  explicit Solver(Ctx& ctx) : c(ctx) {}

  void init() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    z_ = Z3_mk_context(cfg);
    Z3_set_error_handler(z_, [](Z3_context c, Z3_error_code e) {
      throw std::runtime_error(std::string("z3: ") + Z3_get_error_msg(c, e));
    });
    Z3_del_config(cfg);
  }

  // Is conj(cons) satisfiable?  On SAT `m` is updated for the variables involved.
  Res check(std::vector<E> cons, Model& m) {
    std::vector<E> v;
    for (E e : cons) {
      if (Ctx::isC(e)) {
        if (!e->val) return UNSAT;
        continue;
      }
      v.push_back(e);
    }
    if (v.empty()) return SAT;
    std::sort(v.begin(), v.end(), [](E a, E b) { return a->id < b->id; });
    v.erase(std::unique(v.begin(), v.end()), v.end());
    std::vector<uint32_t> key;
    for (E e : v) key.push_back(e->id);
    auto it = cache_.find(key);
    if (it != cache_.end()) {
      st.cacheHits++;
      if (it->second.first == SAT) apply(m, it->second.second);
      return it->second.first;
    }
    st.queries++;
    auto t0 = std::chrono::steady_clock::now();
    std::vector<std::pair<uint32_t, u128>> asg;
    Res r = solve(v, asg);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.secs += dt;
    st.maxSecs = std::max(st.maxSecs, dt);
    (r == SAT ? st.sat : r == UNSAT ? st.unsat : st.unknown)++;
    cache_[key] = {r, asg};
    if (r == SAT) apply(m, asg);
    return r;
  }

  // Constraints over single bytes, each decided by its truth table; used to
  // prune branches, never to discharge an assertion.  UNKNOWN: no answer.
  Res checkBytes(const std::vector<E>& v, Model& m) {
    std::map<uint32_t, std::bitset<256>> dom;
    bool all = true;
    for (E e : v) {
      if (Ctx::isC(e)) {
        if (!e->val) return UNSAT;
        continue;
      }
      const auto& sp = c.supp(e);
      if (sp.size() != 1 || c.vars[sp[0]].w > 8 || hasFp(e) || hasUfn(e)) { all = false; continue; }
      auto it = dom.find(sp[0]);
      if (it == dom.end()) dom[sp[0]] = table(e, sp[0]);
      else it->second &= table(e, sp[0]);
    }
    for (auto& d : dom) if (d.second.none()) { st.bytes++; return UNSAT; }
    if (!all) return UNKNOWN;
    st.bytes++;
    for (auto& d : dom) {
      if (m.v.size() <= d.first) m.v.resize(d.first + 1, 0);
      if (!d.second[(size_t)(m.v[d.first] & 255)]) m.v[d.first] = d.second._Find_first();
    }
    c.invalidateEval();
    return SAT;
  }

 private:
  std::unordered_map<uint32_t, std::bitset<256>> table_;
  const std::bitset<256>& table(E e, uint32_t var) {
    auto it = table_.find(e->id);
    if (it != table_.end()) return it->second;
    std::bitset<256> r;
    Model m;
    m.v.assign(var + 1, 0);
    for (unsigned i = 0; i < (1u << c.vars[var].w); i++) {
      m.v[var] = i;
      c.invalidateEval();
      if (c.eval(e, m)) r.set(i);
    }
    c.invalidateEval();
    return table_[e->id] = r;
  }
  Z3_context z_ = nullptr;
  std::map<std::vector<uint32_t>, std::pair<Res, std::vector<std::pair<uint32_t, u128>>>> cache_;
  std::vector<Z3_ast> bv_[2], fp_, bo_[2];
  std::map<std::pair<std::string, unsigned>, Z3_func_decl> decl_;
  std::unordered_map<uint32_t, char> hasFp_;

  void apply(Model& m, const std::vector<std::pair<uint32_t, u128>>& a) {
    for (auto& p : a) {
      if (m.v.size() <= p.first) m.v.resize(p.first + 1, 0);
      m.v[p.first] = p.second;
    }
    c.invalidateEval();
  }
  static bool isFpOp(E e) { return e->op >= O_FADD && e->op <= O_FPTOUI; }
  static bool isFpValued(E e) {
    return (e->op >= O_FADD && e->op <= O_FRND) || (e->op >= O_FPTRUNC && e->op <= O_UITOFP);
  }
  bool hasFp(E e) {
    if (e->nk == 0) return false;
    auto it = hasFp_.find(e->id);
    if (it != hasFp_.end()) return it->second;
    bool r = isFpOp(e);
    for (int i = 0; i < e->nk; i++) r |= hasFp(e->k[i]);
    hasFp_[e->id] = r;
    return r;
  }
  Res solve(const std::vector<E>& v, std::vector<std::pair<uint32_t, u128>>& asg) {
    bool fp = false;
    for (E e : v) fp |= hasFp(e);
    Res r = run(v, 0, fp ? std::min(timeoutMs, 10000u) : timeoutMs, asg);
    if (!fp) return r;
    if (r == UNSAT) return r;
    if (r == SAT && valid(v, asg)) { st.validatedModels++; return r; }
    st.precise++;
    auto keep = asg;
    asg.clear();
    Res r2 = run(v, 1, preciseTimeoutMs, asg);
    if (r2 == UNKNOWN) asg = keep;
    return r2;
  }
  bool valid(const std::vector<E>& v, const std::vector<std::pair<uint32_t, u128>>& asg) {
    Model m;
    m.v.assign(c.vars.size(), 0);
    for (auto& p : asg) m.v[p.first] = p.second;
    c.invalidateEval();
    bool ok = true;
    for (E e : v) if (!c.eval(e, m)) { ok = false; break; }
    c.invalidateEval();
    return ok;
  }
  Res run(const std::vector<E>& v, int mode, unsigned tmo, std::vector<std::pair<uint32_t, u128>>& asg) {
    bool hasUf = mode == 0;
    std::vector<Z3_ast> as;
    for (E e : v) as.push_back(toBool(e, mode));
    Z3_solver s = nullptr;
    std::string logic = mode == 0 ? "QF_UFBV" : "QF_UFFPBV";
    (void)hasUf;
    if (mode == 0) {
      bool pure = true;
      for (E e : v) pure &= !hasFp(e) && !hasUfn(e);
      s = Z3_mk_solver_for_logic(z_, Z3_mk_string_symbol(z_, pure ? "QF_BV" : "QF_UFBV"));
    } else {
      bool uf = false;
      for (E e : v) uf |= hasUfn(e);
      s = uf ? Z3_mk_solver(z_) : Z3_mk_solver_for_logic(z_, Z3_mk_string_symbol(z_, "QF_FPBV"));
    }
    Z3_solver_inc_ref(z_, s);
    Z3_params p = Z3_mk_params(z_);
    Z3_params_inc_ref(z_, p);
    Z3_params_set_uint(z_, p, Z3_mk_string_symbol(z_, "timeout"), tmo);
    Z3_solver_set_params(z_, s, p);
    Z3_params_dec_ref(z_, p);
    for (auto a : as) Z3_solver_assert(z_, s, a);
    Res r = UNKNOWN;
    try {
      Z3_lbool b = Z3_solver_check(z_, s);
      r = b == Z3_L_TRUE ? SAT : b == Z3_L_FALSE ? UNSAT : UNKNOWN;
      if (r == SAT) {
        Z3_model md = Z3_solver_get_model(z_, s);
        Z3_model_inc_ref(z_, md);
        std::set<uint32_t> vs;
        for (E e : v) for (auto i : c.supp(e)) vs.insert(i);
        for (auto i : vs) {
          Z3_ast o = nullptr;
          if (!Z3_model_eval(z_, md, varAst(i), true, &o)) continue;
          asg.push_back({i, numeral(o)});
        }
        Z3_model_dec_ref(z_, md);
      }
    } catch (std::exception& ex) {
      fprintf(stderr, "jfsym: solver exception %s\n", ex.what());
      r = UNKNOWN;
    }
    if (r == UNKNOWN && getenv("JF_DUMP")) fprintf(stderr, "QUERY %s\n", Z3_solver_to_string(z_, s));
    Z3_solver_dec_ref(z_, s);
    return r;
  }
  std::unordered_map<uint32_t, char> hasUf_;
  bool hasUfn(E e) {
    if (e->nk == 0) return e->op == O_UF;
    auto it = hasUf_.find(e->id);
    if (it != hasUf_.end()) return it->second;
    bool r = e->op == O_UF || e->op == O_FREM;
    for (int i = 0; i < e->nk; i++) r |= hasUfn(e->k[i]);
    hasUf_[e->id] = r;
    return r;
  }
  u128 numeral(Z3_ast a) {
    Z3_string s = Z3_get_numeral_string(z_, a);
    u128 v = 0;
    for (const char* p = s; *p; p++) v = v * 10 + (*p - '0');
    return v;
  }
  std::unordered_map<uint32_t, Z3_ast> vars_;
  Z3_ast varAst(uint32_t i) {
    auto it = vars_.find(i);
    if (it != vars_.end()) return it->second;
    std::string n = "v" + std::to_string(i);
    Z3_ast a = Z3_mk_const(z_, Z3_mk_string_symbol(z_, n.c_str()), Z3_mk_bv_sort(z_, c.vars[i].w));
    return vars_[i] = a;
  }
  Z3_ast num(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(z_, (uint64_t)v, Z3_mk_bv_sort(z_, w));
    return Z3_mk_concat(z_, num(v >> 64, w - 64), num((uint64_t)v, 64));
  }
  Z3_ast& slot(std::vector<Z3_ast>& t, E e) {
    if (t.size() <= e->id) t.resize(e->id + 1024, nullptr);
    return t[e->id];
  }
  Z3_ast uf(const std::string& n, const std::vector<Z3_ast>& a, unsigned w) {
    std::string nm = n;
    std::vector<Z3_sort> s;
    for (auto x : a) { s.push_back(Z3_get_sort(z_, x)); nm += "_" + std::to_string(Z3_get_bv_sort_size(z_, s.back())); }
    auto& d = decl_[{nm, w}];
    if (!d) d = Z3_mk_func_decl(z_, Z3_mk_string_symbol(z_, (nm + ">" + std::to_string(w)).c_str()), s.size(), s.data(), Z3_mk_bv_sort(z_, w));
    return Z3_mk_app(z_, d, a.size(), a.data());
  }
  Z3_sort fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(z_) : Z3_mk_fpa_sort_64(z_); }
  Z3_ast rne() { return Z3_mk_fpa_rne(z_); }
  Z3_ast toFP(E e) {
    {
      Z3_ast r = slot(fp_, e);
      if (r) return r;
    }
    Z3_ast r = nullptr;
    switch (e->op) {
      case O_FADD: r = Z3_mk_fpa_add(z_, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
      case O_FSUB: r = Z3_mk_fpa_sub(z_, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
      case O_FMUL: r = Z3_mk_fpa_mul(z_, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
      case O_FDIV: r = Z3_mk_fpa_div(z_, rne(), toFP(e->k[0]), toFP(e->k[1])); break;
      case O_FSQRT: r = Z3_mk_fpa_sqrt(z_, rne(), toFP(e->k[0])); break;
      case O_FMA: r = Z3_mk_fpa_fma(z_, rne(), toFP(e->k[0]), toFP(e->k[1]), toFP(e->k[2])); break;
      case O_FRND: {
        Z3_ast m = e->aux == R_NE ? Z3_mk_fpa_rne(z_) : e->aux == R_NA ? Z3_mk_fpa_rna(z_) : e->aux == R_TP ? Z3_mk_fpa_rtp(z_) : e->aux == R_TN ? Z3_mk_fpa_rtn(z_) : Z3_mk_fpa_rtz(z_);
        r = Z3_mk_fpa_round_to_integral(z_, m, toFP(e->k[0]));
        break;
      }
      case O_FPTRUNC: case O_FPEXT: r = Z3_mk_fpa_to_fp_float(z_, rne(), toFP(e->k[0]), fpSort(e->w)); break;
      case O_SITOFP: r = Z3_mk_fpa_to_fp_signed(z_, rne(), toBV(e->k[0], 1), fpSort(e->w)); break;
      case O_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(z_, rne(), toBV(e->k[0], 1), fpSort(e->w)); break;
      case O_ITE:
        if (hasFp(e->k[1]) || hasFp(e->k[2])) { r = Z3_mk_ite(z_, toBool(e->k[0], 1), toFP(e->k[1]), toFP(e->k[2])); break; }
        // fallthrough
      default: r = Z3_mk_fpa_to_fp_bv(z_, toBV(e, 1), fpSort(e->w));
    }
    return slot(fp_, e) = r;
  }
  Z3_ast fcmpBits(E e, int mode) {
    unsigned w = e->k[0]->w;
    Z3_ast a = toBV(e->k[0], mode), b = toBV(e->k[1], mode);
    u128 am = maskw(w - 1), inf = w == 32 ? (u128)0x7f800000u : (u128)0x7ff0000000000000ull;
    Z3_ast ma = Z3_mk_bvand(z_, a, num(am, w)), mb = Z3_mk_bvand(z_, b, num(am, w));
    Z3_ast nan[2] = {Z3_mk_bvugt(z_, ma, num(inf, w)), Z3_mk_bvugt(z_, mb, num(inf, w))};
    Z3_ast anyNan = Z3_mk_or(z_, 2, nan);
    if (e->op == O_FUNO) return anyNan;
    Z3_ast z[2] = {Z3_mk_eq(z_, ma, num(0, w)), Z3_mk_eq(z_, mb, num(0, w))};
    Z3_ast bothZ = Z3_mk_and(z_, 2, z);
    Z3_ast eqb[2] = {Z3_mk_eq(z_, a, b), bothZ};
    Z3_ast eq = Z3_mk_or(z_, 2, eqb);
    Z3_ast r;
    if (e->op == O_FOEQ) r = eq;
    else {
      // order-preserving map: neg ? ~x : x | sign
      auto key = [&](Z3_ast x) {
        Z3_ast neg = Z3_mk_bvslt(z_, x, num(0, w));
        return Z3_mk_ite(z_, neg, Z3_mk_bvnot(z_, x), Z3_mk_bvor(z_, x, num((u128)1 << (w - 1), w)));
      };
      Z3_ast lt0 = Z3_mk_bvult(z_, key(a), key(b));
      Z3_ast l[2] = {lt0, Z3_mk_not(z_, bothZ)};
      Z3_ast lt = Z3_mk_and(z_, 2, l);
      if (e->op == O_FOLT) r = lt;
      else { Z3_ast o[2] = {lt, eq}; r = Z3_mk_or(z_, 2, o); }
    }
    Z3_ast f[2] = {Z3_mk_not(z_, anyNan), r};
    return Z3_mk_and(z_, 2, f);
  }
  Z3_ast toBool(E e, int mode) {
    {
      Z3_ast r = slot(bo_[mode], e);
      if (r) return r;
    }
    Z3_ast r = nullptr;
    switch (e->op) {
      case O_CONST: r = e->val ? Z3_mk_true(z_) : Z3_mk_false(z_); break;
      case O_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(z_, toBool(e->k[0], mode), toBool(e->k[1], mode)) : Z3_mk_eq(z_, toBV(e->k[0], mode), toBV(e->k[1], mode)); break;
      case O_ULT: r = Z3_mk_bvult(z_, toBV(e->k[0], mode), toBV(e->k[1], mode)); break;
      case O_ULE: r = Z3_mk_bvule(z_, toBV(e->k[0], mode), toBV(e->k[1], mode)); break;
      case O_SLT: r = Z3_mk_bvslt(z_, toBV(e->k[0], mode), toBV(e->k[1], mode)); break;
      case O_SLE: r = Z3_mk_bvsle(z_, toBV(e->k[0], mode), toBV(e->k[1], mode)); break;
      case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO:
        if (mode == 1 && (hasFp(e->k[0]) || hasFp(e->k[1]))) {
          Z3_ast a = toFP(e->k[0]), b = toFP(e->k[1]);
          if (e->op == O_FOEQ) r = Z3_mk_fpa_eq(z_, a, b);
          else if (e->op == O_FOLT) r = Z3_mk_fpa_lt(z_, a, b);
          else if (e->op == O_FOLE) r = Z3_mk_fpa_leq(z_, a, b);
          else { Z3_ast x[2] = {Z3_mk_fpa_is_nan(z_, a), Z3_mk_fpa_is_nan(z_, b)}; r = Z3_mk_or(z_, 2, x); }
        } else r = fcmpBits(e, mode);
        break;
      case O_AND: if (e->w == 1) { Z3_ast x[2] = {toBool(e->k[0], mode), toBool(e->k[1], mode)}; r = Z3_mk_and(z_, 2, x); } break;
      case O_OR: if (e->w == 1) { Z3_ast x[2] = {toBool(e->k[0], mode), toBool(e->k[1], mode)}; r = Z3_mk_or(z_, 2, x); } break;
      case O_XOR:
        if (e->w == 1) {
          if (Ctx::isOnes(e->k[1])) r = Z3_mk_not(z_, toBool(e->k[0], mode));
          else r = Z3_mk_xor(z_, toBool(e->k[0], mode), toBool(e->k[1], mode));
        }
        break;
      case O_ITE: if (e->w == 1) r = Z3_mk_ite(z_, toBool(e->k[0], mode), toBool(e->k[1], mode), toBool(e->k[2], mode)); break;
      default: break;
    }
    if (!r) r = Z3_mk_eq(z_, toBV(e, mode), num(1, 1));
    return slot(bo_[mode], e) = r;
  }
  static bool boolish(E e) {
    if (e->w != 1) return false;
    switch (e->op) {
      case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO:
      case O_AND: case O_OR: case O_XOR: case O_ITE: return true;
      default: return false;
    }
  }
  Z3_ast toBV(E e, int mode) {
    {
      Z3_ast r = slot(bv_[mode], e);
      if (r) return r;
    }
    Z3_ast r = nullptr;
    if (boolish(e)) {
      r = Z3_mk_ite(z_, toBool(e, mode), num(1, 1), num(0, 1));
      return slot(bv_[mode], e) = r;
    }
    auto a = [&](int i) { return toBV(e->k[i], mode); };
    switch (e->op) {
      case O_CONST: r = num(e->val, e->w); break;
      case O_VAR: r = varAst(e->aux); break;
      case O_ADD: r = Z3_mk_bvadd(z_, a(0), a(1)); break;
      case O_SUB: r = Z3_mk_bvsub(z_, a(0), a(1)); break;
      case O_MUL: r = Z3_mk_bvmul(z_, a(0), a(1)); break;
      case O_UDIV: r = Z3_mk_bvudiv(z_, a(0), a(1)); break;
      case O_SDIV: r = Z3_mk_bvsdiv(z_, a(0), a(1)); break;
      case O_UREM: r = Z3_mk_bvurem(z_, a(0), a(1)); break;
      case O_SREM: r = Z3_mk_bvsrem(z_, a(0), a(1)); break;
      case O_AND: r = Z3_mk_bvand(z_, a(0), a(1)); break;
      case O_OR: r = Z3_mk_bvor(z_, a(0), a(1)); break;
      case O_XOR: r = Z3_mk_bvxor(z_, a(0), a(1)); break;
      case O_SHL: r = Z3_mk_bvshl(z_, a(0), a(1)); break;
      case O_LSHR: r = Z3_mk_bvlshr(z_, a(0), a(1)); break;
      case O_ASHR: r = Z3_mk_bvashr(z_, a(0), a(1)); break;
      case O_ITE: r = Z3_mk_ite(z_, toBool(e->k[0], mode), a(1), a(2)); break;
      case O_CONCAT: r = Z3_mk_concat(z_, a(0), a(1)); break;
      case O_EXTRACT: r = Z3_mk_extract(z_, e->aux + e->w - 1, e->aux, a(0)); break;
      case O_ZEXT: r = Z3_mk_zero_ext(z_, e->w - e->k[0]->w, a(0)); break;
      case O_SEXT: r = Z3_mk_sign_ext(z_, e->w - e->k[0]->w, a(0)); break;
      case O_FREM: r = uf("frem", {a(0), a(1)}, e->w); break;
      case O_UF: {
        std::vector<Z3_ast> v;
        for (int i = 0; i < e->nk; i++) v.push_back(a(i));
        r = uf(c.ufs[e->aux], v, e->w);
        break;
      }
      case O_FPTOSI: r = mode ? Z3_mk_fpa_to_sbv(z_, Z3_mk_fpa_rtz(z_), toFP(e->k[0]), e->w) : uf("fptosi", {a(0)}, e->w); break;
      case O_FPTOUI: r = mode ? Z3_mk_fpa_to_ubv(z_, Z3_mk_fpa_rtz(z_), toFP(e->k[0]), e->w) : uf("fptoui", {a(0)}, e->w); break;
      default:
        if (isFpValued(e)) {
          if (mode == 1) r = Z3_mk_fpa_to_ieee_bv(z_, toFP(e));
          else {
            std::vector<Z3_ast> v;
            for (int i = 0; i < e->nk; i++) v.push_back(a(i));
            if (e->op == O_FADD || e->op == O_FMUL) {  // commutative
              Z3_ast le = Z3_mk_bvule(z_, v[0], v[1]);
              v = {Z3_mk_ite(z_, le, v[0], v[1]), Z3_mk_ite(z_, le, v[1], v[0])};
            }
            r = uf("f" + std::to_string(e->op) + "." + std::to_string(e->op == O_FRND ? e->aux : 0), v, e->w);
          }
        } else {
          fprintf(stderr, "jfsym: cannot translate op %d\n", e->op);
          abort();
        }
    }
    return slot(bv_[mode], e) = r;
  }
};

}  // namespace jfsym
