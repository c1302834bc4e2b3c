#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <cstring>
SolverStats SS; unsigned gSolverTimeoutMs = 60000;
double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Z3_context C = nullptr; static uint32_t z3ep = 0; static bool z3bad = false; static uint64_t z3nodes = 0;
static void eh(Z3_context c, Z3_error_code e) { z3bad = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static Z3_solver gS = nullptr;
static void initZ3() {
  if (C && z3nodes < 3000000) return;
  if (C) { if (gS) { Z3_solver_dec_ref(C, gS); gS = nullptr; } Z3_del_context(C); }
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, eh); z3ep++; z3nodes = 0;
}
static Z3_ast tr(E e);
static Z3_ast keep(E e, Z3_ast a) { e->z3 = a; e->z3epoch = z3ep; z3nodes++; return a; }
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)), Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, 1))); }
static Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(C, v, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1))); }
static Z3_ast boolOf(E e);
// width-1 expressions are translated to Bool; trBV gives the BV version
static Z3_ast trBV(E e) { Z3_ast a = tr(e); return e->w == 1 ? b2v(a) : a; }
static Z3_ast fpOf(E e) { Z3_sort s = e->w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C); return Z3_mk_fpa_to_fp_bv(C, tr(e), s); }
static bool usesFP = false;
static Z3_ast mkConst(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, Z3_mk_bv_sort(C, w));
  Z3_ast hi = Z3_mk_unsigned_int64(C, (uint64_t)(v >> 64), Z3_mk_bv_sort(C, w - 64)), lo = Z3_mk_unsigned_int64(C, (uint64_t)v, Z3_mk_bv_sort(C, 64));
  return Z3_mk_concat(C, hi, lo);
}
static Z3_ast tr(E e) {
  if (e->z3epoch == z3ep && e->z3) return (Z3_ast)e->z3;
  // iterative-ish for deep trees: rely on large stack
  Z3_ast r = nullptr;
  bool b1 = e->w == 1;
  switch (e->k) {
    case KConst: r = b1 ? (e->val ? Z3_mk_true(C) : Z3_mk_false(C)) : mkConst(e->val, e->w); break;
    case KVar: { std::string n = "v" + std::to_string(e->aux); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), b1 ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, e->w)); break; }
    case KNot: r = b1 ? Z3_mk_not(C, tr(e->a)) : Z3_mk_bvnot(C, tr(e->a)); break;
    case KConcat: r = Z3_mk_concat(C, trBV(e->a), trBV(e->b)); break;
    case KExtract: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, tr(e->a)); if (b1) r = v2b(r); break;
    case KZExt: r = Z3_mk_zero_ext(C, e->w - e->a->w, trBV(e->a)); break;
    case KSExt: r = Z3_mk_sign_ext(C, e->w - e->a->w, trBV(e->a)); break;
    case KIte: r = Z3_mk_ite(C, tr(e->a), tr(e->b), tr(e->c)); break;
    case KEq: r = Z3_mk_eq(C, tr(e->a), tr(e->b)); break;
    case KUlt: r = Z3_mk_bvult(C, trBV(e->a), trBV(e->b)); break;
    case KUle: r = Z3_mk_bvule(C, trBV(e->a), trBV(e->b)); break;
    case KSlt: r = Z3_mk_bvslt(C, trBV(e->a), trBV(e->b)); break;
    case KSle: r = Z3_mk_bvsle(C, trBV(e->a), trBV(e->b)); break;
    case KAnd: if (b1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_and(C, 2, x); } else r = Z3_mk_bvand(C, tr(e->a), tr(e->b)); break;
    case KOr: if (b1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_or(C, 2, x); } else r = Z3_mk_bvor(C, tr(e->a), tr(e->b)); break;
    case KXor: r = b1 ? Z3_mk_xor(C, tr(e->a), tr(e->b)) : Z3_mk_bvxor(C, tr(e->a), tr(e->b)); break;
    default: {
      if (e->k >= KFAdd && e->k <= KFCvt) {
        usesFP = true; Z3_ast rm = Z3_mk_fpa_rne(C), rz = Z3_mk_fpa_rtz(C);
        Z3_sort S = e->w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C);
        switch (e->k) {
          case KFAdd: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_add(C, rm, fpOf(e->a), fpOf(e->b))); break;
          case KFSub: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sub(C, rm, fpOf(e->a), fpOf(e->b))); break;
          case KFMul: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_mul(C, rm, fpOf(e->a), fpOf(e->b))); break;
          case KFDiv: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_div(C, rm, fpOf(e->a), fpOf(e->b))); break;
          case KFEq: r = Z3_mk_fpa_eq(C, fpOf(e->a), fpOf(e->b)); break;
          case KFLt: r = Z3_mk_fpa_lt(C, fpOf(e->a), fpOf(e->b)); break;
          case KFLe: r = Z3_mk_fpa_leq(C, fpOf(e->a), fpOf(e->b)); break;
          case KFUno: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(C, fpOf(e->a)), Z3_mk_fpa_is_nan(C, fpOf(e->b))}; r = Z3_mk_or(C, 2, x); break; }
          case KFToS: r = Z3_mk_fpa_to_sbv(C, rz, fpOf(e->a), e->w); break;
          case KFToU: r = Z3_mk_fpa_to_ubv(C, rz, fpOf(e->a), e->w); break;
          case KSToF: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, rm, trBV(e->a), S)); break;
          case KUToF: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_unsigned(C, rm, trBV(e->a), S)); break;
          case KFCvt: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, rm, fpOf(e->a), S)); break;
          default: break;
        }
        break;
      }
      Z3_ast x = trBV(e->a), y = trBV(e->b);
      switch (e->k) {
        case KAdd: r = Z3_mk_bvadd(C, x, y); break; case KSub: r = Z3_mk_bvsub(C, x, y); break;
        case KMul: r = Z3_mk_bvmul(C, x, y); break; case KUDiv: r = Z3_mk_bvudiv(C, x, y); break;
        case KSDiv: r = Z3_mk_bvsdiv(C, x, y); break; case KURem: r = Z3_mk_bvurem(C, x, y); break;
        case KSRem: r = Z3_mk_bvsrem(C, x, y); break; case KShl: r = Z3_mk_bvshl(C, x, y); break;
        case KLShr: r = Z3_mk_bvlshr(C, x, y); break; case KAShr: r = Z3_mk_bvashr(C, x, y); break;
        default: fprintf(stderr, "tr: kind %d\n", e->k); abort();
      }
      if (b1) r = v2b(r);
    }
  }
  return keep(e, r);
}
struct CacheEnt { Res r; std::vector<std::pair<uint32_t, u128>> asg; };
struct H2 { size_t operator()(const std::pair<uint64_t, uint64_t>& p) const { return p.first; } };
static std::unordered_map<std::pair<uint64_t, uint64_t>, CacheEnt, H2> cache;
static std::deque<std::vector<std::pair<uint32_t, u128>>> recent;   // recent slice models
static inline uint64_t mx(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 29); }
static void setM(Model* m, uint32_t i, u128 v) { if (m->size() <= i) m->resize(i + 1, 0); (*m)[i] = v; }

Res solve(const std::vector<E>& pc, E cond, Model* m) {
  SS.queries++;
  if (isC(cond)) return cond->val ? SAT : UNSAT;
  if (m) { if (evalE(cond, *m, newEpoch())) { SS.modelHits++; return SAT; } }
  // slice
  std::vector<E> slice; slice.push_back(cond);
  std::vector<char> in(gVars.size(), 0), used(pc.size(), 0);
  std::vector<uint32_t> allv;
  for (uint32_t v : *cond->vars) { in[v] = 1; allv.push_back(v); }
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = pc.size(); i-- > 0;) if (!used[i]) {
      bool t = false; for (uint32_t v : *pc[i]->vars) if (in[v]) { t = true; break; }
      if (t) { used[i] = 1; slice.push_back(pc[i]); ch = true; for (uint32_t v : *pc[i]->vars) if (!in[v]) { in[v] = 1; allv.push_back(v); } }
    }
  }
  std::vector<uint32_t> ids; for (E e : slice) ids.push_back(e->id); std::sort(ids.begin(), ids.end());
  uint64_t h1 = 1, h2 = 77; for (uint32_t i : ids) { h1 = mx(h1, i); h2 = mx(h2, i * 2654435761u + 12345); }
  auto it = cache.find({h1, h2});
  if (it != cache.end()) { SS.cacheHits++; if (it->second.r == SAT && m) for (auto& p : it->second.asg) setM(m, p.first, p.second); return it->second.r; }
  // try recent models on this slice
  if (m) for (auto& r : recent) {
    Model t; for (auto& p : r) setM(&t, p.first, p.second);
    uint64_t ep = newEpoch(); bool ok = true;
    for (E e : slice) if (!evalE(e, t, ep)) { ok = false; break; }
    if (ok) { SS.modelHits++; for (uint32_t v : allv) setM(m, v, v < t.size() ? t[v] : 0); return SAT; }
  }
  double t0 = nowS(); initZ3(); SS.z3++; z3bad = false; usesFP = false;
  for (E e : slice) tr(e);
  static bool fpEver = false; if (usesFP) fpEver = true;
  Z3_solver s;
  if (fpEver) s = Z3_mk_solver(C); else s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), gSolverTimeoutMs); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  for (E e : slice) Z3_solver_assert(C, s, tr(e));
  if (getenv("SYM_DEBUGQ2")) { fprintf(stderr, "query\n"); for (E e : slice) fprintf(stderr, "   %s\n", exprStr(e, 9).c_str()); }
  Z3_lbool r = Z3_solver_check(C, s);
  Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN; if (z3bad) res = UNKNOWN;
  CacheEnt ce; ce.r = res;
  if (res == SAT) {
    Z3_model zm = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, zm);
    for (uint32_t v : allv) {
      E ve = gVarExpr[v]; Z3_ast out; u128 val = 0;
      if (Z3_model_eval(C, zm, tr(ve), true, &out)) {
       
        if (ve->w == 1) val = Z3_get_bool_value(C, out) == Z3_L_TRUE;
        else if (ve->w <= 64) { uint64_t x = 0; Z3_get_numeral_uint64(C, out, &x); val = x; }
        else { std::string sx = Z3_get_numeral_string(C, out); for (char c : sx) val = val * 10 + (c - '0'); }

      }
      ce.asg.push_back({v, val});
    }
    Z3_model_dec_ref(C, zm);
    // sanity: the model must satisfy the slice under our evaluator (cross-checks both)
    Model t; for (auto& q : ce.asg) setM(&t, q.first, q.second); uint64_t ep = newEpoch();
    for (E e : slice) if (!evalE(e, t, ep)) { fprintf(stderr, "ENGINE-ERROR: z3 model does not satisfy %s\n", exprStr(e).c_str()); _Exit(97); }
    recent.push_front(ce.asg); if (recent.size() > 8) recent.pop_back();
    if (m) for (auto& q : ce.asg) setM(m, q.first, q.second);
    SS.sat++;
  } else if (res == UNSAT) SS.unsat++; else SS.unknown++;
  Z3_solver_dec_ref(C, s);
  double dt = nowS() - t0; SS.z3time += dt; if (dt > SS.maxq) SS.maxq = dt;
  if (getenv("SYM_DEBUGQ") && dt > 0.05) { fprintf(stderr, "slow query %.2fs slice=%zu vars=%zu %d\n", dt, slice.size(), allv.size(), res); for (E e : slice) fprintf(stderr, "   %s\n", exprStr(e, 9).c_str()); }
  if (cache.size() > 400000) cache.clear();
  cache[{h1, h2}] = ce; return res;
}
