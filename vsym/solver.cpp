#include "solver.h"
#include <z3.h>
#include <chrono>
SolverStats g_ss; unsigned g_timeout = 20000, g_hardTimeout = 120000; bool g_dump = false;
static Z3_context C; static Z3_tactic T_bv;
static void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg);
  auto t = [&](const char* n) { Z3_tactic x = Z3_mk_tactic(C, n); Z3_tactic_inc_ref(C, x); return x; };
  auto seq = [&](Z3_tactic a, Z3_tactic b) { Z3_tactic x = Z3_tactic_and_then(C, a, b); Z3_tactic_inc_ref(C, x); return x; };
  T_bv = seq(t("simplify"), seq(t("propagate-values"), seq(t("solve-eqs"), seq(t("simplify"), seq(t("bit-blast"), t("sat"))))));
  Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
}
static Z3_ast bv(Expr* e); static Z3_ast bl(Expr* e);
static Z3_ast num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(C, v, Z3_mk_bv_sort(C, w)); }
static Z3_sort fs(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); }
static Z3_ast fp(Expr* e) { return Z3_mk_fpa_to_fp_bv(C, bv(e), fs(e->w)); }
static Z3_ast keep(Z3_ast a) { return a; }
static Z3_ast bl0(Expr* e) {
  switch (e->k) {
  case K_CONST: return e->c ? Z3_mk_true(C) : Z3_mk_false(C);
  case K_EQ: if (e->a->w == 1) return Z3_mk_iff(C, bl(e->a), bl(e->b)); return Z3_mk_eq(C, bv(e->a), bv(e->b));
  case K_ULT: return Z3_mk_bvult(C, bv(e->a), bv(e->b)); case K_ULE: return Z3_mk_bvule(C, bv(e->a), bv(e->b));
  case K_SLT: return Z3_mk_bvslt(C, bv(e->a), bv(e->b)); case K_SLE: return Z3_mk_bvsle(C, bv(e->a), bv(e->b));
  case K_AND: { Z3_ast x[2] = {bl(e->a), bl(e->b)}; return Z3_mk_and(C, 2, x); }
  case K_OR: { Z3_ast x[2] = {bl(e->a), bl(e->b)}; return Z3_mk_or(C, 2, x); }
  case K_XOR: if (isC(e->b, 1)) return Z3_mk_not(C, bl(e->a)); return Z3_mk_xor(C, bl(e->a), bl(e->b));
  case K_ITE: return Z3_mk_ite(C, bl(e->a), bl(e->b), bl(e->d));
  case K_FEQ: return Z3_mk_fpa_eq(C, fp(e->a), fp(e->b)); case K_FLT: return Z3_mk_fpa_lt(C, fp(e->a), fp(e->b)); case K_FLE: return Z3_mk_fpa_leq(C, fp(e->a), fp(e->b));
  case K_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(C, fp(e->a)), Z3_mk_fpa_is_nan(C, fp(e->b))}; return Z3_mk_or(C, 2, x); }
  default: return Z3_mk_eq(C, bv(e), num(1, 1));
  }
}
static Z3_ast bl(Expr* e) { if (!e->zb) e->zb = keep(bl0(e)); return (Z3_ast)e->zb; }
static Z3_ast bv0(Expr* e) {
  Z3_ast rne;
  switch (e->k) {
  case K_CONST: return num(e->c, e->w);
  case K_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%llu", (unsigned long long)e->c); return Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_mk_bv_sort(C, e->w)); }
  case K_EXTRACT: return Z3_mk_extract(C, e->c + e->w - 1, e->c, bv(e->a));
  case K_CONCAT: return Z3_mk_concat(C, bv(e->a), bv(e->b));
  case K_ZEXT: return Z3_mk_zero_ext(C, e->w - e->a->w, bv(e->a)); case K_SEXT: return Z3_mk_sign_ext(C, e->w - e->a->w, bv(e->a));
  case K_ITE: if (e->w == 1) break; return Z3_mk_ite(C, bl(e->a), bv(e->b), bv(e->d));
  case K_FADD: rne = Z3_mk_fpa_rne(C); return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_add(C, rne, fp(e->a), fp(e->b)));
  case K_FSUB: rne = Z3_mk_fpa_rne(C); return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sub(C, rne, fp(e->a), fp(e->b)));
  case K_FMUL: rne = Z3_mk_fpa_rne(C); return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_mul(C, rne, fp(e->a), fp(e->b)));
  case K_FDIV: rne = Z3_mk_fpa_rne(C); return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_div(C, rne, fp(e->a), fp(e->b)));
  case K_FREM: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_rem(C, fp(e->a), fp(e->b)));
  case K_FSQRT: rne = Z3_mk_fpa_rne(C); return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sqrt(C, rne, fp(e->a)));
  case K_FP2SI: return Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), fp(e->a), e->w); case K_FP2UI: return Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), fp(e->a), e->w);
  case K_SI2FP: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, Z3_mk_fpa_rne(C), bv(e->a), fs(e->w)));
  case K_UI2FP: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_unsigned(C, Z3_mk_fpa_rne(C), bv(e->a), fs(e->w)));
  case K_FPEXT: case K_FPTRUNC: return Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), fp(e->a), fs(e->w)));
  default: break;
  }
  if (e->w == 1) { return Z3_mk_ite(C, bl(e), num(1, 1), num(0, 1)); }
  Z3_ast a = bv(e->a), b = bv(e->b);
  switch (e->k) {
  case K_ADD: return Z3_mk_bvadd(C, a, b); case K_SUB: return Z3_mk_bvsub(C, a, b); case K_MUL: return Z3_mk_bvmul(C, a, b);
  case K_UDIV: return Z3_mk_bvudiv(C, a, b); case K_SDIV: return Z3_mk_bvsdiv(C, a, b); case K_UREM: return Z3_mk_bvurem(C, a, b); case K_SREM: return Z3_mk_bvsrem(C, a, b);
  case K_AND: return Z3_mk_bvand(C, a, b); case K_OR: return Z3_mk_bvor(C, a, b); case K_XOR: return Z3_mk_bvxor(C, a, b);
  case K_SHL: return Z3_mk_bvshl(C, a, b); case K_LSHR: return Z3_mk_bvlshr(C, a, b); case K_ASHR: return Z3_mk_bvashr(C, a, b);
  }
  fprintf(stderr, "bv0: kind %d w %d\n", e->k, e->w); abort();
}
static Z3_ast bv(Expr* e) { if (!e->z) e->z = keep(bv0(e)); return (Z3_ast)e->z; }

void newEval() { ++g_epoch; }
u64 evalExpr(Expr* e, const Model& m) {
  if (e->k == K_CONST) return e->c;
  if (e->epoch == g_epoch) return e->ev;
  u64 r;
  if (e->k == K_VAR) r = m.get(e->c);
  else if (e->k == K_ITE) r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->d, m);
  else if (e->k == K_CONCAT) r = evalExpr(e->a, m) << e->b->w | evalExpr(e->b, m);
  else r = evalOp(e->k, e->w, e->c, evalExpr(e->a, m), e->b ? evalExpr(e->b, m) : 0, 0, e->a->w);
  e->epoch = g_epoch; e->ev = r; return r;
}
struct CacheEnt { Res r; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<std::string, CacheEnt> cache;
static inline bool inter(const std::vector<u64>& a, const std::vector<u64>& b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if (a[i] & b[i]) return true; return false; }

// truth tables of boolean expressions over one variable with a small range
static const u64 SMALL = 1024;
static std::unordered_map<Expr*, std::vector<u64>> tts;
static int onlyVar(Expr* e) { auto& b = e->vs->b; int r = -1; for (size_t i = 0; i < b.size(); i++) if (b[i]) { if (r >= 0 || (b[i] & (b[i] - 1))) return -1; r = (int)(i * 64 + __builtin_ctzll(b[i])); } return r; }
static const std::vector<u64>& tt(Expr* e, u32 v) {
  auto it = tts.find(e); if (it != tts.end()) return it->second;
  VarInfo& I = g_vars[v]; u64 n = I.hi - I.lo + 1; std::vector<u64> r((n + 63) / 64); Model mm;
  for (u64 i = 0; i < n; i++) { mm.set(v, I.lo + i); newEval(); if (evalExpr(e, mm)) r[i / 64] |= 1ull << (i % 64); }
  return tts[e] = std::move(r); }
u64 g_fast = 0;
Res solve(const std::vector<Expr*>& cons, Expr* q, Model& m, bool hard) {
  if (isC(q)) return q->c ? SAT : UNSAT;
  int ov = q->fp ? -1 : onlyVar(q);
  if (ov >= 0 && g_vars[ov].hi - g_vars[ov].lo < SMALL) {
    std::vector<u64> d = tt(q, ov); bool mixed = false; std::vector<Expr*> others;
    for (auto c : cons) { auto& b = c->vs->b; if ((size_t)ov / 64 >= b.size() || !(b[ov / 64] >> (ov % 64) & 1)) continue;
      if (onlyVar(c) == ov && !c->fp) { auto& t = tt(c, ov); for (size_t i = 0; i < d.size(); i++) d[i] &= t[i]; } else { mixed = true; others.push_back(c); } }
    bool any = false; for (auto x : d) any |= x != 0;
    if (!any) { g_fast++; return UNSAT; }
    int tries = 0;
    for (size_t i = 0; i < d.size() && tries < (mixed ? 24 : 1); i++) for (u64 x = d[i]; x && tries < (mixed ? 24 : 1); x &= x - 1, tries++) {
      u64 val = g_vars[ov].lo + i * 64 + __builtin_ctzll(x); bool ok = true; u64 old = m.get(ov); m.set(ov, val); newEval();
      for (auto c : others) if (!evalExpr(c, m)) { ok = false; break; }
      if (ok) { g_fast++; return SAT; }
      m.set(ov, old); }
  }
  init();
  std::vector<u64> vs = q->vs->b; std::vector<Expr*> sl; std::vector<char> used(cons.size());
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < cons.size(); i++) if (!used[i] && inter(cons[i]->vs->b, vs)) { used[i] = 1; sl.push_back(cons[i]); ch = true; auto& b = cons[i]->vs->b; if (vs.size() < b.size()) vs.resize(b.size()); for (size_t j = 0; j < b.size(); j++) vs[j] |= b[j]; } }
  std::vector<u32> key; for (auto e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(q->id);
  std::string ks((char*)key.data(), key.size() * 4);
  auto it = cache.find(ks);
  if (it != cache.end()) { g_ss.cache++; if (it->second.r == SAT) for (auto& p : it->second.m) m.set(p.first, p.second); return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  bool isfp = q->fp; for (auto e : sl) isfp |= e->fp;
  Z3_solver s = isfp ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FPBV")) : Z3_mk_solver_from_tactic(C, T_bv);
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), hard ? g_hardTimeout : g_timeout); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
  for (auto e : sl) Z3_solver_assert(C, s, bl(e));
  Z3_solver_assert(C, s, bl(q));
  std::vector<u32> vars;
  for (size_t i = 0; i < vs.size(); i++) for (int j = 0; j < 64; j++) if ((vs[i] >> j) & 1) { u32 v = i * 64 + j; vars.push_back(v); VarInfo& I = g_vars[v];
    if (I.lo > 0) Z3_solver_assert(C, s, Z3_mk_bvuge(C, bv(I.e), num(I.lo, I.w))); if (I.hi < mask(I.w)) Z3_solver_assert(C, s, Z3_mk_bvule(C, bv(I.e), num(I.hi, I.w))); }
  if (g_dump) fprintf(stderr, "%s\n(check-sat)\n", Z3_solver_to_string(C, s));
  Z3_lbool r = Z3_solver_check(C, s);
  Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  CacheEnt ce; ce.r = res;
  if (res == SAT) {
    Z3_model zm = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, zm);
    for (u32 v : vars) { Z3_ast out; u64 x = g_vars[v].lo; if (Z3_model_eval(C, zm, bv(g_vars[v].e), true, &out)) { Z3_inc_ref(C, out); uint64_t y; if (Z3_get_numeral_uint64(C, out, &y)) x = y; Z3_dec_ref(C, out); } ce.m.push_back({v, x}); m.set(v, x); }
    Z3_model_dec_ref(C, zm);
  }
  Z3_solver_dec_ref(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.queries++; g_ss.time += dt; if (dt > g_ss.maxtime) g_ss.maxtime = dt;
  if (res == SAT) g_ss.sat++; else if (res == UNSAT) g_ss.unsat++; else g_ss.unknown++;
  cache[ks] = std::move(ce);
  return res;
}
