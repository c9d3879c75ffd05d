#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <map>
#include <set>
#include <cstring>
using namespace std;
SolverStats gSolver; bool gSolverSelfCheck = true;
static Z3_context ctx; static Z3_solver bvSolver; static unsigned bvTimeout = 10000, fpTimeout = 30000; static size_t bvAsserted = 0;
static unordered_map<u32, Z3_ast> memo;    // expr id -> ast
static unordered_map<u32, Z3_ast> lits;    // expr id -> assumption literal (in the current bvSolver)
static Z3_sort fs32, fs64; static Z3_ast RNE, RTZ, RNA, RTP, RTN;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); fflush(stderr); abort(); }

E mkNamedVar(const string& name, int w) {
  static unordered_map<string, E> m; string key = name + ":" + to_string(w); auto it = m.find(key); if (it != m.end()) return it->second;
  return m[key] = mkVar(name, w);
}
static void newBv() {
  if (bvSolver) Z3_solver_dec_ref(ctx, bvSolver);
  bvSolver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, bvSolver);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::min(bvTimeout, 250u)); Z3_solver_set_params(ctx, bvSolver, p); Z3_params_dec_ref(ctx, p);
  lits.clear(); bvAsserted = 0;
}
void solverInit(unsigned t, unsigned ft) {
  bvTimeout = t; fpTimeout = ft;
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, errh);
  auto keep = [](Z3_ast a) { Z3_inc_ref(ctx, a); return a; };
  fs32 = Z3_mk_fpa_sort_32(ctx); Z3_inc_ref(ctx, (Z3_ast)fs32); fs64 = Z3_mk_fpa_sort_64(ctx); Z3_inc_ref(ctx, (Z3_ast)fs64);
  RNE = keep(Z3_mk_fpa_rne(ctx)); RTZ = keep(Z3_mk_fpa_rtz(ctx)); RNA = keep(Z3_mk_fpa_rna(ctx)); RTP = keep(Z3_mk_fpa_rtp(ctx)); RTN = keep(Z3_mk_fpa_rtn(ctx));
  newBv();
}
static Z3_ast tr(E e); // 1-bit expressions become Bool, others BitVec
static Z3_ast bvOne(bool b) { bool x[1] = {b}; return Z3_mk_bv_numeral(ctx, 1, x); }
static Z3_ast trBV(E e) { Z3_ast a = memo.at(e->id); if (e->w == 1) return Z3_mk_ite(ctx, a, bvOne(1), bvOne(0)); return a; }
static Z3_ast toFP(E e) { return Z3_mk_fpa_to_fp_bv(ctx, trBV(e), e->w == 64 ? fs64 : fs32); }
static Z3_ast fromFP(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); }
static Z3_ast boolOf(Z3_ast bv1) { return Z3_mk_eq(ctx, bv1, bvOne(1)); }
static Z3_ast trNode(E e) {
  auto A = [&](int i) { return memo.at(e->op[i]->id); }; auto B = [&](int i) { return trBV(e->op[i]); };
  auto S = [&](int w) { return w == 64 ? fs64 : fs32; };
  switch (e->k) {
  case K::Const: { if (e->w == 1) return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    bool bits[128]; for (int i = 0; i < e->w; ++i) bits[i] = (e->val >> i) & 1; return Z3_mk_bv_numeral(ctx, e->w, bits); }
  case K::Var: { char b[32]; snprintf(b, 32, "v%u", (unsigned)e->val); Z3_symbol s = Z3_mk_string_symbol(ctx, b);
    return Z3_mk_const(ctx, s, e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w)); }
  case K::Add: return e->w == 1 ? Z3_mk_xor(ctx, A(0), A(1)) : Z3_mk_bvadd(ctx, A(0), A(1));
  case K::Sub: return e->w == 1 ? Z3_mk_xor(ctx, A(0), A(1)) : Z3_mk_bvsub(ctx, A(0), A(1));
  case K::Mul: if (e->w == 1) { Z3_ast x[2] = {A(0), A(1)}; return Z3_mk_and(ctx, 2, x); } return Z3_mk_bvmul(ctx, A(0), A(1));
  case K::UDiv: { Z3_ast r = Z3_mk_bvudiv(ctx, B(0), B(1)); return e->w == 1 ? boolOf(r) : r; }
  case K::SDiv: { Z3_ast r = Z3_mk_bvsdiv(ctx, B(0), B(1)); return e->w == 1 ? boolOf(r) : r; }
  case K::URem: { Z3_ast r = Z3_mk_bvurem(ctx, B(0), B(1)); return e->w == 1 ? boolOf(r) : r; }
  case K::SRem: { Z3_ast r = Z3_mk_bvsrem(ctx, B(0), B(1)); return e->w == 1 ? boolOf(r) : r; }
  case K::And: if (e->w == 1) { Z3_ast x[2] = {A(0), A(1)}; return Z3_mk_and(ctx, 2, x); } return Z3_mk_bvand(ctx, A(0), A(1));
  case K::Or: if (e->w == 1) { Z3_ast x[2] = {A(0), A(1)}; return Z3_mk_or(ctx, 2, x); } return Z3_mk_bvor(ctx, A(0), A(1));
  case K::Xor: if (e->w == 1) { if (isTrue(e->op[1])) return Z3_mk_not(ctx, A(0)); return Z3_mk_xor(ctx, A(0), A(1)); } return Z3_mk_bvxor(ctx, A(0), A(1));
  case K::Shl: { Z3_ast r = Z3_mk_bvshl(ctx, B(0), B(1)); return e->w == 1 ? boolOf(r) : r; }
  case K::LShr: { Z3_ast r = Z3_mk_bvlshr(ctx, B(0), B(1)); return e->w == 1 ? boolOf(r) : r; }
  case K::AShr: { Z3_ast r = Z3_mk_bvashr(ctx, B(0), B(1)); return e->w == 1 ? boolOf(r) : r; }
  case K::Eq: return Z3_mk_eq(ctx, A(0), A(1));
  case K::Ult: return Z3_mk_bvult(ctx, B(0), B(1));
  case K::Ule: return Z3_mk_bvule(ctx, B(0), B(1));
  case K::Slt: return Z3_mk_bvslt(ctx, B(0), B(1));
  case K::Sle: return Z3_mk_bvsle(ctx, B(0), B(1));
  case K::Concat: return Z3_mk_concat(ctx, B(0), B(1));
  case K::Extract: { Z3_ast r = Z3_mk_extract(ctx, (unsigned)e->val + e->w - 1, (unsigned)e->val, B(0)); return e->w == 1 ? boolOf(r) : r; }
  case K::ZExt: return Z3_mk_zero_ext(ctx, e->w - e->op[0]->w, B(0));
  case K::SExt: return Z3_mk_sign_ext(ctx, e->w - e->op[0]->w, B(0));
  case K::Ite: return Z3_mk_ite(ctx, A(0), A(1), A(2));
  case K::FAdd: return fromFP(Z3_mk_fpa_add(ctx, RNE, toFP(e->op[0]), toFP(e->op[1])));
  case K::FSub: return fromFP(Z3_mk_fpa_sub(ctx, RNE, toFP(e->op[0]), toFP(e->op[1])));
  case K::FMul: return fromFP(Z3_mk_fpa_mul(ctx, RNE, toFP(e->op[0]), toFP(e->op[1])));
  case K::FDiv: return fromFP(Z3_mk_fpa_div(ctx, RNE, toFP(e->op[0]), toFP(e->op[1])));
  case K::FRem: return fromFP(Z3_mk_fpa_rem(ctx, toFP(e->op[0]), toFP(e->op[1])));
  case K::FMA: return fromFP(Z3_mk_fpa_fma(ctx, RNE, toFP(e->op[0]), toFP(e->op[1]), toFP(e->op[2])));
  case K::FSqrt: return fromFP(Z3_mk_fpa_sqrt(ctx, RNE, toFP(e->op[0])));
  case K::FOeq: return Z3_mk_fpa_eq(ctx, toFP(e->op[0]), toFP(e->op[1]));
  case K::FOlt: return Z3_mk_fpa_lt(ctx, toFP(e->op[0]), toFP(e->op[1]));
  case K::FOle: return Z3_mk_fpa_leq(ctx, toFP(e->op[0]), toFP(e->op[1]));
  case K::FUno: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, toFP(e->op[0])), Z3_mk_fpa_is_nan(ctx, toFP(e->op[1]))}; return Z3_mk_or(ctx, 2, x); }
  case K::FPExt: case K::FPTrunc: return fromFP(Z3_mk_fpa_to_fp_float(ctx, RNE, toFP(e->op[0]), S(e->w)));
  case K::FPToSI: { // out of range / NaN -> most negative value (as on x86), matching evalOp
    Z3_ast f = toFP(e->op[0]); Z3_sort s = S(e->op[0]->w); double lim = 1; for (int i = 1; i < e->w; ++i) lim *= 2;
    Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, RTZ, f); Z3_ast in[2] = {Z3_mk_fpa_leq(ctx, Z3_mk_fpa_numeral_double(ctx, -lim, s), t), Z3_mk_fpa_lt(ctx, t, Z3_mk_fpa_numeral_double(ctx, lim, s))};
    bool bits[128] = {0}; bits[e->w - 1] = 1;
    return Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in), Z3_mk_fpa_to_sbv(ctx, RTZ, f, e->w), Z3_mk_bv_numeral(ctx, e->w, bits)); }
  case K::FPToUI: { Z3_ast f = toFP(e->op[0]); Z3_sort s = S(e->op[0]->w); double lim = 1; for (int i = 0; i < e->w; ++i) lim *= 2;
    Z3_ast t = Z3_mk_fpa_round_to_integral(ctx, RTZ, f); Z3_ast in[2] = {Z3_mk_fpa_leq(ctx, Z3_mk_fpa_numeral_double(ctx, 0.0, s), t), Z3_mk_fpa_lt(ctx, t, Z3_mk_fpa_numeral_double(ctx, lim, s))};
    bool bits[128]; memset(bits, 1, 128);
    return Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in), Z3_mk_fpa_to_ubv(ctx, RTZ, f, e->w), Z3_mk_bv_numeral(ctx, e->w, bits)); }
  case K::SIToFP: return fromFP(Z3_mk_fpa_to_fp_signed(ctx, RNE, trBV(e->op[0]), S(e->w)));
  case K::UIToFP: return fromFP(Z3_mk_fpa_to_fp_unsigned(ctx, RNE, trBV(e->op[0]), S(e->w)));
  case K::FRound: { Z3_ast rm = RNE; switch ((int)e->val) { case 0: rm = RNE; break; case 1: rm = RNA; break; case 2: rm = RTN; break; case 3: rm = RTP; break; default: rm = RTZ; }
    return fromFP(Z3_mk_fpa_round_to_integral(ctx, rm, toFP(e->op[0]))); }
  }
  abort();
}
static Z3_ast tr(E root) {
  auto it = memo.find(root->id); if (it != memo.end()) return it->second;
  vector<E> st{root};
  while (!st.empty()) {
    E e = st.back(); if (memo.count(e->id)) { st.pop_back(); continue; }
    bool ready = true; for (int i = 0; i < e->nops; ++i) if (!memo.count(e->op[i]->id)) { st.push_back(e->op[i]); ready = false; }
    if (!ready) continue;
    Z3_ast a = trNode(e); Z3_inc_ref(ctx, a); memo[e->id] = a; st.pop_back();
  }
  return memo.at(root->id);
}
struct CacheEnt { Res r; vector<pair<u32, u64>> vals; };
struct VecHash { size_t operator()(const vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull ^ (h >> 29); return h; } };
static unordered_map<vector<u32>, CacheEnt, VecHash> cache;

static bool bvSlow = false;
Res solve(const vector<E>& cons, E extra, Assign& model) {
  if (isFalse(extra)) return Res::Unsat;
  if (isTrue(extra)) return Res::Sat;
  ++gSolver.queries;
  // slice
  vector<E> sl; vector<char> inVar(gVars.size(), 0); vector<u32> varList;
  auto addVars = [&](E e) { for (u32 v : exprVars(e)) if (!inVar[v]) { inVar[v] = 1; varList.push_back(v); } };
  addVars(extra); vector<char> used(cons.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < cons.size(); ++i) if (!used[i]) { for (u32 v : exprVars(cons[i])) if (inVar[v]) { used[i] = 1; sl.push_back(cons[i]); size_t n = varList.size(); addVars(cons[i]); if (varList.size() != n) ch = true; break; } } }
  vector<u32> key; for (E e : sl) key.push_back(e->id); sort(key.begin(), key.end()); key.erase(unique(key.begin(), key.end()), key.end()); key.push_back(extra->id);
  auto put = [&](const CacheEnt& c) { if (c.r == Res::Sat) { for (auto& p : c.vals) { if (p.first >= model.size()) model.resize(p.first + 1, 0); model[p.first] = p.second; } newEvalEpoch(); } return c.r; };
  auto it = cache.find(key); if (it != cache.end()) { ++gSolver.cacheHits; return put(it->second); }
  bool fp = extra->hasFP; for (E e : sl) fp |= e->hasFP;
  auto t0 = chrono::steady_clock::now(); Z3_lbool r; Z3_solver s;
  if (!fp) {
    if (bvAsserted > 3000 || bvSlow) { newBv(); bvSlow = false; }
    vector<Z3_ast> as; vector<E> all = sl; all.push_back(extra);
    for (E e : all) { auto l = lits.find(e->id); if (l == lits.end()) { char b[32]; snprintf(b, 32, "p%u", e->id); Z3_ast lit = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), Z3_mk_bool_sort(ctx)); Z3_inc_ref(ctx, lit);
        Z3_solver_assert(ctx, bvSolver, Z3_mk_implies(ctx, lit, tr(e))); l = lits.emplace(e->id, lit).first; ++bvAsserted; } as.push_back(l->second); }
    s = bvSolver; Z3_solver_inc_ref(ctx, s); r = Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
    if (r == Z3_L_UNDEF) { bvSlow = true; // harder: a fresh solver with bit-blasting
      Z3_solver_dec_ref(ctx, s); s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s);
      Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), bvTimeout); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
      for (E e : all) Z3_solver_assert(ctx, s, tr(e)); r = Z3_solver_check(ctx, s); }
  } else {
    ++gSolver.fpQueries;
    s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV")); Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), fpTimeout); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    for (E e : sl) Z3_solver_assert(ctx, s, tr(e)); Z3_solver_assert(ctx, s, tr(extra)); r = Z3_solver_check(ctx, s);
  }
  CacheEnt c; c.r = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  if (c.r == Res::Sat) {
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    for (u32 v : varList) { E ve = gVarExpr[v]; Z3_ast a = tr(ve), out = nullptr; u64 val = 0;
      if (Z3_model_eval(ctx, m, a, true, &out) && out) { Z3_inc_ref(ctx, out); if (ve->w == 1) val = Z3_get_bool_value(ctx, out) == Z3_L_TRUE; else { uint64_t x = 0; if (Z3_get_numeral_uint64(ctx, out, &x)) val = x; } Z3_dec_ref(ctx, out); }
      c.vals.push_back({v, val}); }
    Z3_model_dec_ref(ctx, m);
  }
  Z3_solver_dec_ref(ctx, s);
  double dt = chrono::duration<double>(chrono::steady_clock::now() - t0).count(); gSolver.time += dt; gSolver.maxTime = max(gSolver.maxTime, dt);
  if (!fp && dt > 0.02 && bvAsserted > 60) bvSlow = true; // the accumulated formula slows down even trivial queries: start afresh
  if (getenv("SYM_SLOW") && dt > atof(getenv("SYM_SLOW"))) { fprintf(stderr, "slow query %.2fs res=%d fp=%d cons=%zu: %s\n", dt, (int)c.r, (int)fp, sl.size(), exprStr(extra, 5).c_str()); }
  (c.r == Res::Sat ? gSolver.sat : c.r == Res::Unsat ? gSolver.unsat : gSolver.unknown)++;
  Assign before = model; put(c);
  if (c.r == Res::Sat && gSolverSelfCheck) {
    bool ok = evalExpr(extra, model) == 1; for (E e : sl) ok = ok && evalExpr(e, model) == 1;
    if (!ok) { // model does not satisfy the expressions under our own semantics: treat as unknown
      fprintf(stderr, "solver self-check failed (fp=%d): %s\n", (int)fp, exprStr(extra, 5).c_str()); ++gSolver.unknown; model = before; newEvalEpoch(); c.r = Res::Unknown; c.vals.clear(); }
  }
  cache.emplace(key, c); return c.r;
}
