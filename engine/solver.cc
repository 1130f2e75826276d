#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <unordered_map>
#include <cstdio>
#include <cstdlib>
#include <cstring>
SolverStats gStats;
unsigned gSolverTimeoutMs = 60000;
std::string gDumpDir;
static Z3_context ctx;
static Z3_solver slv, slvFp;
static Z3_sort bvSort[129];
static bool hasFp(Ex e);

static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
}
static Z3_sort bs(unsigned w) {
  if (!bvSort[w]) { bvSort[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bvSort[w])); }
  return bvSort[w];
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast num(u128 v, unsigned w) {
  if (w <= 64) return keep(Z3_mk_unsigned_int64(ctx, (u64)v, bs(w)));
  char buf[64]; int n = 0; char t[64];
  if (!v) t[n++] = '0';
  while (v) { t[n++] = '0' + (int)(v % 10); v /= 10; }
  for (int i = 0; i < n; i++) buf[i] = t[n - 1 - i];
  buf[n] = 0;
  return keep(Z3_mk_numeral(ctx, buf, bs(w)));
}
static Z3_ast toV(Ex e);
static Z3_ast toB(Ex e);
static Z3_sort fs(unsigned w) {
  static Z3_sort c[2]; Z3_sort &r = c[w == 32];
  if (!r) { r = w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, r)); }
  return r;
}
static Z3_ast toF(Ex e) { return keep(Z3_mk_fpa_to_fp_bv(ctx, toV(e), fs(e->width))); }
static Z3_ast rne() { static Z3_ast r = keep(Z3_mk_fpa_rne(ctx)); return r; }
static Z3_ast rtz() { static Z3_ast r = keep(Z3_mk_fpa_rtz(ctx)); return r; }
static Z3_ast ieee(Z3_ast f) { Z3_ast k = keep(f); return keep(Z3_mk_fpa_to_ieee_bv(ctx, k)); }
static Z3_ast ite01(Z3_ast b) { return Z3_mk_ite(ctx, b, num(1, 1), num(0, 1)); }

static Z3_ast toB0(Ex e) {
  switch (e->op) {
    case OConst: return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    case OEq: if (e->a->width == 1) return Z3_mk_iff(ctx, toB(e->a), toB(e->b));
      return Z3_mk_eq(ctx, toV(e->a), toV(e->b));
    case OUlt: return Z3_mk_bvult(ctx, toV(e->a), toV(e->b));
    case OUle: return Z3_mk_bvule(ctx, toV(e->a), toV(e->b));
    case OSlt: return Z3_mk_bvslt(ctx, toV(e->a), toV(e->b));
    case OSle: return Z3_mk_bvsle(ctx, toV(e->a), toV(e->b));
    case OAnd: { Z3_ast k[2] = {toB(e->a), toB(e->b)}; return Z3_mk_and(ctx, 2, k); }
    case OOr: { Z3_ast k[2] = {toB(e->a), toB(e->b)}; return Z3_mk_or(ctx, 2, k); }
    case OXor: if (e->b->isConst()) return e->b->val ? Z3_mk_not(ctx, toB(e->a)) : toB(e->a);
      return Z3_mk_xor(ctx, toB(e->a), toB(e->b));
    case OIte: return Z3_mk_ite(ctx, toB(e->a), toB(e->b), toB(e->c));
    case OFEq: return Z3_mk_fpa_eq(ctx, toF(e->a), toF(e->b));
    case OFLt: return Z3_mk_fpa_lt(ctx, toF(e->a), toF(e->b));
    case OFLe: return Z3_mk_fpa_leq(ctx, toF(e->a), toF(e->b));
    case OFIsNan: return Z3_mk_fpa_is_nan(ctx, toF(e->a));
    default: return Z3_mk_eq(ctx, toV(e), num(1, 1));
  }
}
static Z3_ast toB(Ex e) {
  if (e->z3b) return (Z3_ast)e->z3b;
  Z3_ast r = keep(toB0(e)); e->z3b = r; return r;
}
static Z3_ast toV0(Ex e) {
  unsigned w = e->width;
  switch (e->op) {
    case OConst: return num(e->val, w);
    case OVar: {
      char nm[32]; snprintf(nm, sizeof nm, "v%u_%u", e->aux, w);
      return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bs(w));
    }
    case OAdd: return Z3_mk_bvadd(ctx, toV(e->a), toV(e->b));
    case OSub: return Z3_mk_bvsub(ctx, toV(e->a), toV(e->b));
    case OMul: return Z3_mk_bvmul(ctx, toV(e->a), toV(e->b));
    case OUDiv: return Z3_mk_bvudiv(ctx, toV(e->a), toV(e->b));
    case OSDiv: return Z3_mk_bvsdiv(ctx, toV(e->a), toV(e->b));
    case OURem: return Z3_mk_bvurem(ctx, toV(e->a), toV(e->b));
    case OSRem: return Z3_mk_bvsrem(ctx, toV(e->a), toV(e->b));
    case OAnd: if (w == 1) return ite01(toB(e)); return Z3_mk_bvand(ctx, toV(e->a), toV(e->b));
    case OOr: if (w == 1) return ite01(toB(e)); return Z3_mk_bvor(ctx, toV(e->a), toV(e->b));
    case OXor: if (w == 1) return ite01(toB(e)); return Z3_mk_bvxor(ctx, toV(e->a), toV(e->b));
    case OShl: return Z3_mk_bvshl(ctx, toV(e->a), toV(e->b));
    case OLShr: return Z3_mk_bvlshr(ctx, toV(e->a), toV(e->b));
    case OAShr: return Z3_mk_bvashr(ctx, toV(e->a), toV(e->b));
    case OEq: case OUlt: case OUle: case OSlt: case OSle: case OFEq: case OFLt: case OFLe: case OFIsNan:
      return ite01(toB(e));
    case OConcat: return Z3_mk_concat(ctx, toV(e->a), toV(e->b));
    case OExtract: return Z3_mk_extract(ctx, e->aux + w - 1, e->aux, toV(e->a));
    case OZExt: return Z3_mk_zero_ext(ctx, w - e->a->width, toV(e->a));
    case OSExt: return Z3_mk_sign_ext(ctx, w - e->a->width, toV(e->a));
    case OIte: return Z3_mk_ite(ctx, toB(e->a), toV(e->b), toV(e->c));
    case OFAdd: return ieee(Z3_mk_fpa_add(ctx, rne(), toF(e->a), toF(e->b)));
    case OFSub: return ieee(Z3_mk_fpa_sub(ctx, rne(), toF(e->a), toF(e->b)));
    case OFMul: return ieee(Z3_mk_fpa_mul(ctx, rne(), toF(e->a), toF(e->b)));
    case OFDiv: return ieee(Z3_mk_fpa_div(ctx, rne(), toF(e->a), toF(e->b)));
    case OFToSI: {
      unsigned cw = w <= 32 ? 32 : 64;
      Z3_ast x = keep(Z3_mk_fpa_to_fp_float(ctx, rne(), toF(e->a), fs(64)));
      Z3_ast lo = keep(Z3_mk_fpa_numeral_double(ctx, cw == 32 ? -2147483649.0 : -9223372036854775808.0, fs(64)));
      Z3_ast hi = keep(Z3_mk_fpa_numeral_double(ctx, cw == 32 ? 2147483648.0 : 9223372036854775808.0, fs(64)));
      Z3_ast in[2] = {cw == 32 ? keep(Z3_mk_fpa_gt(ctx, x, lo)) : keep(Z3_mk_fpa_geq(ctx, x, lo)), keep(Z3_mk_fpa_lt(ctx, x, hi))};
      Z3_ast r; r = Z3_mk_ite(ctx, keep(Z3_mk_and(ctx, 2, in)), keep(Z3_mk_fpa_to_sbv(ctx, rtz(), x, cw)), num((u128)1 << (cw - 1), cw));
      return w < cw ? Z3_mk_extract(ctx, w - 1, 0, r) : r;
    }
    case OFToUI: {
      Z3_ast x = keep(Z3_mk_fpa_to_fp_float(ctx, rne(), toF(e->a), fs(64)));
      Z3_ast lo = keep(Z3_mk_fpa_numeral_double(ctx, -9223372036854775808.0, fs(64)));
      Z3_ast hi = keep(Z3_mk_fpa_numeral_double(ctx, 9223372036854775808.0, fs(64)));
      Z3_ast in[2] = {keep(Z3_mk_fpa_geq(ctx, x, lo)), keep(Z3_mk_fpa_lt(ctx, x, hi))};
      Z3_ast r;
      if (w <= 32) r = Z3_mk_ite(ctx, keep(Z3_mk_and(ctx, 2, in)), keep(Z3_mk_fpa_to_sbv(ctx, rtz(), x, 64)), num((u128)1 << 63, 64));
      else {
        Z3_ast top = keep(Z3_mk_fpa_numeral_double(ctx, 18446744073709551616.0, fs(64)));
        Z3_ast big = keep(Z3_mk_ite(ctx, keep(Z3_mk_fpa_is_nan(ctx, x)), num((u128)1 << 63, 64),
          keep(Z3_mk_ite(ctx, keep(Z3_mk_fpa_lt(ctx, x, lo)), num((u128)1 << 63, 64),
          keep(Z3_mk_ite(ctx, keep(Z3_mk_fpa_lt(ctx, x, top)), keep(Z3_mk_fpa_to_ubv(ctx, rtz(), x, 64)), num(0, 64)))))));
        r = Z3_mk_ite(ctx, keep(Z3_mk_and(ctx, 2, in)), keep(Z3_mk_fpa_to_sbv(ctx, rtz(), x, 64)), big);
      }
      return w < 64 ? Z3_mk_extract(ctx, w - 1, 0, r) : r;
    }
    case OSIToF: return ieee(Z3_mk_fpa_to_fp_signed(ctx, rne(), toV(e->a), fs(w)));
    case OUIToF: return ieee(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), toV(e->a), fs(w)));
    case OFCast: return ieee(Z3_mk_fpa_to_fp_float(ctx, rne(), toF(e->a), fs(w)));
    case OFRound: {
      Z3_ast rm = e->aux == 0 ? keep(Z3_mk_fpa_rtn(ctx)) : e->aux == 1 ? keep(Z3_mk_fpa_rtp(ctx)) : e->aux == 2 ? rtz() : e->aux == 4 ? keep(Z3_mk_fpa_rna(ctx)) : rne();
      return ieee(Z3_mk_fpa_round_to_integral(ctx, rm, toF(e->a)));
    }
    case OFSqrt: return ieee(Z3_mk_fpa_sqrt(ctx, rne(), toF(e->a)));
    default: abort();
  }
}
static Z3_ast toV(Ex e) {
  if (e->z3v) return (Z3_ast)e->z3v;
  Z3_ast r = keep(toV0(e)); e->z3v = r; return r;
}
static std::unordered_map<u32, bool> fpMemo;
static bool hasFp(Ex e) {
  if (e->op == OConst || e->op == OVar) return false;
  if (e->op >= OFAdd) return true;
  auto it = fpMemo.find(e->id); if (it != fpMemo.end()) return it->second;
  bool r = false;
  for (Ex k : {e->a, e->b, e->c}) if (k && hasFp(k)) { r = true; break; }
  return fpMemo[e->id] = r;
}

static std::vector<std::vector<u64>> recent;   // recent models
static size_t recentPos = 0;
struct VecHash { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ull; for (u32 x : v) h = (h ^ x) * 1099511628211ull; return h; } };
static std::unordered_map<std::vector<u32>, std::pair<Res, std::vector<std::pair<u32, u64>>>, VecHash> cache;

Res solverCheck(const std::vector<Ex> &cs0, std::vector<u64> &model) {
  init();
  std::vector<Ex> cs; std::vector<u32> key;
  for (Ex e : cs0) { if (e->isConst()) { if (!e->val) return UNSAT; continue; } cs.push_back(e); }
  if (cs.empty()) return SAT;
  std::sort(cs.begin(), cs.end(), [](Ex a, Ex b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  for (Ex e : cs) key.push_back(e->id);
  auto it = cache.find(key);
  auto put = [&](u32 v, u64 x) { if (model.size() <= v) model.resize(v + 1, 0); model[v] = x; };
  if (it != cache.end()) {
    gStats.cacheHits++;
    for (auto &p : it->second.second) put(p.first, p.second);
    return it->second.first;
  }
  std::vector<u32> vars;
  for (Ex e : cs) { auto &v = exprVars(e); std::vector<u32> t; std::set_union(vars.begin(), vars.end(), v.begin(), v.end(), std::back_inserter(t)); vars.swap(t); }
  for (size_t k = 0; k < recent.size(); k++) {
    auto &m = recent[(recentPos + recent.size() - 1 - k) % recent.size()];
    bool ok = true;
    for (size_t i = cs.size(); i-- > 0;) if (!evalExpr(cs[i], m)) { ok = false; break; }
    if (ok) {
      gStats.modelHits++;
      for (u32 v : vars) put(v, v < m.size() ? m[v] : 0);
      return SAT;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false; for (Ex e : cs) fp |= hasFp(e);
  Z3_solver s = fp ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV")) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gSolverTimeoutMs);
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  for (Ex e : cs) Z3_solver_assert(ctx, s, toB(e));
  Z3_lbool r = Z3_solver_check(ctx, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gStats.queries++; gStats.seconds += dt; if (dt > gStats.maxQuery) gStats.maxQuery = dt;
  if (dt > 5 && getenv("VP_SLOWQ")) fprintf(stderr, "slow query %.1fs: %s\n", dt, Z3_solver_to_string(ctx, s));
  Res res = UNKNOWN;
  std::vector<std::pair<u32, u64>> assign;
  if (r == Z3_L_TRUE) {
    res = SAT; gStats.sat++;
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    // variable widths: find through the var nodes
    std::unordered_map<u32, Ex> nodes; std::vector<Ex> st(cs.begin(), cs.end()); std::unordered_map<u32, bool> seen;
    while (!st.empty()) { Ex e = st.back(); st.pop_back(); if (e->op == OVar) { nodes[e->aux] = e; continue; }
      if (e->op == OConst || seen[e->id]) continue; seen[e->id] = true;
      for (Ex k : {e->a, e->b, e->c}) if (k) st.push_back(k); }
    for (u32 v : vars) {
      u64 x = 0; Z3_ast out = nullptr;
      if (nodes.count(v) && Z3_model_eval(ctx, m, toV(nodes[v]), true, &out) && out) {
        Z3_inc_ref(ctx, out); Z3_get_numeral_uint64(ctx, out, &x); Z3_dec_ref(ctx, out);
      }
      assign.push_back({v, x}); put(v, x);
    }
    Z3_model_dec_ref(ctx, m);
    std::vector<u64> full(model);
    if (recent.size() < 24) { recent.push_back(full); recentPos = recent.size() % 24; }
    else { recent[recentPos % recent.size()] = full; recentPos = (recentPos + 1) % recent.size(); }
    for (Ex e : cs) if (!evalExpr(e, model)) {
      if (!fp) fprintf(stderr, "WARNING: z3 model does not satisfy constraint %s\n", exprStr(e).c_str());
      if (getenv("VP_DEBUG")) fprintf(stderr, "fp model mismatch %s\n", exprStr(e, 12).c_str());
    }
  } else if (r == Z3_L_FALSE) { res = UNSAT; gStats.unsat++; }
  else gStats.unknown++;
  Z3_solver_dec_ref(ctx, s);
  if (res != UNKNOWN) cache[key] = {res, assign};
  return res;
}
