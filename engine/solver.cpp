#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cmath>
SolverStats SS; unsigned solverTimeoutMs = 60000;
static Z3_context ctx; static Z3_solver sol, fsol; static u64 nAsserted = 0;
static std::vector<Z3_ast> ast; static std::vector<Z3_ast> lit; static std::vector<char> hasFp;
static Z3_ast one1, zero1; static Z3_sort B1;
static u64 modelId = 0;
MP newModel(const std::vector<uint8_t> &b) { auto m = std::make_shared<Model>(); m->b = b; m->id = ++modelId; return m; }
static void errh(Z3_context c, Z3_error_code e) { die("z3: %s", Z3_get_error_msg(c, e)); }
static Z3_solver mkSolver(const char *logic) {
  Z3_solver s = logic ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, logic)) : Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), solverTimeoutMs);
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p); return s;
}
static void init() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_set_error_handler(ctx, errh);
  B1 = Z3_mk_bv_sort(ctx, 1); one1 = Z3_mk_int(ctx, 1, B1); zero1 = Z3_mk_int(ctx, 0, B1);
  sol = mkSolver("QF_BV"); fsol = nullptr;
}
static Z3_ast T(E e);
static Z3_ast bv(E e) { Z3_ast t = T(e); return W(e) == 1 ? Z3_mk_ite(ctx, t, one1, zero1) : t; }
static Z3_ast fromBv1(Z3_ast t, int w) { return w == 1 ? Z3_mk_eq(ctx, t, one1) : t; }
static Z3_ast fp(E e) { Z3_sort s = W(e) == 64 ? Z3_mk_fpa_sort_double(ctx) : W(e) == 32 ? Z3_mk_fpa_sort_single(ctx) : Z3_mk_fpa_sort_half(ctx); return Z3_mk_fpa_to_fp_bv(ctx, bv(e), s); }
static bool fpIn(E e) {
  if (hasFp.size() < N.size()) hasFp.resize(N.size() * 2, 2);
  if (hasFp[e] != 2) return hasFp[e];
  Node n = N[e]; bool r = n.op >= FPEXT;
  for (E x : {n.a, n.b, n.c}) if (!r && x) r = fpIn(x);
  if (hasFp.size() < N.size()) hasFp.resize(N.size() * 2, 2);
  hasFp[e] = r; return r;
}
static Z3_ast T(E e) {
  if (ast.size() <= e) ast.resize(N.size() * 2 + 16, nullptr);
  if (ast[e]) return ast[e];
  Node n = N[e]; Z3_ast r = nullptr;
  auto bin = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { Z3_ast x = bv(n.a), y = bv(n.b); return f(ctx, x, y); };
  switch (n.op) {
  case CONST: {
    if (n.w == 1) { r = n.k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break; }
    if (n.w <= 64) { r = Z3_mk_unsigned_int64(ctx, (u64)n.k, Z3_mk_bv_sort(ctx, n.w)); break; }
    Z3_ast h = Z3_mk_unsigned_int64(ctx, (u64)(n.k >> 64), Z3_mk_bv_sort(ctx, n.w - 64)), l = Z3_mk_unsigned_int64(ctx, (u64)n.k, Z3_mk_bv_sort(ctx, 64));
    r = Z3_mk_concat(ctx, h, l); break; }
  case VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, n.aux), Z3_mk_bv_sort(ctx, 8)); break;
  case ADD: r = bin(Z3_mk_bvadd); break; case SUB: r = bin(Z3_mk_bvsub); break; case MUL: r = bin(Z3_mk_bvmul); break;
  case UDIV: r = bin(Z3_mk_bvudiv); break; case SDIV: r = bin(Z3_mk_bvsdiv); break; case UREM: r = bin(Z3_mk_bvurem); break; case SREM: r = bin(Z3_mk_bvsrem); break;
  case SHL: r = bin(Z3_mk_bvshl); break; case LSHR: r = bin(Z3_mk_bvlshr); break; case ASHR: r = bin(Z3_mk_bvashr); break;
  case AND: if (n.w == 1) { Z3_ast a[2] = {T(n.a), T(n.b)}; r = Z3_mk_and(ctx, 2, a); } else r = bin(Z3_mk_bvand); break;
  case OR: if (n.w == 1) { Z3_ast a[2] = {T(n.a), T(n.b)}; r = Z3_mk_or(ctx, 2, a); } else r = bin(Z3_mk_bvor); break;
  case XOR: if (n.w == 1) r = Z3_mk_xor(ctx, T(n.a), T(n.b)); else r = bin(Z3_mk_bvxor); break;
  case NOT: r = Z3_mk_not(ctx, T(n.a)); break;
  case EQ: r = Z3_mk_eq(ctx, T(n.a), T(n.b)); break;
  case ULT: r = bin(Z3_mk_bvult); break; case SLT: r = bin(Z3_mk_bvslt); break;
  case ITE: { Z3_ast c = T(n.a), x = T(n.b), y = T(n.c); r = Z3_mk_ite(ctx, c, x, y); break; }
  case CONCAT: r = bin(Z3_mk_concat); break;
  case EXTRACT: r = fromBv1(Z3_mk_extract(ctx, n.aux + n.w - 1, n.aux, bv(n.a)), n.w); break;
  case ZEXT: r = Z3_mk_zero_ext(ctx, n.w - W(n.a), bv(n.a)); break;
  case SEXT: r = Z3_mk_sign_ext(ctx, n.w - W(n.a), bv(n.a)); break;
  case FPEXT: case FPTRUNC: {
    int wa = W(n.a); Z3_ast x = fp(n.a), rm = Z3_mk_fpa_round_nearest_ties_to_even(ctx);
    Z3_ast y = Z3_mk_fpa_to_fp_float(ctx, rm, x, n.w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx));
    Z3_ast bits = Z3_mk_fpa_to_ieee_bv(ctx, y), nan; Z3_ast a = bv(n.a);
    Z3_ast sgn = Z3_mk_extract(ctx, wa - 1, wa - 1, a);
    if (n.op == FPEXT) { // 32 -> 64
      Z3_ast q = Z3_mk_unsigned_int64(ctx, 0xfff, Z3_mk_bv_sort(ctx, 12));
      nan = Z3_mk_concat(ctx, Z3_mk_concat(ctx, sgn, q), Z3_mk_concat(ctx, Z3_mk_extract(ctx, 21, 0, a), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 29))));
    } else { Z3_ast q = Z3_mk_unsigned_int64(ctx, 0x1ff, Z3_mk_bv_sort(ctx, 9));
      nan = Z3_mk_concat(ctx, Z3_mk_concat(ctx, sgn, q), Z3_mk_extract(ctx, 50, 29, a)); }
    r = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, x), nan, bits); break; }
  case FCMP: { Z3_ast x = fp(n.a), y = fp(n.b); Z3_ast un[2] = {Z3_mk_fpa_is_nan(ctx, x), Z3_mk_fpa_is_nan(ctx, y)}; Z3_ast isun = Z3_mk_or(ctx, 2, un);
    std::vector<Z3_ast> o; if (n.aux & 1) o.push_back(Z3_mk_fpa_eq(ctx, x, y)); if (n.aux & 2) o.push_back(Z3_mk_fpa_gt(ctx, x, y)); if (n.aux & 4) o.push_back(Z3_mk_fpa_lt(ctx, x, y));
    Z3_ast ord = o.empty() ? Z3_mk_false(ctx) : Z3_mk_or(ctx, o.size(), o.data());
    r = Z3_mk_ite(ctx, isun, n.aux & 8 ? Z3_mk_true(ctx) : Z3_mk_false(ctx), ord); break; }
  case FBIN: { Z3_ast x = fp(n.a), y = fp(n.b), a = bv(n.a), b = bv(n.b), rm = Z3_mk_fpa_round_nearest_ties_to_even(ctx); Z3_ast r0 = n.aux == 0 ? Z3_mk_fpa_add(ctx, rm, x, y) : n.aux == 1 ? Z3_mk_fpa_sub(ctx, rm, x, y) : n.aux == 2 ? Z3_mk_fpa_mul(ctx, rm, x, y) : Z3_mk_fpa_div(ctx, rm, x, y);
    Z3_sort S = Z3_mk_bv_sort(ctx, n.w); Z3_ast qb = Z3_mk_unsigned_int64(ctx, 1ull << (n.w == 64 ? 51 : 22), S), dn = Z3_mk_unsigned_int64(ctx, n.w == 64 ? 0xfff8000000000000ull : 0xffc00000ull, S);
    r = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, x), Z3_mk_bvor(ctx, a, qb), Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, y), Z3_mk_bvor(ctx, b, qb), Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, r0), dn, Z3_mk_fpa_to_ieee_bv(ctx, r0)))); break; }
  case I2F: { Z3_sort S = n.w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx); Z3_ast rm = Z3_mk_fpa_round_nearest_ties_to_even(ctx), a = bv(n.a); r = Z3_mk_fpa_to_ieee_bv(ctx, n.aux ? Z3_mk_fpa_to_fp_signed(ctx, rm, a, S) : Z3_mk_fpa_to_fp_unsigned(ctx, rm, a, S)); break; }
  case F2I: { if (n.w > 64) die("solver: f2i of %d bits", n.w); bool sg = n.aux & 1; Z3_ast x = fp(n.a), rz = Z3_mk_fpa_round_toward_zero(ctx); Z3_sort S = W(n.a) == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx), B = Z3_mk_bv_sort(ctx, n.w);
    double lo = sg ? -std::ldexp(1.0, n.w - 1) : 0, hi = std::ldexp(1.0, sg ? n.w - 1 : n.w); auto num = [&](double d) { return Z3_mk_fpa_numeral_double(ctx, d, S); }; auto cst = [&](u64 v) { return Z3_mk_unsigned_int64(ctx, n.w < 64 ? v & ((1ull << n.w) - 1) : v, B); };
    u64 mn = sg ? 1ull << (n.w - 1) : 0, mx = sg ? mn - 1 : ~0ull;
    Z3_ast v = sg ? Z3_mk_fpa_to_sbv(ctx, rz, x, n.w) : Z3_mk_fpa_to_ubv(ctx, rz, x, n.w);
    r = Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, x), cst(0), Z3_mk_ite(ctx, Z3_mk_fpa_leq(ctx, x, num(lo)), cst(mn), Z3_mk_ite(ctx, Z3_mk_fpa_geq(ctx, x, num(hi)), cst(mx), v))); break; }
  default: die("solver: operator %s not supported symbolically", opname[n.op]);
  }
  if (ast.size() <= e) ast.resize(N.size() * 2 + 16, nullptr);
  Z3_inc_ref(ctx, r);
  ast[e] = r; return r;
}
static Z3_ast literal(E e) { // literal implying e, asserted once per solver lifetime
  if (lit.size() <= e) lit.resize(N.size() * 2 + 16, nullptr);
  if (lit[e]) return lit[e];
  char nm[32]; snprintf(nm, 32, "p%u", e);
  Z3_ast p = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bool_sort(ctx)); Z3_inc_ref(ctx, p);
  Z3_ast t = T(e); Z3_ast imp = Z3_mk_implies(ctx, p, t); Z3_solver_assert(ctx, sol, imp); nAsserted++;
  if (lit.size() <= e) lit.resize(N.size() * 2 + 16, nullptr);
  lit[e] = p; return p;
}
static std::unordered_map<std::string, std::pair<SatRes, MP>> cache;
static std::vector<MP> ring; static size_t ringPos = 0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static MP overlay(const MP &base, const MP &m, const u64 vs[2]) {
  std::vector<uint8_t> b = base->b;
  for (int i = 0; i < 128; i++) if (vs[i >> 6] >> (i & 63) & 1) { if ((int)b.size() <= i) b.resize(i + 1, 0); b[i] = m->get(i); }
  return newModel(b);
}
SatRes checkSat(const std::vector<E> &pc, E c, const MP &base, MP &out) {
  if (!ctx) init();
  if (isFalse(c)) return UNSAT;
  if (isTrue(c)) { out = base; return SAT; }
  u64 vs[2] = {N[c].vs[0], N[c].vs[1]}; std::vector<E> sl; std::vector<char> used(pc.size(), 0);
  for (bool ch = true; ch;) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i] && ((N[pc[i]].vs[0] & vs[0]) | (N[pc[i]].vs[1] & vs[1]))) {
      used[i] = 1; ch = true; sl.push_back(pc[i]); vs[0] |= N[pc[i]].vs[0]; vs[1] |= N[pc[i]].vs[1]; } }
  std::sort(sl.begin(), sl.end()); sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
  for (E p : sl) if (mkNot(p) == c) return UNSAT;
  std::string key((const char *)sl.data(), sl.size() * 4); key.append((const char *)&c, 4);
  auto it = cache.find(key);
  if (it != cache.end()) { SS.cacheHits++; if (it->second.first == SAT) out = overlay(base, it->second.second, vs); return it->second.first; }
  for (auto &m : ring) if (m && evalIn(*m, c)) { bool ok = true; for (E p : sl) if (!evalIn(*m, p)) { ok = false; break; }
      if (ok) { SS.modelHits++; cache[key] = {SAT, m}; out = overlay(base, m, vs); return SAT; } }
  double t0 = now(); SatRes res; MP m; Z3_lbool r; Z3_model zm = nullptr;
  bool useF = fpIn(c); for (E p : sl) useF = useF || fpIn(p);
  SS.queries++;
  Z3_solver s;
  if (useF) {
    s = mkSolver("QF_BVFP");
    for (E p : sl) Z3_solver_assert(ctx, s, T(p));
    Z3_solver_assert(ctx, s, T(c)); r = Z3_solver_check(ctx, s);
  } else {
    if (nAsserted > 20000) { Z3_solver_dec_ref(ctx, sol); sol = mkSolver("QF_BV"); std::fill(lit.begin(), lit.end(), nullptr); nAsserted = 0; }
    s = sol; std::vector<Z3_ast> as; for (E p : sl) as.push_back(literal(p)); as.push_back(literal(c));
    r = Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
  }
  if (r == Z3_L_TRUE) {
    zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
    std::vector<uint8_t> b(base->b);
    for (int i = 0; i < 128; i++) if (vs[i >> 6] >> (i & 63) & 1) {
      Z3_ast v; u64 x = 0; if (!Z3_model_eval(ctx, zm, T(mkVar(i)), true, &v)) die("z3 model"); Z3_get_numeral_uint64(ctx, v, (uint64_t *)&x);
      if ((int)b.size() <= i) b.resize(i + 1, 0); b[i] = (uint8_t)x; }
    Z3_model_dec_ref(ctx, zm);
    m = newModel(b);
    if (!evalIn(*m, c)) die("z3 model does not satisfy the query (encoding error): %s", estr(c, 8).c_str());
    for (E p : sl) if (!evalIn(*m, p)) die("z3 model does not satisfy the path condition (encoding error): %s", estr(p, 8).c_str());
    res = SAT; SS.sat++;
    if (ring.size() < 24) ring.push_back(m); else { ring[ringPos] = m; ringPos = (ringPos + 1) % 24; }
    out = m;
  } else if (r == Z3_L_FALSE) { res = UNSAT; SS.unsat++; } else { res = UNKNOWN; SS.unknown++; }
  if (useF) Z3_solver_dec_ref(ctx, s);
  SS.time += now() - t0;
  if (cache.size() > 200000) cache.clear();
  cache[key] = {res, m}; return res;
}
