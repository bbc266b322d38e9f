#include "solver.h"
#include <atomic>
#include <z3.h>
#include <chrono>
#include <deque>
SolverStats g_ss;
unsigned g_solverTimeoutMs = 20000;
static Z3_context ctx;
static Z3_tactic tac;
static std::vector<Z3_ast> bvCache, boolCache;
static std::unordered_map<unsigned, Z3_sort> sorts;
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, onErr);
  const char *chain[] = {"simplify", "propagate-values", "solve-eqs", "simplify", "ackermannize_bv", "bit-blast", "simplify", "sat"};
  (void)chain;
  tac = Z3_mk_tactic(ctx, "qfbv");
  Z3_tactic_inc_ref(ctx, tac);
}
static Z3_sort sortOf(unsigned w) { auto &s = sorts[w]; if (!s) { s = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, s)); } return s; }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast num(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, sortOf(w));
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), sortOf(w - 64)), lo = Z3_mk_unsigned_int64(ctx, (u64)v, sortOf(64));
  return Z3_mk_concat(ctx, hi, lo);
}
static Z3_ast bv(E e);
static Z3_ast bl(E e) {
  if (e->id < boolCache.size() && boolCache[e->id]) return boolCache[e->id];
  Z3_ast r;
  switch (e->op) {
  case CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case EQ: r = Z3_mk_eq(ctx, bv(e->k[0]), bv(e->k[1])); break;
  case ULT: r = Z3_mk_bvult(ctx, bv(e->k[0]), bv(e->k[1])); break;
  case SLT: r = Z3_mk_bvslt(ctx, bv(e->k[0]), bv(e->k[1])); break;
  case AND: { Z3_ast a[2] = {bl(e->k[0]), bl(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
  case OR: { Z3_ast a[2] = {bl(e->k[0]), bl(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
  case XOR: r = isC(e->k[1]) && e->k[1]->c ? Z3_mk_not(ctx, bl(e->k[0])) : Z3_mk_xor(ctx, bl(e->k[0]), bl(e->k[1])); break;
  case ITE: r = Z3_mk_ite(ctx, bl(e->k[0]), bl(e->k[1]), bl(e->k[2])); break;
  case LIN: { const auto &v = g_lin[(size_t)e->c]; r = bl(v[0]); for (size_t i = 1; i < v.size(); i++) r = Z3_mk_xor(ctx, r, bl(v[i])); break; }
  default: r = Z3_mk_eq(ctx, bv(e), num(1, 1));
  }
  if (boolCache.size() <= e->id) boolCache.resize(g_exprCount + 1024, nullptr);
  return boolCache[e->id] = keep(r);
}
static Z3_ast bv(E e) {
  if (e->id < bvCache.size() && bvCache[e->id]) return bvCache[e->id];
  Z3_ast r;
  Z3_ast a = nullptr, b = nullptr;
  switch (e->op) {
  case CONST: r = num(e->c, e->w); break;
  case VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->c), sortOf(e->w)); break;
  case EQ: case ULT: case SLT: case LIN: r = Z3_mk_ite(ctx, bl(e), num(1, 1), num(0, 1)); break;
  case ITE: r = Z3_mk_ite(ctx, bl(e->k[0]), bv(e->k[1]), bv(e->k[2])); break;
  case EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, bv(e->k[0])); break;
  case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, bv(e->k[0])); break;
  default:
    a = bv(e->k[0]); b = bv(e->k[1]);
    switch (e->op) {
    case ADD: r = Z3_mk_bvadd(ctx, a, b); break;
    case MUL: r = Z3_mk_bvmul(ctx, a, b); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
    case UREM: r = Z3_mk_bvurem(ctx, a, b); break;
    case SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
    case AND: r = Z3_mk_bvand(ctx, a, b); break;
    case OR: r = Z3_mk_bvor(ctx, a, b); break;
    case XOR: r = Z3_mk_bvxor(ctx, a, b); break;
    case SHL: r = Z3_mk_bvshl(ctx, a, b); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
    case ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
    case CONCAT: r = Z3_mk_concat(ctx, a, b); break;
    default: abort();
    }
  }
  if (bvCache.size() <= e->id) bvCache.resize(g_exprCount + 1024, nullptr);
  return bvCache[e->id] = keep(r);
}

// Linear equations over GF(2) (checksums produce them) defeat a SAT solver but not Gaussian elimination: equations among the
// conjuncts are brought to reduced row echelon form, an equivalent system, before Z3 sees them.
static void atomsOf(E e, std::vector<E> &at, bool &c) {
  if (isC(e)) { c ^= (e->c & 1); return; }
  if (e->op == LIN) { for (E t : g_lin[(size_t)e->c]) atomsOf(t, at, c); return; }
  if (e->op == XOR) { atomsOf(e->k[0], at, c); atomsOf(e->k[1], at, c); return; }
  at.push_back(e);
}
static bool hasLin(E e) { return e->w == 1 && (e->op == LIN || (e->op == XOR && (hasLin(e->k[0]) || hasLin(e->k[1])))); }
// splits a condition into linear facts (each says its term is 1) and the rest; false when it contains a constant false
static bool splitFacts(E e0, std::vector<E> &lin, std::vector<E> &rest, bool &any) {
  std::vector<E> todo{e0};
  while (!todo.empty()) {
    E e = todo.back(); todo.pop_back();
    if (e->w == 1 && e->op == AND) { todo.push_back(e->k[0]); todo.push_back(e->k[1]); continue; }
    if (hasLin(e)) { lin.push_back(e); any = true; continue; }
    if (e->op == EQ && e->k[0]->w <= 64) {
      std::vector<E> bits; bool l = false, flat = true, no = false;
      for (unsigned i = 0; i < e->k[0]->w && flat; i++) {
        E x = mkXor(mkExtract(e->k[0], i, 1), mkExtract(e->k[1], i, 1));
        if (isC(x)) { no |= x->c & 1; continue; }
        l |= hasLin(x);
        std::vector<E> at; bool c = false; atomsOf(x, at, c);
        for (E t : at) flat &= t->op == VAR || (t->op == EXTRACT && t->k[0]->op == VAR);
        bits.push_back(mkNot(x));
      }
      if (flat) { if (no) return false; lin.insert(lin.end(), bits.begin(), bits.end()); any |= l; continue; }
    }
    // single facts about a bit take part as well
    if (e->w == 1 && (e->op == EXTRACT || e->op == VAR || e->op == XOR)) {
      std::vector<E> at; bool c = false; atomsOf(e, at, c); bool flat = true;
      for (E t : at) flat &= t->op == VAR || (t->op == EXTRACT && t->k[0]->op == VAR);
      if (flat) { lin.push_back(e); continue; }
    }
    rest.push_back(e);
  }
  return true;
}
static bool linearize(const std::vector<E> &in, std::vector<E> &out) { // false: inconsistent
  std::vector<E> lin, rest; bool any = false;
  for (E e : in) if (!splitFacts(e, lin, rest, any)) return false;
  if (!any) { out = in; return true; }
  std::unordered_map<E, unsigned> idx; std::vector<E> atoms;
  struct Row { std::vector<u64> b; bool c; };
  struct Neg { std::vector<E> lin, rest; };
  std::vector<Neg> negs; std::vector<E> keep;
  for (E e : rest) { // negated conjunctions are reduced by the solved equations
    if (e->w == 1 && e->op == XOR && isC(e->k[1]) && e->k[1]->c) {
      Neg n; bool x = false;
      if (!splitFacts(e->k[0], n.lin, n.rest, x)) continue; // not(false)
      if (!n.lin.empty()) { negs.push_back(n); continue; }
    }
    keep.push_back(e);
  }
  auto number = [&](E e, std::vector<unsigned> &v, bool &c) {
    std::vector<E> at; c = true; atomsOf(e, at, c);
    for (E a : at) { auto r = idx.insert({a, (unsigned)atoms.size()}); if (r.second) atoms.push_back(a); v.push_back(r.first->second); }
  };
  std::vector<std::pair<std::vector<unsigned>, bool>> sparse, nsparse;
  for (E e : lin) { sparse.push_back({}); number(e, sparse.back().first, sparse.back().second); }
  for (auto &n : negs) for (E e : n.lin) { nsparse.push_back({}); number(e, nsparse.back().first, nsparse.back().second); }
  size_t W = (atoms.size() + 63) / 64; std::vector<Row> rows; std::vector<int> pivot;
  auto dense = [&](const std::pair<std::vector<unsigned>, bool> &s) { Row r{std::vector<u64>(W, 0), s.second}; for (unsigned i : s.first) r.b[i / 64] ^= 1ull << i % 64; return r; };
  for (auto &s : sparse) rows.push_back(dense(s));
  size_t rank = 0;
  for (size_t c = 0; c < atoms.size() && rank < rows.size(); c++) {
    size_t p = rank; while (p < rows.size() && !(rows[p].b[c / 64] >> c % 64 & 1)) p++;
    if (p == rows.size()) continue;
    std::swap(rows[p], rows[rank]);
    for (size_t i = 0; i < rows.size(); i++) if (i != rank && (rows[i].b[c / 64] >> c % 64 & 1)) { for (size_t k = 0; k < W; k++) rows[i].b[k] ^= rows[rank].b[k]; rows[i].c ^= rows[rank].c; }
    pivot.push_back((int)c); rank++;
  }
  for (size_t i = rank; i < rows.size(); i++) if (rows[i].c) return false;
  auto term = [&](const Row &r) { E s = mkConst(1, r.c ^ 1); for (size_t k = 0; k < atoms.size(); k++) if (r.b[k / 64] >> k % 64 & 1) s = mkXor(s, atoms[k]); return s; }; // sum + c + 1 = 1
  out = keep;
  for (size_t i = 0; i < rank; i++) out.push_back(term(rows[i]));
  size_t at = 0;
  for (auto &n : negs) {
    E conj = mkConst(1, 1);
    for (size_t j = 0; j < n.lin.size(); j++) {
      Row r = dense(nsparse[at++]);
      for (size_t i = 0; i < rank; i++) if (r.b[pivot[i] / 64] >> pivot[i] % 64 & 1) { for (size_t k = 0; k < W; k++) r.b[k] ^= rows[i].b[k]; r.c ^= rows[i].c; }
      conj = mkAnd(conj, term(r));
    }
    for (E e : n.rest) conj = mkAnd(conj, e);
    E x = mkNot(conj);
    if (isC(x)) { if (!x->c) return false; continue; }
    out.push_back(x);
  }
  g_ss.linear++;
  return true;
}

struct CacheEnt { Res r; std::map<uint32_t, u128> m; };
static std::map<std::vector<uint32_t>, CacheEnt> cache;
static std::deque<Model> recent;

std::atomic<double> g_checkStart{0}; // when the running query began (0: none), for the watchdog
Res solve(const std::vector<E> &in, std::map<uint32_t, u128> &model) {
  init();
  std::vector<uint32_t> key;
  std::vector<E> cs;
  for (E e : in) { if (isC(e)) { if (!e->c) return UNSAT; continue; } key.push_back(e->id); cs.push_back(e); }
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  g_ss.queries++;
  auto it = cache.find(key);
  if (it != cache.end()) { g_ss.cacheHits++; model = it->second.m; return it->second.r; }
  std::set<uint32_t> vs;
  for (E e : cs) for (uint32_t v : varsOf(e)) vs.insert(v);
  for (auto &m : recent) {
    newEval();
    bool ok = true;
    for (E e : cs) if (!evalE(e, m)) { ok = false; break; }
    if (ok) {
      g_ss.modelHits++;
      for (uint32_t v : vs) model[v] = v < m.size() ? m[v] : 0;
      return SAT;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver s = Z3_mk_solver_from_tactic(ctx, tac);
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_solverTimeoutMs);
  Z3_solver_set_params(ctx, s, p);
  std::vector<E> red; bool consistent = linearize(cs, red);
  if (consistent) for (E e : red) Z3_solver_assert(ctx, s, bl(e));
  g_checkStart = std::chrono::duration<double>(t0.time_since_epoch()).count();
  Z3_lbool r = consistent ? Z3_solver_check(ctx, s) : Z3_L_FALSE;
  g_checkStart = 0;
  Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (res == SAT) {
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    Model full;
    for (uint32_t v : vs) {
      Z3_ast out; unsigned w = g_vars[v].w; u128 val = 0;
      for (unsigned lo = 0; lo < w; lo += 64) {
        unsigned n = std::min(64u, w - lo);
        Z3_ast part = n == w ? bv(g_varExpr[v]) : Z3_mk_extract(ctx, lo + n - 1, lo, bv(g_varExpr[v]));
        u64 x = 0;
        if (Z3_model_eval(ctx, m, part, true, &out)) Z3_get_numeral_uint64(ctx, out, &x);
        val |= (u128)x << lo;
      }
      model[v] = val;
      if (full.size() <= v) full.resize(v + 1, 0);
      full[v] = val;
    }
    Z3_model_dec_ref(ctx, m);
    // the model must satisfy our own reading of the constraints (guards the translation)
    newEval();
    for (E e : cs) if (!evalE(e, full)) { fprintf(stderr, "engine error: z3 model does not satisfy constraint %s\n", exprStr(e).c_str()); exit(3); }
    recent.push_front(full); if (recent.size() > 12) recent.pop_back();
  }
  Z3_params_dec_ref(ctx, p);
  Z3_solver_dec_ref(ctx, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.seconds += dt; if (dt > g_ss.maxq) g_ss.maxq = dt;
  if (getenv("VP_SLOW") && dt > 0.5) { fprintf(stderr, "slow query %.2f s (%d) of %zu:\n", dt, (int)res, cs.size()); for (E e : cs) fprintf(stderr, "  %s\n", exprStr(e, 7).substr(0, 600).c_str()); }
  if (res == SAT) g_ss.sat++; else if (res == UNSAT) g_ss.unsat++; else g_ss.unknown++;
  cache[key] = {res, model};
  return res;
}
std::string toSmt2(const std::vector<E> &cs) {
  init();
  std::vector<Z3_ast> v; for (E e : cs) v.push_back(bl(e));
  return Z3_benchmark_to_smtlib_string(ctx, "q", "QF_BV", "unknown", "", v.empty() ? 0 : v.size() - 1, v.data(), v.empty() ? Z3_mk_true(ctx) : v.back());
}
