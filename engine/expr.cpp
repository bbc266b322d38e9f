#include "expr.h"
std::vector<VarInfo> g_vars;
std::vector<E> g_varExpr;
uint32_t g_exprCount = 0;
std::unordered_set<Expr *, KeyHash, KeyEq> g_table;
static uint32_t g_gen = 1;

static void bounds(Expr *e) {
  u128 f = mask(e->w), z = 0; E a = e->k[0], b = e->k[1], c = e->k[2];
  switch (e->op) {
  case CONST: e->kz = ~e->c & f; e->mv = e->c; return;
  case CONCAT: z = (a->kz << b->w) | b->kz; break;
  case ITE: z = b->kz & c->kz; break;
  case AND: z = a->kz | b->kz; break;
  case OR: case XOR: z = a->kz & b->kz; break;
  case EXTRACT: z = (a->kz >> (unsigned)e->c) & f; break;
  case ADD: { u128 l = a->kz & b->kz; unsigned t = 0; while (t < e->w && ((l >> t) & 1)) t++; z = mask(t) & f; break; }
  default: break;
  }
  z &= f; u128 m = f & ~z;
  switch (e->op) {
  case CONCAT: m = std::min(m, (u128)((a->mv << b->w) | b->mv)); break;
  case ADD: if (e->w < 127 && a->mv + b->mv <= f) m = std::min(m, a->mv + b->mv); break;
  case MUL: if (a->mv == 0 || b->mv == 0) m = 0; else if (e->w <= 100 && a->mv <= f / b->mv) m = std::min(m, a->mv * b->mv); break;
  case ITE: m = std::min(m, std::max(b->mv, c->mv)); break;
  case UDIV: if (isC(b) && b->c) m = a->mv / b->c; break;
  case UREM: if (isC(b) && b->c) m = std::min(m, b->c - 1); break;
  case EXTRACT: if (a->mv >> (unsigned)e->c <= f) m = std::min(m, a->mv >> (unsigned)e->c); break;
  default: break;
  }
  unsigned h = 0; while (h < e->w && (m >> h)) h++;
  e->mv = m; e->kz = z | (f & ~mask(h));
}
E mkRaw(Op op, unsigned w, u128 c, E a, E b, E d) {
  Expr t; t.op = op; t.w = (uint16_t)w; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d;
  auto it = g_table.find(&t);
  if (it != g_table.end()) return *it;
  Expr *e = new Expr(t);
  e->id = g_exprCount++;
  e->undef = false;
  for (int i = 0; i < 3; i++) if (e->k[i] && e->k[i]->undef) e->undef = true;
  bounds(e);
  g_table.insert(e);
  return e;
}
std::vector<std::vector<E>> g_lin;
static E linBit(std::vector<E> &&v) {
  if (v.empty()) return mkConst(1, 0);
  if (v.size() == 1) return v[0];
  if (v.size() == 2) return mkRaw(XOR, 1, 0, v[0], v[1]);
  struct H { size_t operator()(const std::vector<E> &x) const { u64 h = x.size(); for (E e : x) { h = (h ^ e->id) * 0x9FB21C651E98DF25ull; h ^= h >> 31; } return h; } };
  static std::unordered_map<std::vector<E>, E, H> tab;
  auto it = tab.find(v);
  if (it != tab.end()) return it->second;
  u64 i = g_lin.size(); bool u = false; for (E e : v) u |= e->undef;
  E r = mkRaw(LIN, 1, i); r->undef = u;
  tab[v] = r; g_lin.push_back(std::move(v));
  return r;
}
static bool linLess(E a, E b) { return a->id < b->id; }
static void linTerms(E e, std::vector<E> &out) { // a one-bit expression without a constant part
  if (e->op == LIN) { out = g_lin[(size_t)e->c]; return; }
  if (e->op == XOR) { std::vector<E> x, y; linTerms(e->k[0], x); linTerms(e->k[1], y); std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(out), linLess); return; }
  out.push_back(e);
}
E mkConst(unsigned w, u128 v) { return mkRaw(CONST, w, v & mask(w)); }
E mkVar(const std::string &name, unsigned w, bool undef, bool aux) {
  static std::unordered_map<std::string, uint32_t> idx;
  auto it = idx.find(name);
  if (it != idx.end() && g_vars[it->second].w == w) return g_varExpr[it->second];
  uint32_t i = g_vars.size();
  g_vars.push_back({name, w, undef, aux});
  E e = mkRaw(VAR, w, i);
  e->undef = undef;
  g_varExpr.push_back(e);
  idx[name] = i;
  return e;
}
static inline bool isZ(E e) { return e->op == CONST && e->c == 0; }
static inline bool isOnes(E e) { return e->op == CONST && e->c == mask(e->w); }

E mkExtract(E e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  if (lo + w > e->w) { fprintf(stderr, "bad extract\n"); abort(); }
  switch (e->op) {
  case CONST: return mkConst(w, e->c >> lo);
  case EXTRACT: return mkExtract(e->k[0], lo + (unsigned)e->c, w);
  case CONCAT: {
    unsigned lw = e->k[1]->w;
    if (lo + w <= lw) return mkExtract(e->k[1], lo, w);
    if (lo >= lw) return mkExtract(e->k[0], lo - lw, w);
    return mkConcat(mkExtract(e->k[0], 0, lo + w - lw), mkExtract(e->k[1], lo, lw - lo)); }
  case SEXT:
    if (lo + w <= e->k[0]->w) return mkExtract(e->k[0], lo, w);
    if (lo + 1 >= e->k[0]->w) return mkSext(mkExtract(e->k[0], e->k[0]->w - 1, 1), w);
    break;
  case ITE:
    if (isC(e->k[1]) || isC(e->k[2])) return mkIte(e->k[0], mkExtract(e->k[1], lo, w), mkExtract(e->k[2], lo, w));
    break;
  case AND: case OR: case XOR: case ADD: case MUL: {
    if (lo != 0 && (e->op == ADD || e->op == MUL)) break;
    static std::unordered_map<u64, E> memo; // avoids exponential walks over shared DAGs
    u64 key = ((u64)e->id << 16) | (lo << 8) | w;
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    E a = mkExtract(e->k[0], lo, w), b = mkExtract(e->k[1], lo, w), r;
    switch (e->op) { case AND: r = mkAnd(a, b); break; case OR: r = mkOr(a, b); break; case XOR: r = mkXor(a, b); break;
                     case ADD: r = mkAdd(a, b); break; default: r = mkMul(a, b); }
    memo[key] = r;
    return r; }
  default: break;
  }
  return mkRaw(EXTRACT, w, lo, e);
}
E mkConcat(E hi, E lo) {
  if (isC(hi) && isC(lo)) return mkConst(hi->w + lo->w, (hi->c << lo->w) | lo->c);
  // keep right-leaning: (a.b).c -> a.(b.c)
  if (hi->op == CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  // merge adjacent pieces
  E first = lo->op == CONCAT ? lo->k[0] : lo;
  E merged = nullptr;
  if (isC(hi) && isC(first)) merged = mkConst(hi->w + first->w, (hi->c << first->w) | first->c);
  else if (hi->op == EXTRACT) {
    E src = hi->k[0]; unsigned hl = (unsigned)hi->c;
    if (first->op == EXTRACT && first->k[0] == src && (unsigned)first->c + first->w == hl)
      merged = mkExtract(src, (unsigned)first->c, first->w + hi->w);
    else if (hl && lo->w >= hl && (src->op == ADD || src->op == MUL) && mkExtract(lo, lo->w - hl, hl) == mkExtract(src, 0, hl)) { // the low part was narrowed
      E m = mkExtract(src, 0, hl + hi->w); return lo->w == hl ? m : mkConcat(m, mkExtract(lo, 0, lo->w - hl));
    }
  }
  if (merged) {
    if (lo->op == CONCAT) return mkConcat(merged, lo->k[1]);
    return merged;
  }
  return mkRaw(CONCAT, hi->w + lo->w, 0, hi, lo);
}
E mkZext(E e, unsigned w) { return w == e->w ? e : mkConcat(mkConst(w - e->w, 0), e); }
E mkSext(E e, unsigned w) {
  if (w == e->w) return e;
  if (isC(e)) return mkConst(w, (u128)sx(e->c, e->w));
  if (e->op == SEXT) return mkSext(e->k[0], w);
  if (knownZero(e) >> (e->w - 1) & 1) return mkZext(e, w);
  if (e->op == ITE && isC(e->k[1]) && isC(e->k[2])) return mkIte(e->k[0], mkSext(e->k[1], w), mkSext(e->k[2], w));
  return mkRaw(SEXT, w, 0, e);
}
static void order(E &a, E &b) { // constants second, else by id
  if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
}
// combine a|b where for every bit at least one is known zero
static E disjointOr(E a, E b, u128 za, u128 zb) {
  unsigned w = a->w, i = 0; E r = nullptr;
  while (i < w) {
    bool pa = !((za >> i) & 1), pb = !((zb >> i) & 1); unsigned j = i + 1;
    while (j < w && pa == !((za >> j) & 1) && pb == !((zb >> j) & 1)) j++;
    E p = pa ? mkExtract(a, i, j - i) : pb ? mkExtract(b, i, j - i) : mkConst(j - i, 0);
    r = r ? mkConcat(p, r) : p;
    i = j;
  }
  return r;
}
static inline bool structured(E e) { return e->op == CONCAT || e->op == CONST || e->op == ITE; }
// sums of a few terms are kept sorted and without x + (-1)*x
static const unsigned MAXSUM = 10;
static bool addends(E e, std::vector<E> &t) {
  if (e->op == ADD) return addends(e->k[0], t) && addends(e->k[1], t);
  t.push_back(e); return t.size() <= MAXSUM;
}
static bool opposite(E a, E b) { return (a->op == MUL && a->k[0] == b && isOnes(a->k[1])) || (b->op == MUL && b->k[0] == a && isOnes(b->k[1])); }
static E sumOf(std::vector<E> t, unsigned w) {
  E k = mkConst(w, 0);
  for (size_t i = 0; i < t.size();) if (isC(t[i])) { k = mkConst(w, k->c + t[i]->c); t.erase(t.begin() + i); } else i++;
  for (size_t i = 0; i < t.size();) {
    size_t j = i + 1;
    while (j < t.size() && !opposite(t[i], t[j])) j++;
    if (j < t.size()) { t.erase(t.begin() + j); t.erase(t.begin() + i); } else i++;
  }
  if (t.empty()) return k;
  if (t.size() <= 2) { // few enough to be treated like any two terms
    E r = t[0]; bool plain = true;
    for (E x : t) if (x->op == ADD) plain = false;
    if (t.size() == 2) { if (plain && structured(t[0]) && structured(t[1])) { u128 za = knownZero(t[0]), zb = knownZero(t[1]); if (((za | zb) & mask(w)) == mask(w)) r = disjointOr(t[0], t[1], za, zb); else { E p = t[0], q = t[1]; order(p, q); r = mkRaw(ADD, w, 0, p, q); } } else { E p = t[0], q = t[1]; order(p, q); r = mkRaw(ADD, w, 0, p, q); } }
    return isZ(k) ? r : mkAdd(r, k);
  }
  std::sort(t.begin(), t.end(), [](E a, E b) { return a->id < b->id; });
  E r = t[0]; for (size_t i = 1; i < t.size(); i++) r = mkRaw(ADD, w, 0, r, t[i]);
  return isZ(k) ? r : mkRaw(ADD, w, 0, r, k);
}
E mkAdd(E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, a->c + b->c);
  if (w == 1) return mkXor(a, b);
  order(a, b);
  if (isZ(b)) return a;
  if (isC(b) && a->op == ADD && isC(a->k[1])) return mkAdd(a->k[0], mkConst(w, a->k[1]->c + b->c));
  if (isC(b) && a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkAdd(a->k[1], b), mkAdd(a->k[2], b));
  // pull constants outwards
  if (!isC(b)) {
    if (a->op == ADD && isC(a->k[1])) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
    if (b->op == ADD && isC(b->k[1])) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
    std::vector<E> t;
    if (addends(a, t) && addends(b, t)) return sumOf(std::move(t), w);
  }
  if (isC(b) && a->op == CONCAT && (b->c & mask(a->k[1]->w)) == 0) // the low part is untouched
    return mkConcat(mkAdd(a->k[0], mkConst(a->k[0]->w, b->c >> a->k[1]->w)), a->k[1]);
  if (structured(a) && structured(b)) {
    u128 za = knownZero(a), zb = knownZero(b);
    if (((za | zb) & mask(w)) == mask(w)) return disjointOr(a, b, za, zb);
  }
  return mkRaw(ADD, w, 0, a, b);
}
E mkSub(E a, E b) {
  if (a == b) return mkConst(a->w, 0);
  return mkAdd(a, mkMul(b, mkConst(b->w, mask(b->w))));
}
E mkMul(E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, a->c * b->c);
  if (w == 1) return mkAnd(a, b);
  order(a, b);
  if (isC(b)) {
    if (b->c == 0) return b;
    if (b->c == 1) return a;
    if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkShift(SHL, a, mkConst(w, s)); }
    if (a->op == MUL && isC(a->k[1])) return mkMul(a->k[0], mkConst(w, a->k[1]->c * b->c));
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkMul(a->k[1], b), mkMul(a->k[2], b));
    if (isOnes(b) && a->op == CONCAT && a->k[1]->w == 1 && isZ(a->k[0])) return mkSext(a->k[1], w);
    if (isOnes(b) && a->op == ADD) {
      std::vector<E> t;
      if (addends(a, t)) { for (E &x : t) x = mkMul(x, b); return sumOf(std::move(t), w); }
    }
    if (a->op == ADD && isC(a->k[1])) return mkAdd(mkMul(a->k[0], b), mkMul(a->k[1], b));
  }
  return mkRaw(MUL, w, 0, a, b);
}
static u128 divConst(Op op, u128 x, u128 y, unsigned w) {
  switch (op) {
  case UDIV: return y == 0 ? mask(w) : x / y;
  case UREM: return y == 0 ? x : x % y;
  case SDIV: { s128 p = sx(x, w), q = sx(y, w); if (q == 0) return p < 0 ? 1 : mask(w); if (q == -1) return (u128)(-p); return (u128)(p / q); }
  default: { s128 p = sx(x, w), q = sx(y, w); if (q == 0) return x; if (q == -1) return 0; return (u128)(p % q); }
  }
}
E mkDiv(Op op, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, divConst(op, a->c, b->c, w));
  if (isC(b) && b->c) {
    bool pos = op == UDIV || op == UREM || ((knownZero(a) >> (w - 1)) & 1 && !((b->c >> (w - 1)) & 1));
    if (pos) {
      if (op == SDIV) op = UDIV;
      if (op == SREM) op = UREM;
      if ((b->c & (b->c - 1)) == 0) {
        if (op == UDIV) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkShift(LSHR, a, mkConst(w, s)); }
        return mkAnd(a, mkConst(w, b->c - 1));
      }
      // narrow zero-extended operands
      u128 z = knownZero(a); unsigned n = w;
      while (n > 1 && (z >> (n - 1)) & 1) n--;
      unsigned m = w; while (m > 1 && !((b->c >> (m - 1)) & 1)) m--;
      unsigned q = std::max(n, m);
      if (q < w) return mkZext(mkDiv(op, mkExtract(a, 0, q), mkConst(q, b->c)), w);
    }
  }
  return mkRaw(op, w, 0, a, b);
}
E mkAnd(E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, a->c & b->c);
  if (a == b) return a;
  order(a, b);
  if (isC(b)) {
    if (b->c == 0) return b;
    if (isOnes(b)) return a;
    E r = nullptr; unsigned i = 0;
    while (i < w) {
      bool one = (b->c >> i) & 1; unsigned j = i + 1;
      while (j < w && (bool)((b->c >> j) & 1) == one) j++;
      E p = one ? mkExtract(a, i, j - i) : mkConst(j - i, 0);
      r = r ? mkConcat(p, r) : p; i = j;
    }
    return r;
  }
  if (w == 1) {
    if (a == mkNot(b)) return mkBool(false);
    // absorption with shared conjuncts
    if (a->op == AND && (a->k[0] == b || a->k[1] == b)) return a;
    if (b->op == AND && (b->k[0] == a || b->k[1] == a)) return b;
  } else {
    u128 za = structured(a) ? knownZero(a) : 0, zb = structured(b) ? knownZero(b) : 0;
    u128 z = (za | zb) & mask(w);
    if (z == mask(w)) return mkConst(w, 0);
    if (z) { // strip known-zero high part
      unsigned n = w; while (n > 0 && ((z >> (n - 1)) & 1)) n--;
      if (n < w) return mkZext(mkAnd(mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
    }
  }
  if (w > 1 && a->op == CONCAT && b->op == CONCAT) {
    unsigned l = a->k[1]->w;
    return mkConcat(mkAnd(a->k[0], mkExtract(b, l, w - l)), mkAnd(a->k[1], mkExtract(b, 0, l)));
  }
  return mkRaw(AND, w, 0, a, b);
}
E mkOr(E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, a->c | b->c);
  if (a == b) return a;
  order(a, b);
  if (isZ(b)) return a;
  if (isOnes(b)) return b;
  if (w == 1) { if (a == mkNot(b)) return mkBool(true); }
  else if (isC(b)) {
    E r = nullptr; unsigned i = 0;
    while (i < w) {
      bool one = (b->c >> i) & 1; unsigned j = i + 1;
      while (j < w && (bool)((b->c >> j) & 1) == one) j++;
      E p = one ? mkConst(j - i, mask(j - i)) : mkExtract(a, i, j - i);
      r = r ? mkConcat(p, r) : p; i = j;
    }
    return r;
  } else {
    u128 za = knownZero(a), zb = knownZero(b), m = mask(w);
    if (((za | zb) & m) == m) return disjointOr(a, b, za, zb);
    if ((za & zb & m) && (a->op == CONCAT && b->op == CONCAT)) { // strip common zero high part
      u128 z = za & zb & m; unsigned n = w; while (n > 0 && ((z >> (n - 1)) & 1)) n--;
      if (n < w) return mkZext(mkOr(mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
    }
  }
  if (w > 1 && a->op == CONCAT && b->op == CONCAT) { // the pieces meet their own counterparts
    unsigned l = a->k[1]->w;
    return mkConcat(mkOr(a->k[0], mkExtract(b, l, w - l)), mkOr(a->k[1], mkExtract(b, 0, l)));
  }
  return mkRaw(OR, w, 0, a, b);
}
static bool bitwise(E e) { // a concatenation holding one-bit sums
  for (; e->op == CONCAT; e = e->k[1]) if (e->k[0]->w == 1 && (e->k[0]->op == XOR || e->k[0]->op == LIN)) return true;
  return e->w == 1;
}
E mkXor(E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, a->c ^ b->c);
  if (a == b) return mkConst(w, 0);
  order(a, b);
  if (isZ(b)) return a;
  if (isC(b) && a->op == XOR && isC(a->k[1])) return mkXor(a->k[0], mkConst(w, a->k[1]->c ^ b->c));
  if (w == 1 && !isC(b)) {
    bool neg = false;
    if (a->op == XOR && isC(a->k[1])) { neg = !neg; a = a->k[0]; }
    if (b->op == XOR && isC(b->k[1])) { neg = !neg; b = b->k[0]; }
    std::vector<E> x, y, z; linTerms(a, x); linTerms(b, y);
    std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(z), linLess);
    E r = linBit(std::move(z));
    return neg ? mkXor(r, mkConst(1, 1)) : r;
  }
  if (!isC(b)) {
    if (a->op == XOR && isC(a->k[1])) return mkXor(mkXor(a->k[0], b), a->k[1]);
    if (b->op == XOR && isC(b->k[1])) return mkXor(mkXor(a, b->k[0]), b->k[1]);
    if (a->op == XOR) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
    if (b->op == XOR) { if (b->k[0] == a) return b->k[1]; if (b->k[1] == a) return b->k[0]; }
    if (w > 1) {
      u128 za = knownZero(a), zb = knownZero(b), m = mask(w);
      if (((za | zb) & m) == m) return disjointOr(a, b, za, zb);
    }
  }
  if (w > 1 && a->op == CONCAT && b->op == CONST) // split so that constants stay local
    return mkConcat(mkXor(a->k[0], mkConst(a->k[0]->w, b->c >> a->k[1]->w)), mkXor(a->k[1], mkConst(a->k[1]->w, b->c)));
  if (w > 1 && a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w)
    return mkConcat(mkXor(a->k[0], b->k[0]), mkXor(a->k[1], b->k[1]));
  if (w > 1 && (bitwise(a) || bitwise(b))) { // sums of bits stay split into bits, where equal sums are equal expressions
    E r = nullptr;
    for (unsigned i = 0; i < w; i++) { E p = mkXor(mkExtract(a, i, 1), mkExtract(b, i, 1)); r = r ? mkConcat(p, r) : p; }
    return r;
  }
  return mkRaw(XOR, w, 0, a, b);
}
E mkNot(E a) { return mkXor(a, mkConst(a->w, mask(a->w))); }
E mkShift(Op op, E a, E b) {
  unsigned w = a->w;
  if (isC(b)) {
    u128 s = b->c;
    if (s == 0) return a;
    if (s >= w) { if (op == ASHR) s = w - 1; else return mkConst(w, 0); }
    unsigned n = (unsigned)s;
    if (op == SHL) return mkConcat(mkExtract(a, 0, w - n), mkConst(n, 0));
    if (op == LSHR) return mkZext(mkExtract(a, n, w - n), w);
    return mkSext(mkExtract(a, n, w - n), w);
  }
  if (isZ(a) && op != ASHR) return a;
  return mkRaw(op, w, 0, a, b);
}
static bool constLeaves(E e, int depth) {
  if (isC(e)) return true;
  return depth > 0 && e->op == ITE && constLeaves(e->k[1], depth - 1) && constLeaves(e->k[2], depth - 1);
}
E mkEq(E a, E b) {
  if (a == b) return mkBool(true);
  if (isC(a) && isC(b)) return mkBool(a->c == b->c);
  order(a, b);
  unsigned w = a->w;
  if (w == 1) return mkNot(mkXor(a, b));
  if (isC(b)) {
    switch (a->op) {
    case CONCAT: {
      u128 z = knownZero(a, 2);
      if (z & b->c) return mkBool(false);
      unsigned lw = a->k[1]->w;
      E h = mkEq(a->k[0], mkConst(a->k[0]->w, b->c >> lw));
      if (isZ(h)) return h;
      return mkAnd(h, mkEq(a->k[1], mkConst(lw, b->c))); }
    case ADD: if (isC(a->k[1])) return mkEq(a->k[0], mkConst(w, b->c - a->k[1]->c)); break;
    case XOR: if (isC(a->k[1])) return mkEq(a->k[0], mkConst(w, b->c ^ a->k[1]->c)); break;
    case ITE:
      if (isC(a->k[1]) || isC(a->k[2]) || (constLeaves(a, 12) && b->w > 1)) {
        E x = mkEq(a->k[1], b), y = mkEq(a->k[2], b);
        return mkIte(a->k[0], x, y);
      }
      break;
    case SEXT: {
      unsigned n = a->k[0]->w; u128 lo = b->c & mask(n);
      if (((u128)sx(lo, n) & mask(w)) != b->c) return mkBool(false);
      return mkEq(a->k[0], mkConst(n, lo)); }
    case MUL:
      if (isC(a->k[1]) && isOnes(a->k[1])) return mkEq(a->k[0], mkConst(w, -b->c));
      break;
    default: break;
    }
  } else {
    if (a->op == CONCAT && b->op == CONCAT) {
      unsigned l = a->k[1]->w;
      return mkAnd(mkEq(a->k[0], mkExtract(b, l, w - l)), mkEq(a->k[1], mkExtract(b, 0, l)));
    }
    // a + x == a
    if (a->op == ADD && b->op == ADD) {
      if (a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
      if (a->k[0] == b->k[0]) return mkEq(a->k[1], b->k[1]);
    }
    if (a->op == ADD && isC(a->k[1]) && a->k[0] == b) return mkBool(false);
    if (b->op == ADD && isC(b->k[1]) && b->k[0] == a) return mkBool(false);
  }
  return mkRaw(EQ, 1, 0, a, b);
}
E mkUlt(E a, E b) {
  if (a == b) return mkBool(false);
  if (isC(a) && isC(b)) return mkBool(a->c < b->c);
  unsigned w = a->w;
  if (isZ(b)) return mkBool(false);
  if (isOnes(a)) return mkBool(false);
  if (isC(b) && b->c == 1) return mkEq(a, mkConst(w, 0));
  if (isZ(a)) return mkNot(mkEq(b, a));
  if (w == 1) return mkAnd(mkNot(a), b);
  // strip common known-zero high bits
  {
    u128 z = knownZero(a) & knownZero(b); unsigned n = w;
    while (n > 1 && ((z >> (n - 1)) & 1)) n--;
    if (n < w) return mkUlt(mkExtract(a, 0, n), mkExtract(b, 0, n));
    u128 za = knownZero(a), zb = knownZero(b);
    (void)za; (void)zb;
    if (isC(b) && maxval(a, 48) < b->c) return mkBool(true);
    if (isC(a) && maxval(b, 48) <= a->c) return mkBool(false);
  }
  if (isC(b) && a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
  if (isC(a) && b->op == ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
  return mkRaw(ULT, 1, 0, a, b);
}
E mkSlt(E a, E b) {
  if (a == b) return mkBool(false);
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkBool(sx(a->c, w) < sx(b->c, w));
  bool pa = (knownZero(a) >> (w - 1)) & 1, pb = (knownZero(b) >> (w - 1)) & 1;
  if (pa && pb) return mkUlt(a, b);
  if (w == 1) return mkAnd(a, mkNot(b));
  if (isZ(b)) return mkExtract(a, w - 1, 1);
  if (isC(b) && pa && sx(b->c, w) < 0) return mkBool(false);
  if (isC(a) && pb && sx(a->c, w) < 0) return mkBool(true);
  if (isOnes(a) && !isC(b)) return mkNot(mkExtract(b, w - 1, 1)); // -1 < b
  if (isC(b) && a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
  if (isC(a) && b->op == ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
  if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkSlt(a->k[0], b->k[0]);
  if (a->op == SEXT && isC(b)) {
    unsigned n = a->k[0]->w; s128 v = sx(b->c, w), lo = -((s128)1 << (n - 1)), hi = ((s128)1 << (n - 1)) - 1;
    if (v <= lo) return mkBool(false);
    if (v > hi) return mkBool(true);
    return mkSlt(a->k[0], mkConst(n, (u128)v));
  }
  if (b->op == SEXT && isC(a)) {
    unsigned n = b->k[0]->w; s128 v = sx(a->c, w), lo = -((s128)1 << (n - 1)), hi = ((s128)1 << (n - 1)) - 1;
    if (v >= hi) return mkBool(false);
    if (v < lo) return mkBool(true);
    return mkSlt(mkConst(n, (u128)v), b->k[0]);
  }
  return mkRaw(SLT, 1, 0, a, b);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == XOR && isC(c->k[1])) return mkIte(c->k[0], b, a); // not
  unsigned w = a->w;
  if (w == 1) {
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (a->op == CONCAT && b->op == CONCAT && a->k[0] == b->k[0] && a->k[1]->w == b->k[1]->w)
    return mkConcat(a->k[0], mkIte(c, a->k[1], b->k[1]));
  return mkRaw(ITE, w, 0, c, a, b);
}

void newEval() { g_gen++; }
u128 evalE(E e, const Model &m) {
  if (e->op == CONST) return e->c;
  if (e->gen == g_gen) return e->val;
  u128 r = 0; unsigned w = e->w;
  switch (e->op) {
  case VAR: r = e->c < m.size() ? m[(size_t)e->c] : 0; break;
  case ADD: r = evalE(e->k[0], m) + evalE(e->k[1], m); break;
  case MUL: r = evalE(e->k[0], m) * evalE(e->k[1], m); break;
  case UDIV: case UREM: case SDIV: case SREM: { u128 x = evalE(e->k[0], m), y = evalE(e->k[1], m); r = divConst(e->op, x, y, w); break; }
  case AND: r = evalE(e->k[0], m) & evalE(e->k[1], m); break;
  case OR: r = evalE(e->k[0], m) | evalE(e->k[1], m); break;
  case XOR: r = evalE(e->k[0], m) ^ evalE(e->k[1], m); break;
  case SHL: { u128 x = evalE(e->k[0], m), s = evalE(e->k[1], m); r = s >= w ? 0 : x << (unsigned)s; break; }
  case LSHR: { u128 x = evalE(e->k[0], m), s = evalE(e->k[1], m); r = s >= w ? 0 : x >> (unsigned)s; break; }
  case ASHR: { u128 x = evalE(e->k[0], m), s = evalE(e->k[1], m); if (s >= w) s = w - 1; r = (u128)(sx(x, w) >> (unsigned)s); break; }
  case EQ: r = evalE(e->k[0], m) == evalE(e->k[1], m); break;
  case ULT: r = evalE(e->k[0], m) < evalE(e->k[1], m); break;
  case SLT: { unsigned kw = e->k[0]->w; s128 x = sx(evalE(e->k[0], m), kw), y = sx(evalE(e->k[1], m), kw); r = x < y; break; }
  case ITE: r = evalE(e->k[0], m) ? evalE(e->k[1], m) : evalE(e->k[2], m); break;
  case CONCAT: { u128 h = evalE(e->k[0], m), l = evalE(e->k[1], m); r = (h << e->k[1]->w) | l; break; }
  case EXTRACT: r = evalE(e->k[0], m) >> (unsigned)e->c; break;
  case SEXT: r = (u128)sx(evalE(e->k[0], m), e->k[0]->w); break;
  case LIN: for (E t : g_lin[(size_t)e->c]) r ^= evalE(t, m); break;
  default: break;
  }
  e->gen = g_gen; e->val = r & mask(w);
  return e->val;
}
const std::vector<uint32_t> &varsOf(E e) {
  static const std::vector<uint32_t> none;
  if (e->op == CONST) return none;
  if (e->vars) return *e->vars;
  if (e->op == VAR) { e->vars = new std::vector<uint32_t>{(uint32_t)e->c}; return *e->vars; }
  if (e->op == LIN) {
    std::set<uint32_t> t; for (E x : g_lin[(size_t)e->c]) { const auto &v = varsOf(x); t.insert(v.begin(), v.end()); }
    e->vars = new std::vector<uint32_t>(t.begin(), t.end()); return *e->vars;
  }
  const std::vector<uint32_t> *best = nullptr; std::vector<uint32_t> acc; bool own = false;
  for (int i = 0; i < 3; i++) if (e->k[i]) {
    const auto &v = varsOf(e->k[i]);
    if (v.empty()) continue;
    if (!best) { best = &v; continue; }
    if (&v == best) continue;
    const auto &cur = own ? acc : *best;
    if (std::includes(cur.begin(), cur.end(), v.begin(), v.end())) continue;
    std::vector<uint32_t> t; std::set_union(cur.begin(), cur.end(), v.begin(), v.end(), std::back_inserter(t));
    acc.swap(t); own = true;
  }
  e->vars = own ? new std::vector<uint32_t>(std::move(acc)) : best ? best : &none;
  return *e->vars;
}
E substUndef(E e, std::unordered_map<E, E> &memo) {
  if (!e->undef) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  E r;
  if (e->op == VAR) r = mkVar(g_vars[(size_t)e->c].name + "'", e->w, false, true);
  else if (e->op == LIN) { r = mkConst(1, 0); std::vector<E> t = g_lin[(size_t)e->c]; for (E x : t) r = mkXor(r, substUndef(x, memo)); }
  else {
    E a = e->k[0] ? substUndef(e->k[0], memo) : nullptr, b = e->k[1] ? substUndef(e->k[1], memo) : nullptr, c = e->k[2] ? substUndef(e->k[2], memo) : nullptr;
    switch (e->op) {
    case ADD: r = mkAdd(a, b); break; case MUL: r = mkMul(a, b); break;
    case UDIV: case SDIV: case UREM: case SREM: r = mkDiv(e->op, a, b); break;
    case AND: r = mkAnd(a, b); break; case OR: r = mkOr(a, b); break; case XOR: r = mkXor(a, b); break;
    case SHL: case LSHR: case ASHR: r = mkShift(e->op, a, b); break;
    case EQ: r = mkEq(a, b); break; case ULT: r = mkUlt(a, b); break; case SLT: r = mkSlt(a, b); break;
    case ITE: r = mkIte(a, b, c); break; case CONCAT: r = mkConcat(a, b); break;
    case EXTRACT: r = mkExtract(a, (unsigned)e->c, e->w); break; case SEXT: r = mkSext(a, e->w); break;
    default: r = e;
    }
  }
  memo[e] = r;
  return r;
}
E substKnown(E e, const KnownBits &kb, std::unordered_map<E, E> &memo, int &budget) {
  if (isC(e)) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  bool hit = false; for (uint32_t v : varsOf(e)) if (kb.count(v)) { hit = true; break; }
  if (!hit) return e;
  if (--budget < 0) return nullptr;
  E r = e;
  if (e->op == VAR) {
    auto &k = kb.find((uint32_t)e->c)->second;
    if (k.first == mask(e->w)) r = mkConst(e->w, k.second);
    else { // runs of known and unknown bits, from the low end
      E x = nullptr; for (unsigned lo = 0; lo < e->w;) { bool kn = (k.first >> lo) & 1; unsigned n = 1; while (lo + n < e->w && (bool)((k.first >> (lo + n)) & 1) == kn) n++; E p = kn ? mkConst(n, (k.second >> lo) & mask(n)) : mkExtract(e, lo, n); x = x ? mkConcat(p, x) : p; lo += n; }
      r = x;
    }
  } else if (e->op == LIN) {
    r = mkConst(1, 0); std::vector<E> t = g_lin[(size_t)e->c]; for (E x : t) { E y = substKnown(x, kb, memo, budget); if (!y) return nullptr; r = mkXor(r, y); }
  } else {
    E a = nullptr, b = nullptr, c = nullptr;
    if (e->k[0] && !(a = substKnown(e->k[0], kb, memo, budget))) return nullptr;
    if (e->op == ITE && isC(a)) { r = substKnown(a->c ? e->k[1] : e->k[2], kb, memo, budget); if (r) memo[e] = r; return r; }
    if (e->k[1] && !(b = substKnown(e->k[1], kb, memo, budget))) return nullptr;
    if (e->k[2] && !(c = substKnown(e->k[2], kb, memo, budget))) return nullptr;
    if (a == e->k[0] && b == e->k[1] && c == e->k[2]) { memo[e] = e; return e; }
    switch (e->op) {
    case ADD: r = mkAdd(a, b); break; case MUL: r = mkMul(a, b); break;
    case UDIV: case SDIV: case UREM: case SREM: r = mkDiv(e->op, a, b); break;
    case AND: r = mkAnd(a, b); break; case OR: r = mkOr(a, b); break; case XOR: r = mkXor(a, b); break;
    case SHL: case LSHR: case ASHR: r = mkShift(e->op, a, b); break;
    case EQ: r = mkEq(a, b); break; case ULT: r = mkUlt(a, b); break; case SLT: r = mkSlt(a, b); break;
    case ITE: r = mkIte(a, b, c); break; case CONCAT: r = mkConcat(a, b); break;
    case EXTRACT: r = mkExtract(a, (unsigned)e->c, e->w); break; case SEXT: r = mkSext(a, e->w); break;
    default: break;
    }
  }
  memo[e] = r;
  return r;
}
std::string exprStr(E e, int depth) {
  static const char *n[] = {"const", "var", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite", "concat", "extract", "sext", "lin"};
  char buf[64];
  if (e->op == CONST) { snprintf(buf, sizeof buf, "%llx:%u", (unsigned long long)e->c, e->w); return buf; }
  if (e->op == VAR) return g_vars[(size_t)e->c].name;
  if (!depth) return "...";
  if (e->op == LIN) { std::string s = "(lin"; for (E t : g_lin[(size_t)e->c]) s += " " + exprStr(t, depth - 1); return s + ")"; }
  std::string s = std::string("(") + n[e->op];
  if (e->op == EXTRACT) { snprintf(buf, sizeof buf, "[%u+%u]", (unsigned)e->c, e->w); s += buf; }
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}
