// Hash-consed bit-vector expressions with eager simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <map>
#include <set>
typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef int64_t s64;

enum Op : uint8_t {
  CONST, VAR, ADD, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, SLT, ITE, CONCAT, EXTRACT, SEXT,
  LIN // one bit: the sum (XOR) of at least three distinct non-constant bits; c = index into g_lin
};

struct Expr {
  Op op; bool undef; uint16_t w; uint32_t id;
  u128 c;              // CONST value, VAR index, EXTRACT low bit
  Expr *k[3];
  uint32_t gen = 0; u128 val = 0;      // evaluation cache
  u128 kz = 0, mv = 0;                 // bits known to be zero, an upper bound of the unsigned value
  const std::vector<uint32_t> *vars = nullptr; // sorted variable indices
};
typedef Expr *E;

static inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  v &= mask(w);
  return (s128)((v ^ m) - m);
}

struct KeyHash { size_t operator()(const Expr *e) const {
  u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w;
  h = (h ^ (u64)e->c) * 0xff51afd7ed558ccdull; h ^= h >> 33;
  h = (h ^ (u64)(e->c >> 64)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
  for (int i = 0; i < 3; i++) { h = (h ^ (e->k[i] ? e->k[i]->id + 1 : 0)) * 0x9FB21C651E98DF25ull; h ^= h >> 32; }
  return h; } };
struct KeyEq { bool operator()(const Expr *a, const Expr *b) const {
  return a->op == b->op && a->w == b->w && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };

struct VarInfo { std::string name; unsigned w; bool undef; bool aux; };
extern std::vector<VarInfo> g_vars;
extern std::vector<E> g_varExpr;
extern uint32_t g_exprCount;
extern std::unordered_set<Expr *, KeyHash, KeyEq> g_table;

extern std::vector<std::vector<E>> g_lin; // sorted by id, interned: equal sums are the same expression
E mkRaw(Op op, unsigned w, u128 c, E a = nullptr, E b = nullptr, E d = nullptr);
E mkConst(unsigned w, u128 v);
E mkVar(const std::string &name, unsigned w, bool undef, bool aux);
static inline bool isC(E e) { return e->op == CONST; }
E mkExtract(E e, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E e, unsigned w);
E mkSext(E e, unsigned w);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b);
E mkDiv(Op op, E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShift(Op op, E a, E b);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkSlt(E a, E b);
E mkIte(E c, E a, E b);
static inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
static inline E mkBool(bool b) { return mkConst(1, b); }

typedef std::vector<u128> Model; // by variable index (missing = 0)
void newEval();
u128 evalE(E e, const Model &m);      // call newEval() before switching models
const std::vector<uint32_t> &varsOf(E e);
std::string exprStr(E e, int depth = 6);
E substUndef(E e, std::unordered_map<E, E> &memo);
// known bits of variables: variable -> (mask, value); returns null when the expression is too large
typedef std::map<uint32_t, std::pair<u128, u128>> KnownBits;
E substKnown(E e, const KnownBits &kb, std::unordered_map<E, E> &memo, int &budget);
static inline u128 knownZero(E e, int = 0) { return e->kz; }
static inline u128 maxval(E e, int = 0) { return e->mv; }
