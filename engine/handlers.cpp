#include "exec.h"
#define H(name) static bool name([[maybe_unused]] Engine &en, [[maybe_unused]] State &s, [[maybe_unused]] DI &d, [[maybe_unused]] Args &a, [[maybe_unused]] Val *ret)
static unsigned argW(DI &d, unsigned k) { return (unsigned)((CallInfo *)d.x)->args[k][2]; }
static E B1(bool b) { return mkBool(b); }

H(hNop) { ret[0] = VC(0); ret[1] = VC(0); return true; }
H(hMemcpy) { u64 n = en.conc(s, a[2], argW(d, 2), "copy length"); if (n) { u64 p = en.conc(s, a[0], 64, "copy address", 1024), q = en.conc(s, a[1], 64, "copy address", 1024); en.copyMem(s, p, q, n); } ret[0] = a[0]; return true; }
H(hMempcpy) { u64 n = en.conc(s, a[2], 64, "copy length"); u64 p = en.conc(s, a[0], 64, "copy address", 1024), q = en.conc(s, a[1], 64, "copy address", 1024); en.copyMem(s, p, q, n); ret[0] = VC(p + n); return true; }
H(hMemset) { u64 n = en.conc(s, a[2], argW(d, 2), "fill length"); if (n) { u64 p = en.conc(s, a[0], 64, "fill address"); Val b = a[1]; if (b.e) b = VE(mkExtract(b.e, 0, 8)); else b.v &= 255; en.fillMem(s, p, n, b); } ret[0] = a[0]; return true; }
H(hWmemcpy) { u64 n = en.conc(s, a[2], 64, "copy length") * 4; if (n) { u64 p = en.conc(s, a[0], 64, "copy address", 1024), q = en.conc(s, a[1], 64, "copy address", 1024); en.copyMem(s, p, q, n); } ret[0] = a[0]; return true; }
H(hWmemset) { u64 n = en.conc(s, a[2], 64, "fill length"); u64 p = en.conc(s, a[0], 64, "fill address"); for (u64 i = 0; i < n; i++) en.store(s, VC(p + 4 * i), 4, 32, a[1]); ret[0] = a[0]; return true; }
static bool cmpMem(Engine &en, State &s, u64 p, u64 q, u64 n, unsigned unit, bool sgn, Val *ret) {
  // fast path: everything concrete
  std::vector<E> x, y; E r = mkConst(32, 0); bool allc = true;
  for (u64 i = 0; i < n; i++) {
    Val u = en.load(s, VC(p + i * unit), unit, unit * 8), v = en.load(s, VC(q + i * unit), unit, unit * 8);
    if (!u.e && !v.e) {
      if (u.v == v.v && allc) continue;
      if (allc) { bool lt = sgn ? (s64)sx(u.v, unit * 8) < (s64)sx(v.v, unit * 8) : u.v < v.v; ret[0] = VC(lt ? 0xffffffffu : 1); return true; }
    } else allc = false;
    x.push_back(toE(u, unit * 8)); y.push_back(toE(v, unit * 8));
    E eq = mkEq(x.back(), y.back()); if (isC(eq) && !eq->c) break; // decided here
  }
  for (size_t i = x.size(); i-- > 0;) {
    E eq = mkEq(x[i], y[i]); if (isC(eq) && eq->c) continue;
    E lt = sgn ? mkSlt(x[i], y[i]) : mkUlt(x[i], y[i]);
    r = mkIte(eq, r, mkIte(lt, mkConst(32, 0xffffffffu), mkConst(32, 1)));
  }
  ret[0] = VE(r); return true;
}
H(hMemcmp) { u64 n = en.conc(s, a[2], 64, "compare length"); if (!n) { ret[0] = VC(0); return true; } u64 p = en.conc(s, a[0], 64, "compare address"), q = en.conc(s, a[1], 64, "compare address"); return cmpMem(en, s, p, q, n, 1, false, ret); }
H(hWmemcmp) { u64 n = en.conc(s, a[2], 64, "compare length"); if (!n) { ret[0] = VC(0); return true; } u64 p = en.conc(s, a[0], 64, "compare address"), q = en.conc(s, a[1], 64, "compare address"); return cmpMem(en, s, p, q, n, 4, true, ret); }
H(hStrlen) { u64 p = en.conc(s, a[0], 64, "string"); for (u64 i = 0;; i++) { Val v = en.load(s, VC(p + i), 1, 8); if (!v.e) { if (!v.v) { ret[0] = VC(i); return true; } } else if (en.decide(s, mkEq(v.e, mkConst(8, 0)), "strlen")) { ret[0] = VC(i); return true; } } }
H(hWcslen) { u64 p = en.conc(s, a[0], 64, "string"); for (u64 i = 0;; i++) { Val v = en.load(s, VC(p + 4 * i), 4, 32); if (!v.e) { if (!v.v) { ret[0] = VC(i); return true; } } else if (en.decide(s, mkEq(v.e, mkConst(32, 0)), "wcslen")) { ret[0] = VC(i); return true; } } }
static bool chr(Engine &en, State &s, Args &a, Val *ret, unsigned unit) {
  u64 n = en.conc(s, a[2], 64, "memchr length"); u64 p = en.conc(s, a[0], 64, "memchr address"); E c = mkExtract(toE(a[1], 32), 0, unit * 8);
  for (u64 i = 0; i < n; i++) { Val v = en.load(s, VC(p + unit * i), unit, unit * 8); E q = mkEq(toE(v, unit * 8), c); if (isC(q) ? (bool)q->c : en.decide(s, q, "memchr")) { ret[0] = VC(p + unit * i); return true; } }
  ret[0] = VC(0); return true;
}
H(hMemchr) { return chr(en, s, a, ret, 1); }
H(hWmemchr) { return chr(en, s, a, ret, 4); }

// ---- heap
static bool tooBig(Engine &en, State &s, const Val &n) {
  u64 lim = s.heapLimit ? s.heapLimit : en.bigAlloc;
  if (s.failAlloc && --s.failAlloc == 0) return true;
  bool big = n.e ? en.decide(s, mkUlt(mkConst(64, lim), n.e), "allocation size") : n.v > lim;
  s.denied += big; return big;
}
static bool doAlloc(Engine &en, State &s, DI &d, Args &a, Val *ret, int how) {
  if (tooBig(en, s, a[0])) {
    if (how == 0) { ret[0] = VC(0); return true; }
    Function *F = en.M->getFunction("vpm_throw_bad_alloc"); if (!F) en.incompletePath(s, "bad_alloc model missing");
    en.pushCall(s, F, {}); return false;
  }
  u64 n = en.conc(s, a[0], 64, "allocation size", 70000);
  Obj *o = en.alloc(s, n, OK::HEAP); o->how = (uint8_t)how; s.live += n; ret[0] = VC(o->base()); return true;
}
H(hMalloc) { return doAlloc(en, s, d, a, ret, 0); }
H(hNew) { return doAlloc(en, s, d, a, ret, 1); }
H(hNewArr) { return doAlloc(en, s, d, a, ret, 2); }
H(hNewNT) { if (tooBig(en, s, a[0])) { ret[0] = VC(0); return true; } return doAlloc(en, s, d, a, ret, 1); }
H(hCalloc) {
  E p = mkMul(mkZext(toE(a[0], 64), 128), mkZext(toE(a[1], 64), 128));
  if (en.decide(s, mkUlt(mkConst(128, en.bigAlloc), p), "allocation size")) { ret[0] = VC(0); return true; }
  Args b{VE(mkExtract(p, 0, 64))}; if (!doAlloc(en, s, d, b, ret, 0)) return false;
  if (ret[0].v) { Obj *o = s.mem.getw(ret[0].v >> OFFBITS); if (o->size) o->fillRange(0, o->size, false, 0); }
  return true;
}
static bool doFree(Engine &en, State &s, const Val &p, int how) {
  u64 v = en.conc(s, p, 64, "free"); if (!v) return true;
  Obj *o = s.mem.get(v >> OFFBITS);
  if (!o) en.error(s, (v >> OFFBITS) < s.nextId ? "double-free" : "bad-free", "release of memory that is not allocated");
  if ((v & OFFMASK) || o->kind != OK::HEAP) en.error(s, "bad-free", "release of memory that did not come from the heap");
  if (o->how != how) en.error(s, "bad-free", "allocation and release functions do not match");
  s.live -= o->size; en.release(s, o->id); return true;
}
H(hFree) { return doFree(en, s, a[0], 0); }
H(hDel) { return doFree(en, s, a[0], 1); }
H(hDelArr) { return doFree(en, s, a[0], 2); }
H(hRealloc) {
  u64 p = en.conc(s, a[0], 64, "realloc"); Args b{a[1]};
  if (!p) return doAlloc(en, s, d, b, ret, 0);
  Obj *o = s.mem.get(p >> OFFBITS); if (!o || (p & OFFMASK) || o->kind != OK::HEAP) en.error(s, "bad-free", "realloc of memory that is not allocated");
  u64 os = o->size; if (!doAlloc(en, s, d, b, ret, 0)) return false;
  if (!ret[0].v) return true;
  u64 ns = s.mem.get(ret[0].v >> OFFBITS)->size; en.copyMem(s, ret[0].v, p, std::min(os, ns)); return doFree(en, s, a[0], 0);
}
H(hMarkModel) { u64 p = en.conc(s, a[0], 64, "ptr"); Obj *o = s.mem.getw(p >> OFFBITS); if (o) o->model = true; return true; }

// ---- exceptions
H(hAllocExc) { u64 n = en.conc(s, a[0], 64, "exception"); Obj *o = en.alloc(s, n, OK::HEAP); o->how = 3; ret[0] = VC(o->base()); return true; }
H(hFreeExc) { u64 p = en.conc(s, a[0], 64, "exception"); en.release(s, p >> OFFBITS); return true; }
H(hThrow) { u64 p = en.conc(s, a[0], 64, "throw"), t = en.conc(s, a[1], 64, "throw"), dt = en.conc(s, a[2], 64, "throw"); s.exc.push_back({p, t, dt}); en.unwind(s, p, t); return false; }
H(hBeginCatch) { u64 p = en.conc(s, a[0], 64, "catch"); s.caught.push_back(p); for (auto &x : s.exc) if (x.addr == p) { x.handlers++; x.rethrown = false; } ret[0] = VC(p); return true; }
H(hEndCatch) {
  if (s.caught.empty()) return true;
  u64 p = s.caught.back(); s.caught.pop_back();
  for (size_t i = 0; i < s.exc.size(); i++) if (s.exc[i].addr == p) {
    if (--s.exc[i].handlers > 0 || s.exc[i].rethrown) return true;
    u64 dt = s.exc[i].dtor; s.exc.erase(s.exc.begin() + (long)i);
    if (dt) { en.pushCall(s, en.fnById[dt >> OFFBITS], {VC(p)}); s.st.back().freeExc = p; return false; }
    en.release(s, p >> OFFBITS); return true;
  }
  return true;
}
H(hRethrow) { if (s.caught.empty()) en.error(s, "terminate", "rethrow without an exception"); u64 p = s.caught.back(), t = 0; for (auto &x : s.exc) if (x.addr == p) { x.rethrown = true; t = x.tinfo; } en.unwind(s, p, t); return false; }
H(hGetExc) { ret[0] = a[0]; return true; }
H(hUncaught) { ret[0] = VC(s.exc.size() > s.caught.size()); return true; }
H(hTypeid) { ret[0] = VC((u64)en.typeId(en.conc(s, a[0], 64, "typeid"))); return true; }
H(hTerminate) { en.error(s, "terminate", "std::terminate is called"); return false; }
H(hAbort) { en.error(s, "abort", "abort is called"); return false; }
H(hAssertFail) { en.error(s, "assert", "assertion fails: " + en.cstr(s, en.conc(s, a[0], 64, "assert"))); return false; }
H(hExit) { en.error(s, "exit", "exit is called"); return false; }
H(hTrap) { en.error(s, "trap", "trap instruction"); return false; }

// ---- guards and locks
H(hGuardAcq) { u64 p = en.conc(s, a[0], 64, "guard"); bool w = s.watch; s.watch = false; Val v = en.load(s, VC(p), 1, 8); s.watch = w; if (!v.e && v.v) ret[0] = VC(0); else { s.guardDepth++; ret[0] = VC(1); } return true; }
H(hGuardRel) { u64 p = en.conc(s, a[0], 64, "guard"); bool w = s.watch; s.watch = false; en.store(s, VC(p), 1, 8, VC(1)); s.watch = w; s.guardDepth--; return true; }
H(hGuardAbort) { s.guardDepth--; return true; }
H(hLock) { s.lockDepth++; ret[0] = VC(0); return true; }
H(hUnlock) { s.lockDepth--; ret[0] = VC(0); return true; }

// ---- LLVM intrinsics
H(hLifetimeStart) { u64 p = a.size() > 1 && !a[1].e ? a[1].v : 0; Obj *o = p ? s.mem.get(p >> OFFBITS) : nullptr; if (o && o->kind == OK::STACK && (p & OFFMASK) == 0 && o->size) { Obj *w = s.mem.getw(o->id); w->fillRange(0, w->size, true, 0); } return true; }
H(hAssume) { if (!a[0].e) { if (!a[0].v) en.error(s, "assume", "an llvm.assume does not hold"); } return true; }
H(hFirst) { ret[0] = a[0]; return true; }
H(hFalse) { ret[0] = VC(0); return true; }
H(hMinus1) { ret[0] = VC((u64)mask(d.w)); return true; }
H(hCtlz) { unsigned w = d.w; E e = toE(a[0], w), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(w, w - 1 - i), r); ret[0] = VE(r); return true; }
H(hCttz) { unsigned w = d.w; E e = toE(a[0], w), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkConst(w, i), r); ret[0] = VE(r); return true; }
H(hCtpop) { unsigned w = d.w; E e = toE(a[0], w), r = mkConst(w, 0); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(e, i, 1), w)); ret[0] = VE(r); return true; }
H(hBswap) { unsigned w = d.w; E e = toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } ret[0] = VE(r); return true; }
static bool ovf(Engine &, State &, DI &d, Args &a, Val *ret, int op, bool sgn) {
  unsigned w = argW(d, 0), W = op == 2 ? 2 * w : w + 1; E x = sgn ? mkSext(toE(a[0], w), W) : mkZext(toE(a[0], w), W), y = sgn ? mkSext(toE(a[1], w), W) : mkZext(toE(a[1], w), W);
  E r = op == 0 ? mkAdd(x, y) : op == 1 ? mkSub(x, y) : mkMul(x, y); E lo = mkExtract(r, 0, w);
  ret[0] = VE(lo); ret[1] = VE(mkNot(mkEq(r, sgn ? mkSext(lo, W) : mkZext(lo, W)))); return true;
}
H(hUaddO) { return ovf(en, s, d, a, ret, 0, false); }
H(hUsubO) { return ovf(en, s, d, a, ret, 1, false); }
H(hUmulO) { if (!a[0].e && !a[1].e) { unsigned w = argW(d, 0); u128 p = (u128)a[0].v * a[1].v; ret[0] = VC((u64)(p & mask(w))); ret[1] = VC((p >> w) != 0); return true; } return ovf(en, s, d, a, ret, 2, false); }
H(hSaddO) { return ovf(en, s, d, a, ret, 0, true); }
H(hSsubO) { return ovf(en, s, d, a, ret, 1, true); }
H(hSmulO) { return ovf(en, s, d, a, ret, 2, true); }
H(hUmax) { unsigned w = d.w; E x = toE(a[0], w), y = toE(a[1], w); ret[0] = VE(mkIte(mkUlt(x, y), y, x)); return true; }
H(hUmin) { unsigned w = d.w; E x = toE(a[0], w), y = toE(a[1], w); ret[0] = VE(mkIte(mkUlt(x, y), x, y)); return true; }
H(hSmax) { unsigned w = d.w; E x = toE(a[0], w), y = toE(a[1], w); ret[0] = VE(mkIte(mkSlt(x, y), y, x)); return true; }
H(hSmin) { unsigned w = d.w; E x = toE(a[0], w), y = toE(a[1], w); ret[0] = VE(mkIte(mkSlt(x, y), x, y)); return true; }
H(hAbs) { unsigned w = d.w; E x = toE(a[0], w); ret[0] = VE(mkIte(mkSlt(x, mkConst(w, 0)), mkSub(mkConst(w, 0), x), x)); return true; }
H(hUsubSat) { unsigned w = d.w; E x = toE(a[0], w), y = toE(a[1], w); ret[0] = VE(mkIte(mkUlt(x, y), mkConst(w, 0), mkSub(x, y))); return true; }
H(hUaddSat) { unsigned w = d.w; E x = toE(a[0], w), y = toE(a[1], w); E r = mkAdd(x, y); ret[0] = VE(mkIte(mkUlt(r, x), mkConst(w, mask(w)), r)); return true; }
H(hFshl) { unsigned w = d.w; E x = toE(a[0], w), y = toE(a[1], w), k = mkDiv(UREM, toE(a[2], w), mkConst(w, w)); E c = mkConcat(x, y); if (2 * w > 128) en.incompletePath(s, "fshl"); ret[0] = VE(mkExtract(mkShift(SHL, c, mkZext(k, 2 * w)), w, w)); return true; }
H(hFshr) { unsigned w = d.w; E x = toE(a[0], w), y = toE(a[1], w), k = mkDiv(UREM, toE(a[2], w), mkConst(w, w)); E c = mkConcat(x, y); ret[0] = VE(mkExtract(mkShift(LSHR, c, mkZext(k, 2 * w)), 0, w)); return true; }
H(hFabs) { unsigned w = d.w; ret[0] = VE(mkConcat(mkConst(1, 0), mkExtract(toE(a[0], w), 0, w - 1))); return true; }
H(hVaStart) { // System V va_list: everything on the overflow area
  u64 p = en.conc(s, a[0], 64, "va_list"); Args va = s.st.back().va; Obj *o = en.alloc(s, std::max<u64>(8, va.size() * 8), OK::STACK); u64 b = o->base(); s.st.back().allocas.push_back(o->id);
  for (size_t i = 0; i < va.size(); i++) { Val v = va[i]; if (v.e && v.e->w < 64) v = VE(mkZext(v.e, 64)); en.store(s, VC(b + 8 * i), 8, 64, v); }
  en.store(s, VC(p), 4, 32, VC(48)); en.store(s, VC(p + 4), 4, 32, VC(304)); en.store(s, VC(p + 8), 8, 64, VC(b)); en.store(s, VC(p + 16), 8, 64, VC(0)); return true; }
H(hObjSize) { ret[0] = VC((u64)mask(d.w)); return true; }

// ---- decimal digits
static E ovfExpr(E h, E dg) { E t = mkAdd(mkMul(mkZext(h, 72), mkConst(72, 10)), mkZext(dg, 72)); return mkUlt(mkConst(72, mask(64)), t); }
static E digitCount(E v) { E r = mkConst(8, 1); u128 p = 10; for (unsigned k = 2; k <= 20; k++, p *= 10) r = mkIte(mkUlt(v, mkConst(64, p)), r, mkConst(8, k)); return r; }
static unsigned nDigits(Engine &en, State &s, E v) { if (isC(v)) { unsigned n = 1; u64 x = (u64)v->c; while (x >= 10) { x /= 10; n++; } return n; } 
  u64 x = (u64)en.ev(s, v); unsigned n = 1; while (x >= 10) { x /= 10; n++; }
  // n is decided: 10^(n-1) <= v < 10^n
  u128 lo = 1, hi = 10; for (unsigned k = 1; k < n; k++) { lo = hi; hi *= 10; }
  E c = mkBool(true); if (n > 1) c = mkNot(mkUlt(v, mkConst(64, lo))); if (n < 20) c = mkAnd(c, mkUlt(v, mkConst(64, hi)));
  if (!en.decide(s, c, "digits")) en.incompletePath(s, "digits");
  return n; }
static std::vector<E> digitsOf(Engine &en, State &s, E v) {
  unsigned n = nDigits(en, s, v);
  std::vector<E> out;
  if (isC(v)) { u64 x = (u64)v->c; for (unsigned i = 0; i < n; i++) { out.insert(out.begin(), mkConst(4, x % 10)); x /= 10; } return out; }
  auto it = s.digits.find(v); if (it != s.digits.end() && it->second.size() == n) return it->second;
  u64 x = (u64)en.ev(s, v); std::vector<unsigned> dv; for (unsigned i = 0; i < n; i++) { dv.insert(dv.begin(), (unsigned)(x % 10)); x /= 10; }
  E h = mkConst(64, 0);
  auto nm = std::make_shared<ModelT>(); nm->v = s.model->v; nm->id = ++en.modelSeq;
  std::vector<E> cs;
  for (unsigned i = 0; i < n; i++) {
    E dg = mkVar("dig." + std::to_string(v->id) + "." + std::to_string(n) + "." + std::to_string(i), 4, false, true); uint32_t ix = (uint32_t)dg->c;
    if (nm->v.size() <= ix) nm->v.resize(ix + 1, 0);
    nm->v[ix] = dv[i]; out.push_back(dg);
    cs.push_back(mkUlt(dg, mkConst(4, 10)));
    if (i == 19) cs.push_back(mkNot(ovfExpr(h, mkZext(dg, 64))));
    h = i ? mkAdd(mkMul(h, mkConst(64, 10)), mkZext(dg, 64)) : mkZext(dg, 64);
  }
  if (n > 1) cs.push_back(mkNot(mkEq(out[0], mkConst(4, 0))));
  cs.push_back(mkEq(h, v));
  s.model = nm; for (E c : cs) en.addPC(s, c);
  s.digits[v] = out; return out;
}
H(hUtoa) { E v = toE(a[0], 64); auto dg = digitsOf(en, s, v); u64 p = en.conc(s, a[1], 64, "utoa"); for (size_t i = 0; i < dg.size(); i++) en.store(s, VC(p + i), 1, 8, VE(mkConcat(mkConst(4, 3), dg[i]))); ret[0] = VC(dg.size()); return true; }
H(hToCharsLen) { E v = mkZext(toE(a[0], argW(d, 0)), 64); ret[0] = VC(nDigits(en, s, v)); return true; }
H(hToChars10) { E v = mkZext(toE(a[2], argW(d, 2)), 64); auto dg = digitsOf(en, s, v); u64 p = en.conc(s, a[0], 64, "to_chars"), n = en.conc(s, a[1], 32, "to_chars"); if (n != dg.size()) en.incompletePath(s, "to_chars length"); for (size_t i = 0; i < dg.size(); i++) en.store(s, VC(p + i), 1, 8, VE(mkConcat(mkConst(4, 3), dg[i]))); return true; }
H(hMul10) { E v = toE(a[0], 64), dg = mkZext(toE(a[1], argW(d, 1)), 64); E o = ovfExpr(v, dg); E r = isC(v) && v->c == 0 ? dg : mkAdd(mkMul(v, mkConst(64, 10)), dg); u64 p = en.conc(s, a[2], 64, "mul10"); en.store(s, VC(p), 4, 32, VE(mkZext(o, 32))); ret[0] = VE(r); return true; }

// ---- harness interface
static E input(Engine &, State &s, const std::string &name, u64 nbits, std::string &full) { full = name + "#" + std::to_string(s.names[name]); return mkVar(full, (unsigned)nbits, false, false); }
H(hSym) {
  u64 p = en.conc(s, a[0], 64, "vp_sym"), n = en.conc(s, a[1], 64, "vp_sym"); std::string nm = en.cstr(s, en.conc(s, a[2], 64, "vp_sym"));
  std::string full = nm + "#" + std::to_string(s.names[nm]++); SymInput in; in.name = full; in.nbytes = n;
  for (u64 i = 0; i < n; i++) { E v = mkVar(full + "[" + std::to_string(i) + "]", 8, false, false); in.bytes.push_back(v); en.store(s, VC(p + i), 1, 8, VE(v)); }
  s.inputs.push_back(in); return true;
}
static E rangeVar(Engine &en, State &s, u64 lo, u64 hi, const std::string &nm, std::string &full) {
  u64 span = hi - lo; unsigned w = 1; while (w < 64 && (span >> w)) w++;
  E v = input(en, s, nm, w, full); E e = mkAdd(mkZext(v, 64), mkConst(64, lo));
  if (span != (u64)mask(w)) en.addPC(s, mkUle(v, mkConst(w, span)));
  return e;
}
static void reg(State &s, const std::string &nm, const std::string &full, E e) { s.names[nm]++; SymInput in; in.name = full; in.nbytes = 8; for (unsigned i = 0; i < 8; i++) in.bytes.push_back(mkExtract(e, 8 * i, 8)); s.inputs.push_back(in); }
H(hRange) { u64 lo = en.conc(s, a[0], 64, "range"), hi = en.conc(s, a[1], 64, "range"); std::string nm = en.cstr(s, en.conc(s, a[2], 64, "name")), full; if (lo == hi) { reg(s, nm, nm + "#" + std::to_string(s.names[nm]), mkConst(64, lo)); ret[0] = VC(lo); return true; } E e = rangeVar(en, s, lo, hi, nm, full); reg(s, nm, full, e); ret[0] = VE(e); return true; }
H(hChoose) { u64 n = en.conc(s, a[0], 64, "choose"); std::string nm = en.cstr(s, en.conc(s, a[1], 64, "name")), full; if (n <= 1) { reg(s, nm, nm + "#" + std::to_string(s.names[nm]), mkConst(64, 0)); ret[0] = VC(0); return true; } E e = rangeVar(en, s, 0, n - 1, nm, full); u64 v = en.conc(s, Val{0, e}, 64, ("choice " + full).c_str(), 1 << 20); reg(s, nm, full, mkConst(64, v)); ret[0] = VC(v); return true; }
H(hAssumeVp) {
  E c = mkNot(mkEq(toE(a[0], argW(d, 0)), mkConst(argW(d, 0), 0)));
  if (isC(c)) { if (!c->c) en.endPath(s, "assumed away"); return true; }
  if (!en.ev(s, c)) { std::map<uint32_t, u128> m; Res r = en.query(s, c, m); if (r == UNKNOWN) en.incompletePath(s, "solver-unknown"); if (r == UNSAT) en.endPath(s, "assumed away"); en.setModel(s, m); }
  en.addPC(s, c); return true;
}
H(hCheck) {
  E c = mkNot(mkEq(toE(a[0], argW(d, 0)), mkConst(argW(d, 0), 0))); std::string msg = en.cstr(s, en.conc(s, a[1], 64, "name")); en.checks++;
  if (isC(c)) { en.checksFolded++; if (!c->c) en.error(s, "check", msg); return true; }
  if (c->undef) en.checkUndef(s, c, msg.c_str());
  if (s.pcset.count(c)) { en.checksFolded++; return true; }
  en.checksSolver++; std::map<uint32_t, u128> m; Res r = en.query(s, mkNot(c), m);
  if (r == UNKNOWN) { if (en.trace) fprintf(stderr, "unknown: %s\n", exprStr(c, 60).c_str()); en.incomplete["solver-unknown on check: " + msg]++; return true; }
  if (r == SAT) {
    en.error(s, "check", msg, false, mkNot(c)); std::map<uint32_t, u128> m2;
    if (!en.ev(s, c)) { if (en.query(s, c, m2) != SAT) en.endPath(s, "error"); en.setModel(s, m2); }
    en.addPC(s, c);
  } else s.pcset.insert(c);
  return true;
}
H(hConcretize) { ret[0] = VC(en.conc(s, a[0], 64, "vp_concretize", 1 << 20)); return true; }
H(hObserve) { Obs o; o.name = en.cstr(s, en.conc(s, a[0], 64, "name")); u64 p = en.conc(s, a[1], 64, "observe"), n = en.conc(s, a[2], 64, "observe"); for (u64 i = 0; i < n; i++) o.bytes.push_back(toE(en.load(s, VC(p + i), 1, 8), 8)); s.obs.push_back(std::move(o)); return true; }
H(hReach) { s.reach.insert(en.cstr(s, en.conc(s, a[0], 64, "name"))); return true; }
H(hParam) { std::string n = en.cstr(s, en.conc(s, a[0], 64, "name")); auto it = en.params.find(n); ret[0] = it == en.params.end() ? a[1] : VC((u64)strtoll(it->second.c_str(), nullptr, 0)); return true; }
H(hSymbolic) { ret[0] = VC(1); return true; }
H(hIsSym) { ret[0] = VC(a[0].e != nullptr); return true; }
H(hWatch) { u64 on = en.conc(s, a[0], 32, "watch"); if (on && !s.watch) s.watchSeq = s.seq + 1; s.watch = on; return true; }
H(hMark) { ret[0] = VC(++s.seq); return true; }
H(hLeakCheck) {
  u64 m = en.conc(s, a[0], 64, "mark"); std::string msg = en.cstr(s, en.conc(s, a[1], 64, "name")); en.checks++; en.checksFolded++;
  for (u64 id = 0; id < s.nextId; id++) { Obj *o = s.mem.get(id); if (!o) { if (id % 64 == 0 && (id / 64 >= s.mem.ch.size() || !s.mem.ch[id / 64])) id += 63; continue; } if (o->kind == OK::HEAP && !o->model && o->seq >= m) { std::string l; if (o->asite) { raw_string_ostream os(l); if (auto &dl = o->asite->getDebugLoc()) dl.print(os); } en.error(s, "leak", msg + " (allocated at " + std::to_string(o->size) + " bytes)"); } }
  return true;
}
H(hHeapDenied) { ret[0] = VC(s.denied); return true; }
H(hHeapLimit) { s.heapLimit = en.conc(s, a[0], 64, "limit"); return true; }
H(hFailAlloc) { s.failAlloc = en.conc(s, a[0], 64, "n"); return true; }
H(hTrace) { if (en.trace) { std::string n = en.cstr(s, en.conc(s, a[0], 64, "name")); fprintf(stderr, "[%llu] %s %s\n", (unsigned long long)s.id, n.c_str(), a[1].e ? exprStr(a[1].e, 6).c_str() : std::to_string(a[1].v).c_str()); } return true; }
H(hEndPath) { en.endPath(s, "stopped by the harness"); }
H(hUnsupported) { en.incompletePath(s, "model: " + en.cstr(s, en.conc(s, a[0], 64, "msg"))); }

void Engine::regHandlers() {
  auto P = [&](const char *n, Handler h) { prefixHandlers.push_back({n, h}); };
  auto N = [&](const char *n, Handler h) { handlers[n] = h; };
  P("llvm.memcpy.", hMemcpy); P("llvm.memmove.", hMemcpy); P("llvm.memset.", hMemset); P("llvm.lifetime.start", hLifetimeStart); P("llvm.lifetime.end", hNop); P("llvm.assume", hAssume);
  P("llvm.expect.", hFirst); P("llvm.ctlz.", hCtlz); P("llvm.cttz.", hCttz); P("llvm.ctpop.", hCtpop); P("llvm.bswap.", hBswap);
  P("llvm.uadd.with.overflow", hUaddO); P("llvm.usub.with.overflow", hUsubO); P("llvm.umul.with.overflow", hUmulO); P("llvm.sadd.with.overflow", hSaddO); P("llvm.ssub.with.overflow", hSsubO); P("llvm.smul.with.overflow", hSmulO);
  P("llvm.umax.", hUmax); P("llvm.umin.", hUmin); P("llvm.smax.", hSmax); P("llvm.smin.", hSmin); P("llvm.abs.", hAbs); P("llvm.usub.sat", hUsubSat); P("llvm.uadd.sat", hUaddSat); P("llvm.fshl.", hFshl); P("llvm.fshr.", hFshr); P("llvm.fabs.", hFabs);
  P("llvm.objectsize", hObjSize); P("llvm.trap", hTrap); P("llvm.stacksave", hNop); P("llvm.stackrestore", hNop); P("llvm.invariant", hNop); P("llvm.is.constant", hFalse); P("llvm.va_start", hVaStart); P("llvm.va_end", hNop); P("llvm.eh.typeid.for", hTypeid);
  P("llvm.experimental.noalias", hNop); P("llvm.prefetch", hNop); P("llvm.donothing", hNop); P("llvm.dbg.", hNop); P("llvm.launder", hFirst); P("llvm.strip", hFirst); P("llvm.threadlocal.address", hFirst);
  P("_ZNSt8__detail18__to_chars_10_impl", hToChars10);
  P("_ZNSt8__detail14__to_chars_len", hToCharsLen);
  N("memcpy", hMemcpy); N("memmove", hMemcpy); N("mempcpy", hMempcpy); N("memset", hMemset); N("memcmp", hMemcmp); N("bcmp", hMemcmp); N("strlen", hStrlen); N("wcslen", hWcslen); N("memchr", hMemchr); N("wmemchr", hWmemchr); N("wmemcmp", hWmemcmp); N("wmemcpy", hWmemcpy); N("wmemmove", hWmemcpy); N("wmemset", hWmemset);
  N("malloc", hMalloc); N("calloc", hCalloc); N("realloc", hRealloc); N("free", hFree);
  N("_Znwm", hNew); N("_Znam", hNewArr); N("_ZnwmRKSt9nothrow_t", hNewNT); N("_ZnamRKSt9nothrow_t", hNewNT); N("_ZnwmSt11align_val_t", hNew); N("_ZnamSt11align_val_t", hNewArr);
  for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) N(n, hDel);
  for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) N(n, hDelArr);
  N("__cxa_allocate_exception", hAllocExc); N("__cxa_free_exception", hFreeExc); N("__cxa_throw", hThrow); N("__cxa_begin_catch", hBeginCatch); N("__cxa_end_catch", hEndCatch); N("__cxa_rethrow", hRethrow); N("__cxa_get_exception_ptr", hGetExc); N("_ZSt18uncaught_exceptionsv", hUncaught); N("_ZSt18uncaught_exceptionv", hUncaught);
  N("_ZSt9terminatev", hTerminate); N("abort", hAbort); N("__assert_fail", hAssertFail); N("exit", hExit); N("_Exit", hExit); N("__cxa_pure_virtual", hTerminate);
  N("__cxa_atexit", hNop); N("__cxa_thread_atexit", hNop); N("atexit", hNop);
  N("__cxa_guard_acquire", hGuardAcq); N("__cxa_guard_release", hGuardRel); N("__cxa_guard_abort", hGuardAbort);
  for (const char *n : {"pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_spin_lock", "__pthread_mutex_lock"}) N(n, hLock);
  for (const char *n : {"pthread_mutex_unlock", "pthread_rwlock_unlock", "pthread_spin_unlock"}) N(n, hUnlock);
  for (const char *n : {"pthread_mutex_init", "pthread_mutex_destroy", "printf", "puts", "putchar", "fprintf", "fputs", "fputc", "fflush", "perror", "vprintf", "vfprintf", "__gxx_personality_v0", "sched_yield"}) N(n, hNop);
  N("vp_sym", hSym); N("vp_range", hRange); N("vp_choose", hChoose); N("vp_assume", hAssumeVp); N("vp_check", hCheck); N("vp_concretize", hConcretize); N("vp_observe", hObserve); N("vp_reach", hReach); N("vp_param", hParam); N("vp_symbolic", hSymbolic); N("vp_global_watch", hWatch); N("vp_heap_mark", hMark); N("vp_heap_check", hLeakCheck); N("vp_heap_limit", hHeapLimit); N("vp_heap_denied", hHeapDenied); N("vp_fail_alloc", hFailAlloc); N("vp_trace", hTrace); N("vp_end", hEndPath);
  N("vpm_utoa", hUtoa); N("vpm_mul10add", hMul10); N("vpm_mark_model", hMarkModel); N("vpm_unsupported", hUnsupported); N("vpm_is_symbolic", hIsSym);
}

#include "llvm/Support/CommandLine.h"
#include <atomic>
#include <thread>
#include <sys/resource.h>
extern std::atomic<double> g_checkStart;
#include <unistd.h>
int main(int argc, char **argv) {
  if (!getenv("NSYM_STACK")) { setenv("NSYM_STACK", "1", 1); rlimit rl{(rlim_t)1 << 30, RLIM_INFINITY}; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, (rlim_t)1 << 30); setrlimit(RLIMIT_STACK, &rl); execv("/proc/self/exe", argv); }
  Engine en; std::string bc, out = "out.json"; en.witDir = "."; en.tag = "t";
  for (int i = 1; i < argc; i++) {
    std::string x = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (x == "-o") out = nx(); else if (x == "-p") { std::string kv = nx(); auto p = kv.find('='); en.params[kv.substr(0, p)] = kv.substr(p + 1); }
    else if (x == "--time") en.deadline = atof(nx().c_str()); else if (x == "--paths") en.maxPaths = strtoull(nx().c_str(), 0, 10); else if (x == "--qtime") g_solverTimeoutMs = (unsigned)atoi(nx().c_str());
    else if (x == "--wit") en.witDir = nx(); else if (x == "--tag") en.tag = nx(); else if (x == "--samples") en.sampleMax = strtoull(nx().c_str(), 0, 10); else if (x == "--sample-every") en.sampleEvery = std::max(1ull, strtoull(nx().c_str(), 0, 10)); else if (x == "--seed") en.rng = (unsigned)atoi(nx().c_str());
    else if (x == "--errors") en.maxErrors = strtoull(nx().c_str(), 0, 10); else if (x == "--insts") en.maxInsts = strtoull(nx().c_str(), 0, 10); else if (x == "--tables") en.tables = true; else if (x == "--bigalloc") en.bigAlloc = strtoull(nx().c_str(), 0, 10); else if (x == "--repo") en.repo = nx(); else if (x == "--trace") en.trace = true; else bc = x;
  }
  if (const char *r = getenv("VP_REPO")) en.repo = r;
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(bc, err, ctx);
  if (!m) { err.print(argv[0], errs()); return 3; }
  en.load(m.get());
  // a query that ignores its own limit ends the run with what was decided so far
  std::thread([&] { for (;;) { usleep(200000); double b = g_checkStart; if (b > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() - b > g_solverTimeoutMs / 1000.0 * 2 + 5 && g_checkStart == b) { en.incomplete["a query did not end"]++; en.incomplete["unexplored states"] += en.work.size() + 1; en.writeOut(out); fflush(nullptr); _exit(0); } } }).detach();
  en.run(); en.writeOut(out);
  fflush(nullptr); _exit(0);
}
