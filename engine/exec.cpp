#include "exec.h"
Page *g_uninitPage, *g_bytePage[256];
static double now(Engine &e) { return std::chrono::duration<double>(std::chrono::steady_clock::now() - e.t0).count(); }

// ---------------------------------------------------------------- types and constants
unsigned Engine::width(Type *t) {
  if (t->isPointerTy()) return 64;
  return (unsigned)DL->getTypeSizeInBits(t).getFixedValue();
}
unsigned Engine::leaves(Type *t) {
  if (t->isVoidTy()) return 0;
  if (auto *s = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type *e : s->elements()) n += leaves(e); return n; }
  if (auto *a = dyn_cast<ArrayType>(t)) return (unsigned)a->getNumElements() * leaves(a->getElementType());
  return 1;
}
unsigned Engine::leafOffset(Type *t, ArrayRef<unsigned> idx, Type *&out) {
  unsigned o = 0;
  for (unsigned i : idx) {
    if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) o += leaves(s->getElementType(k)); t = s->getElementType(i); }
    else { auto *a = cast<ArrayType>(t); o += i * leaves(a->getElementType()); t = a->getElementType(); }
  }
  out = t; return o;
}
static u128 apval(const APInt &a) {
  u128 v = a.getRawData()[0];
  if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
  return v & mask(a.getBitWidth());
}
void Engine::constLeaves(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    bool z = isa<ConstantAggregateZero>(c);
    std::function<void(Type *)> rec = [&](Type *t) {
      if (auto *s = dyn_cast<StructType>(t)) { for (Type *e : s->elements()) rec(e); return; }
      if (auto *a = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < a->getNumElements(); i++) rec(a->getElementType()); return; }
      unsigned w = width(t);
      if (z) out.push_back(w <= 64 ? VC(0) : Val{0, mkConst(w, 0)});
      else out.push_back(Val{0, mkVar("undefc." + std::to_string(undefCnt++), w, true, true)});
    };
    rec(t); return;
  }
  if (t->isStructTy() || t->isArrayTy()) {
    for (unsigned i = 0, n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements(); i < n; i++) constLeaves(c->getAggregateElement(i), out);
    return;
  }
  unsigned w = width(t);
  if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back(w <= 64 ? VC(ci->getZExtValue()) : Val{0, mkConst(w, apval(ci->getValue()))}); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { u128 v = apval(cf->getValueAPF().bitcastToAPInt()); out.push_back(w <= 64 ? VC((u64)v) : Val{0, mkConst(w, v)}); return; }
  if (t->isVectorTy()) {
    auto *vt = cast<FixedVectorType>(t); unsigned ew = width(vt->getElementType()); u128 v = 0;
    for (unsigned i = 0; i < vt->getNumElements(); i++) {
      std::vector<Val> l; constLeaves(c->getAggregateElement(i), l);
      if (l[0].e && !isC(l[0].e)) continue; // undef lanes read as zero
      v |= (l[0].e ? l[0].e->c : (u128)l[0].v) << (i * ew);
    }
    out.push_back(w <= 64 ? VC((u64)v) : Val{0, mkConst(w, v)}); return;
  }
  out.push_back(VC(constInt(c)));
}
u64 Engine::constInt(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *g = dyn_cast<GlobalValue>(c)) {
    if (auto *al = dyn_cast<GlobalAlias>(g)) return constInt(al->getAliasee());
    auto it = gaddr.find(g);
    if (it == gaddr.end()) { errs() << "no address for " << g->getName() << "\n"; exit(3); }
    return it->second;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    unsigned w = width(ce->getType()); u64 m = (u64)mask(w);
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      u64 b = constInt(ce->getOperand(0)); APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) { errs() << "bad const gep\n"; exit(3); }
      return b + off.getSExtValue(); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast:
      return constInt(ce->getOperand(0)) & m;
    case Instruction::Add: return (constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & m;
    case Instruction::Sub: return (constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & m;
    case Instruction::Mul: return (constInt(ce->getOperand(0)) * constInt(ce->getOperand(1))) & m;
    case Instruction::ICmp: {
      u64 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1));
      switch (cast<ConstantExpr>(ce)->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; default: break; } break; }
    default: break;
    }
    errs() << "unsupported constant expression " << *ce << "\n"; exit(3);
  }
  errs() << "unsupported constant " << *c << "\n"; exit(3);
}
int Engine::constant(const Constant *c) {
  if (!isa<UndefValue>(c)) { auto it = constIdx.find(c); if (it != constIdx.end()) return it->second; }
  std::vector<Val> l; constLeaves(c, l);
  int idx = ~(int)consts.size();
  consts.insert(consts.end(), l.begin(), l.end());
  constIdx[c] = idx; return idx;
}
void Engine::initMem(Obj *o, u64 off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = ds->getRawDataValues();
    for (size_t i = 0; i < r.size(); i++) o->setC(off + i, (uint8_t)r[i]);
    return;
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) initMem(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) initMem(o, off + i * es, c->getAggregateElement((unsigned)i));
    return;
  }
  std::vector<Val> l; constLeaves(c, l);
  u64 n = DL->getTypeStoreSize(t); u128 v = l[0].e ? l[0].e->c : (u128)l[0].v;
  for (u64 i = 0; i < n; i++) o->setC(off + i, (uint8_t)(v >> (8 * i)));
}

// ---------------------------------------------------------------- function preparation
int Engine::opnd(Func *f, std::unordered_map<const Value *, int> &slots, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(c);
  auto it = slots.find(v);
  if (it == slots.end()) { return 0; }
  return it->second;
}
Func *Engine::prep(Function *F) {
  auto it = funcs.find(F);
  if (it != funcs.end()) return it->second;
  Func *f = new Func; f->F = F; funcs[F] = f;
  std::unordered_map<const Value *, int> slots; unsigned n = 0;
  for (auto &a : F->args()) { unsigned l = leaves(a.getType()); slots[&a] = n; f->argSlots.push_back({(int)n, (int)l}); n += l; }
  for (auto &I : instructions(*F)) { unsigned l = leaves(I.getType()); if (l) { slots[&I] = n; n += l; } }
  f->nslots = n;
  std::unordered_map<const BasicBlock *, int> bpc; int pc = 0;
  for (auto &B : *F) { bpc[&B] = pc; for (auto &I : B) if (!isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I)) pc++; }
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = bpc[to];
    for (auto &P : to->phis()) {
      int src = opnd(f, slots, P.getIncomingValueForBlock(from));
      e.mv.push_back({slots[&P], src, (int)leaves(P.getType())});
    }
    f->edges.push_back(std::move(e)); return (int)f->edges.size() - 1;
  };
  for (auto &B : *F) for (auto &I : B) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    DI d; d.I = &I; d.op = I.getOpcode(); d.leaves = leaves(I.getType());
    if (d.leaves) d.dst = slots[&I];
    if (d.leaves == 1) d.w = width(I.getType());
    auto O = [&](unsigned k) { return opnd(f, slots, I.getOperand(k)); };
    switch (I.getOpcode()) {
    case Instruction::Br: {
      auto &br = cast<BranchInst>(I);
      if (br.isConditional()) { d.a = O(0); d.sub = 1; d.b = mkEdge(&B, br.getSuccessor(0)); d.c = mkEdge(&B, br.getSuccessor(1)); }
      else { d.sub = 0; d.b = mkEdge(&B, br.getSuccessor(0)); }
      break; }
    case Instruction::Switch: {
      auto &sw = cast<SwitchInst>(I); auto *x = new SwitchInfo; d.a = O(0); d.ow = width(sw.getCondition()->getType());
      std::map<const BasicBlock *, int> em;
      auto edge = [&](const BasicBlock *b) { auto k = em.find(b); if (k != em.end()) return k->second; int e = mkEdge(&B, b); em[b] = e; return e; };
      for (auto c : sw.cases()) x->cases.push_back({c.getCaseValue()->getZExtValue(), edge(c.getCaseSuccessor())});
      x->def = edge(sw.getDefaultDest()); d.x = x; break; }
    case Instruction::Ret: if (I.getNumOperands()) { d.a = O(0); d.leaves = leaves(I.getOperand(0)->getType()); } else d.leaves = 0; break;
    case Instruction::Alloca: {
      auto &al = cast<AllocaInst>(I); d.a = O(0); d.x = (void *)(uintptr_t)(u64)DL->getTypeAllocSize(al.getAllocatedType()); d.ow = width(al.getArraySize()->getType()); break; }
    case Instruction::Load: d.a = O(0); d.bytes = 0; d.ow = (uint16_t)DL->getTypeStoreSize(I.getType()); d.sub = cast<LoadInst>(I).isAtomic(); break;
    case Instruction::Store: {
      d.a = O(1); d.b = O(0); Type *t = I.getOperand(0)->getType(); d.leaves = leaves(t); d.w = d.leaves == 1 ? width(t) : 0; d.ow = (uint16_t)DL->getTypeStoreSize(t); d.sub = cast<StoreInst>(I).isAtomic(); break; }
    case Instruction::GetElementPtr: {
      auto *g = new GepInfo; g->off = 0; d.a = O(0);
      for (auto gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi) {
        const Value *ix = gi.getOperand();
        if (StructType *st = gi.getStructTypeOrNull()) { g->off += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
        s64 sc = (s64)DL->getTypeAllocSize(gi.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(ix)) { g->off += (u64)(ci->getSExtValue() * sc); continue; }
        g->idx.push_back({(s64)opnd(f, slots, ix), sc, (s64)width(ix->getType())});
      }
      d.x = g; break; }
    case Instruction::ICmp: case Instruction::FCmp:
      d.a = O(0); d.b = O(1); d.sub = cast<CmpInst>(I).getPredicate(); d.ow = width(I.getOperand(0)->getType());
      if (I.getType()->isVectorTy()) d.sub = 255;
      break;
    case Instruction::Select: d.a = O(0); d.b = O(1); d.c = O(2); break;
    case Instruction::ExtractValue: { Type *t; auto &ev = cast<ExtractValueInst>(I); d.a = O(0); d.b = (int)leafOffset(ev.getAggregateOperand()->getType(), ev.getIndices(), t); break; }
    case Instruction::InsertValue: { Type *t; auto &iv = cast<InsertValueInst>(I); d.a = O(0); d.b = O(1); d.c = (int)leafOffset(I.getType(), iv.getIndices(), t); d.ow = leaves(t); break; }
    case Instruction::ExtractElement: case Instruction::InsertElement: case Instruction::ShuffleVector: {
      d.a = O(0); d.ow = width(I.getOperand(0)->getType()); d.b = I.getNumOperands() > 1 ? O(1) : 0; d.c = I.getNumOperands() > 2 ? O(2) : 0; break; }
    case Instruction::Call: case Instruction::Invoke: {
      auto &cb = cast<CallBase>(I); auto *ci = new CallInfo; d.x = ci;
      ci->callee = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
      if (cb.isInlineAsm()) ci->unknown = true;
      else if (!ci->callee) ci->fnOp = opnd(f, slots, cb.getCalledOperand());
      bool meta = false;
      for (unsigned k = 0; k < cb.arg_size(); k++) {
        Value *v = cb.getArgOperand(k);
        if (v->getType()->isMetadataTy()) { meta = true; continue; }
        Type *t = v->getType(); unsigned l = leaves(t);
        ci->args.push_back({opnd(f, slots, v), (int)l, l == 1 ? (int)width(t) : 0});
        ci->byval.push_back(cb.isByValArgument(k) ? (u64)DL->getTypeAllocSize(cb.getParamByValType(k)) : 0);
      }
      (void)meta;
      if (auto *inv = dyn_cast<InvokeInst>(&I)) { ci->isInvoke = true; ci->normal = mkEdge(&B, inv->getNormalDest()); ci->unwind = mkEdge(&B, inv->getUnwindDest()); }
      if (ci->callee) {
        std::string nm = ci->callee->getName().str();
        auto h = handlers.find(nm);
        if (h != handlers.end()) ci->h = h->second;
        else {
          for (auto &p : prefixHandlers) if (nm.compare(0, p.first.size(), p.first) == 0) { ci->h = p.second; break; }
          if (!ci->h && ci->callee->isDeclaration()) ci->unknown = true;
        }
      }
      break; }
    case Instruction::LandingPad: break;
    case Instruction::Resume: d.a = O(0); break;
    case Instruction::Unreachable: case Instruction::Fence: break;
    case Instruction::AtomicRMW: d.a = O(0); d.b = O(1); d.sub = cast<AtomicRMWInst>(I).getOperation(); d.ow = (uint16_t)DL->getTypeStoreSize(I.getType()); break;
    case Instruction::AtomicCmpXchg: d.a = O(0); d.b = O(1); d.c = O(2); d.w = width(I.getOperand(1)->getType()); d.ow = (uint16_t)DL->getTypeStoreSize(I.getOperand(1)->getType()); break;
    default:
      if (I.isBinaryOp()) { d.a = O(0); d.b = O(1); if (I.getType()->isVectorTy()) d.sub = 1; }
      else if (I.isCast() || isa<FreezeInst>(I) || isa<UnaryOperator>(I)) { d.a = O(0); d.ow = width(I.getOperand(0)->getType()); if (I.getType()->isVectorTy() || I.getOperand(0)->getType()->isVectorTy()) d.sub = I.getOpcode() == Instruction::BitCast || isa<FreezeInst>(I) ? 0 : 1; }
      else if (isa<VAArgInst>(I)) {}
      else { errs() << "unsupported instruction " << I << "\n"; }
    }
    f->code.push_back(d);
  }
  return f;
}

// ---------------------------------------------------------------- states, path conditions
u128 Engine::ev(State &s, E e) {
  if (isC(e)) return e->c;
  if (curModelId != s.model->id) { newEval(); curModelId = s.model->id; }
  return evalE(e, s.model->v);
}
State *Engine::fork(State &s) {
  State *n = new State(s);
  n->id = ++stateSeq; n->depth++; forks++;
  work.push_back(n);
  return n;
}
void Engine::addPC(State &s, E c) {
  if (isC(c)) return;
  if (c->op == AND) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  if (s.pcset.insert(c).second) { s.pc.push_back(c); learn(s, c, 1); }
}
// x has the value v on this path: what that says about single inputs
void Engine::learn(State &s, E x, u128 v) {
  if (!tables) return;
  v &= mask(x->w);
  switch (x->op) {
  case VAR: { auto &k = s.kb[(uint32_t)x->c]; k.first = mask(x->w); k.second = v; s.kmemo.reset(); break; }
  case EXTRACT: if (x->k[0]->op == VAR) { auto &k = s.kb[(uint32_t)x->k[0]->c]; unsigned lo = (unsigned)x->c; u128 m = mask(x->w) << lo; k.second = (k.second & ~m) | (v << lo); k.first |= m; s.kmemo.reset(); } break;
  case CONCAT: learn(s, x->k[0], v >> x->k[1]->w); learn(s, x->k[1], v); break;
  case SEXT: learn(s, x->k[0], v); break;
  case XOR: if (isC(x->k[1])) learn(s, x->k[0], v ^ x->k[1]->c); break;
  case ADD: if (isC(x->k[1])) learn(s, x->k[0], v - x->k[1]->c); break;
  case AND: if (x->w == 1 && v) { learn(s, x->k[0], 1); learn(s, x->k[1], 1); } break;
  case OR: if (x->w == 1 && !v) { learn(s, x->k[0], 0); learn(s, x->k[1], 0); } break;
  case EQ: for (int i = 0; i < 2; i++) if (isC(x->k[i])) { if (v) learn(s, x->k[1 - i], x->k[i]->c); else if (x->k[i]->w == 1) learn(s, x->k[1 - i], x->k[i]->c ^ 1); } break;
  case ITE: case MUL: case LSHR: case SHL: s.kfix[x] = mkConst(x->w, v); for (uint32_t i : varsOf(x)) s.kb[i]; s.kmemo.reset(); break;
  default: break;
  }
}
// e with the known bits filled in
E Engine::known(State &s, E e, int budget) {
  if (!tables || s.kb.empty() || isC(e)) return e;
  if (!s.kmemo) { s.kmemo = std::make_shared<std::unordered_map<E, E>>(); s.kmemo->insert(s.kfix.begin(), s.kfix.end()); }
  else if (s.kmemo.use_count() > 1) s.kmemo = std::make_shared<std::unordered_map<E, E>>(*s.kmemo);
  E r = substKnown(e, s.kb, *s.kmemo, budget);
  return r ? r : e;
}
void Engine::setModel(State &s, const std::map<uint32_t, u128> &m) {
  auto n = std::make_shared<ModelT>(); n->v = s.model->v; n->id = ++modelSeq;
  for (auto &kv : m) { if (n->v.size() <= kv.first) n->v.resize(kv.first + 1, 0); n->v[kv.first] = kv.second; }
  s.model = n;
}
static void newVarValue(Engine &en, State &s, E var, u128 val) {
  auto n = std::make_shared<ModelT>(); n->v = s.model->v; n->id = ++en.modelSeq;
  uint32_t i = (uint32_t)var->c; if (n->v.size() <= i) n->v.resize(i + 1, 0); n->v[i] = val & mask(var->w); s.model = n;
}
Res Engine::query(State &s, E c, std::map<uint32_t, u128> &m) {
  std::vector<E> q; std::set<uint32_t> vs;
  if (isC(c)) { if (!c->c) return UNSAT; return SAT; }
  for (uint32_t v : varsOf(c)) vs.insert(v);
  std::vector<char> in(s.pc.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) if (!in[i]) {
      const auto &v = varsOf(s.pc[i]); bool hit = false;
      for (uint32_t x : v) if (vs.count(x)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; for (uint32_t x : v) vs.insert(x); }
    }
  }
  for (size_t i = 0; i < s.pc.size(); i++) if (in[i]) q.push_back(s.pc[i]);
  q.push_back(c);
  Res r = ::solve(q, m); curModelId = 0;
  static const bool sites = getenv("NSYM_SITES"); // which code asks the solver most
  if (sites) { static std::map<std::string, long> cnt; static long nq = 0; std::string st; where(s, &st); cnt[st.substr(0, 300)]++; if (++nq % 500 == 0) { std::vector<std::pair<long, std::string>> v; for (auto &y : cnt) v.push_back({y.second, y.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < 6 && i < v.size(); i++) fprintf(stderr, "SITE %ld %s\n", v[i].first, v[i].second.c_str()); } }
  return r;
}
bool Engine::mustBe(State &s, E c) {
  if (isC(c)) return c->c;
  if (s.pcset.count(c)) return true;
  if (!ev(s, c)) return false;
  std::map<uint32_t, u128> m;
  Res r = query(s, mkNot(c), m);
  if (r == UNKNOWN) incompletePath(s, "solver-unknown");
  return r == UNSAT;
}
bool Engine::mayBe(State &s, E c) { return !mustBe(s, mkNot(c)); }
// a decision on a symbolic condition: continues on one side, schedules the other
bool Engine::decide(State &s, E c, const char *what) {
  if (isC(c)) return c->c;
  if (s.pcset.count(c)) return true;
  E nc = mkNot(c);
  if (s.pcset.count(nc)) return false;
  if (E k = known(s, c); k != c) {
    if (isC(k)) return k->c;
    c = k; nc = mkNot(c); if (s.pcset.count(c)) return true; if (s.pcset.count(nc)) return false;
  }
  if (c->undef) checkUndef(s, c, what);
  bool v = ev(s, c) != 0;
  E side = v ? c : nc, other = v ? nc : c;
  std::map<uint32_t, u128> m;
  Res r = query(s, other, m);
  if (r == UNKNOWN) incompletePath(s, "solver-unknown");
  if (r == SAT) { State *n = fork(s); addPC(*n, other); setModel(*n, m); }
  if (r == SAT) addPC(s, side); else { s.pcset.insert(side); learn(s, side, 1); }
  s.decisions++;
  return v;
}
u64 Engine::conc(State &s, const Val &x, unsigned w, const char *what, u64 cap) {
  if (!x.e) return x.v;
  if (isC(x.e)) return (u64)x.e->c;
  if (x.e->undef) checkUndef(s, x.e, what);
  if (E k = known(s, x.e); isC(k)) return (u64)k->c;
  u64 v = (u64)ev(s, x.e);
  E eq = mkEq(x.e, mkConst(w, v));
  if (isC(eq) && eq->c) return v;
  if (s.pcset.count(eq)) return v;
  std::map<uint32_t, u128> m;
  Res r = query(s, mkNot(eq), m);
  if (r == UNKNOWN) incompletePath(s, "solver-unknown");
  if (r == SAT) {
    std::string key = std::string(what) + ":" + std::to_string(x.e->id);
    u64 n = ++s.conc[key];
    if (n >= cap) { incomplete[std::string("concretisation limit: ") + what + " at " + where(s)]++; }
    else { State *o = fork(s); addPC(*o, mkNot(eq)); setModel(*o, m); }
  }
  addPC(s, eq); s.pcset.insert(eq); learn(s, eq, 1);
  return v;
}
void Engine::endPath(State &s, const char *why) { ended[why]++; throw PathEnd{why}; }
void Engine::incompletePath(State &s, const std::string &why) { incomplete[why + " at " + where(s)]++; throw PathEnd{"incomplete"}; }
// does the decision depend on bytes nobody wrote?
void Engine::checkUndef(State &s, E e, const char *what) {
  std::unordered_map<E, E> memo;
  E e2 = substUndef(e, memo);
  if (e2 == e) return;
  std::vector<E> q = s.pc; std::map<uint32_t, u128> m;
  E diff = mkNot(mkEq(e, e2));
  if (isC(diff) && !diff->c) return;
  Res r = query(s, diff, m);
  if (r == SAT) {
    Model full = s.model->v;
    for (auto &kv : m) { if (full.size() <= kv.first) full.resize(kv.first + 1, 0); full[kv.first] = kv.second; }
    auto keep = s.model; auto n = std::make_shared<ModelT>(); n->v = full; n->id = ++modelSeq; s.model = n;
    error(s, "uninitialised", std::string("behaviour depends on uninitialised memory (") + what + ")", true);
  }
}
static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  if (const DILocation *l = I->getDebugLoc()) {
    std::string f = l->getFilename().str(); auto p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
    return f + ":" + std::to_string(l->getLine());
  }
  return "?";
}
std::string Engine::where(State &s, std::string *stack, std::string *kk) {
  std::string first; std::string all; std::string key;
  for (size_t i = s.st.size(); i-- > 0;) {
    Frame &f = s.st[i]; if (f.pc >= f.f->code.size()) continue;
    const Instruction *I = f.f->code[f.pc].I; std::string l = locOf(I);
    const DILocation *dl = I->getDebugLoc(); bool inRepo = false;
    for (const DILocation *q = dl; q; q = q->getInlinedAt()) {
      std::string file = q->getFilename().str(); std::string dir = q->getDirectory().str();
      std::string full = !file.empty() && file[0] == '/' ? file : dir + "/" + file;
      if (full.compare(0, repo.size() + 1, repo + "/") == 0) { inRepo = true; auto p = file.rfind('/'); l = (p == std::string::npos ? file : file.substr(p + 1)) + ":" + std::to_string(q->getLine()); break; }
    }
    std::string nm = f.f->F->getName().str();
    if (all.size() < 1500) all += nm.substr(0, 90) + "@" + l + " < ";
    if (inRepo && key.empty()) { key = nm; first = l; }
  }
  if (first.empty() && !s.st.empty()) { Frame &f = s.st.back(); first = locOf(f.pc < f.f->code.size() ? f.f->code[f.pc].I : nullptr); key = f.f->F->getName().str(); }
  if (stack) *stack = all;
  if (kk) *kk = key;
  return first;
}
static std::string hex(const std::vector<u64> &b) { std::string s; char t[4]; for (u64 x : b) { snprintf(t, sizeof t, "%02x", (unsigned)x); s += t; } return s; }
std::string Engine::witness(State &s, const Model *m) {
  std::string o;
  for (auto &p : params) o += "param " + p.first + " " + p.second + "\n";
  newEval(); curModelId = 0;
  const Model &mm = m ? *m : s.model->v;
  for (auto &in : s.inputs) {
    std::vector<u64> b; for (E e : in.bytes) b.push_back((u64)evalE(e, mm));
    std::string nm = in.name; for (char &ch : nm) if (ch == ' ') ch = '_';
    o += "in " + nm + " " + hex(b) + "\n";
  }
  return o;
}
void Engine::saveWitness(const std::string &path, State &s, const Model *m) {
  std::string w = witness(s, m);
  for (auto &ob : s.obs) {
    std::vector<u64> b; bool undef = false; for (E e : ob.bytes) { if (e->undef) undef = true; b.push_back((u64)evalE(e, m ? *m : s.model->v)); }
    w += "obs " + ob.name + " " + (undef ? "?" : hex(b)) + "\n";
  }
  for (auto &r : s.reach) w += "reach " + r + "\n";
  FILE *f = fopen(path.c_str(), "w"); if (f) { fputs(w.c_str(), f); fclose(f); }
}
void Engine::error(State &s, const std::string &kind, const std::string &msg, bool fatal, E under, bool) {
  std::string stack, key; std::string loc = where(s, &stack, &key);
  std::string k = kind + "|" + msg + "|" + key;
  auto &r = errors[k];
  r.count++;
  if (r.count == 1) {
    r.kind = kind; r.msg = msg; r.where = loc; r.stack = stack;
    r.witness = witDir + "/" + tag + ".err" + std::to_string(witCnt++);
    Model m = s.model->v;
    if (under) {
      std::map<uint32_t, u128> mm;
      if (query(s, under, mm) == SAT) for (auto &kv : mm) { if (m.size() <= kv.first) m.resize(kv.first + 1, 0); m[kv.first] = kv.second; }
    }
    saveWitness(r.witness, s, &m);
    if (errors.size() >= maxErrors) stop = true;
  }
  if (fatal) endPath(s, "error");
}

// ---------------------------------------------------------------- memory
Obj *Engine::alloc(State &s, u64 size, OK kind, bool zero) {
  Obj *o = new Obj; o->size = size; o->kind = kind; o->id = s.nextId++; o->seq = ++s.seq;
  size_t np = (size + PS - 1) / PS; o->pages.reserve(np);
  for (size_t i = 0; i < np; i++) o->pages.push_back(uniformPage(!zero, 0));
  if (!s.st.empty()) { Frame &f = s.st.back(); if (f.pc < f.f->code.size()) o->asite = f.f->code[f.pc].I; }
  if (s.guardDepth || s.lockDepth) o->shared = true;
  s.mem.put(o->id, o);
  return o;
}
void Engine::release(State &s, u64 id) { s.mem.erase(id); }
Obj *Engine::at(State &s, u64 addr, u64 n, bool write, const char *what) {
  u64 id = addr >> OFFBITS, off = addr & OFFMASK; memChecks++;
  Obj *o = s.mem.get(id);
  if (!o) {
    if (addr < 4096) error(s, "null-dereference", std::string(what) + " through a null pointer");
    if (id < s.nextId) error(s, "use-after-free", std::string(what) + " of memory that was released");
    error(s, "wild-pointer", std::string(what) + " through an invalid pointer");
  }
  if (off > o->size || n > o->size - off || o->kind == OK::FUNC) {
    // one-past addresses of the previous object are told apart by the offset
    error(s, "out-of-bounds", std::string(what) + " outside an object");
  }
  if (write && o->ro) error(s, "write-to-constant", "write to read-only memory");
  return o;
}
void Engine::watchAccess(State &s, Obj *o, u64 off, u64 n, bool write, bool atomic) {
  if (!s.watch || o->model || o->tls || o->kind == OK::STACK || o->kind == OK::FUNC || o->ro) return;
  bool global = o->kind == OK::GLOBAL;
  bool sharedHeap = o->kind == OK::HEAP && (o->seq < s.watchSeq || o->shared);
  if (!global && !sharedHeap) return;
  if (atomic) return;
  if (s.guardDepth) return;
  u64 key = o->base() + off;
  if (write) {
    if (s.lockDepth) { s.lockedWriteSet.insert(key & ~(u64)7); if (s.readSet.count(key & ~(u64)7)) error(s, "shared-state", "unsynchronised read of state that is written under a lock"); return; }
    std::string nm = global && o->site ? o->site->getName().str() : "heap object";
    error(s, "shared-state", "an operation writes shared mutable state without synchronisation: " + nm);
  } else {
    if (s.lockDepth) return;
    s.readSet.insert(key & ~(u64)7);
    if (s.lockedWriteSet.count(key & ~(u64)7)) error(s, "shared-state", "unsynchronised read of state that is written under a lock");
  }
}
E Engine::byteE(State &s, Obj *o, u64 off) {
  uint8_t v; E e;
  switch (o->get(off, v, e)) {
  case CONC: return mkConst(8, v);
  case SYM: return e;
  default: {
    E u = mkVar("undef." + std::to_string(undefCnt++), 8, true, true);
    Obj *w = s.mem.getw(o->id); w->setE(off, u);
    return u; }
  }
}
Val Engine::loadConc(State &s, Obj *o, u64 off, unsigned bytes, unsigned w) {
  if (bytes <= 8) {
    u64 pi = off / PS, i = off % PS;
    if (i + bytes <= PS) {
      Page *p = o->pages[pi];
      if (p->uniform && !p->fillUninit) { u64 v = 0; memset(&v, p->fill, bytes); return VC(w < 64 ? v & (u64)mask(w) : v); }
      if (!p->uniform) {
        bool ok = true;
        if (p->st) for (unsigned k = 0; k < bytes; k++) if (p->st[i + k] != CONC) { ok = false; break; }
        if (ok) { u64 v = 0; memcpy(&v, p->d + i, bytes); return VC(w < 64 ? v & (u64)mask(w) : v); }
      }
    }
  }
  u64 id = o->id; E r = nullptr;
  for (unsigned k = bytes; k-- > 0;) { E b = byteE(s, s.mem.get(id), off + k); r = r ? mkConcat(r, b) : b; }
  if (w < bytes * 8) r = mkExtract(r, 0, w);
  return VE(r);
}
void Engine::storeConc(State &s, u64 addr, unsigned bytes, unsigned w, const Val &v) {
  u64 off = addr & OFFMASK; Obj *o = s.mem.getw(addr >> OFFBITS);
  if (!v.e && bytes <= 8) {
    u64 i = off % PS;
    if (i + bytes <= PS) {
      Page *p = o->wpage(off / PS); memcpy(p->d + i, &v.v, bytes); if (p->st) memset(p->st + i, CONC, bytes); return;
    }
    for (unsigned k = 0; k < bytes; k++) o->setC(off + k, (uint8_t)(v.v >> (8 * k)));
    return;
  }
  E e = toE(v, w); if (w < bytes * 8) e = mkZext(e, bytes * 8);
  for (unsigned k = 0; k < bytes; k++) o->setE(off + k, mkExtract(e, 8 * k, 8));
}
// resolves a symbolic address to one object; `off` is the offset inside it
Obj *Engine::symTarget(State &s, E e, u64 n, bool write, E &off) {
  if (e->undef) checkUndef(s, e, "address");
  u64 id = 0; bool prov = false;
  if (e->op == ADD && isC(e->k[1])) {
    u64 k = (u64)e->k[1]->c; const Expr *x = e->k[0];
    if (x->op == CONCAT && isC(x->k[0])) k += (u64)(x->k[0]->c << x->k[1]->w); // a base moved by a pointer difference
    u64 cand = k >> OFFBITS;
    if (cand && s.mem.get(cand)) { id = cand; prov = true; }
    else if ((k + (1 << 20)) >> OFFBITS != cand && s.mem.get((k + (1 << 20)) >> OFFBITS)) { id = (k + (1 << 20)) >> OFFBITS; prov = true; } // base plus a small negative constant
  } else if (e->op == CONCAT && isC(e->k[0])) { // aligned object base with an offset in the low bits
    unsigned lw = e->k[1]->w; u64 k = (u64)(e->k[0]->c << lw); if (k >> OFFBITS && s.mem.get(k >> OFFBITS)) { id = k >> OFFBITS; prov = true; }
  }
  if (!prov) { u64 v = (u64)ev(s, e); id = v >> OFFBITS; }
  Obj *o = s.mem.get(id);
  if (!o) { u64 v = conc(s, Val{0, e}, 64, "address"); at(s, v, n, write, write ? "write" : "read"); }
  if (o->size < n) error(s, "out-of-bounds", std::string(write ? "write" : "read") + " outside an object");
  off = mkSub(e, mkConst(64, o->base()));
  E inb = mkUle(off, mkConst(64, o->size - n)); memChecks++;
  if (!mustBe(s, inb)) {
    if (prov) {
      std::map<uint32_t, u128> m; query(s, mkNot(inb), m);
      error(s, "out-of-bounds", std::string(write ? "write" : "read") + " outside an object", false, mkNot(inb));
      // the rest of the path assumes the access was fine
      std::map<uint32_t, u128> m2;
      if (!ev(s, inb)) { if (query(s, inb, m2) != SAT) endPath(s, "error"); setModel(s, m2); }
      addPC(s, inb);
    } else if (!decide(s, inb, "address")) { u64 v = conc(s, Val{0, e}, 64, "address"); at(s, v, n, write, write ? "write" : "read"); return symTarget(s, mkConst(64, v), n, write, off); }
  } else s.pcset.insert(inb);
  return s.mem.get(id);
}
// the offsets an access can have: a base c and an index x, whose candidates are the multiples of a stride or the bits that can be set
static bool candidates(bool tables, E off, u64 size, u64 n, size_t lim, std::vector<u64> &out, u64 &c, E &x) {
  u64 last = size - n; c = 0; x = off;
  if (tables && off->op == ADD && isC(off->k[1]) && (u64)off->k[1]->c <= last) { u128 m = maxval(off->k[0]); if (m < ((u128)1 << 40)) { c = (u64)off->k[1]->c; x = off->k[0]; if ((u64)m < last - c) last = c + (u64)m; } }
  u128 z = knownZero(x); unsigned tz = 0; while (tz < 64 && ((z >> tz) & 1)) tz++;
  u64 nz = (u64)(~z); unsigned pop = __builtin_popcountll(nz); u64 stride = tz >= 64 ? 0 : (u64)1 << tz;
  u64 cnt = stride ? (last - c) / stride + 1 : 1;
  if ((tables || off->op != ADD) && pop <= 12 && ((u64)1 << pop) < cnt) {
    for (u64 sub = 0;; sub = (sub - nz) & nz) { if (sub <= last - c) out.push_back(sub); if (sub == nz) break; }
    return out.size() <= lim;
  }
  if (cnt > lim) return false;
  for (u64 k = 0; k < cnt; k++) out.push_back(k * stride);
  return true;
}
Val Engine::load(State &s, const Val &p0, unsigned bytes, unsigned w) {
  Val p = p0; if (p.e) p = VE(known(s, p.e));
  if (!p.e) {
    Obj *o = at(s, p.v, bytes, false, "read");
    if (s.watch) watchAccess(s, o, p.v & OFFMASK, bytes, false, false);
    return loadConc(s, o, p.v & OFFMASK, bytes, w);
  }
  E off; Obj *o = symTarget(s, p.e, bytes, false, off);
  if (isC(off)) return loadConc(s, o, (u64)off->c, bytes, w);
  std::vector<u64> cs; u64 c0; E ix0;
  if (!candidates(tables || o->size <= 4096, off, o->size, bytes, 4096, cs, c0, ix0)) { u64 a = conc(s, p, 64, "read address"); return loadConc(s, s.mem.get(a >> OFFBITS), a & OFFMASK, bytes, w); }
  // XOR-linear tables (CRC) read as a combination of their generators
  u64 id = o->id; size_t N = cs.size();
  std::vector<E> vals(N);
  for (size_t i = 0; i < N; i++) vals[i] = toE(loadConc(s, s.mem.get(id), c0 + cs[i], bytes, w), w);
  if (N >= 16 && (N & (N - 1)) == 0 && cs[0] == 0) {
    u64 stride = cs[1]; bool lin = isC(vals[0]) && vals[0]->c == 0 && (stride & (stride - 1)) == 0;
    for (size_t i = 0; lin && i < N; i++) {
      if (!isC(vals[i]) || cs[i] != i * stride) { lin = false; break; }
      size_t lo = i & (~i + 1); if (i != lo && i && vals[i]->c != (vals[i ^ lo]->c ^ vals[lo]->c)) lin = false;
    }
    if (lin) {
      unsigned sh = __builtin_ctzll(stride); E r = mkConst(w, 0);
      // bit by bit, as sums of index bits
      for (unsigned i = 0; i < w; i++) {
        E x = mkConst(1, 0);
        for (unsigned b = 0; ((size_t)1 << b) < N; b++) if ((vals[(size_t)1 << b]->c >> i) & 1) x = mkXor(x, mkExtract(ix0, sh + b, 1));
        r = i ? mkConcat(x, r) : x;
      }
      return VE(r);
    }
  }
  // balanced tree over the differing offset bits, merging equal halves
  std::function<E(std::vector<size_t> &, int)> tree = [&](std::vector<size_t> &ix, int bit) -> E {
    bool same = true; for (size_t i : ix) if (vals[i] != vals[ix[0]]) { same = false; break; }
    if (same) return vals[ix[0]];
    for (; bit >= 0; bit--) {
      std::vector<size_t> a, b; for (size_t i : ix) ((cs[i] >> bit) & 1 ? b : a).push_back(i);
      if (a.empty() || b.empty()) continue;
      E x = tree(b, bit - 1), y = tree(a, bit - 1);
      return mkIte(mkExtract(ix0, (unsigned)bit, 1), x, y);
    }
    return vals[ix[0]];
  };
  std::vector<size_t> all(N); for (size_t i = 0; i < N; i++) all[i] = i;
  return VE(tree(all, 40));
}
void Engine::store(State &s, const Val &p0, unsigned bytes, unsigned w, const Val &v) {
  Val p = p0; if (p.e) p = VE(known(s, p.e));
  if (!p.e) {
    Obj *o = at(s, p.v, bytes, true, "write");
    if (s.watch) watchAccess(s, o, p.v & OFFMASK, bytes, true, false);
    storeConc(s, p.v, bytes, w, v); return;
  }
  E off; Obj *o = symTarget(s, p.e, bytes, true, off);
  if (o->ro) error(s, "write-to-constant", "write to read-only memory");
  if (isC(off)) { storeConc(s, o->base() + (u64)off->c, bytes, w, v); return; }
  std::vector<u64> cs; u64 c0; E ix0;
  if (!candidates(tables || o->size <= 4096, off, o->size, bytes, 512, cs, c0, ix0)) { u64 a = conc(s, p, 64, "write address"); storeConc(s, a, bytes, w, v); return; }
  u64 id = o->id; E nv = toE(v, w);
  for (u64 c : cs) {
    E old = toE(loadConc(s, s.mem.get(id), c0 + c, bytes, w), w);
    E r = mkIte(mkEq(ix0, mkConst(64, c)), nv, old);
    storeConc(s, (id << OFFBITS) + c0 + c, bytes, w, VE(r));
  }
}
void Engine::copyMem(State &s, u64 d, u64 src, u64 n) {
  if (!n) return;
  Obj *a = at(s, src, n, false, "read"); Obj *b = at(s, d, n, true, "write");
  if (s.watch) { watchAccess(s, a, src & OFFMASK, n, false, false); watchAccess(s, b, d & OFFMASK, n, true, false); }
  a->rc++; // snapshot: the destination is cloned when it is the same object
  Obj *w = s.mem.getw(d >> OFFBITS);
  w->copyFrom(d & OFFMASK, a, src & OFFMASK, n);
  unref(a);
}
void Engine::fillMem(State &s, u64 d, u64 n, const Val &b) {
  if (!n) return;
  Obj *o = at(s, d, n, true, "write");
  if (s.watch) watchAccess(s, o, d & OFFMASK, n, true, false);
  Obj *w = s.mem.getw(d >> OFFBITS);
  if (!b.e) { w->fillRange(d & OFFMASK, n, false, (uint8_t)b.v); return; }
  for (u64 i = 0; i < n; i++) w->setE((d & OFFMASK) + i, b.e);
}
std::string Engine::cstr(State &s, u64 a) {
  std::string r;
  for (; r.size() < 4096; a++) { Val v = load(s, VC(a), 1, 8); u64 c = v.e ? (u64)ev(s, v.e) : v.v; if (!c) break; r += (char)c; }
  return r;
}

// ---------------------------------------------------------------- control
static inline Val &R(Frame &f, int i) { return f.r[i]; }
#define OP(i) ((i) >= 0 ? fr.r[i] : consts[~(i)])
void Engine::jump(State &s, Frame &fr, int ei) {
  Edge &e = fr.f->edges[ei];
  if (!e.mv.empty()) {
    static std::vector<Val> tmp; tmp.clear();
    for (auto &m : e.mv) for (int k = 0; k < m[2]; k++) tmp.push_back(m[1] >= 0 ? fr.r[m[1] + k] : consts[~m[1] + k]);
    size_t t = 0;
    for (auto &m : e.mv) for (int k = 0; k < m[2]; k++) fr.r[m[0] + k] = tmp[t++];
  }
  fr.pc = e.target;
}
void Engine::pushCall(State &s, Function *F, const Args &a, const std::vector<int> *) {
  if (F->isDeclaration()) incompletePath(s, "call of an undefined function " + F->getName().str());
  if (s.st.size() > 400) error(s, "recursion", "unbounded recursion");
  Func *f = prep(F);
  if (!f->entered) {
    f->entered = true;
    if (auto *sp = F->getSubprogram()) {
      std::string file = sp->getFilename().str(), dir = sp->getDirectory().str(); std::string full = !file.empty() && file[0] == '/' ? file : dir + "/" + file;
      if (full.compare(0, repo.size() + 1, repo + "/") == 0) fnsRepo[F->getName().str()] = F->getInstructionCount();
    }
  }
  s.st.emplace_back(); Frame &n = s.st.back(); n.f = f; n.r.resize(f->nslots);
  size_t k = 0;
  for (auto &as : f->argSlots) for (int i = 0; i < as[1]; i++) { if (k < a.size()) n.r[as[0] + i] = a[k]; k++; }
  for (; k < a.size(); k++) n.va.push_back(a[k]);
}
void Engine::advance(State &s, DI &d) {
  Frame &fr = s.st.back();
  if (d.op == Instruction::Invoke) jump(s, fr, ((CallInfo *)d.x)->normal); else fr.pc++;
}
void Engine::doRet(State &s, const Val *v, unsigned n) {
  u64 fe = s.st.back().freeExc;
  std::vector<Val> keep(v, v + n);
  for (u64 a : s.st.back().allocas) release(s, a);
  s.st.pop_back();
  if (fe) release(s, fe >> OFFBITS);
  if (s.st.empty()) return;
  Frame &fr = s.st.back(); DI &d = fr.f->code[fr.pc];
  if (fe) { advance(s, d); return; } // destructor run on behalf of __cxa_end_catch
  if (d.dst >= 0) for (unsigned k = 0; k < d.leaves && k < n; k++) fr.r[d.dst + k] = keep[k];
  advance(s, d);
}
bool Engine::call(State &s, DI &d) {
  Frame &fr = s.st.back(); CallInfo *ci = (CallInfo *)d.x; Function *F = ci->callee; Handler h = ci->h;
  if (ci->unknown) incompletePath(s, "call of external function " + (F ? F->getName().str() : std::string("inline asm")));
  if (!F) {
    u64 a = conc(s, OP(ci->fnOp), 64, "function pointer");
    Obj *o = s.mem.get(a >> OFFBITS);
    if (!o || o->kind != OK::FUNC || (a & OFFMASK)) { if (a == 0) error(s, "null-dereference", "call through a null pointer"); error(s, "wild-pointer", "call through an invalid function pointer"); }
    F = fnById[a >> OFFBITS]; auto it = handlers.find(F->getName().str());
    if (it != handlers.end()) h = it->second;
    else if (F->isDeclaration()) incompletePath(s, "call of external function " + F->getName().str());
  }
  Args args; args.reserve(ci->args.size() + 2);
  for (size_t i = 0; i < ci->args.size(); i++) {
    auto &a = ci->args[i];
    for (int k = 0; k < a[1]; k++) args.push_back(a[0] >= 0 ? fr.r[a[0] + k] : consts[~a[0] + k]);
  }
  if (h) {
    Val ret[4];
    if (!h(*this, s, d, args, ret)) return false;
    Frame &f2 = s.st.back();
    if (d.dst >= 0) for (unsigned k = 0; k < d.leaves && k < 4; k++) f2.r[d.dst + k] = ret[k];
    advance(s, d);
    return true;
  }
  std::vector<u64> bv;
  size_t pos = 0;
  for (size_t i = 0; i < ci->args.size(); i++) {
    if (ci->byval[i]) {
      u64 src = conc(s, args[pos], 64, "byval"); Obj *o = alloc(s, ci->byval[i], OK::STACK); bv.push_back(o->id); u64 b = o->base();
      copyMem(s, b, src, ci->byval[i]); args[pos] = VC(b);
    }
    pos += ci->args[i][1];
  }
  pushCall(s, F, args);
  for (u64 b : bv) s.st.back().allocas.push_back(b);
  return true;
}

// ---------------------------------------------------------------- exceptions
std::vector<u64> Engine::bases(u64 ti) {
  std::vector<u64> out; Obj *o = cur ? cur->mem.get(ti >> OFFBITS) : nullptr;
  auto *gv = o ? dyn_cast_or_null<GlobalVariable>(o->site) : nullptr;
  if (!gv || !gv->hasInitializer()) return out;
  const Constant *c = gv->getInitializer(); if (!isa<ConstantStruct>(c)) return out;
  unsigned n = c->getNumOperands();
  if (n == 3) out.push_back(constInt(cast<Constant>(c->getOperand(2))));
  else if (n > 4) for (unsigned i = 4; i + 1 < n + 1 && i < n; i += 2) out.push_back(constInt(cast<Constant>(c->getOperand(i))));
  return out;
}
bool Engine::typeMatches(u64 thrown, u64 want) {
  if (want == 0 || thrown == want) return true;
  for (u64 b : bases(thrown)) if (typeMatches(b, want)) return true;
  return false;
}
int Engine::typeId(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = (int)typeIds.size() + 1; return typeIds[ti] = n; }
void Engine::unwind(State &s, u64 exc, u64 tinfo) {
  // search phase
  auto scan = [&](Frame &fr, int &sel, bool &cleanup) -> bool { // true: a handler matches
    sel = 0; cleanup = false;
    DI &d = fr.f->code[fr.pc];
    if (d.op != Instruction::Invoke) return false;
    CallInfo *ci = (CallInfo *)d.x; Edge &e = fr.f->edges[ci->unwind];
    auto *lp = cast<LandingPadInst>(fr.f->code[e.target].I);
    cleanup = lp->isCleanup();
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      if (lp->isCatch(i)) { u64 t = constInt(lp->getClause(i)); if (typeMatches(tinfo, t)) { sel = typeId(t); return true; } }
      else { // filter: violated exception specification lands here
        auto *arr = lp->getClause(i); bool allowed = false;
        for (unsigned k = 0; k < cast<ArrayType>(arr->getType())->getNumElements(); k++) if (typeMatches(tinfo, constInt(cast<Constant>(arr->getAggregateElement(k))))) allowed = true;
        if (!allowed) { sel = -1; return true; }
      }
    }
    return false;
  };
  bool found = false; int sel; bool cl; int limit = 0;
  for (size_t i = s.st.size(); i-- > 0;) if (scan(s.st[i], sel, cl)) { found = true; limit = (int)i; break; }
  if (!found) {
    Obj *o = s.mem.get(tinfo >> OFFBITS); std::string nm = o && o->site ? o->site->getName().str() : "?";
    error(s, "uncaught-exception", "exception " + nm + " escapes the operation");
  }
  for (;;) {
    Frame &fr = s.st.back(); bool m = scan(fr, sel, cl); bool last = (int)s.st.size() - 1 == limit;
    if ((m && last) || cl) {
      DI &d = fr.f->code[fr.pc]; CallInfo *ci = (CallInfo *)d.x; jump(s, fr, ci->unwind);
      DI &l = fr.f->code[fr.pc];
      fr.r[l.dst] = VC(exc); fr.r[l.dst + 1] = VC((u64)(uint32_t)(m && last ? sel : m ? sel : 0)); fr.pc++;
      return;
    }
    for (u64 a : fr.allocas) release(s, a);
    u64 fe = fr.freeExc; s.st.pop_back(); if (fe) release(s, fe >> OFFBITS);
  }
}

// ---------------------------------------------------------------- floating point on bit patterns
E fpCmp(unsigned p, E a, E b, unsigned w) {
  unsigned eb = w == 32 ? 8 : 11, mb = w == 32 ? 23 : 52;
  auto isNan = [&](E x) { return mkAnd(mkEq(mkExtract(x, mb, eb), mkConst(eb, mask(eb))), mkNot(mkEq(mkExtract(x, 0, mb), mkConst(mb, 0)))); };
  auto isZero = [&](E x) { return mkEq(mkExtract(x, 0, w - 1), mkConst(w - 1, 0)); };
  E uno = mkOr(isNan(a), isNan(b)), bz = mkAnd(isZero(a), isZero(b));
  E eq = mkAnd(mkNot(uno), mkOr(bz, mkEq(a, b)));
  E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
  E lt = mkAnd(mkAnd(mkNot(uno), mkNot(bz)), mkIte(sa, mkIte(sb, mkUlt(b, a), mkBool(true)), mkIte(sb, mkBool(false), mkUlt(a, b))));
  E gt = mkAnd(mkNot(uno), mkAnd(mkNot(lt), mkNot(eq)));
  E r = mkBool(false);
  if (p & 1) r = mkOr(r, eq);
  if (p & 2) r = mkOr(r, gt);
  if (p & 4) r = mkOr(r, lt);
  if (p & 8) r = mkOr(r, uno);
  return r;
}
static double asD(u64 v, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }

void Engine::step(State &s) {
  Frame &fr = s.st.back(); DI &d = fr.f->code[fr.pc];
  s.insts++; insts++;
  switch (d.op) {
  case Instruction::Br:
    if (!d.sub) { jump(s, fr, d.b); return; }
    branches++;
    { Val &c = OP(d.a); bool t; if (!c.e) t = c.v; else { symBranches++; t = decide(s, c.e, "branch"); } jump(s, s.st.back(), t ? d.b : d.c); }
    return;
  case Instruction::Switch: {
    auto *x = (SwitchInfo *)d.x; Val c = OP(d.a);
    if (!c.e) { for (auto &k : x->cases) if (k.first == c.v) { jump(s, fr, k.second); return; } jump(s, fr, x->def); return; }
    symBranches++;
    E none = mkBool(true); std::map<int, E> conds;
    for (auto &k : x->cases) { E q = mkEq(c.e, mkConst(d.ow, k.first)); none = mkAnd(none, mkNot(q)); auto it = conds.find(k.second); if (it == conds.end()) conds[k.second] = q; else it->second = mkOr(it->second, q); }
    for (auto &k : conds) if (decide(s, k.second, "switch")) { jump(s, s.st.back(), k.first); return; }
    jump(s, s.st.back(), x->def); return; }
  case Instruction::Ret: { Val v[8]; for (unsigned k = 0; k < d.leaves && k < 8; k++) v[k] = d.a >= 0 ? fr.r[d.a + k] : consts[~d.a + k]; doRet(s, v, d.leaves); return; }
  case Instruction::Call: case Instruction::Invoke: call(s, d); return;
  case Instruction::Alloca: {
    u64 n = conc(s, OP(d.a), d.ow, "alloca"); Obj *o = alloc(s, n * (u64)(uintptr_t)d.x, OK::STACK);
    Frame &f2 = s.st.back(); f2.allocas.push_back(o->id); f2.r[d.dst] = VC(o->base()); f2.pc++; return; }
  case Instruction::Load: {
    Val p = OP(d.a);
    if (d.leaves == 1) {
      if (d.sub && s.watch) { bool w = s.watch; s.watch = false; Val v = load(s, p, d.ow, d.w); s.watch = w; Frame &f2 = s.st.back(); f2.r[d.dst] = v; f2.pc++; return; }
      Val v = load(s, p, d.ow, d.w); Frame &f2 = s.st.back(); f2.r[d.dst] = v; f2.pc++; return; }
    // aggregate load
    u64 a = conc(s, p, 64, "read address"); unsigned k = 0;
    std::function<void(Type *, u64)> rec = [&](Type *t, u64 o) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < st->getNumElements(); i++) rec(st->getElementType(i), o + DL->getStructLayout(st)->getElementOffset(i)); return; }
      if (auto *at2 = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < at2->getNumElements(); i++) rec(at2->getElementType(), o + i * DL->getTypeAllocSize(at2->getElementType())); return; }
      s.st.back().r[d.dst + k++] = load(s, VC(a + o), (unsigned)DL->getTypeStoreSize(t), width(t));
    };
    rec(d.I->getType(), 0); s.st.back().pc++; return; }
  case Instruction::Store: {
    Val p = OP(d.a);
    if (d.leaves == 1) {
      Val v = OP(d.b);
      if (d.sub && s.watch) { s.watch = false; store(s, p, d.ow, d.w, v); s.watch = true; s.st.back().pc++; return; }
      store(s, p, d.ow, d.w, v); s.st.back().pc++; return; }
    u64 a = conc(s, p, 64, "write address"); unsigned k = 0;
    std::function<void(Type *, u64)> rec = [&](Type *t, u64 o) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < st->getNumElements(); i++) rec(st->getElementType(i), o + DL->getStructLayout(st)->getElementOffset(i)); return; }
      if (auto *at2 = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < at2->getNumElements(); i++) rec(at2->getElementType(), o + i * DL->getTypeAllocSize(at2->getElementType())); return; }
      Val v = d.b >= 0 ? s.st.back().r[d.b + k] : consts[~d.b + k]; k++;
      store(s, VC(a + o), (unsigned)DL->getTypeStoreSize(t), width(t), v);
    };
    rec(d.I->getOperand(0)->getType(), 0); s.st.back().pc++; return; }
  case Instruction::GetElementPtr: {
    auto *g = (GepInfo *)d.x; Val b = OP(d.a); bool symb = b.e != nullptr; u64 off = g->off;
    for (auto &ix : g->idx) { Val &i = OP((int)ix[0]); if (i.e) symb = true; else off += (u64)((s64)sx(i.v, (unsigned)ix[2]) * ix[1]); }
    if (!symb) { fr.r[d.dst] = VC(b.v + off); fr.pc++; return; }
    E e = mkAdd(toE(b, 64), mkConst(64, off));
    for (auto &ix : g->idx) { Val &i = OP((int)ix[0]); if (i.e) e = mkAdd(e, mkMul(mkSext(i.e, 64), mkConst(64, (u64)ix[1]))); }
    fr.r[d.dst] = VE(e); fr.pc++; return; }
  case Instruction::ICmp: {
    Val &a = OP(d.a), &b = OP(d.b); unsigned w = d.ow;
    if (d.sub == 255) incompletePath(s, "vector compare");
    if (!a.e && !b.e) {
      bool r; s64 x = (s64)sx(a.v, w), y = (s64)sx(b.v, w);
      switch (d.sub) {
      case CmpInst::ICMP_EQ: r = a.v == b.v; break; case CmpInst::ICMP_NE: r = a.v != b.v; break;
      case CmpInst::ICMP_ULT: r = a.v < b.v; break; case CmpInst::ICMP_ULE: r = a.v <= b.v; break; case CmpInst::ICMP_UGT: r = a.v > b.v; break; case CmpInst::ICMP_UGE: r = a.v >= b.v; break;
      case CmpInst::ICMP_SLT: r = x < y; break; case CmpInst::ICMP_SLE: r = x <= y; break; case CmpInst::ICMP_SGT: r = x > y; break; default: r = x >= y; break;
      }
      fr.r[d.dst] = VC(r); fr.pc++; return;
    }
    E x = toE(a, w), y = toE(b, w), r;
    switch (d.sub) {
    case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
    case CmpInst::ICMP_ULT: r = mkUlt(x, y); break; case CmpInst::ICMP_ULE: r = mkNot(mkUlt(y, x)); break; case CmpInst::ICMP_UGT: r = mkUlt(y, x); break; case CmpInst::ICMP_UGE: r = mkNot(mkUlt(x, y)); break;
    case CmpInst::ICMP_SLT: r = mkSlt(x, y); break; case CmpInst::ICMP_SLE: r = mkNot(mkSlt(y, x)); break; case CmpInst::ICMP_SGT: r = mkSlt(y, x); break; default: r = mkNot(mkSlt(x, y)); break;
    }
    fr.r[d.dst] = VE(r); fr.pc++; return; }
  case Instruction::Select: {
    Val &c = OP(d.a);
    if (!c.e) { int src = c.v ? d.b : d.c; for (unsigned k = 0; k < d.leaves; k++) fr.r[d.dst + k] = src >= 0 ? fr.r[src + k] : consts[~src + k]; fr.pc++; return; }
    if (d.leaves != 1) { bool t = decide(s, c.e, "select"); Frame &f2 = s.st.back(); int src = t ? d.b : d.c; for (unsigned k = 0; k < d.leaves; k++) f2.r[d.dst + k] = src >= 0 ? f2.r[src + k] : consts[~src + k]; f2.pc++; return; }
    fr.r[d.dst] = VE(mkIte(c.e, toE(OP(d.b), d.w), toE(OP(d.c), d.w))); fr.pc++; return; }
  case Instruction::ExtractValue: for (unsigned k = 0; k < d.leaves; k++) fr.r[d.dst + k] = d.a >= 0 ? fr.r[d.a + d.b + k] : consts[~d.a + d.b + k]; fr.pc++; return;
  case Instruction::InsertValue: {
    for (unsigned k = 0; k < d.leaves; k++) fr.r[d.dst + k] = d.a >= 0 ? fr.r[d.a + k] : consts[~d.a + k];
    for (unsigned k = 0; k < d.ow; k++) fr.r[d.dst + d.c + k] = d.b >= 0 ? fr.r[d.b + k] : consts[~d.b + k];
    fr.pc++; return; }
  case Instruction::ExtractElement: {
    unsigned ew = d.w; u64 i = conc(s, OP(d.b), 32, "lane"); E v = toE(OP(d.a), d.ow); s.st.back().r[d.dst] = VE(mkExtract(v, (unsigned)i * ew, ew)); s.st.back().pc++; return; }
  case Instruction::InsertElement: {
    unsigned W = d.w; u64 i = conc(s, OP(d.c), 32, "lane"); E v = toE(OP(d.a), W); unsigned ew = width(d.I->getOperand(1)->getType()); E x = toE(OP(d.b), ew); unsigned lo = (unsigned)i * ew; E r = x;
    if (lo) r = mkConcat(r, mkExtract(v, 0, lo));
    if (lo + ew < W) r = mkConcat(mkExtract(v, lo + ew, W - lo - ew), r);
    s.st.back().r[d.dst] = VE(r); s.st.back().pc++; return; }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(d.I); auto *vt = cast<FixedVectorType>(sv->getOperand(0)->getType()); unsigned n = vt->getNumElements(), ew = width(vt->getElementType());
    E a = toE(OP(d.a), d.ow), b = toE(OP(d.b), d.ow), r = nullptr;
    for (int m : sv->getShuffleMask()) { E x = m < 0 ? mkConst(ew, 0) : m < (int)n ? mkExtract(a, m * ew, ew) : mkExtract(b, (m - n) * ew, ew); r = r ? mkConcat(x, r) : x; }
    fr.r[d.dst] = VE(r); fr.pc++; return; }
  case Instruction::LandingPad: fr.pc++; return;
  case Instruction::Resume: {
    u64 exc = conc(s, OP(d.a), 64, "exception"); u64 ti = 0;
    for (auto &x : s.exc) if (x.addr == exc) ti = x.tinfo;
    for (u64 a : fr.allocas) release(s, a);
    fr.allocas.clear();
    // continue in the caller
    u64 fe = fr.freeExc; s.st.pop_back(); if (fe) release(s, fe >> OFFBITS);
    unwind(s, exc, ti); return; }
  case Instruction::Unreachable: error(s, "unreachable", "control reaches a point that cannot return (missing return or undefined behaviour)"); return;
  case Instruction::Fence: fr.pc++; return;
  case Instruction::AtomicRMW: {
    Val p = OP(d.a), v = OP(d.b); bool w = s.watch; s.watch = false; Val old = load(s, p, d.ow, d.w); E a = toE(old, d.w), b = toE(v, d.w), r;
    switch (d.sub) { case AtomicRMWInst::Add: r = mkAdd(a, b); break; case AtomicRMWInst::Sub: r = mkSub(a, b); break; case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::And: r = mkAnd(a, b); break; case AtomicRMWInst::Or: r = mkOr(a, b); break; case AtomicRMWInst::Xor: r = mkXor(a, b); break; default: incompletePath(s, "atomicrmw"); }
    store(s, p, d.ow, d.w, VE(r)); s.watch = w; Frame &f2 = s.st.back(); f2.r[d.dst] = old; f2.pc++; return; }
  case Instruction::AtomicCmpXchg: {
    Val p = OP(d.a), c = OP(d.b), n = OP(d.c); bool w = s.watch; s.watch = false; Val old = load(s, p, d.ow, d.w); bool eq = decide(s, mkEq(toE(old, d.w), toE(c, d.w)), "cmpxchg");
    if (eq) store(s, p, d.ow, d.w, n);
    s.watch = w; Frame &f2 = s.st.back(); f2.r[d.dst] = old; f2.r[d.dst + 1] = VC(eq); f2.pc++; return; }
  default: break;
  }
  // arithmetic
  unsigned w = d.w;
  if (d.sub && d.op != Instruction::ICmp && d.op != Instruction::FCmp && (d.I->getType()->isVectorTy())) {
    auto *vt = cast<FixedVectorType>(d.I->getType()); unsigned ew = width(vt->getElementType()); E r = nullptr;
    E a = toE(OP(d.a), d.I->isBinaryOp() ? w : d.ow), b = d.I->isBinaryOp() ? toE(OP(d.b), w) : nullptr;
    for (unsigned i = 0; i < vt->getNumElements(); i++) {
      E x, p = mkExtract(a, i * ew, ew), q = b ? mkExtract(b, i * ew, ew) : nullptr;
      switch (d.op) {
      case Instruction::Add: x = mkAdd(p, q); break; case Instruction::Sub: x = mkSub(p, q); break; case Instruction::Mul: x = mkMul(p, q); break;
      case Instruction::And: x = mkAnd(p, q); break; case Instruction::Or: x = mkOr(p, q); break; case Instruction::Xor: x = mkXor(p, q); break;
      default: incompletePath(s, "vector arithmetic");
      }
      r = r ? mkConcat(x, r) : x;
    }
    fr.r[d.dst] = VE(r); fr.pc++; return;
  }
  switch (d.op) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    auto poison = [&] { fr.r[d.dst] = Val{0, mkVar("undef.shift." + std::to_string(undefCnt++), w, true, true)}; fr.pc++; };
    Val &a = OP(d.a), &b = OP(d.b);
    if (!a.e && !b.e) {
      u64 r;
      switch (d.op) {
      case Instruction::Add: r = a.v + b.v; break; case Instruction::Sub: r = a.v - b.v; break; case Instruction::Mul: r = a.v * b.v; break;
      case Instruction::And: r = a.v & b.v; break; case Instruction::Or: r = a.v | b.v; break; case Instruction::Xor: r = a.v ^ b.v; break;
      case Instruction::Shl: if (b.v >= w) { poison(); return; } r = a.v << b.v; break;
      case Instruction::LShr: if (b.v >= w) { poison(); return; } r = a.v >> b.v; break;
      default: if (b.v >= w) { poison(); return; } r = (u64)((s64)sx(a.v, w) >> b.v); break;
      }
      fr.r[d.dst] = VC(w < 64 ? r & (u64)mask(w) : r); fr.pc++; return;
    }
    E x = toE(a, w), y = toE(b, w), r;
    switch (d.op) {
    case Instruction::Add: r = mkAdd(x, y); break; case Instruction::Sub: r = mkSub(x, y); break; case Instruction::Mul: r = mkMul(x, y); break;
    case Instruction::And: r = mkAnd(x, y); break; case Instruction::Or: r = mkOr(x, y); break; case Instruction::Xor: r = mkXor(x, y); break;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if (tables && !isC(y)) { y = known(s, y); if (!isC(y) && maxval(y) <= 64) y = mkConst(w, conc(s, Val{0, y}, w, "shift amount")); } // one path per amount: symbolic shifts defeat the solver
      E ok = mkUlt(y, mkConst(w, w)); if (isC(ok) && !ok->c) { poison(); return; }
      r = mkShift(d.op == Instruction::Shl ? SHL : d.op == Instruction::LShr ? LSHR : ASHR, x, y);
      if (!mustBe(s, ok)) r = mkIte(ok, r, mkVar("undef.shift." + std::to_string(undefCnt++), w, true, true)); // too far: no defined value, reported where it matters
      break; }
    default: r = nullptr;
    }
    fr.r[d.dst] = VE(r); fr.pc++; return; }
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Val a = OP(d.a), b = OP(d.b); E x = toE(a, w), y = toE(b, w);
    E nz = mkNot(mkEq(y, mkConst(w, 0)));
    if (!decide(s, nz, "divisor")) error(s, "division-by-zero", "division by zero");
    if (d.op == Instruction::SDiv || d.op == Instruction::SRem) {
      E ov = mkAnd(mkEq(y, mkConst(w, mask(w))), mkEq(x, mkConst(w, (u128)1 << (w - 1))));
      if (decide(s, ov, "division")) error(s, "division-overflow", "signed division overflow");
    }
    Frame &f2 = s.st.back(); f2.r[d.dst] = VE(mkDiv(d.op == Instruction::UDiv ? UDIV : d.op == Instruction::SDiv ? SDIV : d.op == Instruction::URem ? UREM : SREM, x, y)); f2.pc++; return; }
  case Instruction::Trunc: { Val &a = OP(d.a); if (!a.e) fr.r[d.dst] = VC(a.v & (u64)mask(w)); else fr.r[d.dst] = VE(mkExtract(a.e, 0, w)); fr.pc++; return; }
  case Instruction::ZExt: { Val &a = OP(d.a); if (!a.e && w <= 64) fr.r[d.dst] = a; else fr.r[d.dst] = w <= 64 ? VE(mkZext(toE(a, d.ow), w)) : Val{0, mkZext(toE(a, d.ow), w)}; fr.pc++; return; }
  case Instruction::SExt: { Val &a = OP(d.a); if (!a.e && w <= 64) fr.r[d.dst] = VC((u64)sx(a.v, d.ow) & (u64)mask(w)); else fr.r[d.dst] = VE(mkSext(toE(a, d.ow), w)); fr.pc++; return; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val &a = OP(d.a); E e = toE(a, d.ow); fr.r[d.dst] = VE(w < d.ow ? mkExtract(e, 0, w) : mkZext(e, w)); fr.pc++; return; }
  case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: for (unsigned k = 0; k < d.leaves; k++) fr.r[d.dst + k] = d.a >= 0 ? fr.r[d.a + k] : consts[~d.a + k]; fr.pc++; return;
  case Instruction::FCmp: { unsigned ow = d.ow; if (d.sub == 255 || ow > 64) incompletePath(s, "fcmp width"); E r = fpCmp(d.sub, toE(OP(d.a), ow), toE(OP(d.b), ow), ow); fr.r[d.dst] = VE(r); fr.pc++; return; }
  case Instruction::FNeg: { E a = toE(OP(d.a), w); fr.r[d.dst] = VE(mkConcat(mkNot(mkExtract(a, w - 1, 1)), mkExtract(a, 0, w - 1))); fr.pc++; return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
    if (w > 64) incompletePath(s, "long double");
    u64 a = conc(s, OP(d.a), w, "floating point"), b = conc(s, OP(d.b), w, "floating point"); double x = asD(a, w), y = asD(b, w), r;
    switch (d.op) { case Instruction::FAdd: r = w == 32 ? (float)x + (float)y : x + y; break; case Instruction::FSub: r = w == 32 ? (float)x - (float)y : x - y; break; case Instruction::FMul: r = w == 32 ? (float)x * (float)y : x * y; break; default: r = w == 32 ? (float)x / (float)y : x / y; }
    Frame &f2 = s.st.back(); f2.r[d.dst] = VC(fromD(r, w)); f2.pc++; return; }
  case Instruction::FPExt: case Instruction::FPTrunc: {
    if (w > 64 || d.ow > 64) incompletePath(s, "long double");
    u64 a = conc(s, OP(d.a), d.ow, "floating point"); Frame &f2 = s.st.back(); f2.r[d.dst] = VC(fromD(asD(a, d.ow), w)); f2.pc++; return; }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    if (d.ow > 64) incompletePath(s, "long double");
    u64 a = conc(s, OP(d.a), d.ow, "floating point"); double x = asD(a, d.ow); Frame &f2 = s.st.back(); f2.r[d.dst] = VC((d.op == Instruction::FPToSI ? (u64)(s64)x : (u64)x) & (u64)mask(w)); f2.pc++; return; }
  case Instruction::SIToFP: case Instruction::UIToFP: {
    if (w > 64) incompletePath(s, "long double");
    u64 a = conc(s, OP(d.a), d.ow, "floating point"); double x = d.op == Instruction::SIToFP ? (double)(s64)sx(a, d.ow) : (double)a;
    Frame &f2 = s.st.back(); f2.r[d.dst] = VC(w == 32 ? fromD(d.op == Instruction::SIToFP ? (float)(s64)sx(a, d.ow) : (float)a, 32) : fromD(x, w)); f2.pc++; return; }
  default: break;
  }
  std::string t; raw_string_ostream os(t); os << *d.I; incompletePath(s, "unsupported instruction " + t);
}

void Engine::runState(State *sp) {
  State &s = *sp; cur = sp;
  try {
    while (!s.st.empty()) {
      step(s);
      if ((insts & 0xffff) == 0) {
        if (deadline && now(*this) > deadline) { stop = true; incomplete["time limit"]++; throw PathEnd{"time"}; }
        if (maxInsts && s.insts > maxInsts) { error(s, "hang", "the operation does not finish within " + std::to_string(maxInsts) + " instructions"); }
      }
    }
    ended["completed"]++; paths++;
    if (!s.reach.empty()) for (auto &r : s.reach) reached.insert(r);
    if (!tag.empty() && samples.size() < sampleMax && (paths <= 4 || (rng = rng * 1103515245 + 12345, (rng >> 16) % sampleEvery == 0))) {
      std::string p = witDir + "/" + tag + ".path" + std::to_string(samples.size()); saveWitness(p, s, nullptr); samples.push_back(p);
    }
  } catch (PathEnd &p) { paths++; for (auto &r : s.reach) reached.insert(r); }
}
void Engine::run() {
  while (!work.empty() && !stop) {
    State *s = work.back(); work.pop_back();
    runState(s); delete s;
    if (maxPaths && paths >= maxPaths && !work.empty()) { incomplete["path limit"]++; break; }
  }
  if (!work.empty() && stop && errors.size() < maxErrors && incomplete.empty()) incomplete["stopped"]++;
  if (!work.empty()) incomplete["unexplored states"] += work.size();
}

void Engine::load(Module *m) {
  M = m; DL = &m->getDataLayout(); t0 = std::chrono::steady_clock::now();
  regHandlers();
  State *s = new State; s->model = std::make_shared<ModelT>(); s->model->id = ++modelSeq; s->nextId = 16; cur = s;
  std::vector<GlobalVariable *> gv;
  for (auto &F : *M) { Obj *o = alloc(*s, 1, OK::FUNC); o->site = &F; gaddr[&F] = o->base(); fnById[o->id] = &F; }
  for (auto &G : M->globals()) {
    if (G.getName().startswith("llvm.")) continue;
    u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
    Obj *o = alloc(*s, sz, OK::GLOBAL, true); o->site = &G; o->tls = G.isThreadLocal(); o->model = G.getName().contains("vpm_") || G.getName().contains("vph");
    gaddr[&G] = o->base(); gv.push_back(&G);
  }
  for (auto *G : gv) if (G->hasInitializer()) {
    Obj *o = s->mem.getw(gaddr[G] >> OFFBITS); initMem(o, 0, G->getInitializer()); o->ro = G->isConstant();
  }
  // static initialisation, then the harness
  std::vector<std::pair<u64, Function *>> ctors;
  if (auto *g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto *a = dyn_cast<ConstantArray>(g->getInitializer()))
    for (auto &op : a->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto &c : ctors) {
    pushCall(*s, c.second, {});
    try { while (!s->st.empty()) step(*s); } catch (PathEnd &p) { fprintf(stderr, "static initialisation failed: %s in %s\n", p.why, c.second->getName().str().c_str()); for (auto &e : errors) fprintf(stderr, "  %s\n", e.first.c_str()); for (auto &e : incomplete) fprintf(stderr, "  %s\n", e.first.c_str()); exit(3); }
    if (!work.empty()) { fprintf(stderr, "static initialisation forked\n"); exit(3); }
  }
  Function *H = M->getFunction("vp_harness");
  if (!H) { fprintf(stderr, "no vp_harness\n"); exit(3); }
  pushCall(*s, H, {});
  work.push_back(s);
}
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }
void Engine::writeOut(const std::string &path) {
  std::string j = "{\n";
  auto num = [&](const char *k, double v) { char b[96]; snprintf(b, sizeof b, " \"%s\": %.10g,\n", k, v); j += b; };
  num("paths", paths); num("forks", forks); num("instructions", insts); num("symbolic_branches", symBranches); num("branches", branches); num("mem_checks", memChecks);
  num("checks", checks); num("checks_solver", checksSolver); num("checks_folded", checksFolded);
  num("queries", g_ss.queries); num("linear", g_ss.linear); num("cache_hits", g_ss.cacheHits); num("model_hits", g_ss.modelHits); num("sat", g_ss.sat); num("unsat", g_ss.unsat); num("unknown", g_ss.unknown); num("solver_s", g_ss.seconds); num("max_query_s", g_ss.maxq);
  num("wall_s", now(*this)); num("exprs", g_exprCount);
  auto mp = [&](const char *k, const std::map<std::string, u64> &m) { j += std::string(" \"") + k + "\": {"; bool f = true; for (auto &x : m) { if (!f) j += ", "; f = false; j += "\"" + jesc(x.first) + "\": " + std::to_string(x.second); } j += "},\n"; };
  mp("ended", ended); mp("incomplete", incomplete); mp("functions", fnsRepo);
  j += " \"reached\": ["; { bool f = true; for (auto &x : reached) { if (!f) j += ", "; f = false; j += "\"" + jesc(x) + "\""; } } j += "],\n";
  j += " \"samples\": ["; { bool f = true; for (auto &x : samples) { if (!f) j += ", "; f = false; j += "\"" + jesc(x) + "\""; } } j += "],\n";
  j += " \"errors\": [";
  { bool f = true; for (auto &kv : errors) { auto &r = kv.second; if (!f) j += ","; f = false; j += "\n  {\"kind\": \"" + jesc(r.kind) + "\", \"msg\": \"" + jesc(r.msg) + "\", \"where\": \"" + jesc(r.where) + "\", \"stack\": \"" + jesc(r.stack) + "\", \"witness\": \"" + jesc(r.witness) + "\", \"count\": " + std::to_string(r.count) + "}"; } }
  j += "]\n}\n";
  FILE *f = fopen(path.c_str(), "w"); fputs(j.c_str(), f); fclose(f);
}
