#pragma once
#include "mem.h"
#include "solver.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <chrono>
#include <functional>
#include <memory>
using namespace llvm;

struct Val { u64 v = 0; E e = nullptr; };
static inline Val VC(u64 v) { return Val{v, nullptr}; }
static inline Val VE(E e) { if (isC(e) && e->w <= 64) return Val{(u64)e->c, nullptr}; return Val{0, e}; }
static inline E toE(const Val &x, unsigned w) { return x.e ? x.e : mkConst(w, x.v); }

struct Edge { int target; std::vector<std::array<int, 3>> mv; }; // dst, src, leaves
struct State; struct Engine; struct DI;
typedef std::vector<Val> Args;
// returns true when the call completed (ret holds its value); false when the state was re-scheduled
typedef bool (*Handler)(Engine &, State &, DI &, Args &, Val *ret);

struct GepInfo { u64 off; std::vector<std::array<s64, 3>> idx; }; // operand, scale, width
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; std::vector<Edge> edges; };
struct Func;
struct CallInfo {
  Function *callee = nullptr; Handler h = nullptr;
  std::vector<std::array<int, 3>> args; // operand, leaves, width
  std::vector<u64> byval;               // size if byval else 0
  int fnOp = 0; int normal = -1, unwind = -1; bool isInvoke = false; bool unknown = false;
};
struct DI {
  uint16_t op = 0, w = 0, ow = 0; uint8_t sub = 0; uint8_t bytes = 0;
  int dst = -1, a = 0, b = 0, c = 0; uint16_t leaves = 0;
  const Instruction *I = nullptr;
  void *x = nullptr;
};
struct Func {
  Function *F; std::vector<DI> code; std::vector<Edge> edges; unsigned nslots = 0; std::vector<std::array<int, 2>> argSlots;
  bool entered = false;
};
struct Frame {
  Func *f; unsigned pc = 0; std::vector<Val> r; std::vector<u64> allocas; Args va;
  u64 freeExc = 0; bool atomicReturn = false;
};
struct ExcInfo { u64 addr, tinfo, dtor; int handlers = 0; bool rethrown = false; };
struct ModelT { int rc = 1; u64 id; std::vector<u128> v; };
struct SymInput { std::string name; u64 nbytes; std::vector<E> bytes; };
struct Obs { std::string name; std::vector<E> bytes; };

struct State {
  u64 id = 0; unsigned depth = 0;
  std::vector<Frame> st; ObjTable mem; u64 nextId = 0, seq = 0;
  std::vector<E> pc; std::unordered_set<E> pcset;
  std::shared_ptr<ModelT> model;
  std::vector<ExcInfo> exc; std::vector<u64> caught;
  std::vector<SymInput> inputs; std::map<std::string, int> names;
  std::vector<Obs> obs; std::set<std::string> reach;
  std::map<std::string, u64> conc; // concretisation counts
  u64 watchSeq = 0; bool watch = false; int lockDepth = 0, guardDepth = 0;
  std::set<u64> readSet, lockedWriteSet;
  u64 insts = 0, decisions = 0; u64 heapLimit = 0, failAlloc = 0, denied = 0;
  std::map<E, std::vector<E>> digits;
  KnownBits kb; std::map<E, E> kfix; std::shared_ptr<std::unordered_map<E, E>> kmemo; // bits of inputs that the path condition fixes
  u64 live = 0;
};
struct PathEnd { const char *why; };
struct Retry {};

struct ErrRec { std::string kind, msg, where, stack, witness; u64 count = 0; bool solverWit = true; };

struct Engine {
  Module *M; const DataLayout *DL; std::unordered_map<const Function *, Func *> funcs;
  std::unordered_map<const GlobalValue *, u64> gaddr; std::unordered_map<u64, Function *> fnById;
  std::unordered_map<std::string, Handler> handlers; std::vector<std::pair<std::string, Handler>> prefixHandlers;
  std::vector<Val> consts; std::unordered_map<const Constant *, int> constIdx;
  std::vector<State *> work; State *cur = nullptr;
  std::map<std::string, std::string> params; std::map<u64, int> typeIds; std::vector<u64> typeById;
  std::map<std::string, ErrRec> errors; std::map<std::string, u64> ended; std::map<std::string, u64> incomplete;
  std::set<std::string> reached, reachAll; std::vector<std::string> samples; u64 sampleEvery = 1, sampleMax = 40;
  u64 paths = 0, forks = 0, insts = 0, checks = 0, checksSolver = 0, checksFolded = 0, memChecks = 0, stateSeq = 0, undefCnt = 0, branches = 0, symBranches = 0;
  std::map<std::string, u64> fnsRepo; double deadline = 0; u64 maxPaths = 0, maxErrors = 25, maxInsts = 0; bool stop = false; std::string repo = "/repo";
  std::chrono::steady_clock::time_point t0; u64 curModelId = 0, modelSeq = 1; bool trace = false;
  std::string witDir, tag; unsigned witCnt = 0, rng = 1;
  bool tables = false; u64 bigAlloc = (u64)8 << 30;

  void load(Module *m); void run(); void writeOut(const std::string &);
  void init(); Func *prep(Function *F);
  // values
  int opnd(Func *f, std::unordered_map<const Value *, int> &slots, const Value *v);
  unsigned leaves(Type *t); unsigned width(Type *t); unsigned leafOffset(Type *t, ArrayRef<unsigned> idx, Type *&out);
  int constant(const Constant *c); void constLeaves(const Constant *c, std::vector<Val> &out); u64 constInt(const Constant *c);
  void initMem(Obj *o, u64 off, const Constant *c);
  // state
  u128 ev(State &s, E e); State *fork(State &s); void addPC(State &s, E c); void learn(State &s, E x, u128 v); E known(State &s, E e, int budget = 3000); void setModel(State &s, const std::map<uint32_t, u128> &m);
  Res query(State &s, E c, std::map<uint32_t, u128> &m); bool decide(State &s, E c, const char *what); // forks on c
  u64 conc(State &s, const Val &v, unsigned w, const char *what, u64 cap = 300);
  bool mustBe(State &s, E c); bool mayBe(State &s, E c);
  [[noreturn]] void endPath(State &s, const char *why); void error(State &s, const std::string &kind, const std::string &msg, bool fatal = true, E under = nullptr, bool wantNeg = false);
  [[noreturn]] void incompletePath(State &s, const std::string &why);
  void checkUndef(State &s, E e, const char *what);
  std::string where(State &s, std::string *stack = nullptr, std::string *kindKey = nullptr); std::string witness(State &s, const Model *m = nullptr); void saveWitness(const std::string &path, State &s, const Model *m);
  // memory
  Obj *alloc(State &s, u64 size, OK kind, bool zero = false); void release(State &s, u64 id);
  Obj *at(State &s, u64 addr, u64 n, bool write, const char *what); u64 ptrConc(State &s, const Val &p, u64 n, bool write);
  Val loadConc(State &s, Obj *o, u64 off, unsigned bytes, unsigned w); void storeConc(State &s, u64 addr, unsigned bytes, unsigned w, const Val &v);
  Val load(State &s, const Val &p, unsigned bytes, unsigned w); void store(State &s, const Val &p, unsigned bytes, unsigned w, const Val &v);
  E byteE(State &s, Obj *o, u64 off); Obj *symTarget(State &s, E e, u64 n, bool write, E &off);
  void copyMem(State &s, u64 d, u64 src, u64 n); void fillMem(State &s, u64 d, u64 n, const Val &b);
  void watchAccess(State &s, Obj *o, u64 off, u64 n, bool write, bool atomic);
  std::string cstr(State &s, u64 a);
  // control
  void step(State &s); void runState(State *s); void pushCall(State &s, Function *F, const Args &a, const std::vector<int> *leafCounts = nullptr); bool call(State &s, DI &d); void doRet(State &s, const Val *v, unsigned n); void jump(State &s, Frame &f, int edge);
  void unwind(State &s, u64 exc, u64 tinfo); bool typeMatches(u64 thrown, u64 want); int typeId(u64 ti);
  std::vector<u64> bases(u64 ti); void advance(State &s, DI &d);
  void regHandlers();
};
E fpCmp(unsigned pred, E a, E b, unsigned w);
