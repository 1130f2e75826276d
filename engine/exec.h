#pragma once
#include "state.h"
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <functional>
#include <chrono>

enum IKind : u8 { KBin, KICmp, KFCmp, KFBin, KFNeg, KZExt, KSExt, KTrunc, KBitcast, KFPToSI, KFPToUI, KSIToFP, KUIToFP, KFPCast,
  KSelect, KLoad, KStore, KGep, KAlloca, KBr, KCondBr, KSwitch, KRet, KCall, KInvoke, KLandingPad, KResume, KUnreachable,
  KExtractV, KInsertV, KRmw, KCmpXchg, KFence, KFreeze, KMove, KVecShuffle, KUnsupported, KIntrinsic };

struct Leaf { u16 w; u32 off; };
struct Edge { u32 target; std::vector<std::pair<i32, Opnd>> moves; };
struct GepIdx { u32 o; i64 scale; };
struct Inst {
  IKind kind = KUnsupported; u8 op = 0; u16 w = 0; i32 dst = -1; u32 nl = 0; u32 aux = 0; bool atomic = false; u8 ord = 0, ord2 = 0;
  std::vector<Opnd> o; std::vector<u16> ow; std::vector<u32> argBeg; // for calls: leaf index where each arg starts
  std::vector<Leaf> lv; i64 off = 0; std::vector<GepIdx> gi;
  std::vector<Edge> ed; std::vector<u128> cases;
  llvm::Function *callee = nullptr; FnInfo *cfn = nullptr; int builtin = -2; std::vector<u32> byval;
  const llvm::Instruction *I = nullptr;
};
struct FnInfo {
  llvm::Function *F; std::string name; bool decoded = false; u32 nslots = 0; std::vector<Inst> code; std::vector<std::pair<i32, u16>> argSlots;
  std::vector<u32> argBeg; u64 hits = 0; bool isVarArg = false; int bid = -9; int logk = 0; std::string file; u32 line = 0;
};

struct PathEnd { int kind; std::string msg; };  // 0 complete, 1 incomplete, 2 violation, 3 assumption, 4 pruned
struct Reschedule {};

struct Violation { std::string kind, msg, loc, stack; std::vector<std::pair<std::string, std::string>> inputs; std::string trace; std::string traceKinds; u64 path; };

struct Options {
  std::string entry; double timeLimit = 600; u64 maxInsts = 50000000; u64 maxPaths = 100000000; bool races = false; int pb = -1; bool por = true;
  unsigned maxViol = 1; u64 allocLimit = 1 << 20; std::map<std::string, i64> params; u32 maxTimeouts = 0; u32 maxSpurious = 0; u64 maxSteps = 20000;
  std::string emitNative, follow, followKinds; bool verbose = false, realLog = false; size_t memLimitMb = 6000; std::string suppress;
};

struct Exec {
  llvm::Module &M; const llvm::DataLayout &DL; Options opt;
  std::unordered_map<const llvm::GlobalValue *, u64> gaddr;
  std::unordered_map<u32, llvm::Function *> funcOfId;
  std::unordered_map<const llvm::Function *, FnInfo *> fns;
  std::vector<State *> work;
  std::vector<Violation> viols; std::set<std::string> violKeys;
  std::map<std::string, u64> incomplete; u64 nComplete = 0, nIncomplete = 0, nAssume = 0, nPruned = 0, nViol = 0, nForks = 0, nInsts = 0, nChecks = 0, nChecksSolver = 0, nSchedPoints = 0;
  std::map<std::string, u64> checkMsgs;
  std::set<std::string> reached;
  std::chrono::steady_clock::time_point t0; bool timedOut = false;
  std::vector<llvm::Function *> ctors;
  u64 nextStateId = 1;
  State *cur = nullptr;
  u64 tiClass = 0, tiSi = 0, tiVmi = 0, tiPtr = 0;
  std::vector<std::pair<std::string, std::vector<u64>>> samples;

  Exec(llvm::Module &m, const Options &o);
  void run();
  // decode
  FnInfo *info(llvm::Function *F); void decode(FnInfo *);
  void leaves(llvm::Type *t, std::vector<Leaf> &out, u64 base = 0);
  void constSlots(const llvm::Constant *c, std::vector<Slot> &out);
  void initMem(State &s);
  void writeInit(State &s, Obj *o, u64 off, const llvm::Constant *c);
  // exec
  void runState(State *s); void step(State &s);
  Slot val(Frame *f, const Opnd &o) { return o.slot >= 0 ? f->r[o.slot] : o.k; }
  void set(Frame *f, i32 slot, Ex e); void setc(Frame *f, i32 slot, u64 c, unsigned w);
  Ex toEx(const Slot &s, unsigned w) { return s.e ? s.e : mkConst(s.c, w); }
  static Slot fromEx(Ex e) { if (e->isConst() && e->width <= 64) return Slot{nullptr, (u64)e->val}; return Slot{e, 0}; }
  void takeEdge(State &s, Frame *f, const Edge &e);
  void pushFrame(State &s, FnInfo *fn, const std::vector<Slot> &args);
  void popFrame(State &s, Thread &t);
  void doCall(State &s, const Inst &in); void finishCall(State &s, const Inst &in); void finishCallRet(State &s, const Inst &in, Slot r, unsigned w);
  void intrinsic(State &s, const Inst &in);
  void unwind(State &s, u64 obj, u64 ti); bool typeMatches(State &s, u64 thrown, u64 want);
  int builtinId(const std::string &n);
  void builtin(State &s, const Inst &in, int id, std::vector<Slot> &a);
  // decisions
  bool may(State &s, Ex e, std::vector<u64> &mdl);
  void addCons(State &s, Ex e, const std::vector<u64> &mdl);
  bool decide(State &s, Ex c); u64 concretize(State &s, const Slot &v, unsigned w);
  bool lookup(State &s, Ex e, u128 &v);
  State *fork(State &s);
  // memory
  u64 alloc(State &s, u64 size, ObjKind k, u8 al = 0); void freeObj(State &s, u32 id);
  static u64 addrOf(u32 id) { return ((u64)id << 32) | OBJ_OFF; }
  Obj *resolve(State &s, const Slot &addr, u64 n, bool wr, u32 &id, Slot &off);
  Slot rd(State &s, Obj *o, u64 off, unsigned w); void wrx(Obj *o, u64 off, const Slot &v, unsigned w);
  Slot load(State &s, const Slot &addr, unsigned w, bool atomic = false); void store(State &s, const Slot &addr, const Slot &v, unsigned w, bool atomic = false);
  void memcopy(State &s, u64 d, u64 src, u64 n); std::string cstr(State &s, u64 a);
  u64 rd64(State &s, u64 a); u32 rd32(State &s, u64 a);
  void raceCheck(State &s, u32 id, u64 off, u64 n, bool wr, bool atomic);
  // threads
  bool visible(State &s, PendKind k, u64 a, u32 size, u64 a2 = 0); void schedule(State &s); bool enabled(State &s, u32 t); bool dependent(const Thread &a, const Thread &b);
  void granted(State &s); void atomicAcquire(State &s, u64 addr, unsigned ord); void atomicRelease(State &s, u64 addr, unsigned ord, bool rmw);
  void mutexLock(State &s, u64 a); void mutexUnlock(State &s, u64 a);
  [[noreturn]] void violate(State &s, const std::string &kind, const std::string &msg);
  std::string where(State &s); std::string stackStr(State &s);
  bool preciseInputs(State &s, Violation &v);
};
