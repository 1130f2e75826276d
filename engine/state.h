#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <unordered_map>
#include <cstring>

static const unsigned MAXT = 6;            // threads per path
static const u64 OBJ_OFF = 0x100000;       // offset of byte 0 of every object inside its 4 GiB slot

struct Slot { Ex e; u64 c; };
struct Opnd { i32 slot; Slot k; };

struct VC { u32 c[MAXT]; VC() { memset(c, 0, sizeof c); }
  void join(const VC &o) { for (unsigned i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

struct ShadowByte { u32 w; u8 wt; u32 r[MAXT], aw[MAXT], ar[MAXT]; };

enum ObjKind : u8 { OK_Global, OK_Stack, OK_Heap, OK_Func, OK_Freed };
struct Obj {
  u32 refs = 1; u32 size = 0; ObjKind kind = OK_Heap; bool ro = false; u8 alloc = 0; // alloc: 0 malloc 1 new 2 new[]
  std::vector<u8> b; std::vector<Ex> s; // s empty if all concrete
  std::vector<ShadowByte> sh;
  const char *name = nullptr;
};
struct Chunk { u32 refs = 1; Obj *o[64]; Chunk() { memset(o, 0, sizeof o); } };

struct Mem {
  std::vector<Chunk *> ch;
  u32 next = 1;
  Mem() {}
  Mem(const Mem &m) : ch(m.ch), next(m.next) { for (auto *c : ch) if (c) c->refs++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto *c : ch) drop(c); }
  static void dropObj(Obj *o) { if (o && --o->refs == 0) delete o; }
  static void drop(Chunk *c) { if (c && --c->refs == 0) { for (auto *o : c->o) dropObj(o); delete c; } }
  Obj *get(u32 id) const { u32 k = id >> 6; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[id & 63]; }
  Obj **slotW(u32 id) {
    u32 k = id >> 6;
    if (k >= ch.size()) ch.resize(k + 1, nullptr);
    if (!ch[k]) ch[k] = new Chunk;
    else if (ch[k]->refs > 1) {
      Chunk *n = new Chunk; memcpy(n->o, ch[k]->o, sizeof n->o);
      for (auto *o : n->o) if (o) o->refs++;
      ch[k]->refs--; ch[k] = n;
    }
    return &ch[k]->o[id & 63];
  }
  Obj *getW(u32 id) {
    Obj **p = slotW(id);
    if (*p && (*p)->refs > 1) { Obj *n = new Obj(**p); n->refs = 1; (*p)->refs--; *p = n; }
    return *p;
  }
  void set(u32 id, Obj *o) { Obj **p = slotW(id); dropObj(*p); *p = o; }
};

struct Inst; struct FnInfo;
struct Frame {
  u32 refs = 1; FnInfo *fn; u32 pc = 0; std::vector<Slot> r; std::vector<u32> allocas; std::vector<Slot> va; std::vector<unsigned> vaw;
};

enum PendKind : u8 { P_None, P_Start, P_Load, P_Store, P_Rmw, P_Fence, P_Lock, P_Unlock, P_CondWait, P_Notify, P_Join, P_FutexWait, P_FutexWake, P_Yield, P_Sleep, P_Resume, P_Create, P_Exit };
enum BlockKind : u8 { B_None, B_Cond, B_Futex, B_Sleep };
struct Thread {
  std::vector<Frame *> st;
  bool finished = false, granted = false, detached = false;
  PendKind pk = P_Start; u64 paddr = 0, paddr2 = 0; u32 psize = 1; u32 joinTid = 0;
  BlockKind bk = B_None; u64 baddr = 0; bool timed = false; Slot deadline{0, 0}; u8 phase = 0; bool timedOut = false; bool spurious = false;
  u64 yieldStamp = 0; u32 spinFree = 0;
  Slot startArg{0, 0};
  VC vc, relFence, acqPending;
  std::map<const llvm::GlobalVariable *, u64> tls;
};
struct MutexS { i32 owner = -1; u32 count = 0; VC vc; };

struct Trace { u8 tid; u8 kind; std::shared_ptr<Trace> prev; };
struct SymIn { std::string name; std::vector<Ex> bytes; };   // little endian bytes

struct State {
  Mem mem;
  std::vector<Thread> th; u32 cur = 0;
  std::vector<Ex> cons;
  std::unordered_map<Ex, u128> known;
  std::vector<u64> model; u32 nvars = 0;
  std::vector<SymIn> inputs;
  std::map<u64, MutexS> mtx;
  std::map<u64, VC> sync;                // release clocks of atomic locations
  bool mt = false;
  u32 sleep = 0; i32 preempts = 0; u64 steps = 0; u32 timeouts = 0; u32 spuriousCount = 0, spins = 0;
  i32 lastTid = 0, schedFrom = -1;
  std::shared_ptr<Trace> trace; u32 traceLen = 0;
  Slot clock{0, 0};
  u64 insts = 0; u64 id = 0; i64 liveHeap = 0; u32 forks = 0;
  std::set<std::string> reached;
  std::vector<u64> atexit;
  bool inCtors = true; u32 ctorIdx = 0;
  bool threadsOff = false;
  State() {}
  State(const State &o) : mem(o.mem), th(o.th), cur(o.cur), cons(o.cons), known(o.known), model(o.model), nvars(o.nvars),
    inputs(o.inputs), mtx(o.mtx), sync(o.sync), mt(o.mt), sleep(o.sleep), preempts(o.preempts), steps(o.steps),
    timeouts(o.timeouts), spuriousCount(o.spuriousCount), lastTid(o.lastTid), schedFrom(o.schedFrom), trace(o.trace), traceLen(o.traceLen), clock(o.clock),
    insts(o.insts), liveHeap(o.liveHeap), forks(o.forks + 1), reached(o.reached), atexit(o.atexit), inCtors(o.inCtors), ctorIdx(o.ctorIdx), threadsOff(o.threadsOff) {
    for (auto &t : th) for (auto *f : t.st) f->refs++;
  }
  ~State() { for (auto &t : th) for (auto *f : t.st) dropFrame(f); }
  static void dropFrame(Frame *f) { if (--f->refs == 0) delete f; }
  Thread &T() { return th[cur]; }
  Frame *F() {
    Frame *&f = th[cur].st.back();
    if (f->refs > 1) { Frame *n = new Frame(*f); n->refs = 1; f->refs--; f = n; }
    return f;
  }
};
