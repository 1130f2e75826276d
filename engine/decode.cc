#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/ConstantFolding.h>
using namespace llvm;

void Exec::leaves(Type *t, std::vector<Leaf> &out, u64 base) {
  if (t->isVoidTy()) return;
  if (t->isIntegerTy()) { out.push_back({(u16)t->getIntegerBitWidth(), (u32)base}); return; }
  if (t->isPointerTy()) { out.push_back({64, (u32)base}); return; }
  if (t->isFloatTy()) { out.push_back({32, (u32)base}); return; }
  if (t->isDoubleTy()) { out.push_back({64, (u32)base}); return; }
  if (t->isX86_FP80Ty()) { out.push_back({80, (u32)base}); return; }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), out, base + sl->getElementOffset(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    u64 es = DL.getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), out, base + i * es);
    return;
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    u64 es = DL.getTypeStoreSize(vt->getElementType());
    for (u64 i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), out, base + i * es);
    return;
  }
  if (t->isHalfTy()) { out.push_back({16, (u32)base}); return; }
  if (t->isFP128Ty()) { out.push_back({128, (u32)base}); return; }
  out.push_back({64, (u32)base});
}

static Slot mkSlot(const APInt &a) {
  unsigned w = a.getBitWidth();
  if (w <= 64) return Slot{nullptr, a.getZExtValue()};
  u128 v = a.extractBitsAsZExtValue(64, 0);
  if (w > 64) v |= (u128)a.extractBitsAsZExtValue(std::min(64u, w - 64), 64) << 64;
  return Slot{mkConst(v, std::min(w, 128u)), 0};
}

void Exec::constSlots(const Constant *c, std::vector<Slot> &out) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back(mkSlot(ci->getValue())); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(mkSlot(cf->getValueAPF().bitcastToAPInt())); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back({nullptr, 0}); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    std::vector<Leaf> l; leaves(c->getType(), l);
    for (auto &x : l) out.push_back(x.w > 64 ? Slot{mkConst(0, x.w), 0} : Slot{nullptr, 0});
    return;
  }
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    const GlobalValue *g = gv;
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) {
      std::vector<Slot> t; constSlots(ga->getAliasee(), t); out.push_back(t[0]); return;
    }
    auto it = gaddr.find(g);
    out.push_back({nullptr, it == gaddr.end() ? 0 : it->second});
    return;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); i++) constSlots(ca->getOperand(i), out);
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cd->getNumElements(); i++) constSlots(cd->getElementAsConstant(i), out);
    return;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    std::vector<std::vector<Slot>> k(ce->getNumOperands());
    for (unsigned i = 0; i < ce->getNumOperands(); i++) constSlots(ce->getOperand(i), k[i]);
    u64 r = 0;
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto *go = cast<GEPOperator>(ce);
        if (!go->accumulateConstantOffset(DL, off)) { fprintf(stderr, "const gep non-const\n"); }
        r = k[0][0].c + off.getSExtValue(); break;
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
      case Instruction::Trunc: case Instruction::ZExt: r = k[0][0].c; break;
      case Instruction::Add: r = k[0][0].c + k[1][0].c; break;
      case Instruction::Sub: r = k[0][0].c - k[1][0].c; break;
      case Instruction::And: r = k[0][0].c & k[1][0].c; break;
      case Instruction::Or: r = k[0][0].c | k[1][0].c; break;
      case Instruction::Xor: r = k[0][0].c ^ k[1][0].c; break;
      case Instruction::LShr: r = k[0][0].c >> k[1][0].c; break;
      case Instruction::Shl: r = k[0][0].c << k[1][0].c; break;
      case Instruction::Mul: r = k[0][0].c * k[1][0].c; break;
      case Instruction::ICmp: r = ce->getPredicate() == CmpInst::ICMP_EQ ? k[0][0].c == k[1][0].c : ce->getPredicate() == CmpInst::ICMP_NE ? k[0][0].c != k[1][0].c :
        ce->getPredicate() == CmpInst::ICMP_ULT ? k[0][0].c < k[1][0].c : k[0][0].c > k[1][0].c; break;
      case Instruction::Select: r = k[0][0].c ? k[1][0].c : k[2][0].c; break;
      default: fprintf(stderr, "unsupported constexpr opcode %u\n", ce->getOpcode());
    }
    if (ce->getType()->isIntegerTy() && ce->getType()->getIntegerBitWidth() < 64) r &= (1ull << ce->getType()->getIntegerBitWidth()) - 1;
    out.push_back({nullptr, r});
    return;
  }
  if (isa<ConstantTokenNone>(c)) { out.push_back({nullptr, 0}); return; }
  if (auto *dl = dyn_cast<DSOLocalEquivalent>(c)) { constSlots(dl->getGlobalValue(), out); return; }
  fprintf(stderr, "unsupported constant\n");
  std::vector<Leaf> l; leaves(c->getType(), l);
  for (auto &x : l) out.push_back(x.w > 64 ? Slot{mkConst(0, x.w), 0} : Slot{nullptr, 0});
}

void Exec::writeInit(State &s, Obj *o, u64 off, const Constant *c) {
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  std::vector<Leaf> l; leaves(c->getType(), l);
  std::vector<Slot> v; constSlots(c, v);
  for (size_t i = 0; i < l.size() && i < v.size(); i++) wrx(o, off + l[i].off, v[i], l[i].w);
}

void Exec::initMem(State &s) {
  for (auto &F : M) {
    u32 id = s.mem.next++;
    Obj *o = new Obj; o->kind = OK_Func; o->size = 0; s.mem.set(id, o);
    gaddr[&F] = addrOf(id); funcOfId[id] = &F;
  }
  for (auto &G : M.globals()) {
    u32 id = s.mem.next++;
    u64 sz = G.getValueType()->isSized() ? (u64)DL.getTypeAllocSize(G.getValueType()) : 0;
    if (!G.hasInitializer()) sz = std::max<u64>(sz, 512);
    Obj *o = new Obj; o->kind = OK_Global; o->size = sz; o->b.assign(sz, 0); o->ro = G.isConstant() && G.hasInitializer();
    o->name = strdup(G.getName().str().c_str());
    s.mem.set(id, o);
    gaddr[&G] = addrOf(id);
  }
  for (auto &G : M.globals()) if (G.hasInitializer()) {
    Obj *o = s.mem.getW(gaddr[&G] >> 32);
    writeInit(s, o, 0, G.getInitializer());
  }
  auto ga = [&](const char *n) -> u64 { auto *g = M.getNamedValue(n); return g ? gaddr[g] + 16 : 0; };
  tiClass = ga("_ZTVN10__cxxabiv117__class_type_infoE"); tiSi = ga("_ZTVN10__cxxabiv120__si_class_type_infoE");
  tiVmi = ga("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); tiPtr = ga("_ZTVN10__cxxabiv119__pointer_type_infoE");
}

FnInfo *Exec::info(Function *F) {
  auto it = fns.find(F);
  if (it != fns.end()) return it->second;
  FnInfo *fi = new FnInfo; fi->F = F; fi->name = F->getName().str(); fi->isVarArg = F->isVarArg();
  if (auto *sp = F->getSubprogram()) { fi->file = (sp->getDirectory().empty() || sp->getFilename().starts_with("/") ? "" : sp->getDirectory().str() + "/") + sp->getFilename().str(); fi->line = sp->getLine(); }
  fns[F] = fi;
  return fi;
}

void Exec::decode(FnInfo *fi) {
  if (fi->decoded) return;
  fi->decoded = true;
  Function &F = *fi->F;
  std::unordered_map<const Value *, i32> slot; u32 n = 0;
  std::unordered_map<const Value *, std::vector<Leaf>> lvs;
  auto assign = [&](const Value *v) {
    std::vector<Leaf> l; leaves(v->getType(), l);
    slot[v] = l.empty() ? -1 : (i32)n; n += l.size(); lvs[v] = l;
  };
  for (auto &A : F.args()) {
    fi->argBeg.push_back(fi->argSlots.size());
    std::vector<Leaf> l; leaves(A.getType(), l);
    for (size_t i = 0; i < l.size(); i++) fi->argSlots.push_back({(i32)(n + i), l[i].w});
    assign(&A);
  }
  for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) assign(&I);
  fi->nslots = n;
  auto push = [&](Inst &in, const Value *v) {
    if (v->getType()->isMetadataTy() || v->getType()->isLabelTy() || v->getType()->isTokenTy()) { in.o.push_back({-1, {nullptr, 0}}); in.ow.push_back(64); return; }
    if (isa<InlineAsm>(v)) { in.o.push_back({-1, {nullptr, 0}}); in.ow.push_back(64); return; }
    if (auto *c = dyn_cast<Constant>(v)) {
      std::vector<Leaf> l; leaves(v->getType(), l);
      std::vector<Slot> t; constSlots(c, t);
      for (size_t i = 0; i < t.size(); i++) { in.o.push_back({-1, t[i]}); in.ow.push_back(i < l.size() ? l[i].w : 64); }
      return;
    }
    auto &l = lvs[v]; i32 b = slot[v];
    for (size_t i = 0; i < l.size(); i++) { in.o.push_back({b + (i32)i, {nullptr, 0}}); in.ow.push_back(l[i].w); }
  };
  // block starts
  std::unordered_map<const BasicBlock *, u32> start; u32 pc = 0;
  for (auto &B : F) { start[&B] = pc; for (auto &I : B) { if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue; pc++; } }
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = start[to];
    for (auto &I : *to) {
      auto *p = dyn_cast<PHINode>(&I); if (!p) break;
      Inst tmp; push(tmp, p->getIncomingValueForBlock(from));
      for (size_t i = 0; i < tmp.o.size(); i++) if (slot[p] >= 0) e.moves.push_back({slot[p] + (i32)i, tmp.o[i]});
    }
    return e;
  };
  auto ordOf = [](AtomicOrdering o) -> u8 { return (u8)o; };
  for (auto &B : F) for (auto &I : B) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    Inst in; in.I = &I;
    if (!I.getType()->isVoidTy()) { in.dst = slot[&I]; in.nl = lvs[&I].size(); in.w = in.nl ? lvs[&I][0].w : 0; }
    bool vec = I.getType()->isVectorTy();
    for (auto &op : I.operands()) if (op->getType()->isVectorTy()) vec = true;
    if (vec && !isa<LoadInst>(I) && !isa<StoreInst>(I) && !isa<CallBase>(I) && !isa<ExtractElementInst>(I) && !isa<InsertElementInst>(I) && !isa<ReturnInst>(I) &&
        !isa<BinaryOperator>(I) && !isa<ShuffleVectorInst>(I) && !isa<ICmpInst>(I) && !isa<SelectInst>(I) && !isa<CastInst>(I) && !isa<FreezeInst>(I)) {
      in.kind = KUnsupported; fi->code.push_back(in); continue;
    }
    switch (I.getOpcode()) {
      case Instruction::Add: in.op = OAdd; goto bin; case Instruction::Sub: in.op = OSub; goto bin; case Instruction::Mul: in.op = OMul; goto bin;
      case Instruction::UDiv: in.op = OUDiv; goto bin; case Instruction::SDiv: in.op = OSDiv; goto bin; case Instruction::URem: in.op = OURem; goto bin;
      case Instruction::SRem: in.op = OSRem; goto bin; case Instruction::And: in.op = OAnd; goto bin; case Instruction::Or: in.op = OOr; goto bin;
      case Instruction::Xor: in.op = OXor; goto bin; case Instruction::Shl: in.op = OShl; goto bin; case Instruction::LShr: in.op = OLShr; goto bin;
      case Instruction::AShr: in.op = OAShr;
      bin: in.kind = KBin; push(in, I.getOperand(0)); push(in, I.getOperand(1)); break;
      case Instruction::FAdd: in.op = OFAdd; goto fbin; case Instruction::FSub: in.op = OFSub; goto fbin; case Instruction::FMul: in.op = OFMul; goto fbin;
      case Instruction::FDiv: in.op = OFDiv;
      fbin: in.kind = vec || in.w > 64 ? KUnsupported : KFBin; push(in, I.getOperand(0)); push(in, I.getOperand(1)); break;
      case Instruction::FNeg: in.kind = vec || in.w > 64 ? KUnsupported : KFNeg; push(in, I.getOperand(0)); break;
      case Instruction::ICmp: in.kind = KICmp; in.aux = cast<ICmpInst>(I).getPredicate(); push(in, I.getOperand(0)); push(in, I.getOperand(1)); break;
      case Instruction::FCmp: in.aux = cast<FCmpInst>(I).getPredicate(); push(in, I.getOperand(0)); push(in, I.getOperand(1)); in.kind = vec || in.ow[0] > 64 ? KUnsupported : KFCmp; break;
      case Instruction::ZExt: in.kind = KZExt; push(in, I.getOperand(0)); break;
      case Instruction::SExt: in.kind = KSExt; push(in, I.getOperand(0)); break;
      case Instruction::Trunc: in.kind = KTrunc; push(in, I.getOperand(0)); break;
      case Instruction::PtrToInt: push(in, I.getOperand(0)); in.kind = in.w < 64 ? KTrunc : in.w > 64 ? KZExt : KMove; break;
      case Instruction::IntToPtr: push(in, I.getOperand(0)); in.kind = in.ow[0] < 64 ? KZExt : in.ow[0] > 64 ? KTrunc : KMove; break;
      case Instruction::BitCast: push(in, I.getOperand(0)); in.kind = in.o.size() == in.nl ? KMove : KBitcast; break;
      case Instruction::AddrSpaceCast: push(in, I.getOperand(0)); in.kind = KMove; break;
      case Instruction::Freeze: push(in, I.getOperand(0)); in.kind = KMove; break;
      case Instruction::FPToSI: push(in, I.getOperand(0)); in.kind = vec || in.ow[0] > 64 ? KUnsupported : KFPToSI; break;
      case Instruction::FPToUI: push(in, I.getOperand(0)); in.kind = vec || in.ow[0] > 64 ? KUnsupported : KFPToUI; break;
      case Instruction::SIToFP: push(in, I.getOperand(0)); in.kind = vec || in.w > 64 ? KUnsupported : KSIToFP; break;
      case Instruction::UIToFP: push(in, I.getOperand(0)); in.kind = vec || in.w > 64 ? KUnsupported : KUIToFP; break;
      case Instruction::FPTrunc: case Instruction::FPExt: push(in, I.getOperand(0)); in.kind = vec || in.w > 64 || in.ow[0] > 64 ? KUnsupported : KFPCast; break;
      case Instruction::Select: in.kind = KSelect; push(in, I.getOperand(0)); in.aux = in.o.size(); push(in, I.getOperand(1)); push(in, I.getOperand(2)); break;
      case Instruction::Load: {
        auto &L = cast<LoadInst>(I); in.kind = KLoad; push(in, L.getPointerOperand()); in.lv = lvs[&I];
        in.atomic = L.isAtomic(); in.ord = ordOf(L.getOrdering()); break;
      }
      case Instruction::Store: {
        auto &S = cast<StoreInst>(I); in.kind = KStore; push(in, S.getPointerOperand()); leaves(S.getValueOperand()->getType(), in.lv); push(in, S.getValueOperand());
        in.atomic = S.isAtomic(); in.ord = ordOf(S.getOrdering()); break;
      }
      case Instruction::AtomicRMW: {
        auto &R = cast<AtomicRMWInst>(I); in.kind = KRmw; in.aux = R.getOperation(); push(in, R.getPointerOperand()); push(in, R.getValOperand()); in.ord = ordOf(R.getOrdering()); break;
      }
      case Instruction::AtomicCmpXchg: {
        auto &X = cast<AtomicCmpXchgInst>(I); in.kind = KCmpXchg; push(in, X.getPointerOperand()); push(in, X.getCompareOperand()); push(in, X.getNewValOperand());
        in.ord = ordOf(X.getSuccessOrdering()); in.ord2 = ordOf(X.getFailureOrdering()); break;
      }
      case Instruction::Fence: in.kind = KFence; in.ord = ordOf(cast<FenceInst>(I).getOrdering()); in.aux = cast<FenceInst>(I).getSyncScopeID(); break;
      case Instruction::GetElementPtr: {
        auto &G = cast<GetElementPtrInst>(I);
        if (vec) { in.kind = KUnsupported; break; }
        in.kind = KGep; push(in, G.getPointerOperand());
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          Value *idx = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) {
            in.off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue;
          }
          i64 sc = DL.getTypeAllocSize(it.getIndexedType());
          if (auto *ci = dyn_cast<ConstantInt>(idx)) { in.off += sc * ci->getSExtValue(); continue; }
          in.gi.push_back({(u32)in.o.size(), sc}); push(in, idx);
        }
        break;
      }
      case Instruction::Alloca: {
        auto &A = cast<AllocaInst>(I); in.kind = KAlloca; in.off = DL.getTypeAllocSize(A.getAllocatedType()); push(in, A.getArraySize()); break;
      }
      case Instruction::Br: {
        auto &Br = cast<BranchInst>(I);
        if (Br.isConditional()) { in.kind = KCondBr; push(in, Br.getCondition()); in.ed.push_back(edge(&B, Br.getSuccessor(0))); in.ed.push_back(edge(&B, Br.getSuccessor(1))); }
        else { in.kind = KBr; in.ed.push_back(edge(&B, Br.getSuccessor(0))); }
        break;
      }
      case Instruction::Switch: {
        auto &S = cast<SwitchInst>(I); in.kind = KSwitch; push(in, S.getCondition());
        in.ed.push_back(edge(&B, S.getDefaultDest()));
        for (auto &c : S.cases()) { Slot v = mkSlot(c.getCaseValue()->getValue()); in.cases.push_back(v.e ? v.e->val : v.c); in.ed.push_back(edge(&B, c.getCaseSuccessor())); }
        break;
      }
      case Instruction::Ret: in.kind = KRet; if (I.getNumOperands()) push(in, I.getOperand(0)); break;
      case Instruction::Unreachable: in.kind = KUnreachable; break;
      case Instruction::Resume: in.kind = KResume; push(in, I.getOperand(0)); break;
      case Instruction::LandingPad: in.kind = KLandingPad; break;
      case Instruction::ExtractValue: {
        auto &X = cast<ExtractValueInst>(I); in.kind = KExtractV; push(in, X.getAggregateOperand());
        Type *t = X.getAggregateOperand()->getType(); u32 o = 0;
        for (unsigned ix : X.indices()) {
          if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) { std::vector<Leaf> l; leaves(st->getElementType(k), l); o += l.size(); } t = st->getElementType(ix); }
          else { auto *at = cast<ArrayType>(t); std::vector<Leaf> l; leaves(at->getElementType(), l); o += ix * l.size(); t = at->getElementType(); }
        }
        in.aux = o; break;
      }
      case Instruction::InsertValue: {
        auto &X = cast<InsertValueInst>(I); in.kind = KInsertV; push(in, X.getAggregateOperand());
        Type *t = X.getAggregateOperand()->getType(); u32 o = 0;
        for (unsigned ix : X.indices()) {
          if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) { std::vector<Leaf> l; leaves(st->getElementType(k), l); o += l.size(); } t = st->getElementType(ix); }
          else { auto *at = cast<ArrayType>(t); std::vector<Leaf> l; leaves(at->getElementType(), l); o += ix * l.size(); t = at->getElementType(); }
        }
        in.aux = o; push(in, X.getInsertedValueOperand()); break;
      }
      case Instruction::ExtractElement: {
        push(in, I.getOperand(0));
        if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(1))) { in.kind = KExtractV; in.aux = ci->getZExtValue(); } else in.kind = KUnsupported;
        break;
      }
      case Instruction::InsertElement: {
        push(in, I.getOperand(0)); push(in, I.getOperand(1));
        if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(2))) { in.kind = KInsertV; in.aux = ci->getZExtValue(); } else in.kind = KUnsupported;
        break;
      }
      case Instruction::ShuffleVector: {
        auto &S = cast<ShuffleVectorInst>(I); in.kind = KVecShuffle; push(in, I.getOperand(0)); push(in, I.getOperand(1));
        for (int m : S.getShuffleMask()) in.cases.push_back((u128)(i128)m);
        break;
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto &C = cast<CallBase>(I);
        in.kind = isa<InvokeInst>(I) ? KInvoke : KCall;
        if (auto *ii = dyn_cast<InvokeInst>(&I)) { in.ed.push_back(edge(&B, ii->getNormalDest())); in.ed.push_back(edge(&B, ii->getUnwindDest())); }
        Value *cv = C.getCalledOperand()->stripPointerCasts();
        if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
        in.callee = dyn_cast<Function>(cv);
        if (C.isInlineAsm()) { in.builtin = -3; }
        for (unsigned i = 0; i < C.arg_size(); i++) {
          in.argBeg.push_back(in.o.size());
          if (C.isByValArgument(i)) { in.byval.push_back(in.o.size()); in.byval.push_back(DL.getTypeAllocSize(C.getParamByValType(i))); }
          push(in, C.getArgOperand(i));
        }
        in.aux = in.o.size();           // operand index of the callee for indirect calls
        if (!in.callee) push(in, C.getCalledOperand());
        if (in.callee && in.callee->isIntrinsic()) { in.builtin = -4; }
        break;
      }
      default: in.kind = KUnsupported;
    }
    fi->code.push_back(std::move(in));
  }
}
