// LLVM 18 pass: turns the optimised IR of a harness (which contains the real MML
// code, header-only) into a program that executes itself symbolically.  Every
// int/fp SSA value gets a shadow `ptr` (null = concrete); operations on symbolic
// values are recorded by the runtime (rt.cpp), branches on symbolic conditions are
// decided by the solver and forked, memory carries shadows via load/store hooks.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
#include <set>
#include <fstream>
using namespace llvm;

namespace {

static const int MAXARGS = 64;

struct Inst {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *PtrT, *I64, *I32, *I8, *I1, *DblT, *VoidT;
  Constant *Null;
  GlobalVariable *gArgs, *gRet, *gTarget, *gRetFrom;
  std::map<std::string, FunctionCallee> rt;
  std::set<std::string> mathFns;

  Inst(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    PtrT = PointerType::getUnqual(C); I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C);
    I8 = Type::getInt8Ty(C); I1 = Type::getInt1Ty(C); DblT = Type::getDoubleTy(C); VoidT = Type::getVoidTy(C);
    Null = ConstantPointerNull::get(cast<PointerType>(PtrT));
    gArgs = new GlobalVariable(M, ArrayType::get(PtrT, MAXARGS), false, GlobalValue::ExternalLinkage, nullptr, "__sym_args");
    gRet = new GlobalVariable(M, ArrayType::get(PtrT, 64), false, GlobalValue::ExternalLinkage, nullptr, "__sym_ret");
    gTarget = new GlobalVariable(M, PtrT, false, GlobalValue::ExternalLinkage, nullptr, "__sym_target");
    gRetFrom = new GlobalVariable(M, PtrT, false, GlobalValue::ExternalLinkage, nullptr, "__sym_retfrom");
  }
  FunctionCallee fn(const char *name, Type *ret, std::initializer_list<Type *> args) {
    auto it = rt.find(name);
    if (it != rt.end()) return it->second;
    FunctionCallee f = M.getOrInsertFunction(name, FunctionType::get(ret, ArrayRef<Type *>(args.begin(), args.size()), false));
    rt[name] = f; return f;
  }
  // shadow type for a value type, or null if the type carries no shadow
  Type *shT(Type *T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth() <= 64 ? PtrT : nullptr;
    if (T->isFloatTy() || T->isDoubleTy() || T->isX86_FP80Ty()) return PtrT;
    if (auto *S = dyn_cast<StructType>(T)) {
      std::vector<Type *> el; bool any = false;
      for (Type *E : S->elements()) { Type *t = shT(E); if (t) any = true; el.push_back(t ? t : PtrT); }
      return any ? StructType::get(C, el) : nullptr;
    }
    if (auto *A = dyn_cast<ArrayType>(T)) {
      if (A->getNumElements() > 32) return nullptr;
      Type *t = shT(A->getElementType()); return t ? ArrayType::get(t, A->getNumElements()) : nullptr;
    }
    if (auto *V = dyn_cast<FixedVectorType>(T)) {
      Type *t = shT(V->getElementType()); return t ? ArrayType::get(t, V->getNumElements()) : nullptr;
    }
    return nullptr;
  }
  static int kindOf(Type *T) { // code passed to the runtime
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isFloatTy()) return 1000; if (T->isDoubleTy()) return 1001; if (T->isX86_FP80Ty()) return 1002;
    return 0;
  }
};

struct FnInst {
  Inst &I; Function &F; LLVMContext &C;
  std::set<Value *> sym;          // values that may be symbolic
  std::map<Value *, Value *> sh;  // shadows
  std::vector<std::pair<PHINode *, PHINode *>> phis;
  FnInst(Inst &I, Function &F) : I(I), F(F), C(I.C) {}

  bool may(Value *v) { return sym.count(v); }
  Value *shadow(Value *v) {
    auto it = sh.find(v);
    if (it != sh.end()) return it->second;
    Type *t = I.shT(v->getType());
    if (!t) t = I.PtrT;
    return Constant::getNullValue(t);
  }
  Value *i64(IRBuilder<> &B, Value *v) { return B.CreateZExtOrTrunc(v, I.I64); }
  Value *toD(IRBuilder<> &B, Value *v) {
    if (v->getType()->isDoubleTy()) return v;
    if (v->getType()->isFloatTy()) return B.CreateFPExt(v, I.DblT);
    return B.CreateFPTrunc(v, I.DblT);
  }
  Value *fromD(IRBuilder<> &B, Value *v, Type *T) {
    if (T->isDoubleTy()) return v;
    if (T->isFloatTy()) return B.CreateFPTrunc(v, T);
    return B.CreateFPExt(v, T);
  }
  Value *c32(int x) { return ConstantInt::get(I.I32, x); }

  static bool isRt(const Function *f) { return f && (f->getName().starts_with("__sym_") || f->getName().starts_with("symrt_")); }

  // name of a math function modelled by the runtime, "" if none
  std::string mathName(CallBase *cb) {
    Function *f = cb->getCalledFunction();
    if (!f) return "";
    if (auto *ii = dyn_cast<IntrinsicInst>(cb)) {
      if (!ii->getType()->isFloatingPointTy()) return "";
      switch (ii->getIntrinsicID()) {
      case Intrinsic::fabs: return "fabs"; case Intrinsic::sqrt: return "sqrt"; case Intrinsic::floor: return "floor";
      case Intrinsic::ceil: return "ceil"; case Intrinsic::trunc: return "trunc"; case Intrinsic::rint: return "rint";
      case Intrinsic::nearbyint: return "rint"; case Intrinsic::round: return "round"; case Intrinsic::sin: return "sin"; case Intrinsic::cos: return "cos";
      case Intrinsic::exp: return "exp"; case Intrinsic::exp2: return "exp2"; case Intrinsic::log: return "log"; case Intrinsic::log10: return "log10"; case Intrinsic::log2: return "log2";
      case Intrinsic::pow: return "pow"; case Intrinsic::minnum: return "fmin"; case Intrinsic::maxnum: return "fmax";
      case Intrinsic::copysign: return "copysign"; case Intrinsic::fma: case Intrinsic::fmuladd: return "fma";
      case Intrinsic::powi: return "powi"; case Intrinsic::ldexp: return "ldexp";
      default: return "";
      }
    }
    if (!f->isDeclaration()) return "";
    static const std::set<std::string> names = {"sin","cos","tan","asin","acos","atan","atan2","sinh","cosh","tanh","asinh","acosh","atanh",
      "exp","exp2","expm1","log","log2","log10","log1p","pow","sqrt","cbrt","fabs","floor","ceil","trunc","rint","round","nearbyint","fmod","remainder",
      "fmin","fmax","hypot","copysign","fma","erf","erfc","tgamma","lgamma","ldexp","fdim"};
    std::string n = f->getName().str();
    if (names.count(n)) return n == "nearbyint" ? "rint" : n;
    if (n.size() > 2 && n.front() == '_' && n.rfind("__", 0) == 0 && n.size() > 9 && n.substr(n.size() - 7) == "_finite") {
      std::string m = n.substr(2, n.size() - 9); if (names.count(m)) return m; }
    if (!n.empty() && (n.back() == 'f' || n.back() == 'l') && f->getReturnType()->isFloatingPointTy()) {
      std::string m = n.substr(0, n.size() - 1); if (names.count(m)) return m; }
    return "";
  }

  bool isSource(Instruction *in) {
    if (!I.shT(in->getType())) return false;
    if (isa<LoadInst>(in)) return true;
    if (isa<VAArgInst>(in)) return false;
    if (auto *cb = dyn_cast<CallBase>(in)) {
      if (cb->isInlineAsm()) return false;
      if (isa<IntrinsicInst>(in)) return false; // by operands
      if (!mathName(cb).empty()) return false;
      Function *f = cb->getCalledFunction();
      if (f && isRt(f)) return f->getName().starts_with("symrt_");
      if (f && f->isDeclaration()) return false;
      return true;
    }
    return false;
  }
  void analyse() {
    for (Argument &a : F.args()) if (I.shT(a.getType())) sym.insert(&a);
    for (Instruction &in : instructions(F)) if (isSource(&in)) sym.insert(&in);
    bool ch = true;
    while (ch) {
      ch = false;
      for (Instruction &in : instructions(F)) {
        if (sym.count(&in) || !I.shT(in.getType())) continue;
        if (isa<LandingPadInst>(in) || isa<AllocaInst>(in)) continue;
        if (auto *cb = dyn_cast<CallBase>(&in)) {
          if (!isa<IntrinsicInst>(cb) && mathName(cb).empty()) continue;
        }
        bool s = false;
        for (Value *o : in.operands()) if (sym.count(o)) s = true;
        if (s) { sym.insert(&in); ch = true; }
      }
    }
  }

  void unsupported(IRBuilder<> &B, const char *what, Value *s) {
    B.CreateCall(I.fn("__sym_unsupported", I.VoidT, {I.PtrT, I.PtrT}), {s, B.CreateGlobalStringPtr(what)});
  }
  // collapse an aggregate shadow: complain at run time if any leaf is symbolic
  void checkNull(IRBuilder<> &B, Value *s, const char *what) {
    Type *t = s->getType();
    if (t->isPointerTy()) { unsupported(B, what, s); return; }
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) checkNull(B, B.CreateExtractValue(s, i), what);
  }
  // store the shadow of a value v (any type) at memory p
  void storeShadow(IRBuilder<> &B, Value *p, Value *v, Value *s) {
    Type *T = v->getType(); uint64_t n = I.DL.getTypeStoreSize(T);
    Type *st = I.shT(T);
    if (!st || (isa<Constant>(s) && cast<Constant>(s)->isNullValue())) {
      B.CreateCall(I.fn("__sym_clear", I.VoidT, {I.PtrT, I.I64}), {p, ConstantInt::get(I.I64, n)}); return; }
    if (st->isPointerTy()) {
      B.CreateCall(I.fn("__sym_store", I.VoidT, {I.PtrT, I.I32, I.I32, I.PtrT}), {p, c32(n), c32(I.kindOf(T)), s}); return; }
    // aggregates / vectors: element-wise
    unsigned cnt = T->isStructTy() ? T->getStructNumElements() : isa<FixedVectorType>(T) ? cast<FixedVectorType>(T)->getNumElements() : T->getArrayNumElements();
    for (unsigned i = 0; i < cnt; i++) {
      Value *ep, *ev;
      if (isa<FixedVectorType>(T)) {
        Type *et = cast<FixedVectorType>(T)->getElementType();
        ep = B.CreateConstGEP1_64(I.I8, p, i * I.DL.getTypeStoreSize(et)); ev = B.CreateExtractElement(v, i);
      } else {
        ep = B.CreateConstGEP2_32(T, p, 0, i); ev = B.CreateExtractValue(v, i);
      }
      storeShadow(B, ep, ev, B.CreateExtractValue(s, i));
    }
  }
  Value *loadShadow(IRBuilder<> &B, Value *p, Type *T) {
    Type *st = I.shT(T);
    if (!st) return Constant::getNullValue(I.PtrT);
    if (st->isPointerTy())
      return B.CreateCall(I.fn("__sym_load", I.PtrT, {I.PtrT, I.I32, I.I32}), {p, c32(I.DL.getTypeStoreSize(T)), c32(I.kindOf(T))});
    Value *agg = UndefValue::get(st);
    unsigned cnt = T->isStructTy() ? T->getStructNumElements() : isa<FixedVectorType>(T) ? cast<FixedVectorType>(T)->getNumElements() : T->getArrayNumElements();
    for (unsigned i = 0; i < cnt; i++) {
      Type *et; Value *ep;
      if (auto *V = dyn_cast<FixedVectorType>(T)) { et = V->getElementType(); ep = B.CreateConstGEP1_64(I.I8, p, i * I.DL.getTypeStoreSize(et)); }
      else { et = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType(); ep = B.CreateConstGEP2_32(T, p, 0, i); }
      agg = B.CreateInsertValue(agg, loadShadow(B, ep, et), i);
    }
    return agg;
  }
  // concretise an integer operand of an instruction in place
  void concOperand(Instruction *in, unsigned k) {
    Value *v = in->getOperand(k);
    if (!v->getType()->isIntegerTy() || !may(v)) return;
    IRBuilder<> B(in);
    Value *r = B.CreateCall(I.fn("__sym_conc", I.I64, {I.I32, I.I64, I.PtrT}), {c32(v->getType()->getIntegerBitWidth()), i64(B, v), shadow(v)});
    in->setOperand(k, B.CreateTrunc(r, v->getType()));
  }

  // returns the shadow of a scalar binary op etc.; may replace `in` (concrete result)
  void visit(Instruction &in);
  void visitCall(CallBase &cb);
  void visitIntrinsic(IntrinsicInst &ii);
  // uses of a value as they were before instrumentation code for it was created
  struct Saved { std::vector<Use *> us; Saved(Value *v) { for (Use &u : v->uses()) us.push_back(&u); } void to(Value *r) { for (Use *u : us) u->set(r); } };

  void run() {
    // every invoke gets a normal destination of its own (shadow code is placed there)
    { std::vector<InvokeInst *> iv; for (BasicBlock &bb : F) if (auto *v = dyn_cast<InvokeInst>(bb.getTerminator())) iv.push_back(v);
      for (InvokeInst *v : iv) { BasicBlock *nd = v->getNormalDest(); if (nd->getSinglePredecessor()) continue;
        BasicBlock *nb = BasicBlock::Create(F.getContext(), "", &F, nd); BranchInst::Create(nd, nb); v->setNormalDest(nb);
        for (PHINode &ph : nd->phis()) { int k = ph.getBasicBlockIndex(v->getParent()); if (k >= 0) ph.setIncomingBlock(k, nb); } } }
    analyse();
    std::vector<Instruction *> work;
    for (BasicBlock &bb : F) for (Instruction &in : bb) work.push_back(&in);
    // entry: argument shadows
    BasicBlock &E = F.getEntryBlock();
    Instruction *ip = &*E.getFirstInsertionPt();
    while (isa<AllocaInst>(ip) && isa<ConstantInt>(cast<AllocaInst>(ip)->getArraySize())) ip = ip->getNextNode();
    {
      IRBuilder<> B(ip);
      bool need = false;
      for (Argument &a : F.args()) if (I.shT(a.getType()) || a.hasByValAttr()) need = true;
      if (need) {
        Value *m = B.CreateICmpEQ(B.CreateLoad(I.PtrT, I.gTarget), &F);
        for (Argument &a : F.args()) {
          unsigned n = a.getArgNo(); if (n >= MAXARGS) continue;
          Value *slot = B.CreateConstGEP2_32(I.gArgs->getValueType(), I.gArgs, 0, n);
          if (a.hasByValAttr()) {
            Value *src = B.CreateSelect(m, B.CreateLoad(I.PtrT, slot), I.Null);
            B.CreateCall(I.fn("__sym_copy", I.VoidT, {I.PtrT, I.PtrT, I.I64}), {&a, src, ConstantInt::get(I.I64, I.DL.getTypeAllocSize(a.getParamByValType()))});
          } else if (Type *t = I.shT(a.getType())) {
            if (t->isPointerTy()) sh[&a] = B.CreateSelect(m, B.CreateLoad(I.PtrT, slot), I.Null);
            else {
              // aggregate / vector arguments: shadow aggregate boxed by the caller
              Value *box = B.CreateSelect(m, B.CreateLoad(I.PtrT, slot), I.Null);
              unsigned n2 = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
              Value *agg = Constant::getNullValue(t);
              bool flat = true;
              for (unsigned i = 0; i < n2; i++) if (!(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType())->isPointerTy()) flat = false;
              if (flat) for (unsigned i = 0; i < n2; i++)
                agg = B.CreateInsertValue(agg, B.CreateCall(I.fn("__sym_unbox", I.PtrT, {I.PtrT, I.I32}), {box, c32(i)}), i);
              sh[&a] = agg;
            }
          }
        }
        B.CreateStore(I.Null, I.gTarget);
      }
      for (Instruction *w : work) if (auto *al = dyn_cast<AllocaInst>(w)) {
        if (al->getParent() != &E || !isa<ConstantInt>(al->getArraySize())) continue;
        uint64_t sz = I.DL.getTypeAllocSize(al->getAllocatedType()) * cast<ConstantInt>(al->getArraySize())->getZExtValue();
        B.CreateCall(I.fn("__sym_clear", I.VoidT, {I.PtrT, I.I64}), {al, ConstantInt::get(I.I64, sz)});
      }
    }
    // phis first (so that loops see them)
    for (Instruction *w : work) if (auto *p = dyn_cast<PHINode>(w)) if (may(p)) {
      PHINode *q = PHINode::Create(I.shT(p->getType()), p->getNumIncomingValues(), "", p);
      sh[p] = q; phis.push_back({p, q});
    }
    // visit in dominance-compatible order (reverse post order)
    std::vector<BasicBlock *> order; std::set<BasicBlock *> seen;
    {
      std::vector<std::pair<BasicBlock *, unsigned>> st; st.push_back({&E, 0}); seen.insert(&E);
      while (!st.empty()) {
        auto &[b, i] = st.back(); Instruction *t = b->getTerminator();
        if (i < t->getNumSuccessors()) { BasicBlock *s = t->getSuccessor(i++); if (seen.insert(s).second) st.push_back({s, 0}); }
        else { order.push_back(b); st.pop_back(); }
      }
      std::reverse(order.begin(), order.end());
    }
    std::map<BasicBlock *, std::vector<Instruction *>> per;
    for (Instruction *w : work) per[w->getParent()].push_back(w);
    for (BasicBlock *b : order) for (Instruction *w : per[b]) visit(*w);
    for (auto &[p, q] : phis)
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) q->addIncoming(shadow(p->getIncomingValue(i)), p->getIncomingBlock(i));
  }
};

void FnInst::visit(Instruction &in) {
  if (isa<PHINode>(in) || isa<LandingPadInst>(in)) return;
  if (auto *al = dyn_cast<AllocaInst>(&in)) {
    if (!isa<ConstantInt>(al->getArraySize())) concOperand(&in, 0);
    return;
  }
  if (auto *ii = dyn_cast<IntrinsicInst>(&in)) { visitIntrinsic(*ii); return; }
  if (auto *cb = dyn_cast<CallBase>(&in)) { visitCall(*cb); return; }
  if (auto *st = dyn_cast<StoreInst>(&in)) {
    if (st->getValueOperand()->getType()->isIntegerTy(1) && may(st->getValueOperand())) {
      IRBuilder<> B0(st); Value *a = st->getValueOperand();
      Value *r = B0.CreateCall(I.fn("__sym_selcond", I.I1, {I.I1, I.PtrT}), {a, shadow(a)});
      Value *s = B0.CreateLoad(I.PtrT, I.gRet); sh[r] = s; sym.insert(r); st->setOperand(0, r);
    }
    IRBuilder<> B(st->getNextNode());
    storeShadow(B, st->getPointerOperand(), st->getValueOperand(), may(st->getValueOperand()) ? shadow(st->getValueOperand()) : Constant::getNullValue(I.shT(st->getValueOperand()->getType()) ? I.shT(st->getValueOperand()->getType()) : I.PtrT));
    return;
  }
  if (auto *ld = dyn_cast<LoadInst>(&in)) {
    if (!I.shT(ld->getType())) return;
    IRBuilder<> B(ld->getNextNode());
    sh[ld] = loadShadow(B, ld->getPointerOperand(), ld->getType());
    return;
  }
  if (isa<AtomicRMWInst>(in) || isa<AtomicCmpXchgInst>(in)) {
    for (unsigned k = 1; k < in.getNumOperands(); k++) concOperand(&in, k);
    IRBuilder<> B(in.getNextNode());
    B.CreateCall(I.fn("__sym_clear", I.VoidT, {I.PtrT, I.I64}), {in.getOperand(0), ConstantInt::get(I.I64, I.DL.getTypeStoreSize(in.getOperand(1)->getType()))});
    return;
  }
  if (auto *gep = dyn_cast<GetElementPtrInst>(&in)) { for (unsigned k = 1; k < gep->getNumOperands(); k++) concOperand(gep, k); return; }
  if (auto *br = dyn_cast<BranchInst>(&in)) {
    if (br->isConditional() && may(br->getCondition())) {
      IRBuilder<> B(br);
      br->setCondition(B.CreateCall(I.fn("__sym_branch", I.I1, {I.I1, I.PtrT}), {br->getCondition(), shadow(br->getCondition())}));
    }
    return;
  }
  if (auto *sw = dyn_cast<SwitchInst>(&in)) { concOperand(sw, 0); return; }
  if (auto *r = dyn_cast<ReturnInst>(&in)) {
    if (r->getReturnValue() && I.shT(r->getReturnValue()->getType())) {
      IRBuilder<> B(r);
      B.CreateStore(shadow(r->getReturnValue()), I.gRet);
      B.CreateStore(&F, I.gRetFrom);
    }
    return;
  }
  if (isa<IntToPtrInst>(in)) { concOperand(&in, 0); return; }
  if (auto *ev = dyn_cast<ExtractValueInst>(&in)) { if (may(ev) && I.shT(ev->getType())) { IRBuilder<> B(ev->getNextNode()); sh[ev] = B.CreateExtractValue(shadow(ev->getAggregateOperand()), ev->getIndices()); } return; }
  if (auto *iv = dyn_cast<InsertValueInst>(&in)) {
    if (!may(iv)) return;
    IRBuilder<> B(iv->getNextNode());
    Value *es = shadow(iv->getInsertedValueOperand());
    sh[iv] = B.CreateInsertValue(shadow(iv->getAggregateOperand()), es, iv->getIndices());
    return;
  }
  if (auto *ee = dyn_cast<ExtractElementInst>(&in)) {
    if (!may(ee)) return;
    auto *ci = dyn_cast<ConstantInt>(ee->getIndexOperand());
    IRBuilder<> B(ee->getNextNode());
    if (ci) sh[ee] = B.CreateExtractValue(shadow(ee->getVectorOperand()), ci->getZExtValue());
    else { checkNull(B, shadow(ee->getVectorOperand()), "extractelement"); sh[ee] = I.Null; }
    return;
  }
  if (auto *ie = dyn_cast<InsertElementInst>(&in)) {
    if (!may(ie)) return;
    auto *ci = dyn_cast<ConstantInt>(ie->getOperand(2));
    IRBuilder<> B(ie->getNextNode());
    if (ci) sh[ie] = B.CreateInsertValue(shadow(ie->getOperand(0)), shadow(ie->getOperand(1)), ci->getZExtValue());
    else { checkNull(B, shadow(ie->getOperand(1)), "insertelement"); sh[ie] = Constant::getNullValue(I.shT(ie->getType())); }
    return;
  }
  if (auto *sv = dyn_cast<ShuffleVectorInst>(&in)) {
    if (!may(sv)) return;
    IRBuilder<> B(sv->getNextNode());
    Type *t = I.shT(sv->getType()); Value *agg = Constant::getNullValue(t);
    unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
    for (unsigned i = 0; i < sv->getShuffleMask().size(); i++) {
      int m = sv->getMaskValue(i); if (m < 0) continue;
      Value *s = m < (int)n ? B.CreateExtractValue(shadow(sv->getOperand(0)), m) : B.CreateExtractValue(shadow(sv->getOperand(1)), m - n);
      agg = B.CreateInsertValue(agg, s, i);
    }
    sh[sv] = agg; return;
  }
  if (auto *se = dyn_cast<SelectInst>(&in)) {
    Value *cnd = se->getCondition();
    if (cnd->getType()->isVectorTy()) { if (may(se)) { IRBuilder<> B(se->getNextNode()); checkNull(B, shadow(se), "vector select"); } return; }
    if (may(cnd)) {
      Type *T = se->getType(); IRBuilder<> B(se);
      if (T->isIntegerTy() && T->getIntegerBitWidth() <= 64) {
        Value *c2 = cnd, *cs = shadow(cnd);
        if (T->getIntegerBitWidth() > 1) { c2 = B.CreateCall(I.fn("__sym_selcond", I.I1, {I.I1, I.PtrT}), {cnd, cs}); cs = B.CreateLoad(I.PtrT, I.gRet); se->setCondition(c2); }
        IRBuilder<> B2(se->getNextNode());
        sh[se] = B2.CreateCall(I.fn("__sym_ite", I.PtrT, {I.I32, I.I1, I.PtrT, I.I64, I.PtrT, I.I64, I.PtrT}),
          {c32(T->getIntegerBitWidth()), c2, cs, i64(B2, se->getTrueValue()), shadow(se->getTrueValue()), i64(B2, se->getFalseValue()), shadow(se->getFalseValue())});
        // concrete result stays a companion value
      } else {
        Value *c2 = B.CreateCall(I.fn("__sym_branch", I.I1, {I.I1, I.PtrT}), {cnd, shadow(cnd)});
        se->setCondition(c2);
        if (I.shT(T)) { IRBuilder<> B2(se->getNextNode()); sh[se] = B2.CreateSelect(c2, shadow(se->getTrueValue()), shadow(se->getFalseValue())); }
      }
    } else if (may(se)) {
      IRBuilder<> B2(se->getNextNode());
      sh[se] = B2.CreateSelect(cnd, shadow(se->getTrueValue()), shadow(se->getFalseValue()));
    }
    return;
  }
  if (isa<FreezeInst>(in)) { if (may(&in)) sh[&in] = shadow(in.getOperand(0)); return; }
  if (!may(&in)) return;
  if (in.getType()->isVectorTy()) {
    IRBuilder<> B(in.getNextNode());
    for (Value *o : in.operands()) if (may(o)) checkNull(B, shadow(o), "vector op");
    sh[&in] = Constant::getNullValue(I.shT(in.getType())); return;
  }
  if (auto *ca = dyn_cast<CastInst>(&in)) if (ca->getSrcTy()->isIntegerTy(1) && may(ca->getOperand(0))) {
    IRBuilder<> B0(ca); Value *a = ca->getOperand(0);
    Value *r = B0.CreateCall(I.fn("__sym_selcond", I.I1, {I.I1, I.PtrT}), {a, shadow(a)});
    Value *s = B0.CreateLoad(I.PtrT, I.gRet); sh[r] = s; sym.insert(r); ca->setOperand(0, r);
  }
  Saved saved(&in);
  IRBuilder<> B(in.getNextNode());
  if (auto *bo = dyn_cast<BinaryOperator>(&in)) {
    Value *a = bo->getOperand(0), *b = bo->getOperand(1);
    if (in.getType()->isIntegerTy()) {
      // division concretes: companion values must not trap
      unsigned op = bo->getOpcode();
      if (op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::SRem || op == Instruction::URem) {
        IRBuilder<> B0(bo);
        Value *g = B0.CreateCall(I.fn("__sym_divguard", I.I64, {I.I32, I.I32, I.I64, I.PtrT, I.I64, I.PtrT}), {c32(op), c32(in.getType()->getIntegerBitWidth()), i64(B0, a), shadow(a), i64(B0, b), shadow(b)});
        bo->setOperand(1, B0.CreateTrunc(g, b->getType()));
      }
      sh[&in] = B.CreateCall(I.fn("__sym_bin", I.PtrT, {I.I32, I.I32, I.I64, I.PtrT, I.I64, I.PtrT}),
        {c32(op), c32(in.getType()->getIntegerBitWidth()), i64(B, a), shadow(a), i64(B, b), shadow(b)});
    } else {
      Value *r = B.CreateCall(I.fn("__sym_fbin", I.DblT, {I.I32, I.I32, I.DblT, I.PtrT, I.DblT, I.PtrT, I.DblT}),
        {c32(bo->getOpcode()), c32(I.kindOf(in.getType())), toD(B, a), shadow(a), toD(B, b), shadow(b), toD(B, bo)});
      Value *s = B.CreateLoad(I.PtrT, I.gRet);
      Value *rv = in.getType()->isDoubleTy() ? r : B.CreateSelect(B.CreateICmpNE(s, I.Null), fromD(B, r, in.getType()), bo);
      saved.to(rv);
      sh[rv] = s; sym.insert(rv); sh[&in] = s;
    }
    return;
  }
  if (auto *uo = dyn_cast<UnaryOperator>(&in)) { // fneg
    sh[&in] = B.CreateCall(I.fn("__sym_fneg", I.PtrT, {I.PtrT}), {shadow(uo->getOperand(0))}); return;
  }
  if (auto *ic = dyn_cast<ICmpInst>(&in)) {
    Value *a = ic->getOperand(0), *b = ic->getOperand(1);
    if (!a->getType()->isIntegerTy() || a->getType()->getIntegerBitWidth() > 64) { sh[&in] = I.Null; return; }
    sh[&in] = B.CreateCall(I.fn("__sym_icmp", I.PtrT, {I.I32, I.I32, I.I64, I.PtrT, I.I64, I.PtrT}),
      {c32(ic->getPredicate()), c32(a->getType()->getIntegerBitWidth()), i64(B, a), shadow(a), i64(B, b), shadow(b)});
    return;
  }
  if (auto *fc = dyn_cast<FCmpInst>(&in)) {
    Value *a = fc->getOperand(0), *b = fc->getOperand(1);
    Value *r = B.CreateCall(I.fn("__sym_fcmp", I.I1, {I.I32, I.I32, I.DblT, I.PtrT, I.DblT, I.PtrT, I.I1}),
      {c32(fc->getPredicate()), c32(I.kindOf(a->getType())), toD(B, a), shadow(a), toD(B, b), shadow(b), fc});
    Value *s = B.CreateLoad(I.PtrT, I.gRet);
    saved.to(r);
    sh[r] = s; sym.insert(r); sh[&in] = s;
    return;
  }
  if (auto *ca = dyn_cast<CastInst>(&in)) {
    Value *a = ca->getOperand(0); Type *S = a->getType(), *D = ca->getType();
    int ks = I.kindOf(S), kd = I.kindOf(D);
    unsigned op = ca->getOpcode();
    if (op == Instruction::PtrToInt) { sh[&in] = I.Null; return; }
    if (op == Instruction::BitCast) { if (!ks || !kd) { checkNull(B, shadow(a), "bitcast"); sh[&in] = Constant::getNullValue(I.shT(D)); } else sh[&in] = B.CreateCall(I.fn("__sym_bitcast", I.PtrT, {I.I32, I.I32, I.PtrT}), {c32(ks), c32(kd), shadow(a)}); return; }
    if (op == Instruction::FPToSI || op == Instruction::FPToUI) {
      if (!kd) { checkNull(B, shadow(a), "fptoi wide"); return; }
      Value *r = B.CreateCall(I.fn("__sym_fptoi", I.I64, {I.I32, I.I32, I.I32, I.DblT, I.PtrT}), {c32(op == Instruction::FPToSI), c32(ks), c32(kd), toD(B, a), shadow(a)});
      Value *s = B.CreateLoad(I.PtrT, I.gRet);
      Value *rv = B.CreateSelect(B.CreateICmpNE(shadow(a), I.Null), B.CreateTrunc(r, D), ca);
      saved.to(rv);
      sh[rv] = s; sym.insert(rv); sh[&in] = s; return;
    }
    if (op == Instruction::SIToFP || op == Instruction::UIToFP) {
      if (!ks) { return; }
      Value *r = B.CreateCall(I.fn("__sym_itofp", I.DblT, {I.I32, I.I32, I.I32, I.I64, I.PtrT, I.DblT}), {c32(op == Instruction::SIToFP), c32(ks), c32(kd), i64(B, a), shadow(a), toD(B, ca)});
      Value *s = B.CreateLoad(I.PtrT, I.gRet);
      Value *rv = D->isDoubleTy() ? r : fromD(B, r, D);
      saved.to(rv);
      sh[rv] = s; sym.insert(rv); sh[&in] = s; return;
    }
    if (!ks || !kd) { checkNull(B, shadow(a), "wide cast"); sh[&in] = Constant::getNullValue(I.shT(D) ? I.shT(D) : I.PtrT); return; }
    sh[&in] = B.CreateCall(I.fn("__sym_cast", I.PtrT, {I.I32, I.I32, I.I32, I.PtrT}), {c32(op), c32(ks), c32(kd), shadow(a)});
    return;
  }
  // anything else
  for (Value *o : in.operands()) if (may(o)) checkNull(B, shadow(o), in.getOpcodeName());
  sh[&in] = Constant::getNullValue(I.shT(in.getType()));
}

void FnInst::visitIntrinsic(IntrinsicInst &ii) {
  Intrinsic::ID id = ii.getIntrinsicID();
  Saved saved(&ii);
  IRBuilder<> B(ii.getNextNode() ? ii.getNextNode() : &ii);
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    concOperand(&ii, 2);
    IRBuilder<> B0(&ii);
    B0.CreateCall(I.fn("__sym_copy", I.VoidT, {I.PtrT, I.PtrT, I.I64}), {ii.getArgOperand(0), ii.getArgOperand(1), i64(B0, ii.getArgOperand(2))});
    return; }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    concOperand(&ii, 2);
    IRBuilder<> B0(&ii);
    B0.CreateCall(I.fn("__sym_memset", I.VoidT, {I.PtrT, I.PtrT, I.I64}), {ii.getArgOperand(0), may(ii.getArgOperand(1)) ? shadow(ii.getArgOperand(1)) : I.Null, i64(B0, ii.getArgOperand(2))});
    return; }
  default: break;
  }
  std::string mn = mathName(&ii);
  if (!mn.empty()) { visitCall(ii); return; }
  if (!I.shT(ii.getType())) return;
  bool any = false; for (Value *a : ii.args()) if (may(a)) any = true;
  if (!any) return;
  Type *T = ii.getType();
  switch (id) {
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::annotation: case Intrinsic::ssa_copy:
    sh[&ii] = shadow(ii.getArgOperand(0)); return;
  case Intrinsic::abs: case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:
  case Intrinsic::bswap: case Intrinsic::ctpop: case Intrinsic::usub_sat: case Intrinsic::uadd_sat:
  case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bitreverse: case Intrinsic::ssub_sat: case Intrinsic::sadd_sat: {
    if (!T->isIntegerTy()) break;
    Value *a = ii.getArgOperand(0), *b = ii.arg_size() > 1 ? ii.getArgOperand(1) : nullptr, *c = ii.arg_size() > 2 ? ii.getArgOperand(2) : nullptr;
    auto V = [&](Value *x) -> Value * { return x ? i64(B, x) : ConstantInt::get(I.I64, 0); };
    auto S = [&](Value *x) -> Value * { return x ? shadow(x) : (Value *)I.Null; };
    const char *nm = id == Intrinsic::abs ? "abs" : id == Intrinsic::smax ? "smax" : id == Intrinsic::smin ? "smin" : id == Intrinsic::umax ? "umax" : id == Intrinsic::umin ? "umin" :
      id == Intrinsic::bswap ? "bswap" : id == Intrinsic::usub_sat ? "usubsat" : id == Intrinsic::uadd_sat ? "uaddsat" : id == Intrinsic::fshl ? "fshl" : id == Intrinsic::fshr ? "fshr" : "other";
    sh[&ii] = B.CreateCall(I.fn("__sym_iintr", I.PtrT, {I.PtrT, I.I32, I.I64, I.PtrT, I.I64, I.PtrT, I.I64, I.PtrT}),
      {B.CreateGlobalStringPtr(nm), c32(T->getIntegerBitWidth()), V(a), S(a), V(b), S(b), V(c), S(c)});
    return; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
  case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
    Value *a = ii.getArgOperand(0), *b = ii.getArgOperand(1);
    int code = id == Intrinsic::sadd_with_overflow ? 0 : id == Intrinsic::uadd_with_overflow ? 1 : id == Intrinsic::ssub_with_overflow ? 2 : id == Intrinsic::usub_with_overflow ? 3 : id == Intrinsic::smul_with_overflow ? 4 : 5;
    Value *r = B.CreateCall(I.fn("__sym_ovf", I.PtrT, {I.I32, I.I32, I.I64, I.PtrT, I.I64, I.PtrT}), {c32(code), c32(a->getType()->getIntegerBitWidth()), i64(B, a), shadow(a), i64(B, b), shadow(b)});
    Value *o = B.CreateLoad(I.PtrT, I.gRet);
    Value *agg = Constant::getNullValue(I.shT(T));
    agg = B.CreateInsertValue(agg, r, 0); agg = B.CreateInsertValue(agg, o, 1);
    sh[&ii] = agg; return; }
  case Intrinsic::is_fpclass: {
    Value *a = ii.getArgOperand(0);
    if (a->getType()->isVectorTy()) break;
    Value *r = B.CreateCall(I.fn("__sym_fpclass", I.I1, {I.I32, I.I32, I.PtrT, I.I1}), {c32(I.kindOf(a->getType())), ii.getArgOperand(1), shadow(a), &ii});
    Value *s = B.CreateLoad(I.PtrT, I.gRet);
    saved.to(r);
    sh[r] = s; sym.insert(r); sh[&ii] = s; return; }
  default: break;
  }
  for (Value *a : ii.args()) if (may(a)) checkNull(B, shadow(a), ii.getCalledFunction()->getName().str().c_str());
  sh[&ii] = Constant::getNullValue(I.shT(T));
}

void FnInst::visitCall(CallBase &cb) {
  if (cb.isInlineAsm()) return;
  Function *f = cb.getCalledFunction();
  std::string mn = mathName(&cb);
  auto afterPt = [&]() -> Instruction * {
    if (auto *iv = dyn_cast<InvokeInst>(&cb)) {
      BasicBlock *nd = iv->getNormalDest();
      if (!nd->getSinglePredecessor()) {
        nd = SplitEdge(iv->getParent(), nd);
        // keep phi shadows consistent: phis in the old dest now come from nd
      }
      return &*nd->getFirstInsertionPt();
    }
    return cb.getNextNode();
  };
  if (!mn.empty()) {
    bool any = false; for (Value *a : cb.args()) if (may(a)) any = true;
    if (!any || cb.getType()->isVectorTy()) { return; }
    Saved saved(&cb);
    IRBuilder<> B(afterPt());
    Value *v[3] = {ConstantFP::get(I.DblT, 0), ConstantFP::get(I.DblT, 0), ConstantFP::get(I.DblT, 0)}, *s[3] = {I.Null, I.Null, I.Null};
    for (unsigned i = 0; i < cb.arg_size() && i < 3; i++) {
      Value *a = cb.getArgOperand(i);
      if (a->getType()->isFloatingPointTy()) { v[i] = toD(B, a); s[i] = shadow(a); }
      else if (a->getType()->isIntegerTy()) { // powi, ldexp
        Value *x = i64(B, B.CreateSExt(a, I.I64));
        if (may(a)) { x = B.CreateCall(I.fn("__sym_conc", I.I64, {I.I32, I.I64, I.PtrT}), {c32(a->getType()->getIntegerBitWidth()), i64(B, a), shadow(a)}); x = B.CreateSExt(B.CreateTrunc(x, a->getType()), I.I64); }
        v[i] = B.CreateSIToFP(x, I.DblT);
      }
    }
    Value *nat = toD(B, &cb);
    Value *r = B.CreateCall(I.fn("__sym_math", I.DblT, {I.PtrT, I.I32, I.DblT, I.PtrT, I.DblT, I.PtrT, I.DblT, I.PtrT, I.DblT}),
      {B.CreateGlobalStringPtr(mn), c32(I.kindOf(cb.getType())), v[0], s[0], v[1], s[1], v[2], s[2], nat});
    Value *so = B.CreateLoad(I.PtrT, I.gRet);
    Value *rv = fromD(B, r, cb.getType());
    saved.to(rv);
    sh[rv] = so; sym.insert(rv); sh[&cb] = so; sym.insert(&cb);
    return;
  }
  if (f && f->getName().starts_with("__sym_")) return;
  bool decl = f && f->isDeclaration();
  bool rtf = f && f->getName().starts_with("symrt_");
  if (decl && !rtf) {
    // uninstrumented external: integers are concretised, symbolic doubles are judged by name
    IRBuilder<> B(&cb);
    std::string n = f->getName().str();
    static const std::set<std::string> passthru = {"llvm.assume"};
    if (n == "memcpy" || n == "memmove") {
      concOperand(&cb, 2); IRBuilder<> B1(&cb);
      B1.CreateCall(I.fn("__sym_copy", I.VoidT, {I.PtrT, I.PtrT, I.I64}), {cb.getArgOperand(0), cb.getArgOperand(1), cb.getArgOperand(2)});
      return;
    }
    for (unsigned i = 0; i < cb.arg_size(); i++) {
      Value *a = cb.getArgOperand(i);
      if (!may(a)) continue;
      if (a->getType()->isIntegerTy() && a->getType()->getIntegerBitWidth() <= 64) concOperand(&cb, i);
      else { Value *s = shadow(a); if (s->getType()->isPointerTy()) B.CreateCall(I.fn("__sym_extfp", I.VoidT, {I.PtrT, I.PtrT}), {s, B.CreateGlobalStringPtr(n)}); else checkNull(B, s, n.c_str()); }
    }
    static const std::map<std::string, int> alloc = {{"malloc", 0}, {"_Znwm", 0}, {"_Znam", 0}, {"_ZnwmSt11align_val_t", 0}, {"_ZnamSt11align_val_t", 0}};
    if (alloc.count(n)) {
      IRBuilder<> B2(afterPt());
      B2.CreateCall(I.fn("__sym_clear", I.VoidT, {I.PtrT, I.I64}), {&cb, cb.getArgOperand(0)});
    }
    if (n == "memcmp" || n == "bcmp" || n == "strlen" || n == "memchr" || n == "strcmp" || n == "strncmp") {
      IRBuilder<> B2(&cb);
      Value *len = n == "memcmp" || n == "bcmp" || n == "memchr" ? cb.getArgOperand(2) : (Value *)ConstantInt::get(I.I64, 0);
      B2.CreateCall(I.fn("__sym_memguard", I.VoidT, {I.PtrT, I.PtrT, I.I64, I.PtrT}), {cb.getArgOperand(0), n == "strlen" || n == "memchr" ? (Value *)I.Null : cb.getArgOperand(1), len, B2.CreateGlobalStringPtr(n)});
    }
    return;
  }
  {
    IRBuilder<> B(&cb);
    bool any = false;
    for (unsigned i = 0; i < cb.arg_size(); i++) if (may(cb.getArgOperand(i)) || cb.isByValArgument(i)) any = true;
    if (any || rtf) {
      for (unsigned i = 0; i < cb.arg_size() && i < MAXARGS; i++) {
        Value *a = cb.getArgOperand(i); Type *t = I.shT(a->getType());
        Value *slot = B.CreateConstGEP2_32(I.gArgs->getValueType(), I.gArgs, 0, i);
        if (cb.isByValArgument(i)) B.CreateStore(a, slot);
        else if (t && t->isPointerTy()) B.CreateStore(shadow(a), slot);
        else if (t) {
          Value *s = shadow(a); unsigned n2 = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
          Value *box = B.CreateCall(I.fn("__sym_box", I.PtrT, {I.I32}), {c32(n2)});
          for (unsigned k = 0; k < n2; k++) { Value *e = B.CreateExtractValue(s, k); if (e->getType()->isPointerTy()) B.CreateCall(I.fn("__sym_boxset", I.VoidT, {I.PtrT, I.I32, I.PtrT}), {box, c32(k), e}); else checkNull(B, e, "nested aggregate arg"); }
          B.CreateStore(box, slot);
        }
      }
      if (!rtf) B.CreateStore(cb.getCalledOperand(), I.gTarget);
    }
    if (I.shT(cb.getType())) { if (rtf) B.CreateStore(I.Null, I.gRet); else B.CreateStore(I.Null, I.gRetFrom); }
  }
  if (Type *t = I.shT(cb.getType())) {
    if (cb.isMustTailCall()) return;
    IRBuilder<> B(afterPt());
    if (rtf) sh[&cb] = B.CreateLoad(t, I.gRet);
    else {
      Value *m = B.CreateICmpEQ(B.CreateLoad(I.PtrT, I.gRetFrom), cb.getCalledOperand());
      sh[&cb] = B.CreateSelect(m, B.CreateLoad(t, I.gRet), Constant::getNullValue(t));
    }
  }
}

struct SymPass : PassInfoMixin<SymPass> {
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    std::vector<Function *> fs;
    for (Function &F : M) if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage()) fs.push_back(&F);
    Inst I(M);
    unsigned n = 0;
    std::string list;
    for (Function *F : fs) {
      if (F->getName().starts_with("__sym_") || F->getName().starts_with("symrt_")) continue;
      if (F->getName().contains("__to_xstring")) continue; // std::to_string(double): text of the sampled value (formatted texts are outside every claim)
      F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::WillReturn); F->removeFnAttr(Attribute::NoSync); F->removeFnAttr(Attribute::NoCallback);
      for (BasicBlock &bb : *F) for (Instruction &in : bb) if (auto *cb = dyn_cast<CallBase>(&in)) {
        if (isa<IntrinsicInst>(cb)) continue;
        cb->removeFnAttr(Attribute::Memory);
        if (auto *ci = dyn_cast<CallInst>(cb)) if (ci->isTailCall() && !ci->isMustTailCall()) ci->setTailCall(false);
      }
      removeUnreachableBlocks(*F);
      FnInst fi(I, *F); fi.run(); n++;
      list += F->getName().str(); list += "\n";
    }
    if (const char *p = getenv("SYM_FNLIST")) { std::ofstream o(p, std::ios::app); o << list; }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder &PB) {
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
      FunctionPassManager FPM;
      ScalarizerPassOptions so; so.ScalarizeLoadStore = true; so.ScalarizeVariableInsertExtract = true; so.ScalarizeMinBits = 0;
      FPM.addPass(ScalarizerPass(so));
      FPM.addPass(LowerSwitchPass());
      MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
      MPM.addPass(SymPass());
    });
  }};
}
