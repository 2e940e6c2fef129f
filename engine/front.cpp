// LLVM bitcode -> Prog
#include "mir.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/IR/CFG.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <cstdio>
#include <cstdlib>
using namespace llvm;
static const DataLayout *DL;
static std::map<const Value *, int> GI, FI;

static Opnd opnd(const std::map<const Value *, int> &R, const Value *v) {
  Opnd o;
  Type *t = v->getType();
  o.ptr = t->isPointerTy();
  o.bits = o.ptr ? 64 : (t->isIntegerTy() ? (int)t->getIntegerBitWidth() : 0);
  i64 off = 0;
  if (isa<ConstantExpr>(v)) {
    const Value *b = v;
    while (auto *c2 = dyn_cast<ConstantExpr>(b)) {
      if (auto *g = dyn_cast<GEPOperator>(c2)) {
        APInt A(64, 0);
        if (!g->accumulateConstantOffset(*DL, A)) return o;
        off += A.getSExtValue();
        b = g->getPointerOperand();
      } else if (c2->isCast()) b = c2->getOperand(0);
      else return o;
    }
    v = b;
  }
  if (auto *ci = dyn_cast<ConstantInt>(v)) {
    o.k = O_INT;
    o.iv = ci->getBitWidth() <= 64 ? ci->getSExtValue() : 0;
    if (ci->getBitWidth() == 1) o.iv = ci->getZExtValue();
    return o;
  }
  if (isa<ConstantPointerNull>(v)) { o.k = O_NULL; return o; }
  if (isa<Function>(v)) { o.k = O_FUNC; o.idx = FI[v]; return o; }
  if (isa<GlobalVariable>(v)) { o.k = O_GLOBAL; o.idx = GI[v]; o.iv = off; return o; }
  if (isa<UndefValue>(v)) return o;
  auto it = R.find(v);
  if (it != R.end()) { o.k = O_REG; o.reg = it->second; }
  return o;
}
static int fileIdx(Prog &P, const std::string &s) {
  for (size_t i = 0; i < P.files.size(); i++) if (P.files[i] == s) return i;
  P.files.push_back(s);
  return P.files.size() - 1;
}
static void flat(Constant *c, i64 off, Global &g) {
  Type *t = c->getType();
  if (c->isNullValue()) return;
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    auto *sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < cs->getNumOperands(); i++) flat(cs->getOperand(i), off + sl->getElementOffset(i), g);
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    i64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) flat(ca->getOperand(i), off + es * i, g);
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    i64 es = cd->getElementByteSize();
    if (!cd->getElementType()->isIntegerTy()) return;
    for (unsigned i = 0; i < cd->getNumElements(); i++) {
      GInit x; x.off = off + es * i; x.size = es; x.v.k = O_INT; x.v.bits = es * 8;
      x.v.iv = cd->getElementAsAPInt(i).getSExtValue();
      if (x.v.iv) g.init.push_back(x);
    }
    return;
  }
  std::map<const Value *, int> none;
  GInit x; x.off = off; x.size = DL->getTypeStoreSize(t); x.v = opnd(none, c);
  g.init.push_back(x);
}
static std::string tyName(const DIType *t) {
  if (!t) return "void";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    if (d->getTag() == dwarf::DW_TAG_pointer_type) return tyName(d->getBaseType()) + "*";
    if (d->getTag() == dwarf::DW_TAG_typedef) return d->getName().str();
    return tyName(d->getBaseType());
  }
  if (isa<DISubroutineType>(t)) return "fn";
  if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_array_type) return tyName(c->getBaseType()) + "[]";
  return t->getName().str();
}
static void addStruct(Prog &P, const DICompositeType *ct, const std::string &nm) {
  if (nm.empty() || P.st.count(nm)) return;
  SType s; s.name = nm; s.size = ct->getSizeInBits() / 8;
  for (auto *e : ct->getElements()) {
    auto *m = dyn_cast_or_null<DIDerivedType>(e);
    if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
    Field f; f.name = m->getName().str(); f.off = m->getOffsetInBits() / 8; f.size = (m->getSizeInBits() + 7) / 8;
    if (m->isBitField()) f.bitoff = m->getOffsetInBits() % 8;
    f.type = tyName(m->getBaseType());
    s.f.push_back(f);
  }
  P.st[nm] = s;
}
void loadProg(const std::string &bc, Prog &P) {
  static LLVMContext C; SMDiagnostic E;
  static std::unique_ptr<Module> M; M = parseIRFile(bc, E, C);
  if (!M) { fprintf(stderr, "cannot read %s: %s\n", bc.c_str(), E.getMessage().str().c_str()); exit(2); }
  DL = &M->getDataLayout();
  for (auto &g : M->globals()) { int i = P.gl.size(); GI[&g] = i; Global x; x.name = g.getName().str(); P.gl.push_back(x); P.glIdx[x.name] = i; }
  for (auto &f : *M) { int i = P.fn.size(); FI[&f] = i; Func x; x.name = f.getName().str(); x.idx = i; P.fn.push_back(x); P.fnIdx[x.name] = i; }
  for (auto &g : M->globals()) {
    Global &x = P.gl[GI[&g]];
    SmallVector<DIGlobalVariableExpression *, 1> dbg; g.getDebugInfo(dbg);
    if (!dbg.empty()) x.type = tyName(dbg[0]->getVariable()->getType());
    x.size = DL->getTypeAllocSize(g.getValueType()); x.isConst = g.isConstant(); x.ext = g.isDeclaration();
    if (g.hasInitializer()) {
      x.hasInit = true;
      if (auto *cd = dyn_cast<ConstantDataArray>(g.getInitializer())) if (cd->isString()) { x.isStr = true; x.str = cd->getAsString().str(); }
      flat(g.getInitializer(), 0, x);
    }
  }
  DebugInfoFinder DF; DF.processModule(*M);
  for (auto *t : DF.types()) {
    if (auto *ct = dyn_cast<DICompositeType>(t)) {
      if (ct->getTag() == dwarf::DW_TAG_structure_type && !ct->isForwardDecl()) addStruct(P, ct, ct->getName().str());
      if (ct->getTag() == dwarf::DW_TAG_enumeration_type)
        for (auto *e : ct->getElements()) if (auto *x = dyn_cast_or_null<DIEnumerator>(e)) P.enums[x->getName().str()] = x->getValue().getSExtValue();
    }
    if (auto *d = dyn_cast<DIDerivedType>(t)) if (d->getTag() == dwarf::DW_TAG_typedef)
      if (auto *ct = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
        if (ct->getTag() == dwarf::DW_TAG_structure_type && !ct->isForwardDecl()) addStruct(P, ct, d->getName().str());
  }
  for (auto &f : *M) {
    Func &F = P.fn[FI[&f]];
    F.decl = f.isDeclaration(); F.varargs = f.isVarArg(); F.nargs = f.arg_size(); F.internal = f.hasLocalLinkage();
    Type *rt = f.getReturnType(); F.retVoid = rt->isVoidTy(); F.retPtr = rt->isPointerTy();
    F.retBits = rt->isIntegerTy() ? rt->getIntegerBitWidth() : (F.retPtr ? 64 : 0);
    if (F.decl) continue;
    if (auto *sp = f.getSubprogram()) { F.file = fileIdx(P, sp->getFilename().str()); F.line = sp->getLine(); }
    std::map<const Value *, int> R; std::map<const BasicBlock *, int> B;
    int nr = 0;
    for (auto &a : f.args()) {
      R[&a] = nr++; F.argBits.push_back(a.getType()->isIntegerTy() ? a.getType()->getIntegerBitWidth() : 64);
      F.argPtr.push_back(a.getType()->isPointerTy()); F.regName.push_back(a.getName().str());
    }
    int nb = 0;
    for (auto &b : f) { B[&b] = nb++; for (auto &in : b) if (!in.getType()->isVoidTy()) { R[&in] = nr++; F.regName.push_back(in.getName().str()); } }
    F.nregs = nr; F.bl.resize(nb);
    for (auto &b : f) {
      Block &K = F.bl[B[&b]];
      for (auto *p : predecessors(&b)) K.preds.push_back(B[p]);
      for (auto &in : b) {
        if (isa<DbgInfoIntrinsic>(in)) continue;
        Inst I;
        if (auto &dl = in.getDebugLoc()) { I.line = dl.getLine(); if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope())) I.file = fileIdx(P, sc->getFilename().str()); }
        if (I.file < 0) I.file = F.file;
        Type *t = in.getType();
        if (!t->isVoidTy()) { I.dst = R[&in]; I.ptr = t->isPointerTy(); I.bits = t->isIntegerTy() ? t->getIntegerBitWidth() : (I.ptr ? 64 : 0); }
        auto OP = [&](const Value *v) { return opnd(R, v); };
        if (auto *x = dyn_cast<AllocaInst>(&in)) {
          I.op = I_ALLOCA; I.size = DL->getTypeAllocSize(x->getAllocatedType());
          if (auto *n = dyn_cast<ConstantInt>(x->getArraySize())) I.size *= n->getZExtValue();
        } else if (auto *x = dyn_cast<LoadInst>(&in)) {
          I.op = I_LOAD; I.size = DL->getTypeStoreSize(t); I.a.push_back(OP(x->getPointerOperand()));
          bool z = false, sg = false;
          for (auto *u : x->users()) {
            if (isa<ZExtInst>(u)) z = true;
            else if (isa<SExtInst>(u)) sg = true;
            else if (auto *ic = dyn_cast<ICmpInst>(u)) { if (ic->isSigned()) sg = true; if (ic->isUnsigned()) z = true; }
          }
          I.uns = z && !sg;
        } else if (auto *x = dyn_cast<StoreInst>(&in)) {
          I.op = I_STORE; Type *vt = x->getValueOperand()->getType(); I.size = DL->getTypeStoreSize(vt);
          I.ptr = vt->isPointerTy(); I.bits = vt->isIntegerTy() ? vt->getIntegerBitWidth() : 64;
          I.a.push_back(OP(x->getValueOperand())); I.a.push_back(OP(x->getPointerOperand()));
        } else if (auto *x = dyn_cast<GetElementPtrInst>(&in)) {
          I.op = I_GEP; I.a.push_back(OP(x->getPointerOperand()));
          Type *ct = x->getSourceElementType(); bool first = true;
          for (auto it = x->idx_begin(); it != x->idx_end(); ++it) {
            const Value *ix = *it;
            if (first) {
              i64 sz = DL->getTypeAllocSize(ct); first = false;
              if (auto *ci = dyn_cast<ConstantInt>(ix)) I.goff += ci->getSExtValue() * sz; else I.steps.push_back({OP(ix), sz});
              continue;
            }
            if (auto *stt = dyn_cast<StructType>(ct)) {
              unsigned k = cast<ConstantInt>(ix)->getZExtValue();
              I.goff += DL->getStructLayout(stt)->getElementOffset(k);
              ct = stt->getElementType(k); I.subBefore = I.goff; I.subSize = DL->getTypeAllocSize(ct);
              I.subArr = isa<ArrayType>(ct) && cast<ArrayType>(ct)->getNumElements() > 1;
              I.sname = stt->hasName() ? stt->getName().str() : ""; I.sfield = k;
              if (!I.steps.empty()) I.subBefore = -2;  // symbolic start
            } else if (auto *at = dyn_cast<ArrayType>(ct)) {
              ct = at->getElementType(); i64 sz = DL->getTypeAllocSize(ct);
              if (auto *ci = dyn_cast<ConstantInt>(ix)) I.goff += ci->getSExtValue() * sz; else I.steps.push_back({OP(ix), sz});
            }
          }
        } else if (auto *x = dyn_cast<ICmpInst>(&in)) {
          I.op = I_ICMP; I.a.push_back(OP(x->getOperand(0))); I.a.push_back(OP(x->getOperand(1)));
          switch (x->getPredicate()) {
            case CmpInst::ICMP_EQ: I.pred = P_EQ; break; case CmpInst::ICMP_NE: I.pred = P_NE; break;
            case CmpInst::ICMP_UGT: I.pred = P_UGT; break; case CmpInst::ICMP_UGE: I.pred = P_UGE; break;
            case CmpInst::ICMP_ULT: I.pred = P_ULT; break; case CmpInst::ICMP_ULE: I.pred = P_ULE; break;
            case CmpInst::ICMP_SGT: I.pred = P_SGT; break; case CmpInst::ICMP_SGE: I.pred = P_SGE; break;
            case CmpInst::ICMP_SLT: I.pred = P_SLT; break; default: I.pred = P_SLE;
          }
        } else if (auto *x = dyn_cast<BranchInst>(&in)) {
          if (x->isConditional()) { I.op = I_CONDBR; I.a.push_back(OP(x->getCondition())); I.tgt = {B[x->getSuccessor(0)], B[x->getSuccessor(1)]}; }
          else { I.op = I_BR; I.tgt = {B[x->getSuccessor(0)]}; }
        } else if (auto *x = dyn_cast<SwitchInst>(&in)) {
          I.op = I_SWITCH; I.a.push_back(OP(x->getCondition())); I.tgt.push_back(B[x->getDefaultDest()]);
          for (auto &c : x->cases()) { I.cases.push_back(c.getCaseValue()->getSExtValue()); I.tgt.push_back(B[c.getCaseSuccessor()]); }
        } else if (auto *x = dyn_cast<ReturnInst>(&in)) {
          I.op = I_RET; if (x->getReturnValue()) I.a.push_back(OP(x->getReturnValue()));
        } else if (auto *x = dyn_cast<PHINode>(&in)) {
          I.op = I_PHI;
          for (unsigned k = 0; k < x->getNumIncomingValues(); k++) { I.a.push_back(OP(x->getIncomingValue(k))); I.phiblk.push_back(B[x->getIncomingBlock(k)]); }
        } else if (auto *x = dyn_cast<SelectInst>(&in)) {
          I.op = I_SELECT; I.a = {OP(x->getCondition()), OP(x->getTrueValue()), OP(x->getFalseValue())};
        } else if (auto *x = dyn_cast<CallBase>(&in)) {
          I.op = I_CALL; I.callee = OP(x->getCalledOperand());
          for (auto &ar : x->args()) I.a.push_back(OP(ar.get()));
          if (x->isInlineAsm()) { I.callee.k = O_UNDEF; I.otherName = "asm"; }
        } else if (auto *x = dyn_cast<BinaryOperator>(&in)) {
          I.a = {OP(x->getOperand(0)), OP(x->getOperand(1))};
          if (auto *ob = dyn_cast<OverflowingBinaryOperator>(x)) I.nsw = ob->hasNoSignedWrap();
          switch (x->getOpcode()) {
            case Instruction::Add: I.op = I_ADD; break; case Instruction::Sub: I.op = I_SUB; break; case Instruction::Mul: I.op = I_MUL; break;
            case Instruction::SDiv: I.op = I_SDIV; break; case Instruction::UDiv: I.op = I_UDIV; break; case Instruction::SRem: I.op = I_SREM; break;
            case Instruction::URem: I.op = I_UREM; break; case Instruction::And: I.op = I_AND; break; case Instruction::Or: I.op = I_OR; break;
            case Instruction::Xor: I.op = I_XOR; break; case Instruction::Shl: I.op = I_SHL; break; case Instruction::LShr: I.op = I_LSHR; break;
            case Instruction::AShr: I.op = I_ASHR; break; default: I.op = I_OTHER; I.otherName = x->getOpcodeName();
          }
        } else if (auto *x = dyn_cast<CastInst>(&in)) {
          I.a = {OP(x->getOperand(0))};
          switch (x->getOpcode()) {
            case Instruction::Trunc: I.op = I_TRUNC; break; case Instruction::ZExt: I.op = I_ZEXT; break; case Instruction::SExt: I.op = I_SEXT; break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: I.op = I_CAST; break;
            default: I.op = I_OTHER; I.otherName = x->getOpcodeName();
          }
        } else if (isa<UnreachableInst>(in)) I.op = I_UNREACHABLE;
        else { I.op = I_OTHER; I.otherName = in.getOpcodeName(); for (auto &o : in.operands()) I.a.push_back(OP(o.get())); }
        K.in.push_back(I);
      }
    }
    // loop heads: targets of back edges in a DFS
    std::vector<int> col(nb, 0); std::vector<std::pair<int, int>> stk;
    auto succ = [&](int b) -> const std::vector<int> & { return F.bl[b].in.back().tgt; };
    stk.push_back({0, 0}); col[0] = 1;
    while (!stk.empty()) {
      int b = stk.back().first; int i = stk.back().second; auto &sv = succ(b);
      if (i >= (int)sv.size()) { col[b] = 2; stk.pop_back(); continue; }
      stk.back().second++;
      int n = sv[i];
      if (col[n] == 1) {
        F.bl[n].loopHead = true;
        std::vector<int> q = {b}; std::set<int> body = {n};
        while (!q.empty()) { int x = q.back(); q.pop_back(); if (!body.insert(x).second) continue; for (int p : F.bl[x].preds) q.push_back(p); }
        for (int x : body) { auto &v = F.bl[x].inLoop; if (std::find(v.begin(), v.end(), n) == v.end()) v.push_back(n); }
      }
      else if (!col[n]) { col[n] = 1; stk.push_back({n, 0}); }
    }
    // liveness
    std::vector<std::set<int>> li(nb); bool ch = true;
    auto uses = [&](const Inst &I, std::set<int> &s) {
      for (auto &o : I.a) if (o.k == O_REG) s.insert(o.reg);
      for (auto &g : I.steps) if (g.o.k == O_REG) s.insert(g.o.reg);
      if (I.callee.k == O_REG) s.insert(I.callee.reg);
    };
    while (ch) {
      ch = false;
      for (int b = nb - 1; b >= 0; b--) {
        std::set<int> s;
        for (int t : succ(b)) {
          for (int r : li[t]) s.insert(r);
          for (auto &I : F.bl[t].in) {
            if (I.op != I_PHI) break;
            s.erase(I.dst);
          }
          for (auto &I : F.bl[t].in) {
            if (I.op != I_PHI) break;
            for (size_t k = 0; k < I.a.size(); k++) if (I.phiblk[k] == b && I.a[k].k == O_REG) s.insert(I.a[k].reg);
          }
        }
        for (int i = (int)F.bl[b].in.size() - 1; i >= 0; i--) {
          Inst &I = F.bl[b].in[i];
          if (I.op == I_PHI) continue;  // phi results stay live at the head
          if (I.dst >= 0) s.erase(I.dst);
          if (I.op == I_CALL) I.liveAfter.assign(s.begin(), s.end());
          uses(I, s);
        }
        if (s != li[b]) { li[b] = s; ch = true; }
      }
    }
    for (int b = 0; b < nb; b++) {
      F.bl[b].liveIn.assign(li[b].begin(), li[b].end());
      auto &in = F.bl[b].in;
      for (size_t i = 0; i < in.size(); i++) {
        if (in[i].op != I_CALL) continue;
        size_t j = i + 1; if (j >= in.size()) continue;
        if (in[j].op == I_RET) {
          if (in[j].a.empty() || (in[j].a[0].k == O_REG && in[j].a[0].reg == in[i].dst)) in[i].tail = true;
        } else if (in[j].op == I_BR) {
          auto &tb = F.bl[in[j].tgt[0]].in;
          if (tb.size() == 2 && tb[0].op == I_PHI && tb[1].op == I_RET && tb[1].a.size() && tb[1].a[0].k == O_REG && tb[1].a[0].reg == tb[0].dst) {
            for (size_t k = 0; k < tb[0].a.size(); k++) if (tb[0].phiblk[k] == b && tb[0].a[k].k == O_REG && tb[0].a[k].reg == in[i].dst) in[i].tail = true;
          } else if (tb.size() == 1 && tb[0].op == I_RET && tb[0].a.empty()) in[i].tail = true;
        }
      }
    }
  }
}
