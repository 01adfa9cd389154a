// irx: dumps an LLVM module (bitcode or .ll) as JSON for the analysers in ../../sa.
// Everything the analysers need is made explicit: byte offsets of GEPs, flattened
// global initialisers, inline-asm strings and constraints, debug lines, TBAA paths.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;
using json::Array; using json::Object; typedef json::Value JV;

static const DataLayout *DL;
static std::map<const llvm::Value *, int64_t> Ids;
static std::map<const BasicBlock *, int64_t> BBs;

static std::string tystr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }
static std::string apstr(const APInt &A) { SmallString<64> s; A.toString(s, 10, false, false); return std::string(s); }

static JV tyj(Type *T) {
  if (T->isIntegerTy()) return Array{"i", (int64_t)T->getIntegerBitWidth()};
  if (T->isFloatTy() || T->isDoubleTy()) return Array{"i", (int64_t)T->getPrimitiveSizeInBits()};
  if (T->isPointerTy()) return Array{"p"};
  if (T->isVoidTy()) return Array{"void"};
  if (auto *V = dyn_cast<FixedVectorType>(T)) return Array{"v", (int64_t)V->getNumElements(), tyj(V->getElementType())};
  if (auto *S = dyn_cast<StructType>(T)) {
    Array a{"s"}; Array els, offs; const StructLayout *L = S->isSized() ? DL->getStructLayout(S) : nullptr;
    for (unsigned i = 0; i < S->getNumElements(); i++) { els.push_back(tyj(S->getElementType(i))); if (L) offs.push_back((int64_t)(uint64_t)L->getElementOffset(i)); }
    a.push_back(std::move(els)); a.push_back(std::move(offs)); a.push_back(S->isSized() ? (int64_t)(uint64_t)DL->getTypeAllocSize(S) : 0); return a;
  }
  if (auto *A = dyn_cast<ArrayType>(T)) return Array{"a", (int64_t)A->getNumElements(), tyj(A->getElementType()), (int64_t)(uint64_t)DL->getTypeAllocSize(T)};
  return Array{"other", tystr(T)};
}

static JV constant(const Constant *C);
static void flatten(const Constant *C, int64_t off, Array &out) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C)) { int64_t n = DL->getTypeAllocSize(T); if (n) out.push_back(Array{"z", off, n}); return; }
  if (isa<UndefValue>(C)) { out.push_back(Array{"u", off, (int64_t)(uint64_t)DL->getTypeAllocSize(T)}); return; }
  if (auto *I = dyn_cast<ConstantInt>(C)) { out.push_back(Array{"i", off, (int64_t)(uint64_t)DL->getTypeStoreSize(T), apstr(I->getValue())}); return; }
  if (isa<ConstantPointerNull>(C)) { out.push_back(Array{"p", off, nullptr, 0}); return; }
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    const StructLayout *L = DL->getStructLayout(S->getType());
    for (unsigned i = 0; i < S->getNumOperands(); i++) flatten(S->getOperand(i), off + (int64_t)(uint64_t)L->getElementOffset(i), out);
    return;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) {
    int64_t n = DL->getTypeAllocSize(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); i++) flatten(A->getOperand(i), off + n * i, out);
    return;
  }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    int64_t n = D->getElementByteSize();
    if (n == 1) { // bytes as one big string
      std::string hex; StringRef r = D->getRawDataValues(); static const char *H = "0123456789abcdef";
      for (unsigned char c : r) { hex += H[c >> 4]; hex += H[c & 15]; }
      out.push_back(Array{"b", off, (int64_t)r.size(), hex}); return;
    }
    for (unsigned i = 0; i < D->getNumElements(); i++) flatten(D->getElementAsConstant(i), off + n * i, out);
    return;
  }
  if (auto *V = dyn_cast<ConstantVector>(C)) {
    int64_t n = DL->getTypeAllocSize(V->getType()->getElementType());
    for (unsigned i = 0; i < V->getNumOperands(); i++) flatten(V->getOperand(i), off + n * i, out);
    return;
  }
  if (C->getType()->isPointerTy()) {
    APInt o(64, 0); const llvm::Value *b = C->stripAndAccumulateConstantOffsets(*DL, o, true);
    if (auto *G = dyn_cast<GlobalValue>(b)) { out.push_back(Array{"p", off, G->getName().str(), o.getSExtValue()}); return; }
  }
  out.push_back(Array{"?", off, (int64_t)(uint64_t)DL->getTypeAllocSize(T)});
}

static JV constant(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) return Array{"c", apstr(I->getValue())};
  if (isa<ConstantPointerNull>(C)) return Array{"null"};
  if (isa<PoisonValue>(C)) return Array{"undef"};
  if (isa<UndefValue>(C)) return Array{"undef"};
  if (C->getType()->isVectorTy()) {
    auto *VT = cast<FixedVectorType>(C->getType()); Array els;
    for (unsigned i = 0; i < VT->getNumElements(); i++) { Constant *E = C->getAggregateElement(i); if (!E) return Array{"?", tystr(C->getType())}; els.push_back(constant(E)); }
    return Array{"cv", std::move(els)};
  }
  if (C->getType()->isAggregateType()) {
    Array els; 
    for (unsigned i = 0;; i++) { Constant *E = C->getAggregateElement(i); if (!E) break; els.push_back(constant(E)); }
    return Array{"cs", std::move(els)};
  }
  if (C->getType()->isPointerTy()) {
    APInt o(64, 0); const llvm::Value *b = C->stripAndAccumulateConstantOffsets(*DL, o, true);
    if (auto *G = dyn_cast<GlobalValue>(b)) return Array{"g", G->getName().str(), o.getSExtValue()};
  }
  return Array{"?", tystr(C->getType())};
}

static JV operand(const llvm::Value *V) {
  if (auto *A = dyn_cast<Argument>(V)) return Array{"a", (int64_t)A->getArgNo()};
  if (auto *I = dyn_cast<Instruction>(V)) return Array{"v", Ids.at(I)};
  if (auto *C = dyn_cast<Constant>(V)) return constant(C);
  if (auto *B = dyn_cast<BasicBlock>(V)) return Array{"bb", BBs.at(B)};
  return Array{"?", "operand"};
}

static JV tbaa(const MDNode *N) {
  // access tag: (base type, access type, offset)
  if (!N || N->getNumOperands() < 3) return nullptr;
  auto name = [](const Metadata *M) -> std::string { if (auto *D = dyn_cast_or_null<MDNode>(M)) if (D->getNumOperands()) if (auto *S = dyn_cast<MDString>(D->getOperand(0))) return S->getString().str(); return "?"; };
  int64_t off = -1; if (auto *C = mdconst::dyn_extract<ConstantInt>(N->getOperand(2))) off = C->getSExtValue();
  return Array{name(N->getOperand(0)), name(N->getOperand(1)), off};
}

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argc > 1 ? argv[1] : "-", Err, Ctx);
  if (!M) { Err.print("irx", errs()); return 2; }
  DL = &M->getDataLayout();
  Object root; Object globals; Object funcs;
  for (auto &G : M->globals()) {
    Object g; g["const"] = G.isConstant(); g["size"] = (int64_t)(uint64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : TypeSize::getFixed(0));
    g["ty"] = tyj(G.getValueType()); g["decl"] = G.isDeclaration(); g["internal"] = G.hasLocalLinkage(); g["align"] = (int64_t)(G.getAlign() ? G.getAlign()->value() : 0);
    SmallVector<DIGlobalVariableExpression *, 1> dv; G.getDebugInfo(dv);
    if (!dv.empty()) { auto *v = dv[0]->getVariable(); g["file"] = v->getFilename().str(); g["line"] = (int64_t)v->getLine(); g["src"] = v->getName().str(); }
    if (G.hasInitializer()) { Array a; flatten(G.getInitializer(), 0, a); g["init"] = std::move(a); }
    globals[G.getName()] = std::move(g);
  }
  for (auto &F : *M) {
    Object f; Array params;
    for (auto &A : F.args()) { Object p; p["ty"] = tyj(A.getType()); p["name"] = A.getName().str();
      if (A.hasByValAttr()) p["byval"] = (int64_t)(uint64_t)DL->getTypeAllocSize(A.getParamByValType());
      if (A.hasStructRetAttr()) p["sret"] = (int64_t)(uint64_t)DL->getTypeAllocSize(A.getParamStructRetType());
      params.push_back(std::move(p)); }
    f["params"] = std::move(params); f["ret"] = tyj(F.getReturnType()); f["decl"] = F.isDeclaration(); f["internal"] = F.hasLocalLinkage(); f["vararg"] = F.isVarArg();
    if (auto *SP = F.getSubprogram()) { f["file"] = SP->getFilename().str(); f["line"] = (int64_t)SP->getLine(); }
    if (!F.isDeclaration()) {
      Ids.clear(); BBs.clear(); int64_t n = 0, b = 0;
      for (auto &B : F) { BBs[&B] = b++; for (auto &I : B) Ids[&I] = n++; }
      Array blocks;
      for (auto &B : F) {
        Array ins;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          Object o; o["id"] = Ids[&I]; o["op"] = I.getOpcodeName(); o["ty"] = tyj(I.getType());
          if (auto &L = I.getDebugLoc()) { 
            // innermost user frame first: [file,line,func]
            Array loc; auto *dl = L.get(); while (dl) { auto *sp = dl->getScope()->getSubprogram(); loc.push_back(Array{dl->getFilename().str(), (int64_t)dl->getLine(), sp ? sp->getName().str() : ""}); dl = dl->getInlinedAt(); }
            o["loc"] = std::move(loc); }
          if (auto *P = dyn_cast<PHINode>(&I)) {
            Array inc; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) inc.push_back(Array{BBs[P->getIncomingBlock(i)], operand(P->getIncomingValue(i))});
            o["inc"] = std::move(inc);
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            Array a; a.push_back(operand(G->getPointerOperand())); Array idx; int64_t cst = 0; Array bounds;
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
              llvm::Value *V = it.getOperand();
              if (StructType *S = it.getStructTypeOrNull()) cst += (int64_t)(uint64_t)DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(V)->getZExtValue());
              else { int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
                if (auto *C = dyn_cast<ConstantInt>(V)) cst += sc * C->getSExtValue();
                else idx.push_back(Array{operand(V), sc, (int64_t)V->getType()->getIntegerBitWidth()}); }
            }
            o["args"] = std::move(a); o["off"] = cst; o["idx"] = std::move(idx); o["sty"] = tystr(G->getSourceElementType());
          } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
            o["size"] = (int64_t)(uint64_t)DL->getTypeAllocSize(A->getAllocatedType()); o["aty"] = tyj(A->getAllocatedType()); o["atys"] = tystr(A->getAllocatedType()); o["n"] = operand(A->getArraySize()); o["align"] = (int64_t)A->getAlign().value(); o["name"] = A->getName().str();
          } else if (auto *C = dyn_cast<CallBase>(&I)) {
            Array a; for (auto &U : C->args()) a.push_back(operand(U.get())); o["args"] = std::move(a);
            Array tys; for (auto &U : C->args()) tys.push_back(tyj(U->getType())); o["atys"] = std::move(tys);
            if (auto *IA = dyn_cast<InlineAsm>(C->getCalledOperand())) { o["asm"] = IA->getAsmString(); o["cons"] = IA->getConstraintString(); o["sideeffect"] = IA->hasSideEffects(); 
              Array et; for (unsigned i = 0; i < C->arg_size(); i++) et.push_back(C->getParamElementType(i) ? tyj(C->getParamElementType(i)) : JV(nullptr)); o["etys"] = std::move(et); }
            else if (auto *Fn = C->getCalledFunction()) o["fn"] = Fn->getName().str();
            else o["fp"] = operand(C->getCalledOperand());
            Array bv; for (unsigned i = 0; i < C->arg_size(); i++) if (C->isByValArgument(i)) bv.push_back(Array{(int64_t)i, (int64_t)(uint64_t)DL->getTypeAllocSize(C->getParamByValType(i))}); 
            if (!bv.empty()) o["byval"] = std::move(bv);
          } else if (auto *B2 = dyn_cast<BranchInst>(&I)) {
            Array s; for (unsigned i = 0; i < B2->getNumSuccessors(); i++) s.push_back(BBs[B2->getSuccessor(i)]); o["succ"] = std::move(s);
            if (B2->isConditional()) o["args"] = Array{operand(B2->getCondition())};
          } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
            Array cs; for (auto &c : S->cases()) cs.push_back(Array{apstr(c.getCaseValue()->getValue()), BBs[c.getCaseSuccessor()]}); o["cases"] = std::move(cs); o["succ"] = Array{BBs[S->getDefaultDest()]}; o["args"] = Array{operand(S->getCondition())}; o["w"] = (int64_t)S->getCondition()->getType()->getIntegerBitWidth();
          } else {
            Array a; for (auto &U : I.operands()) a.push_back(operand(U.get())); o["args"] = std::move(a);
            if (I.getNumOperands()) o["oty"] = tyj(I.getOperand(0)->getType());
            if (auto *C2 = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C2->getPredicate()).str();
            if (auto *L = dyn_cast<LoadInst>(&I)) { o["align"] = (int64_t)L->getAlign().value(); o["vol"] = L->isVolatile(); }
            if (auto *St = dyn_cast<StoreInst>(&I)) { o["align"] = (int64_t)St->getAlign().value(); o["vol"] = St->isVolatile(); o["vty"] = tyj(St->getValueOperand()->getType()); }
            if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) { Array m; for (int x : SV->getShuffleMask()) m.push_back((int64_t)x); o["mask"] = std::move(m); }
            if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { Array m; for (unsigned x : EV->indices()) m.push_back((int64_t)x); o["idx"] = std::move(m); }
            if (auto *IV = dyn_cast<InsertValueInst>(&I)) { Array m; for (unsigned x : IV->indices()) m.push_back((int64_t)x); o["idx"] = std::move(m); }
          }
          if (auto *T = I.getMetadata(LLVMContext::MD_tbaa)) o["tbaa"] = tbaa(T);
          ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
      }
      f["blocks"] = std::move(blocks);
    }
    funcs[F.getName()] = std::move(f);
  }
  root["globals"] = std::move(globals); root["funcs"] = std::move(funcs);
  root["asm"] = M->getModuleInlineAsm();
  outs() << JV(std::move(root)) << "\n";
  return 0;
}
