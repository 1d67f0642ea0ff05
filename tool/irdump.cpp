// irdump: reads LLVM bitcode, promotes memory to SSA and prints the module as JSON
// for the analyses in /verif/iffsa.  It decides nothing.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
using namespace llvm;
using json::Array; using json::Object; using J = json::Value;

static const DataLayout *DL;
static std::map<const Value *, int> IDs;

static std::string tyStr(Type *T) {
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isPointerTy()) return "ptr";
  if (T->isVoidTy()) return "void";
  std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str();
}
static Object constInit(const Constant *C);

static J operand(const Value *V) {
  if (auto *A = dyn_cast<Argument>(V)) return Object{{"k","a"},{"n",(int64_t)A->getArgNo()}};
  if (auto *I = dyn_cast<Instruction>(V)) return Object{{"k","i"},{"id",IDs[I]}};
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    if (CI->getBitWidth() <= 64)
      return Object{{"k","c"},{"w",(int64_t)CI->getBitWidth()},{"v",std::to_string(CI->getZExtValue())}};
    return Object{{"k","x"},{"t","bigint"}};
  }
  if (isa<ConstantPointerNull>(V)) return Object{{"k","null"}};
  if (auto *F = dyn_cast<Function>(V)) return Object{{"k","f"},{"n",F->getName().str()}};
  if (auto *G = dyn_cast<GlobalVariable>(V)) return Object{{"k","g"},{"n",G->getName().str()},{"off",0}};
  if (isa<UndefValue>(V)) return Object{{"k","undef"}};
  if (isa<ConstantAggregateZero>(V)) return Object{{"k","zeroagg"}};
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    APInt off(DL->getPointerSizeInBits(0), 0);
    if (CE->getType()->isPointerTy()) {
      const Value *B = CE->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *G = dyn_cast<GlobalVariable>(B))
        return Object{{"k","g"},{"n",G->getName().str()},{"off",off.getSExtValue()}};
      if (auto *F = dyn_cast<Function>(B)) return Object{{"k","f"},{"n",F->getName().str()}};
      if (isa<ConstantPointerNull>(B)) return Object{{"k","x"},{"t","nulloff"}};
    }
    std::string s; raw_string_ostream os(s); CE->print(os); return Object{{"k","x"},{"t",os.str()}};
  }
  if (auto *CF = dyn_cast<ConstantFP>(V)) { (void)CF; return Object{{"k","x"},{"t","fp"}}; }
  std::string s; raw_string_ostream os(s); V->printAsOperand(os); return Object{{"k","x"},{"t",os.str()}};
}

static void flatten(const Constant *C, uint64_t off, Array &out) {
  Type *T = C->getType();
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    if (CDS->isString()) { out.push_back(Object{{"off",(int64_t)off},{"str",json::fixUTF8(CDS->getAsString())},{"len",(int64_t)CDS->getNumElements()}}); return; }
    uint64_t es = DL->getTypeAllocSize(CDS->getElementType());
    for (unsigned i = 0; i < CDS->getNumElements(); i++) flatten(CDS->getElementAsConstant(i), off + i*es, out);
    return;
  }
  if (auto *ST = dyn_cast<StructType>(T)) {
    const StructLayout *L = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++)
      if (auto *E = C->getAggregateElement(i)) flatten(E, off + L->getElementOffset(i), out);
    return;
  }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(AT->getElementType());
    if (isa<ConstantAggregateZero>(C) && AT->getNumElements() > 256) {
      out.push_back(Object{{"off",(int64_t)off},{"zero",(int64_t)(es*AT->getNumElements())}}); return; }
    for (unsigned i = 0; i < AT->getNumElements(); i++)
      if (auto *E = C->getAggregateElement(i)) flatten(E, off + i*es, out);
    return;
  }
  out.push_back(Object{{"off",(int64_t)off},{"size",(int64_t)DL->getTypeStoreSize(T).getFixedValue()},{"ty",tyStr(T)},{"val",operand(C)}});
}

static void dbg(const Instruction &I, Object &o) {
  if (const DebugLoc &L = I.getDebugLoc()) {
    o["line"] = (int64_t)L.getLine();
    if (auto *S = L->getScope()) o["file"] = S->getFilename().str();
  }
}

static J inst(const Instruction &I) {
  Object o{{"id",IDs[&I]},{"op",I.getOpcodeName()},{"ty",tyStr(I.getType())}};
  if (I.hasName()) o["name"] = I.getName().str();
  dbg(I, o);
  if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
    MapVector<Value *, APInt> vars; APInt c(DL->getIndexTypeSizeInBits(G->getType()), 0);
    bool ok = G->collectOffset(*DL, DL->getIndexTypeSizeInBits(G->getType()), vars, c);
    o["ops"] = Array{operand(G->getPointerOperand())};
    o["off"] = c.getSExtValue(); o["okoff"] = ok;
    Array vs; for (auto &p : vars) vs.push_back(Object{{"v",operand(p.first)},{"s",p.second.getSExtValue()},{"w",(int64_t)p.first->getType()->getIntegerBitWidth()}});
    o["vars"] = std::move(vs);
    Type *ST = G->getSourceElementType(); o["src"] = tyStr(ST);
    return o;
  }
  if (auto *P = dyn_cast<PHINode>(&I)) {
    Array in; for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
      in.push_back(Array{IDs[P->getIncomingBlock(i)->getTerminator()], operand(P->getIncomingValue(i))});
    o["in"] = std::move(in); return o;   // keyed by terminator id of predecessor
  }
  if (auto *B = dyn_cast<BranchInst>(&I)) {
    if (B->isConditional()) o["cond"] = operand(B->getCondition());
    Array s; for (unsigned q = 0; q < B->getNumSuccessors(); q++) s.push_back(IDs[&B->getSuccessor(q)->front()]);
    o["succ"] = std::move(s); return o;
  }
  if (auto *S = dyn_cast<SwitchInst>(&I)) {
    o["cond"] = operand(S->getCondition()); o["cw"] = (int64_t)S->getCondition()->getType()->getIntegerBitWidth();
    Array s; s.push_back(IDs[&S->getDefaultDest()->front()]);
    Array cs; for (auto &c : S->cases()) { cs.push_back(std::to_string(c.getCaseValue()->getZExtValue())); s.push_back(IDs[&c.getCaseSuccessor()->front()]); }
    o["succ"] = std::move(s); o["cases"] = std::move(cs); return o;
  }
  if (auto *C = dyn_cast<CallBase>(&I)) {
    o["callee"] = operand(C->getCalledOperand());
    Array a, t; for (auto &x : C->args()) {
      if (isa<MetadataAsValue>(x.get())) { a.push_back(Object{{"k","x"},{"t","md"}}); t.push_back("md"); continue; }
      a.push_back(operand(x.get())); t.push_back(tyStr(x->getType())); }
    o["args"] = std::move(a); o["argty"] = std::move(t);
    o["vararg"] = C->getFunctionType()->isVarArg(); o["fixed"] = (int64_t)C->getFunctionType()->getNumParams();
    return o;
  }
  if (auto *A = dyn_cast<AllocaInst>(&I)) {
    o["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue();
    o["aty"] = tyStr(A->getAllocatedType());
    if (A->isArrayAllocation()) o["count"] = operand(A->getArraySize());
    return o;
  }
  if (auto *C = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str();
  if (auto *L = dyn_cast<LoadInst>(&I)) { o["size"] = (int64_t)DL->getTypeStoreSize(L->getType()).getFixedValue(); o["volatile"] = L->isVolatile(); }
  if (auto *S = dyn_cast<StoreInst>(&I)) { o["size"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue(); o["sty"] = tyStr(S->getValueOperand()->getType()); o["volatile"] = S->isVolatile(); }
  if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = O->hasNoSignedWrap(); o["nuw"] = O->hasNoUnsignedWrap(); }
  Array ops, ot; for (auto &x : I.operands()) { ops.push_back(operand(x.get())); ot.push_back(tyStr(x->getType())); }
  o["ops"] = std::move(ops); o["opty"] = std::move(ot);
  return o;
}

static std::string diTy(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_pointer_type) return diTy(D->getBaseType()) + "*";
    if (D->getTag() == dwarf::DW_TAG_const_type) return "const " + diTy(D->getBaseType());
    if (D->getTag() == dwarf::DW_TAG_typedef) return D->getName().str();
    return diTy(D->getBaseType());
  }
  if (isa<DISubroutineType>(T)) return "fn";
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string n = "?"; for (auto *E : C->getElements()) if (auto *R = dyn_cast<DISubrange>(E)) if (auto *CI = dyn_cast_if_present<ConstantInt *>(R->getCount())) n = std::to_string(CI->getSExtValue());
      return diTy(C->getBaseType()) + "[" + n + "]"; }
  }
  return T->getName().str();
}

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: irdump in.bc passes\n"; return 2; }
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM; if (auto E = PB.parsePassPipeline(MPM, argv[2])) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  int n = 0; for (auto &F : *M) for (auto &B : F) for (auto &I : B) IDs[&I] = n++;
  Object structs;
  DebugInfoFinder DF; DF.processModule(*M);
  auto addStruct = [&](std::string nm, const DICompositeType *C) {
    if (nm.empty() || structs.find(nm) != structs.end() || C->isForwardDecl()) return;
    Array fs; for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) if (D->getTag() == dwarf::DW_TAG_member)
      fs.push_back(Object{{"name",D->getName().str()},{"off",(int64_t)(D->getOffsetInBits()/8)},{"size",(int64_t)(D->getSizeInBits()/8)},{"ty",diTy(D->getBaseType())}});
    structs[nm] = Object{{"size",(int64_t)(C->getSizeInBits()/8)},{"fields",std::move(fs)}};
  };
  Object enums;
  for (auto *T : DF.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_structure_type) addStruct(C->getName().str(), C);
      if (C->getTag() == dwarf::DW_TAG_enumeration_type) for (auto *E : C->getElements()) if (auto *En = dyn_cast<DIEnumerator>(E)) enums[En->getName().str()] = En->getValue().getSExtValue();
    }
    if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef) if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType())) if (C->getTag() == dwarf::DW_TAG_structure_type) addStruct(D->getName().str(), C);
  }
  Array globals;
  for (auto &G : M->globals()) {
    Object g{{"name",G.getName().str()},{"const",G.isConstant()},{"local",G.hasLocalLinkage()},{"decl",G.isDeclaration()},{"size",(int64_t)(G.getValueType()->isSized()?DL->getTypeAllocSize(G.getValueType()).getFixedValue():0)},{"ty",tyStr(G.getValueType())},{"tls",G.isThreadLocal()}};
    SmallVector<DIGlobalVariableExpression *, 1> gv; G.getDebugInfo(gv);
    if (!gv.empty()) { g["line"] = (int64_t)gv[0]->getVariable()->getLine(); g["file"] = gv[0]->getVariable()->getFilename().str(); g["dty"] = diTy(gv[0]->getVariable()->getType()); }
    if (G.hasInitializer()) { Array a; flatten(G.getInitializer(), 0, a); g["init"] = std::move(a); }
    globals.push_back(std::move(g));
  }
  Array funcs;
  for (auto &F : *M) {
    if (F.isIntrinsic() && F.getName().starts_with("llvm.dbg")) continue;
    Object f{{"name",F.getName().str()},{"decl",F.isDeclaration()},{"local",F.hasLocalLinkage()},{"vararg",F.isVarArg()},{"ret",tyStr(F.getReturnType())},{"noreturn",F.doesNotReturn()}};
    Array args; for (auto &A : F.args()) args.push_back(Object{{"name",A.getName().str()},{"ty",tyStr(A.getType())}});
    if (auto *SP = F.getSubprogram()) {
      f["line"] = (int64_t)SP->getLine(); f["file"] = SP->getFilename().str();
      Array dt; if (auto *ST = SP->getType()) for (auto *T : ST->getTypeArray()) dt.push_back(diTy(T));
      f["dty"] = std::move(dt);
    }
    f["args"] = std::move(args);
    Array blocks; for (auto &B : F) { Array is; for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; is.push_back(inst(I)); }
      blocks.push_back(Object{{"first",IDs[&B.front()]},{"term",IDs[B.getTerminator()]},{"insts",std::move(is)}}); }
    f["blocks"] = std::move(blocks);
    funcs.push_back(std::move(f));
  }
  outs() << J(Object{{"structs",std::move(structs)},{"enums",std::move(enums)},{"globals",std::move(globals)},{"functions",std::move(funcs)},{"bigendian",DL->isBigEndian()},{"triple",M->getTargetTriple()}}) << "\n";
  return 0;
}
