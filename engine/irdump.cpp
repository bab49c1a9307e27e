// irdump: read LLVM bitcode, run a canonicalising pass pipeline, dump the typed
// program (functions, blocks, instructions, operands, debug locations, record
// layouts) as JSON.  Nothing is executed; this is only a front end.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/SetVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value*, unsigned> Ids;
static std::map<const BasicBlock*, unsigned> BIds;

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream os(s);
  if (auto *ST = dyn_cast<StructType>(T)) {
    if (ST->hasName()) { os << "%" << ST->getName(); return os.str(); }
  }
  T->print(os, false, true);
  return os.str();
}

static json::Value opnd(const Value *V);

static bool gepParts(const GEPOperator *G, int64_t &cst, json::Array &vars, json::Array &path) {
  cst = 0;
  for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
    const Value *Idx = GTI.getOperand();
    if (StructType *ST = GTI.getStructTypeOrNull()) {
      unsigned f = cast<ConstantInt>(Idx)->getZExtValue();
      uint64_t off = DL->getStructLayout(ST)->getElementOffset(f);
      cst += off;
      path.push_back(json::Object{{"struct", ST->hasName() ? ST->getName().str() : std::string("anon")}, {"field", (int64_t)f}, {"off", (int64_t)off}});
    } else {
      uint64_t sz = DL->getTypeAllocSize(GTI.getIndexedType());
      if (auto *CI = dyn_cast<ConstantInt>(Idx)) cst += CI->getSExtValue() * (int64_t)sz;
      else vars.push_back(json::Object{{"idx", opnd(Idx)}, {"scale", (int64_t)sz}});
    }
  }
  return true;
}

static json::Value opnd(const Value *V) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    if (CI->getBitWidth() <= 64)
      return json::Object{{"k", "c"}, {"v", CI->getSExtValue()}, {"w", (int64_t)CI->getBitWidth()}};
    return json::Object{{"k", "big"}};
  }
  if (isa<ConstantPointerNull>(V)) return json::Object{{"k", "null"}};
  if (isa<PoisonValue>(V)) return json::Object{{"k", "undef"}};
  if (isa<UndefValue>(V)) return json::Object{{"k", "undef"}};
  if (auto *CF = dyn_cast<ConstantFP>(V)) {
    SmallString<32> s; CF->getValueAPF().toString(s);
    return json::Object{{"k", "f"}, {"v", s.str().str()}, {"ty", tyStr(CF->getType())}};
  }
  if (auto *F = dyn_cast<Function>(V)) return json::Object{{"k", "fn"}, {"n", F->getName().str()}};
  if (auto *G = dyn_cast<GlobalVariable>(V)) return json::Object{{"k", "g"}, {"n", G->getName().str()}};
  if (auto *A = dyn_cast<GlobalAlias>(V)) return opnd(A->getAliasee());
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *G = dyn_cast<GEPOperator>(CE)) {
      int64_t c; json::Array v, p; gepParts(G, c, v, p);
      return json::Object{{"k", "gep"}, {"base", opnd(G->getPointerOperand())}, {"off", c}, {"vars", std::move(v)}, {"path", std::move(p)}};
    }
    json::Array ops; for (auto &o : CE->operands()) ops.push_back(opnd(o.get()));
    return json::Object{{"k", "ce"}, {"op", CE->getOpcodeName()}, {"ops", std::move(ops)}, {"ty", tyStr(CE->getType())}};
  }
  if (isa<ConstantAggregateZero>(V)) return json::Object{{"k", "zero"}};
  if (auto *A = dyn_cast<Argument>(V)) return json::Object{{"k", "a"}, {"i", (int64_t)A->getArgNo()}};
  if (isa<Instruction>(V)) return json::Object{{"k", "i"}, {"i", (int64_t)Ids[V]}};
  if (auto *B = dyn_cast<BasicBlock>(V)) return json::Object{{"k", "b"}, {"i", (int64_t)BIds[B]}};
  if (isa<MetadataAsValue>(V)) return json::Object{{"k", "md"}};
  std::string s; raw_string_ostream os(s); V->print(os);
  return json::Object{{"k", "other"}, {"s", os.str()}};
}

static json::Value diTypeName(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 6) return "?";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    auto inner = diTypeName(D->getBaseType(), depth + 1);
    std::string in = inner.getAsString() ? inner.getAsString()->str() : "?";
    switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return in + "*";
      case dwarf::DW_TAG_reference_type: return in + "&";
      case dwarf::DW_TAG_const_type: return "const " + in;
      case dwarf::DW_TAG_typedef: return D->getName().str();
      default: return in;
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      auto inner = diTypeName(C->getBaseType(), depth + 1);
      return (inner.getAsString() ? inner.getAsString()->str() : "?") + "[]";
    }
    return C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}
// fully desugared type (typedefs removed)
static std::string diCanon(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 8) return "?";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return diCanon(D->getBaseType(), depth + 1) + "*";
      case dwarf::DW_TAG_reference_type: return diCanon(D->getBaseType(), depth + 1) + "&";
      default: return diCanon(D->getBaseType(), depth + 1);
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diCanon(C->getBaseType(), depth + 1);
      for (auto *e : C->getElements()) if (auto *sr = dyn_cast<DISubrange>(e)) {
        if (auto *ci = dyn_cast_if_present<ConstantInt*>(sr->getCount())) s += "[" + std::to_string(ci->getSExtValue()) + "]";
        else s += "[]";
      }
      return s;
    }
    if (C->getTag() == dwarf::DW_TAG_enumeration_type) return "enum " + C->getName().str();
    return "struct " + C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: irdump in.bc out.json passes\n"; return 2; }
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("irdump", errs()); return 2; }
  std::string passes = argv[3];
  if (!passes.empty()) {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto Err = PB.parsePassPipeline(MPM, passes)) { errs() << toString(std::move(Err)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  std::error_code EC; raw_fd_ostream out(argv[2], EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  json::OStream J(out);
  J.objectBegin();
  // structs from IR types
  J.attributeBegin("irstructs"); J.objectBegin();
  for (StructType *ST : M->getIdentifiedStructTypes()) {
    if (ST->isOpaque()) continue;
    J.attributeBegin(ST->getName()); J.objectBegin();
    const StructLayout *SL = DL->getStructLayout(ST);
    J.attribute("size", (int64_t)SL->getSizeInBytes());
    J.attributeBegin("fields"); J.arrayBegin();
    for (unsigned i = 0; i < ST->getNumElements(); i++)
      J.value(json::Object{{"off", (int64_t)SL->getElementOffset(i)}, {"ty", tyStr(ST->getElementType(i))}, {"size", (int64_t)DL->getTypeAllocSize(ST->getElementType(i))}});
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  // debug composite types
  DebugInfoFinder F; F.processModule(*M);
  J.attributeBegin("ditypes"); J.arrayBegin();
  auto emitComp = [&](const DICompositeType *CT, StringRef nm) {
    if (CT->isForwardDecl()) return;
    J.objectBegin();
    J.attribute("name", nm);
    J.attribute("ident", CT->getIdentifier());
    J.attribute("tag", (int64_t)CT->getTag());
    J.attribute("size", (int64_t)CT->getSizeInBits() / 8);
    J.attribute("file", CT->getFilename());
    J.attribute("line", (int64_t)CT->getLine());
    J.attributeBegin("fields"); J.arrayBegin();
    for (auto *el : CT->getElements()) {
      if (auto *D = dyn_cast<DIDerivedType>(el)) {
        if (D->isStaticMember()) continue;
        std::string kind = D->getTag() == dwarf::DW_TAG_inheritance ? "base" : "field";
        J.value(json::Object{{"name", D->getName().str()}, {"kind", kind}, {"off", (int64_t)D->getOffsetInBits() / 8}, {"size", (int64_t)(D->getSizeInBits() / 8)}, {"ty", diTypeName(D->getBaseType())}, {"canon", diCanon(D->getBaseType())}});
      } else if (auto *EN = dyn_cast<DIEnumerator>(el)) {
        J.value(json::Object{{"name", EN->getName().str()}, {"kind", "enum"}, {"value", (int64_t)EN->getValue().getSExtValue()}});
      }
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  };
  SmallPtrSet<const DICompositeType*, 32> done;
  for (auto *T : F.types()) {
    if (auto *D = dyn_cast<DIDerivedType>(T)) if (D->getTag() == dwarf::DW_TAG_typedef)
      if (auto *CT = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
        if (CT->getName().empty() && CT->getTag() != dwarf::DW_TAG_array_type) { emitComp(CT, D->getName()); done.insert(CT); }
  }
  for (auto *T : F.types())
    if (auto *CT = dyn_cast<DICompositeType>(T))
      if (!CT->getName().empty() && CT->getTag() != dwarf::DW_TAG_array_type && !done.count(CT)) emitComp(CT, CT->getName());
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("globals"); J.arrayBegin();
  for (auto &G : M->globals()) {
    json::Object o{{"name", G.getName().str()}, {"const", G.isConstant()}, {"size", (int64_t)DL->getTypeAllocSize(G.getValueType())}, {"ty", tyStr(G.getValueType())}, {"decl", G.isDeclaration()}, {"internal", G.hasInternalLinkage() || G.hasPrivateLinkage()}};
    if (G.hasInitializer()) {
      if (auto *CDA = dyn_cast<ConstantDataSequential>(G.getInitializer())) {
        if (CDA->isString()) o["str"] = json::fixUTF8(CDA->getAsString());
        else if (CDA->getElementType()->isIntegerTy()) {
          json::Array a; for (unsigned i = 0; i < CDA->getNumElements(); i++) a.push_back((int64_t)CDA->getElementAsInteger(i));
          o["ints"] = std::move(a); o["esize"] = (int64_t)CDA->getElementByteSize();
        }
      } else if (isa<ConstantInt>(G.getInitializer()) || isa<ConstantPointerNull>(G.getInitializer()) || isa<Function>(G.getInitializer())) {
        o["init"] = opnd(G.getInitializer());
      } else if (auto *CA = dyn_cast<ConstantAggregate>(G.getInitializer())) {
        json::Array a; for (auto &op : CA->operands()) {
          if (auto *in = dyn_cast<ConstantAggregate>(op.get())) { json::Array b; for (auto &q : in->operands()) b.push_back(opnd(q.get())); a.push_back(std::move(b)); }
          else a.push_back(opnd(op.get()));
        }
        o["agg"] = std::move(a);
      } else if (isa<ConstantAggregateZero>(G.getInitializer())) o["zero"] = true;
    }
    J.value(std::move(o));
  }
  J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("functions"); J.arrayBegin();
  for (auto &Fn : *M) {
    J.objectBegin();
    J.attribute("name", Fn.getName());
    J.attribute("dem", demangle(Fn.getName().str()));
    J.attribute("decl", Fn.isDeclaration());
    J.attribute("internal", Fn.hasLocalLinkage());
    J.attribute("noreturn", Fn.doesNotReturn());
    J.attribute("vararg", Fn.isVarArg());
    J.attribute("ret", tyStr(Fn.getReturnType()));
    if (auto *SP = Fn.getSubprogram()) {
      J.attribute("file", SP->getFilename()); J.attribute("line", (int64_t)SP->getLine());
      J.attribute("srcname", SP->getName());
      if (auto *CT = dyn_cast_or_null<DICompositeType>(SP->getScope())) J.attribute("class", CT->getName());
      J.attribute("artificial", SP->isArtificial());
      J.attributeBegin("ditypes"); J.arrayBegin();
      if (auto *ST = SP->getType()) for (auto *t : ST->getTypeArray()) J.value(diTypeName(t));
      J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("dicanon"); J.arrayBegin();
      if (auto *ST = SP->getType()) for (auto *t : ST->getTypeArray()) J.value(diCanon(t));
      J.arrayEnd(); J.attributeEnd();
    }
    J.attributeBegin("args"); J.arrayBegin();
    for (auto &A : Fn.args()) J.value(json::Object{{"name", A.getName().str()}, {"ty", tyStr(A.getType())}, {"sret", A.hasStructRetAttr()}, {"byval", A.hasByValAttr() ? (int64_t)DL->getTypeAllocSize(A.getParamByValType()) : 0}});
    J.arrayEnd(); J.attributeEnd();
    Ids.clear(); BIds.clear(); unsigned n = 0, b = 0;
    for (auto &BB : Fn) { BIds[&BB] = b++; for (auto &I : BB) Ids[&I] = n++; }
    J.attributeBegin("blocks"); J.arrayBegin();
    for (auto &BB : Fn) {
      J.objectBegin(); J.attribute("id", (int64_t)BIds[&BB]); J.attribute("name", BB.getName());
      J.attributeBegin("insts"); J.arrayBegin();
      for (auto &I : BB) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->isLifetimeStartOrEnd()) continue;
        json::Object o{{"id", (int64_t)Ids[&I]}, {"op", I.getOpcodeName()}, {"ty", tyStr(I.getType())}};
        if (!I.getName().empty()) o["n"] = I.getName().str();
        if (auto &dl = I.getDebugLoc()) {
          o["line"] = (int64_t)dl.getLine();
          if (auto *sc = dl.get()->getScope()) o["file"] = sc->getFilename().str();
          if (dl.getInlinedAt()) if (auto *sp = dl->getScope()->getSubprogram()) o["inl"] = sp->getName().str();
        }
        json::Array ops;
        if (auto *P = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
            ops.push_back(json::Object{{"v", opnd(P->getIncomingValue(i))}, {"b", (int64_t)BIds[P->getIncomingBlock(i)]}});
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          for (auto &a : CB->args()) ops.push_back(opnd(a.get()));
          o["callee"] = opnd(CB->getCalledOperand()->stripPointerCasts());
          if (auto *IV = dyn_cast<InvokeInst>(&I)) { o["normal"] = (int64_t)BIds[IV->getNormalDest()]; o["unwind"] = (int64_t)BIds[IV->getUnwindDest()]; }
          if (CB->doesNotReturn()) o["noreturn"] = true;
          json::Array tys; for (auto &a : CB->args()) tys.push_back(tyStr(a->getType())); o["argtys"] = std::move(tys);
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          int64_t c; json::Array v, p; gepParts(cast<GEPOperator>(G), c, v, p);
          ops.push_back(opnd(G->getPointerOperand()));
          o["off"] = c; o["vars"] = std::move(v); o["path"] = std::move(p); o["srcty"] = tyStr(G->getSourceElementType());
          o["inbounds"] = G->isInBounds();
        } else {
          for (auto &a : I.operands()) ops.push_back(opnd(a.get()));
        }
        o["ops"] = std::move(ops);
        if (auto *CI = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(CI->getPredicate()).str(); o["opty"] = tyStr(CI->getOperand(0)->getType()); }
        if (auto *A = dyn_cast<AllocaInst>(&I)) { o["aty"] = tyStr(A->getAllocatedType()); o["asize"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()); }
        if (auto *L = dyn_cast<LoadInst>(&I)) o["size"] = (int64_t)DL->getTypeStoreSize(L->getType());
        if (auto *S = dyn_cast<StoreInst>(&I)) { o["size"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()); o["vty"] = tyStr(S->getValueOperand()->getType()); }
        if (auto *CI = dyn_cast<CastInst>(&I)) o["srcty"] = tyStr(CI->getSrcTy());
        if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = OB->hasNoSignedWrap(); o["nuw"] = OB->hasNoUnsignedWrap(); }
        if (auto *SW = dyn_cast<SwitchInst>(&I)) {
          json::Array cs; for (auto &c : SW->cases()) cs.push_back(json::Object{{"v", c.getCaseValue()->getSExtValue()}, {"b", (int64_t)BIds[c.getCaseSuccessor()]}});
          o["cases"] = std::move(cs); o["default"] = (int64_t)BIds[SW->getDefaultDest()];
        }
        if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : EV->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
        if (auto *EV = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : EV->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
        if (auto *AR = dyn_cast<AtomicRMWInst>(&I)) o["rmw"] = AtomicRMWInst::getOperationName(AR->getOperation()).str();
        J.value(std::move(o));
      }
      J.arrayEnd(); J.attributeEnd();
      json::Array succ; for (auto *S : successors(&BB)) succ.push_back((int64_t)BIds[S]);
      J.attribute("succ", std::move(succ));
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
  J.arrayEnd(); J.attributeEnd();
  J.objectEnd();
  return 0;
}
