// irdump: link the whole program's bitcode, inline functions that are not in the
// "known" list (helpers extracted by a refactoring), promote locals to SSA and
// dump the resulting IR as JSON for the Python analyses.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
using namespace llvm;

static const DataLayout *DL;
static json::OStream *J;

static std::string tystr(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return s; }

static std::map<std::string, DICompositeType *> diByStruct;

static DIType *strip(DIType *t) {
  while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: t = d->getBaseType(); break;
    default: return t;
    }
  }
  return t;
}

struct FnCtx {
  std::map<const Value *, int> id;
  std::map<const BasicBlock *, int> bb;
};

static void emitOp(FnCtx &C, const Value *V);
static void emitConst(FnCtx &C, const Constant *K) {
  if (auto *CI = dyn_cast<ConstantInt>(K)) {
    J->array([&] { J->value("i"); if (CI->getBitWidth() <= 64) J->value(CI->getSExtValue()); else J->value(0); J->value((int64_t)CI->getBitWidth()); });
  } else if (isa<ConstantPointerNull>(K)) { J->array([&] { J->value("n"); }); }
  else if (isa<UndefValue>(K)) { J->array([&] { J->value("u"); }); }
  else if (auto *F = dyn_cast<ConstantFP>(K)) {
    J->array([&] { J->value("f"); SmallString<32> s; F->getValueAPF().toString(s); J->value(std::string(s.str())); });
  } else if (auto *G = dyn_cast<GlobalValue>(K)) { J->array([&] { J->value("g"); J->value(G->getName()); }); }
  else if (auto *E = dyn_cast<ConstantExpr>(K)) {
    J->array([&] {
      J->value("e"); J->value(E->getOpcodeName());
      if (auto *G = dyn_cast<GEPOperator>(E)) J->value(tystr(G->getSourceElementType())); else J->value(tystr(E->getType()));
      J->array([&] { for (auto &o : E->operands()) emitOp(C, o.get()); });
    });
  } else if (auto *S = dyn_cast<ConstantDataSequential>(K)) {
    J->array([&] {
      if (S->isString()) { J->value("s"); std::string r; for (unsigned char c : S->getAsString()) r += (c < 0x80 ? std::string(1, c) : std::string("?")); J->value(r); }
      else { J->value("a"); J->array([&] { for (unsigned i = 0; i < S->getNumElements(); i++) emitOp(C, S->getElementAsConstant(i)); }); }
    });
  } else if (auto *S = dyn_cast<ConstantAggregate>(K)) {
    J->array([&] { J->value("a"); J->array([&] { for (auto &o : S->operands()) emitOp(C, o.get()); }); });
  } else if (isa<ConstantAggregateZero>(K)) { J->array([&] { J->value("z"); }); }
  else { J->array([&] { J->value("?"); }); }
}
static void emitOp(FnCtx &C, const Value *V) {
  auto it = C.id.find(V);
  if (it != C.id.end()) { J->value(it->second); return; }
  if (auto *K = dyn_cast<Constant>(V)) { emitConst(C, K); return; }
  J->array([&] { J->value("?"); });
}

static std::string locOf(const Instruction &I, int &line) {
  line = 0; std::string f;
  if (DILocation *L = I.getDebugLoc()) { line = L->getLine(); f = L->getFilename().str(); }
  return f;
}

int main(int argc, char **argv) {
  if (argc < 5) { errs() << "usage: irdump OUT.json KNOWN.txt RAW.json|- FILES.bc...\n"; return 2; }
  std::set<std::string> known; { std::ifstream in(argv[2]); std::string s; while (std::getline(in, s)) if (!s.empty()) known.insert(s); }
  LLVMContext Ctx; SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (int i = 4; i < argc; i++) {
    auto m = parseIRFile(argv[i], Err, Ctx);
    if (!m) { errs() << "cannot parse " << argv[i] << "\n"; return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed " << argv[i] << "\n"; return 2; }
  }
  DL = &M->getDataLayout();
  // --- inline unknown helpers
  std::vector<std::string> inlined;
  if (!known.empty()) {
    for (int round = 0; round < 12; round++) {
      std::vector<CallBase *> work;
      for (auto &F : *M) for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) if (Function *c = CB->getCalledFunction())
          if (!c->isDeclaration() && c != &F && !known.count(c->getName().str()) && !c->isVarArg()) {
            bool rec = false; for (auto &K : instructions(*c)) if (auto *C2 = dyn_cast<CallBase>(&K)) if (C2->getCalledFunction() == c) rec = true;
            if (!rec) work.push_back(CB);
          }
      if (work.empty()) break;
      // innermost first: only inline callees that have no pending unknown calls themselves
      std::set<Function *> pend; for (auto *cb : work) pend.insert(cb->getFunction());
      bool any = false;
      for (auto *cb : work) {
        Function *c = cb->getCalledFunction();
        if (pend.count(c) && round < 11) continue;
        std::string n = c->getName().str(), into = cb->getFunction()->getName().str();
        c->removeFnAttr(Attribute::NoInline); c->removeFnAttr(Attribute::OptimizeNone);
        InlineFunctionInfo ifi; auto r = InlineFunction(*cb, ifi);
        if (r.isSuccess()) { any = true; inlined.push_back(n + " -> " + into); }
      }
      if (!any) break;
    }
    // a helper whose every call was inlined is judged where it is used
    std::set<std::string> gone; for (auto &s : inlined) gone.insert(s.substr(0, s.find(' ')));
    for (bool more = true; more;) {
      more = false;
      for (auto &F : llvm::make_early_inc_range(*M))
        if (!F.isDeclaration() && gone.count(F.getName().str()) && F.use_empty()) { F.eraseFromParent(); more = true; }
    }
  }
  // --- names of allocas, then promote
  std::map<const Value *, std::string> names;
  for (auto &F : *M) for (auto &I : instructions(F)) if (auto *D = dyn_cast<DbgDeclareInst>(&I)) if (D->getAddress()) names[D->getAddress()] = D->getVariable()->getName().str();
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    for (auto &F : *M) { F.removeFnAttr(Attribute::OptimizeNone); }
    if (auto e = PB.parsePassPipeline(MPM, "function(mem2reg)")) { errs() << "pipeline\n"; return 2; }
    MPM.run(*M, MAM);
  }
  // --- debug info for structs
  DebugInfoFinder DF; DF.processModule(*M);
  std::map<std::string, DICompositeType *> diStruct;
  for (auto *t : DF.types()) {
    if (auto *c = dyn_cast<DICompositeType>(t)) { if (c->getTag() == dwarf::DW_TAG_structure_type && !c->getName().empty() && c->getElements().size()) diStruct[c->getName().str()] = c; }
    if (auto *d = dyn_cast<DIDerivedType>(t)) if (d->getTag() == dwarf::DW_TAG_typedef) if (auto *c = dyn_cast_or_null<DICompositeType>(d->getBaseType())) if (c->getTag() == dwarf::DW_TAG_structure_type && c->getName().empty()) diStruct[d->getName().str()] = c;
  }
  std::error_code EC; raw_fd_ostream OS(argv[1], EC); json::OStream JO(OS, 0); J = &JO; FnCtx G;
  std::map<StructType *, DICompositeType *> stDI;
  for (auto *ST : M->getIdentifiedStructTypes()) {
    std::string n = ST->getName().str(); if (n.rfind("struct.", 0) == 0) n = n.substr(7);
    auto it = diStruct.find(n);
    if (it == diStruct.end()) { auto p = n.rfind('.'); if (p != std::string::npos) it = diStruct.find(n.substr(0, p)); }
    if (it != diStruct.end()) stDI[ST] = it->second;
  }
  for (auto &Gv : M->globals()) {
    SmallVector<DIGlobalVariableExpression *, 2> gs; Gv.getDebugInfo(gs);
    if (gs.size()) if (auto *ST = dyn_cast<StructType>(Gv.getValueType())) if (auto *c = dyn_cast_or_null<DICompositeType>(strip(gs[0]->getVariable()->getType()))) if (!stDI.count(ST)) stDI[ST] = c;
  }
  JO.object([&] {
    JO.attributeArray("inlined", [&] { for (auto &s : inlined) JO.value(s); });
    JO.attributeObject("types", [&] {
      for (auto *ST : M->getIdentifiedStructTypes()) {
        if (ST->isOpaque()) continue;
        const StructLayout *SL = DL->getStructLayout(ST);
        std::map<uint64_t, std::string> nm; std::map<uint64_t, std::string> dty;
        auto it = stDI.find(ST);
        if (it != stDI.end()) for (auto *e : it->second->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member) {
          nm[m->getOffsetInBits() / 8] = m->getName().str();
        }
        JO.attributeObject("%" + ST->getName().str(), [&] {
          JO.attribute("size", (int64_t)DL->getTypeAllocSize(ST));
          JO.attributeArray("fields", [&] {
            for (unsigned i = 0; i < ST->getNumElements(); i++) {
              uint64_t off = SL->getElementOffset(i);
              JO.array([&] { JO.value(nm.count(off) ? nm[off] : ("f" + std::to_string(i))); JO.value((int64_t)off); JO.value(tystr(ST->getElementType(i))); JO.value((int64_t)DL->getTypeAllocSize(ST->getElementType(i))); });
            }
          });
        });
      }
    });
    JO.attributeObject("globals", [&] {
      for (auto &Gv : M->globals()) {
        JO.attributeObject(Gv.getName(), [&] {
          JO.attribute("type", tystr(Gv.getValueType()));
          JO.attribute("size", (int64_t)DL->getTypeAllocSize(Gv.getValueType()));
          JO.attribute("const", Gv.isConstant());
          JO.attribute("tls", Gv.isThreadLocal());
          JO.attribute("local", Gv.hasLocalLinkage());
          JO.attribute("decl", Gv.isDeclaration());
          SmallVector<DIGlobalVariableExpression *, 2> gs; Gv.getDebugInfo(gs);
          if (gs.size()) { JO.attribute("name", gs[0]->getVariable()->getName()); JO.attribute("file", gs[0]->getVariable()->getFilename()); JO.attribute("line", (int64_t)gs[0]->getVariable()->getLine()); }
          if (gs.size()) if (auto *ST = dyn_cast<StructType>(Gv.getValueType())) if (auto *c = dyn_cast_or_null<DICompositeType>(strip(gs[0]->getVariable()->getType()))) {
            // the linker merges structure types of equal layout: keep this variable's own field names
            const StructLayout *SL = DL->getStructLayout(ST); std::map<uint64_t, std::string> nm;
            for (auto *e : c->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member) nm[m->getOffsetInBits() / 8] = m->getName().str();
            JO.attributeArray("fields", [&] { for (unsigned i = 0; i < ST->getNumElements(); i++) { uint64_t off = SL->getElementOffset(i); JO.value(nm.count(off) ? nm[off] : ("f" + std::to_string(i))); } });
          }
          if (Gv.hasInitializer()) { JO.attributeBegin("init"); emitConst(G, Gv.getInitializer()); JO.attributeEnd(); }
        });
      }
    });
    JO.attributeObject("decls", [&] { for (auto &F : *M) if (F.isDeclaration() && !F.isIntrinsic()) JO.attribute(F.getName(), tystr(F.getFunctionType())); });
    JO.attributeObject("functions", [&] {
      for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        FnCtx C; int n = 0;
        for (auto &A : F.args()) C.id[&A] = n++;
        int b = 0;
        for (auto &B : F) { C.bb[&B] = b++; for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; C.id[&I] = n++; } }
        std::map<const Value *, std::string> vn = names;
        std::map<int, std::string> argn;
        for (auto &I : instructions(F)) if (auto *D = dyn_cast<DbgValueInst>(&I)) if (D->getNumVariableLocationOps() == 1) { Value *v = D->getVariableLocationOp(0); if (v && !vn.count(v)) vn[v] = D->getVariable()->getName().str(); }
        JO.attributeObject(F.getName(), [&] {
          DISubprogram *SP = F.getSubprogram();
          JO.attribute("file", SP ? SP->getFilename() : ""); JO.attribute("line", SP ? (int64_t)SP->getLine() : 0);
          JO.attribute("dir", SP ? SP->getDirectory() : "");
          JO.attribute("static", F.hasLocalLinkage()); JO.attribute("ret", tystr(F.getReturnType())); JO.attribute("vararg", F.isVarArg());
          JO.attributeArray("args", [&] { for (auto &A : F.args()) JO.array([&] { JO.value(vn.count(&A) ? vn[&A] : std::string(A.getName())); JO.value(tystr(A.getType())); }); });
          JO.attributeArray("blocks", [&] {
            for (auto &B : F) JO.array([&] {
              for (auto &I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                JO.object([&] {
                  JO.attribute("i", C.id[&I]); JO.attribute("op", I.getOpcodeName()); JO.attribute("t", tystr(I.getType()));
                  int line; std::string f = locOf(I, line); JO.attribute("l", line);
                  if (SP && f != SP->getFilename()) JO.attribute("f", f);
                  if (DILocation *L = I.getDebugLoc()) if (DILocation *IA = L->getInlinedAt()) { while (IA->getInlinedAt()) IA = IA->getInlinedAt(); JO.attribute("ia", (int64_t)IA->getLine()); }
                  if (vn.count(&I)) JO.attribute("n", vn[&I]);
                  if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                    JO.attribute("st", tystr(G->getSourceElementType()));
                    JO.attribute("ss", (int64_t)DL->getTypeAllocSize(G->getSourceElementType()));
                  }
                  if (auto *A = dyn_cast<AllocaInst>(&I)) { JO.attribute("at", tystr(A->getAllocatedType())); JO.attribute("as", (int64_t)DL->getTypeAllocSize(A->getAllocatedType())); }
                  if (auto *Cm = dyn_cast<CmpInst>(&I)) JO.attribute("p", CmpInst::getPredicateName(Cm->getPredicate()));
                  if (auto *P = dyn_cast<PHINode>(&I)) {
                    JO.attributeArray("in", [&] { for (unsigned k = 0; k < P->getNumIncomingValues(); k++) JO.array([&] { emitOp(C, P->getIncomingValue(k)); JO.value(C.bb[P->getIncomingBlock(k)]); }); });
                  } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                    if (Function *c = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) JO.attribute("c", c->getName());
                    else { JO.attributeBegin("ci"); emitOp(C, CB->getCalledOperand()); JO.attributeEnd(); }
                    JO.attributeArray("o", [&] { for (auto &a : CB->args()) emitOp(C, a.get()); });
                  } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
                    if (Br->isConditional()) { JO.attributeArray("o", [&] { emitOp(C, Br->getCondition()); }); }
                    JO.attributeArray("s", [&] { for (unsigned k = 0; k < Br->getNumSuccessors(); k++) JO.value(C.bb[Br->getSuccessor(k)]); });
                  } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
                    JO.attributeArray("o", [&] { emitOp(C, S->getCondition()); });
                    JO.attribute("d", C.bb[S->getDefaultDest()]);
                    JO.attributeArray("cs", [&] { for (auto &c : S->cases()) JO.array([&] { JO.value(c.getCaseValue()->getSExtValue()); JO.value(C.bb[c.getCaseSuccessor()]); }); });
                  } else {
                    JO.attributeArray("o", [&] { for (auto &o : I.operands()) emitOp(C, o.get()); });
                    if (auto *EV = dyn_cast<ExtractValueInst>(&I)) JO.attributeArray("x", [&] { for (unsigned k : EV->indices()) JO.value((int64_t)k); });
                  }
                });
              }
            });
          });
        });
      }
    });
  });
  OS << "\n";
  return 0;
}
