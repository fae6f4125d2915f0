// irtool: normalise LLVM bitcode of the project and dump it as JSON for the
// Python analyses.  No code of the project is executed.
//
//   irtool raw  IN.bc OUT.json                 mem2reg-only view of every project function
//   irtool opt  IN.bc OUT.json KEEPREGEX       functions whose demangled name matches KEEPREGEX are
//                                              roots: everything else of the project is inlined into
//                                              them, constants are propagated across calls, loops with
//                                              constant trip counts are fully unrolled.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <functional>

using namespace llvm;

static std::string repo = "/repo/";

static std::string relpath(StringRef dir, StringRef file) {
  std::string p = file.starts_with("/") ? file.str() : (dir + "/" + file).str();
  if (StringRef(p).starts_with(repo)) return p.substr(repo.size());
  return p;
}
static std::string fileOf(const DIScope *s) {
  if (!s || !s->getFile()) return "";
  return relpath(s->getFile()->getDirectory(), s->getFile()->getFilename());
}
static bool isProject(const Function &F) {
  auto *sp = F.getSubprogram();
  if (!sp) return false;
  std::string f = fileOf(sp);
  return !f.empty() && f[0] != '/';
}

struct Dumper {
  json::OStream &J;
  Module &M;
  std::map<const Value *, int> ids;
  std::map<const BasicBlock *, int> bbs;
  Dumper(json::OStream &J, Module &M) : J(J), M(M) {}

  static std::string ty(Type *T) {
    std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str();
  }
  json::Value constant(const Constant *C) {
    const DataLayout &DL = M.getDataLayout();
    if (auto *I = dyn_cast<ConstantInt>(C)) {
      if (I->getBitWidth() <= 64) return json::Object{{"i", I->getSExtValue()}, {"w", (int64_t)I->getBitWidth()}};
      SmallString<40> s; I->getValue().toString(s, 10, true);
      return json::Object{{"I", std::string(s)}, {"w", (int64_t)I->getBitWidth()}};
    }
    if (auto *F = dyn_cast<ConstantFP>(C)) {
      APFloat v = F->getValueAPF(); bool lost; 
      if (&v.getSemantics() == &APFloat::x87DoubleExtended() || true) v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
      double d = v.convertToDouble();
      std::string s; raw_string_ostream o(s); o << format("%.17g", d);
      return json::Object{{"f", o.str()}, {"t", ty(C->getType())}};
    }
    if (isa<ConstantPointerNull>(C)) return json::Object{{"null", true}};
    if (isa<UndefValue>(C)) return json::Object{{"undef", true}};
    if (isa<ConstantAggregateZero>(C)) return json::Object{{"zero", ty(C->getType())}};
    if (C->getType()->isPointerTy()) {
      APInt off(64, 0);
      const Value *B = C->stripAndAccumulateConstantOffsets(DL, off, true);
      if (auto *G = dyn_cast<GlobalValue>(B)) {
        json::Object o{{"g", G->getName()}, {"o", off.getSExtValue()}};
        if (auto *GV = dyn_cast<GlobalVariable>(G))
          if (GV->hasInitializer() && GV->isConstant() && isa<ConstantAggregateZero>(GV->getInitializer()) && GV->getValueType()->isArrayTy() && GV->getValueType()->getArrayNumElements() == 1 && GV->getValueType()->getArrayElementType()->isIntegerTy(8)) o["s"] = "";
          else if (GV->hasInitializer() && GV->isConstant())
            if (auto *CD = dyn_cast<ConstantDataSequential>(GV->getInitializer()))
              if (CD->isCString()) {
                StringRef s = CD->getAsCString();
                if ((uint64_t)off.getSExtValue() <= s.size()) {
                  StringRef t = s.substr(off.getSExtValue());
                  if (json::isUTF8(t)) o["s"] = t.str();
                }
              }
        return o;
      }
    }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
      json::Array a;
      for (auto &op : CE->operands()) a.push_back(constant(cast<Constant>(op)));
      return json::Object{{"ce", CE->getOpcodeName()}, {"a", std::move(a)}};
    }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
      json::Array a;
      for (unsigned i = 0; i < CD->getNumElements() && i < 4096; i++) a.push_back(constant(CD->getElementAsConstant(i)));
      return json::Object{{"arr", std::move(a)}};
    }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      json::Array a;
      for (auto &op : CA->operands()) a.push_back(constant(cast<Constant>(op)));
      return json::Object{{"arr", std::move(a)}};
    }
    std::string s; raw_string_ostream o(s); C->print(o);
    return json::Object{{"c", o.str()}};
  }
  json::Value val(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    if (auto *A = dyn_cast<Argument>(V)) return "a" + std::to_string(A->getArgNo());
    auto it = ids.find(V);
    if (it != ids.end()) return "%" + std::to_string(it->second);
    return "?";
  }
  json::Value loc(const Instruction &I) {
    const DILocation *L = I.getDebugLoc().get();
    if (!L) return nullptr;
    json::Array a;
    for (; L; L = L->getInlinedAt()) {
      auto *sp = L->getScope()->getSubprogram();
      a.push_back(fileOf(L->getScope()) + ":" + std::to_string(L->getLine()) + ":" + (sp ? sp->getName().str() : ""));
    }
    return a;
  }
  void inst(const Instruction &I) {
    const DataLayout &DL = M.getDataLayout();
    J.object([&] {
      J.attribute("id", ids[&I]);
      J.attribute("op", I.getOpcodeName());
      if (!I.getType()->isVoidTy()) J.attribute("t", ty(I.getType()));
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value *, APInt> vo; APInt co(64, 0);
        if (cast<GEPOperator>(G)->collectOffset(DL, 64, vo, co)) {
          J.attribute("base", val(G->getPointerOperand()));
          J.attribute("off", co.getSExtValue());
          J.attributeArray("vars", [&] { for (auto &p : vo) J.array([&] { J.value(val(p.first)); J.value(p.second.getSExtValue()); }); });
        } else J.attribute("base", "?");
      } else if (auto *L = dyn_cast<LoadInst>(&I)) {
        J.attribute("p", val(L->getPointerOperand()));
        J.attribute("sz", (int64_t)DL.getTypeStoreSize(L->getType()));
      } else if (auto *S = dyn_cast<StoreInst>(&I)) {
        J.attribute("p", val(S->getPointerOperand()));
        J.attribute("v", val(S->getValueOperand()));
        J.attribute("vt", ty(S->getValueOperand()->getType()));
        J.attribute("sz", (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()));
      } else if (auto *P = dyn_cast<PHINode>(&I)) {
        J.attributeArray("in", [&] { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) J.array([&] { J.value(val(P->getIncomingValue(i))); J.value(bbs[P->getIncomingBlock(i)]); }); });
      } else if (auto *C = dyn_cast<CallBase>(&I)) {
        const Value *cv = C->getCalledOperand()->stripPointerCasts();
        if (auto *F = dyn_cast<Function>(cv)) {
          J.attribute("callee", F->getName());
          J.attribute("dem", demangle(F->getName().str()));
          if (isProject(*F)) J.attribute("proj", true);
          if (F->doesNotThrow() || C->doesNotThrow()) J.attribute("nounwind", true);
          if (F->doesNotReturn() || C->doesNotReturn()) J.attribute("noreturn", true);
        } else {
          J.attribute("indirect", val(cv));
          if (C->doesNotThrow()) J.attribute("nounwind", true);
        }
        J.attributeArray("args", [&] { for (auto &a : C->args()) J.value(isa<MetadataAsValue>(a.get()) ? json::Value(nullptr) : val(a.get())); });
        J.attributeArray("at", [&] { for (auto &a : C->args()) J.value(ty(a.get()->getType())); });
        if (auto *Inv = dyn_cast<InvokeInst>(C)) {
          J.attribute("normal", bbs[Inv->getNormalDest()]);
          J.attribute("unwind", bbs[Inv->getUnwindDest()]);
        }
      } else if (auto *B = dyn_cast<BranchInst>(&I)) {
        if (B->isConditional()) { J.attribute("c", val(B->getCondition())); J.attribute("T", bbs[B->getSuccessor(0)]); J.attribute("F", bbs[B->getSuccessor(1)]); }
        else J.attribute("T", bbs[B->getSuccessor(0)]);
      } else if (auto *S = dyn_cast<SwitchInst>(&I)) {
        J.attribute("c", val(S->getCondition()));
        J.attribute("default", bbs[S->getDefaultDest()]);
        J.attributeArray("cases", [&] { for (auto &c : S->cases()) J.array([&] { J.value(c.getCaseValue()->getSExtValue()); J.value(bbs[c.getCaseSuccessor()]); }); });
      } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
        J.attribute("at", ty(A->getAllocatedType()));
        if (auto s = A->getAllocationSize(DL)) J.attribute("size", (int64_t)s->getFixedValue());
        else J.attribute("n", val(A->getArraySize()));
      } else if (auto *L = dyn_cast<LandingPadInst>(&I)) {
        J.attribute("cleanup", L->isCleanup());
        J.attributeArray("clauses", [&] { for (unsigned i = 0; i < L->getNumClauses(); i++) J.array([&] { J.value(L->isCatch(i) ? "catch" : "filter"); J.value(constant(L->getClause(i))); }); });
      } else {
        if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
        if (auto *EV = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&] { for (auto i : EV->indices()) J.value((int64_t)i); });
        if (auto *IV = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&] { for (auto i : IV->indices()) J.value((int64_t)i); });
        J.attributeArray("a", [&] { for (auto &o : I.operands()) if (!isa<BasicBlock>(o.get())) J.value(val(o.get())); });
        if (I.getNumOperands()) J.attribute("ot", ty(I.getOperand(0)->getType()));
      }
      J.attribute("l", loc(I));
    });
  }
  void func(const Function &F) {
    ids.clear(); bbs.clear();
    int n = 0, b = 0;
    for (auto &BB : F) { bbs[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
    J.object([&] {
      J.attribute("name", F.getName());
      J.attribute("dem", demangle(F.getName().str()));
      auto *sp = F.getSubprogram();
      if (sp) {
        J.attribute("file", fileOf(sp)); J.attribute("line", (int64_t)sp->getLine());
        J.attribute("sname", sp->getName());
        if (auto *ct = dyn_cast_or_null<DICompositeType>(sp->getScope())) { J.attribute("cls", typeName(ct)); }
        if (sp->isArtificial()) J.attribute("artificial", true);
        if (sp->getType()) {
          auto ta = sp->getType()->getTypeArray();
          unsigned sret = F.arg_size() && F.hasParamAttribute(0, Attribute::StructRet);
          if (ta.size() && ta.size() - 1 + sret == F.arg_size())
            J.attributeArray("ptypes", [&] { for (unsigned k = 0; k < sret; k++) J.value(nullptr); for (unsigned k = 1; k < ta.size(); k++) J.value(pointee(ta[k])); });
          if (ta.size() && ta[0]) J.attribute("rtype", pointee(ta[0]));
        }
      }
      J.attribute("internal", F.hasLocalLinkage());
      if (F.hasLinkOnceLinkage() || F.hasWeakLinkage()) J.attribute("linkonce", true);
      J.attribute("ret", ty(F.getReturnType()));
      if (F.doesNotThrow()) J.attribute("nounwind", true);
      J.attributeArray("args", [&] { for (auto &A : F.args()) J.array([&] { J.value(A.getName()); J.value(ty(A.getType())); }); });
      J.attributeArray("blocks", [&] {
        for (auto &BB : F) J.object([&] {
          J.attribute("id", bbs[&BB]);
          J.attribute("name", BB.getName());
          J.attributeArray("succ", [&] { for (auto *s : successors(&BB)) J.value(bbs[s]); });
          J.attributeArray("insts", [&] { for (auto &I : BB) { if (isa<DbgInfoIntrinsic>(I) || I.isLifetimeStartOrEnd()) continue; inst(I); } });
        });
      });
    });
  }
  // ---- DWARF types
  std::map<const DICompositeType *, std::string> tnames;
  std::set<std::string> used;
  std::vector<const DICompositeType *> tqueue;
  std::string typeName(const DICompositeType *T) {
    auto it = tnames.find(T);
    if (it != tnames.end()) return it->second;
    std::string n = T->getName().str();
    const DIScope *s = T->getScope();
    while (s) {
      if (auto *ns = dyn_cast<DINamespace>(s)) n = ns->getName().str() + "::" + n;
      else if (auto *ct = dyn_cast<DICompositeType>(s)) n = ct->getName().str() + "::" + n;
      else if (!isa<DIFile>(s) && !isa<DICompileUnit>(s)) { }
      s = s->getScope();
    }
    if (T->getName().empty()) n += "<anon:" + fileOf(T) + ":" + std::to_string(T->getLine()) + ">";
    tnames[T] = n; tqueue.push_back(T);
    return n;
  }
  json::Value dtype(const DIType *T) {
    if (!T) return "void";
    if (auto *B = dyn_cast<DIBasicType>(T)) return json::Object{{"k", "base"}, {"n", B->getName()}, {"sz", (int64_t)B->getSizeInBits() / 8}, {"enc", dwarf::AttributeEncodingString(B->getEncoding())}};
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      switch (D->getTag()) {
        case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: return dtype(D->getBaseType());
        default: return json::Object{{"k", "ptr"}, {"sz", 8}, {"to", D->getTag() == dwarf::DW_TAG_pointer_type && isa_and_nonnull<DICompositeType>(D->getBaseType()) ? json::Value(typeName(cast<DICompositeType>(D->getBaseType()))) : json::Value(nullptr)}};
      }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_array_type) {
        json::Array dims;
        for (auto *e : C->getElements()) if (auto *s = dyn_cast<DISubrange>(e)) { int64_t c = -1; auto ci = s->getCount(); if (ci && isa<ConstantInt *>(ci)) c = cast<ConstantInt *>(ci)->getSExtValue(); dims.push_back(c); }
        return json::Object{{"k", "arr"}, {"e", dtype(C->getBaseType())}, {"dims", std::move(dims)}, {"sz", (int64_t)C->getSizeInBits() / 8}};
      }
      if (C->getTag() == dwarf::DW_TAG_enumeration_type) return json::Object{{"k", "enum"}, {"n", typeName(C)}, {"sz", (int64_t)C->getSizeInBits() / 8}};
      return json::Object{{"k", "struct"}, {"n", typeName(C)}, {"sz", (int64_t)C->getSizeInBits() / 8}};
    }
    return json::Object{{"k", "other"}};
  }
  // class that a pointer or reference type designates
  json::Value pointee(const DIType *T) {
    while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
      unsigned t = D->getTag();
      T = D->getBaseType();
      if (t == dwarf::DW_TAG_pointer_type || t == dwarf::DW_TAG_reference_type || t == dwarf::DW_TAG_rvalue_reference_type) {
        while (auto *E = dyn_cast_or_null<DIDerivedType>(T)) {
          if (E->getTag() != dwarf::DW_TAG_typedef && E->getTag() != dwarf::DW_TAG_const_type && E->getTag() != dwarf::DW_TAG_volatile_type) return nullptr;
          T = E->getBaseType();
        }
        if (auto *C = dyn_cast_or_null<DICompositeType>(T)) return typeName(C);
        return nullptr;
      }
    }
    return nullptr;
  }
  void types() {
    DebugInfoFinder fnd; fnd.processModule(M);
    std::map<std::string, const DICompositeType *> best;
    for (auto *T : fnd.types()) if (auto *C = dyn_cast<DICompositeType>(T)) typeName(C);
    J.attributeObject("types", [&] {
      for (size_t i = 0; i < tqueue.size(); i++) {
        auto *C = tqueue[i];
        if (C->isForwardDecl() || C->getTag() == dwarf::DW_TAG_array_type) continue;
        std::string n = tnames[C];
        std::string f = fileOf(C);
        if (f.empty() || f[0] == '/') { if (StringRef(n).starts_with("std::") && !StringRef(n).starts_with("std::array<") || StringRef(n).starts_with("__")) continue; }
        if (!used.insert(n).second) continue;
        J.attributeObject(n, [&] {
          J.attribute("sz", (int64_t)C->getSizeInBits() / 8);
          J.attribute("file", f);
          if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
            J.attributeArray("enum", [&] { for (auto *e : C->getElements()) if (auto *E = dyn_cast<DIEnumerator>(e)) J.array([&] { J.value(E->getName()); J.value(E->getValue().getSExtValue()); }); });
          } else {
            J.attribute("tag", C->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct");
            J.attributeArray("members", [&] {
              for (auto *e : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(e)) {
                if (D->isStaticMember()) continue;
                if (D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_inheritance)
                  J.object([&] { J.attribute("n", D->getTag() == dwarf::DW_TAG_inheritance ? StringRef("") : D->getName()); J.attribute("o", (int64_t)D->getOffsetInBits() / 8); J.attribute("t", dtype(D->getBaseType()));
                    if (D->isBitField()) J.attribute("bit", true); });
              }
            });
          }
        });
      }
    });
  }
};

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage\n"; return 2; }
  std::string mode = argv[1], in = argv[2], outf = argv[3], keep = argc > 4 ? argv[4] : "";
  if (getenv("VERIF_REPO")) repo = std::string(getenv("VERIF_REPO")) + "/";
  {
    // mode "opt": constant loops of the record readers are unrolled completely; mode "sem": only short ones
    bool sem = mode == "sem";
    const char *a[] = {"irtool", sem ? "-unroll-threshold=400" : "-unroll-threshold=4000000", sem ? "-unroll-full-max-count=16" : "-unroll-full-max-count=200000", "-unroll-max-upperbound=0", "-unroll-allow-partial=0", "-unroll-runtime=0",
                       "-pragma-unroll-threshold=4000000", "-unroll-allow-peeling=0", "-memdep-block-scan-limit=2000", "-memdep-block-number-limit=4000",
                       "-earlycse-mssa-optimization-cap=5000", "-simplifycfg-hoist-common=0", "-simplifycfg-sink-common=0", "-available-load-scan-limit=500"};
    cl::ParseCommandLineOptions(sizeof a / sizeof *a, a);
  }
  LLVMContext C; SMDiagnostic err;
  auto M = parseIRFile(in, err, C);
  if (!M) { err.print("irtool", errs()); return 2; }
  // a constructor may be called under another name of its code
  for (auto &A : M->aliases()) if (auto *G = A.getAliaseeObject()) for (auto *U : SmallVector<User *, 8>(A.user_begin(), A.user_end())) if (auto *cb = dyn_cast<CallBase>(U)) if (cb->getCalledOperand() == &A) cb->setCalledOperand(G);

  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions pto; pto.LoopUnrolling = true; pto.LoopVectorization = false; pto.SLPVectorization = false;
  PassBuilder PB(nullptr, pto);
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto fpm = [&](const char *p) { FunctionPassManager F; if (auto e = PB.parsePassPipeline(F, p)) { errs() << toString(std::move(e)) << "\n"; exit(2); } return F; };
  auto mpm = [&](const char *p) { ModulePassManager F; if (auto e = PB.parsePassPipeline(F, p)) { errs() << toString(std::move(e)) << "\n"; exit(2); } return F; };

  std::set<const Function *> roots;
  if (mode == "raw") {
    auto P = fpm("mem2reg,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>");
    (void)P;
    auto P2 = fpm("mem2reg,unreachableblockelim");
    for (auto &F : *M) if (!F.isDeclaration() && isProject(F)) { P2.run(F, FAM); roots.insert(&F); }
  } else {
    Regex R(keep);
    std::string e; if (!R.isValid(e)) { errs() << e << "\n"; return 2; }
    std::set<std::string> rootNames;
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
      std::string dm = demangle(F.getName().str());
      if (isProject(F) && dm.find("'lambda") == std::string::npos && dm.find("::$_") == std::string::npos && R.match(dm)) { roots.insert(&F); rootNames.insert(F.getName().str()); }
    }
    internalizeModule(*M, [&](const GlobalValue &G) { return rootNames.count(G.getName().str()) > 0; });
    // roots that are linkonce must not be discarded before being dumped
    for (auto *cf : roots) { auto *F = const_cast<Function *>(cf); F->setLinkage(GlobalValue::ExternalLinkage); F->setComdat(nullptr); F->addFnAttr(Attribute::NoInline); }
    mpm("globaldce").run(*M, MAM);
    MAM.clear(); 
    const char *S1 = "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>";
    const char *S2 = "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,"
                     "loop-simplify,lcssa,loop(loop-rotate),sroa,instcombine<no-verify-fixpoint>,loop(indvars),loop(loop-unroll-full),"
                     "sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,gvn,sroa,instcombine<no-verify-fixpoint>,dse,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,adce";
    for (auto &F : *M) if (!F.isDeclaration() && isProject(F)) fpm(S1).run(F, FAM);
    FAM.clear(); LAM.clear();
    mpm("globalopt,globaldce,ipsccp").run(*M, MAM);
    MAM.clear(); FAM.clear(); LAM.clear(); CGAM.clear();
    // recursive project functions stay out of line
    {
      CallGraph CG(*M); std::set<Function *> rec;
      for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) if (it.hasCycle()) for (auto *n : *it) if (n->getFunction()) rec.insert(n->getFunction());
      for (auto &F : *M) {
        if (F.isDeclaration() || roots.count(&F) || rec.count(&F)) continue;
        bool tiny = false;
        if (!isProject(F)) {
          size_t n = 0; for (auto &B : F) n += B.size(); tiny = n < 12;
          static Regex small("std::(max|min|clamp|abs|fabs|isnan|swap|exchange|minmax)<");
          static Regex algo("^[a-zA-Z0-9_:<>*&, ]*std::_*(copy|fill|reverse|transform|generate|iota|for_each|find_if|find|count|all_of|any_of|none_of|accumulate|niter|miter|size_to|"
                            "iter_swap|iterator_category|distance|advance|next|prev|move)[a-z_0-9]*<");
          std::string dm = demangle(F.getName().str());
          if (!tiny && n < 80 && small.match(dm.substr(0, 80))) tiny = true;
          if (!tiny && n < 400 && (algo.match(dm.substr(0, dm.find('('))) || dm.find("__gnu_cxx::__ops::") != std::string::npos)) tiny = true;
        }
        if (isProject(F) || tiny) F.addFnAttr(Attribute::AlwaysInline);
      }
    }
    mpm("always-inline,globaldce").run(*M, MAM);
    MAM.clear(); FAM.clear(); LAM.clear(); CGAM.clear();
    // bottom-up over the remaining functions: normalise, then propagate constant results
    std::vector<Function *> order;
    { CallGraph CG(*M); for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) for (auto *n : *it) if (n->getFunction() && roots.count(n->getFunction())) order.push_back(n->getFunction()); }
    for (auto *F : order) {
      fpm(S2).run(*F, FAM); FAM.clear(); LAM.clear();
      fpm(S2).run(*F, FAM); FAM.clear(); LAM.clear();
      ConstantInt *rc = nullptr; bool ok = true;
      for (auto &B : *F) if (auto *r = dyn_cast<ReturnInst>(B.getTerminator())) {
        auto *c = dyn_cast_or_null<ConstantInt>(r->getReturnValue());
        if (!c || (rc && rc != c)) ok = false; else rc = c;
      }
      if (ok && rc) for (auto *U : F->users()) if (auto *cb = dyn_cast<CallBase>(U)) if (cb->getCalledFunction() == F) cb->replaceAllUsesWith(rc);
    }
  }
  std::error_code ec; raw_fd_ostream os(outf, ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  json::OStream J(os);
  Dumper D(J, *M);
  J.object([&] {
    J.attributeArray("functions", [&] { for (auto &F : *M) if (!F.isDeclaration() && roots.count(&F)) D.func(F); });
    D.types();
    J.attributeObject("globals", [&] {
      for (auto &G : M->globals()) {
        if (!G.hasInitializer()) continue;
        StringRef n = G.getName();
        if (n.starts_with("_ZTV")) J.attributeArray(n, [&] {
          if (auto *cs = dyn_cast<ConstantStruct>(G.getInitializer())) for (auto &a : cs->operands()) if (auto *ca = dyn_cast<ConstantArray>(a)) { J.array([&] { for (auto &x : ca->operands()) { auto *v = x->stripPointerCasts(); if (auto *f = dyn_cast<Function>(v)) J.value(f->getName()); else J.value(nullptr); } }); }
        });
        else if (G.isConstant() && (isa<ConstantDataArray>(G.getInitializer()) || isa<ConstantArray>(G.getInitializer()) || isa<ConstantStruct>(G.getInitializer()) || isa<ConstantFP>(G.getInitializer()) || isa<ConstantInt>(G.getInitializer())) && !n.starts_with("_ZTI") && !n.starts_with("_ZTS") && !n.starts_with(".str")) J.attribute(n, D.constant(G.getInitializer()));
      }
    });
  });
  return 0;
}
