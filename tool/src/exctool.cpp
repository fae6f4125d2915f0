// exctool: call graph of linked bitcode with what each call site can let through.
// No code of the project is executed.
//   exctool IN.bc OUT.json
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LazyValueInfo.h>
#include <llvm/IR/ConstantRange.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
using namespace llvm;
static std::string repo = "/repo/";
static std::string fileOf(const DIScope *s) {
  if (!s || !s->getFile()) return "";
  StringRef d = s->getFile()->getDirectory(), f = s->getFile()->getFilename();
  std::string p = f.starts_with("/") ? f.str() : (d + "/" + f).str();
  if (StringRef(p).starts_with(repo)) return p.substr(repo.size());
  return p;
}
static std::string ty(Type *T) { std::string s; raw_string_ostream o(s); T->print(o, false, true); return o.str(); }
static std::string loc(const Instruction &I) {
  auto *L = I.getDebugLoc().get();
  if (!L) return "";
  // the line in the function itself
  while (L->getInlinedAt()) L = L->getInlinedAt();
  return fileOf(L->getScope()) + ":" + std::to_string(L->getLine());
}
static bool calls(const BasicBlock *B, StringRef n) {
  for (auto &I : *B) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *F = C->getCalledFunction()) if (F->getName() == n) return true;
  return false;
}
static bool terminates(const BasicBlock *B) {
  for (int k = 0; k < 4 && B; k++) {
    if (calls(B, "__clang_call_terminate") || calls(B, "_ZSt9terminatev")) return true;
    B = B->getSingleSuccessor();
  }
  return false;
}
// what happens from the start of a handler to the return of its function
static void value(const Value *V, const std::set<const BasicBlock *> &in, std::set<std::string> &out, std::set<const Value *> &seen) {
  if (!seen.insert(V).second) return;
  if (auto *c = dyn_cast<ConstantInt>(V)) out.insert(std::to_string(c->getSExtValue()));
  else if (isa<ConstantPointerNull>(V)) out.insert("null");
  else if (auto *p = dyn_cast<PHINode>(V)) { for (unsigned k = 0; k < p->getNumIncomingValues(); k++) if (in.count(p->getIncomingBlock(k))) value(p->getIncomingValue(k), in, out, seen); }
  else if (auto *s = dyn_cast<SelectInst>(V)) { value(s->getTrueValue(), in, out, seen); value(s->getFalseValue(), in, out, seen); }
  else out.insert("?");
}
static void handler(json::OStream &J, Function &F, DominatorTree &DT, CallBase &H) {
  BasicBlock *S = H.getParent();
  std::set<const BasicBlock *> in;
  std::vector<BasicBlock *> order{S};
  in.insert(S);
  for (size_t k = 0; k < order.size(); k++) for (auto *T : successors(order[k])) if (in.insert(T).second) order.push_back(T);
  std::map<const BasicBlock *, std::set<std::string>> out;
  std::set<const BasicBlock *> known;
  auto transfer = [&](BasicBlock *B, std::set<std::string> s) {
    bool on = B != S;
    for (auto &I : *B) {
      if (&I == &H) { on = true; s.clear(); }
      if (!on) continue;
      if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *G = cb->getCalledFunction()) if (!G->getName().starts_with("llvm.")) s.insert(G->getName().str());
    }
    return s;
  };
  bool work = true;
  while (work) {
    work = false;
    for (auto *B : order) {
      std::set<std::string> s; bool first = true;
      if (B != S) for (auto *Q : predecessors(B)) if (in.count(Q) && known.count(Q)) {
        if (first) { s = out[Q]; first = false; }
        else { std::set<std::string> t; for (auto &x : s) if (out[Q].count(x)) t.insert(x); s = t; }
      }
      if (B != S && first) continue;
      auto o = transfer(B, s);
      if (!known.count(B) || o != out[B]) { known.insert(B); out[B] = o; work = true; }
    }
  }
  std::set<std::string> must, rets; bool first = true;
  for (auto *B : order) {
    if (auto *R = dyn_cast<ReturnInst>(B->getTerminator())) {
      if (R->getReturnValue()) { std::set<const Value *> seen; value(R->getReturnValue(), in, rets, seen); } else rets.insert("void");
      if (first) { must = out[B]; first = false; }
      else { std::set<std::string> t; for (auto &x : must) if (out[B].count(x)) t.insert(x); must = t; }
    }
  }
  bool nested = false;
  for (auto &B2 : F) for (auto &I2 : B2) if (auto *c2 = dyn_cast<CallBase>(&I2)) if (c2 != &H && c2->getCalledFunction() && c2->getCalledFunction()->getName() == "__cxa_begin_catch" && DT.dominates(&I2, &H)) nested = true;
  J.object([&] {
    J.attribute("l", loc(H));
    if (nested) J.attribute("nested", true);
    J.attributeArray("rets", [&] { for (auto &x : rets) J.value(x); });
    J.attributeArray("must", [&] { for (auto &x : must) J.value(x); });
    // the types it handles
    std::set<std::string> types;
    for (auto &B2 : F) if (auto *br = dyn_cast<BranchInst>(B2.getTerminator())) if (br->isConditional()) if (auto *ic = dyn_cast<ICmpInst>(br->getCondition()))
      if (ic->isEquality()) for (auto &o : ic->operands()) if (auto *t = dyn_cast<IntrinsicInst>(o.get())) if (t->getIntrinsicID() == Intrinsic::eh_typeid_for) {
        auto *T = br->getSuccessor(ic->getPredicate() == ICmpInst::ICMP_EQ ? 0 : 1);
        if (DT.dominates(BasicBlockEdge(&B2, T), S)) types.insert(t->getArgOperand(0)->stripPointerCasts()->getName().str());
      }
    if (types.empty()) {
      std::set<BasicBlock *> seen{S}; std::vector<BasicBlock *> todo{S};
      while (!todo.empty()) {
        auto *Q = todo.back(); todo.pop_back();
        if (Q->isLandingPad()) {
          auto *LP = Q->getLandingPadInst();
          for (unsigned k = 0; k < LP->getNumClauses(); k++) if (LP->isCatch(k)) { auto *c = LP->getClause(k)->stripPointerCasts(); types.insert(isa<ConstantPointerNull>(c) ? "*" : c->getName().str()); }
          continue;
        }
        for (auto *P2 : predecessors(Q)) if (seen.insert(P2).second) todo.push_back(P2);
      }
      if (types.count("*")) types = {"*"};
    }
    J.attributeArray("pad", [&] { for (auto &x : types) J.value(x); });
  });
}
// direct callees on every path from the entry of F to an instruction
static Function *mbF; static std::map<const BasicBlock *, std::set<std::string>> mbOut; static std::set<const BasicBlock *> mbKnown;
static std::set<std::string> mbIn(Function &F, const BasicBlock *B, bool &first) {
  std::set<std::string> s; first = true;
  if (B == &F.getEntryBlock()) { first = false; return s; }
  for (auto *Q : predecessors(B)) if (mbKnown.count(Q)) {
    if (first) { s = mbOut[Q]; first = false; }
    else { std::set<std::string> t; for (auto &x : s) if (mbOut[Q].count(x)) t.insert(x); s = t; }
  }
  return s;
}
static std::set<std::string> mustBefore(Function &F, const Instruction &at, bool *dead = nullptr) {
  auto transfer = [](const BasicBlock *B, std::set<std::string> s, const Instruction *end) {
    for (auto &I : *B) {
      if (&I == end) break;
      if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *G = cb->getCalledFunction()) if (!G->getName().starts_with("llvm.")) s.insert(G->getName().str());
    }
    return s;
  };
  if (mbF != &F) {
    mbF = &F; mbOut.clear(); mbKnown.clear();
    bool work = true;
    while (work) {
      work = false;
      for (auto &B : F) {
        bool first; auto s = mbIn(F, &B, first);
        if (first) continue;
        s = transfer(&B, s, nullptr);
        if (!mbKnown.count(&B) || s != mbOut[&B]) { mbKnown.insert(&B); mbOut[&B] = s; work = true; }
      }
    }
  }
  bool first; auto s = mbIn(F, at.getParent(), first);
  if (first && dead) *dead = true;
  return transfer(at.getParent(), s, &at);
}
// the member of a class that an address is, as Type:offset
static std::string member(const Value *p, const DataLayout &DL) {
  auto *g = dyn_cast<GEPOperator>(p);
  if (!g || !isa<StructType>(g->getSourceElementType()) || g->getNumIndices() < 2) return "";
  auto *st = cast<StructType>(g->getSourceElementType());
  if (!st->hasName()) return "";
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(DL, off)) return "";
  return st->getName().str() + ":" + std::to_string(off.getSExtValue());
}
static const Value *plain(const Value *v) {
  while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0);
  return v;
}
static Value *divisor(Instruction &I) {
  switch (I.getOpcode()) { case Instruction::SDiv: case Instruction::UDiv: case Instruction::SRem: case Instruction::URem: break; default: return nullptr; }
  return isa<Constant>(I.getOperand(1)) ? nullptr : I.getOperand(1);
}
// range of a value where a comparison is known to hold (or not)
static ConstantRange rangeUnder(LazyValueInfo &LVI, Value *V, Instruction *at, ICmpInst *c, bool truth) {
  auto R = LVI.getConstantRange(V, at, false);
  auto *k = c ? dyn_cast<ConstantInt>(c->getOperand(1)) : nullptr;
  if (!k) return R;
  auto pred = truth ? c->getPredicate() : c->getInversePredicate();
  Value *x = c->getOperand(0);
  auto A = ConstantRange::makeAllowedICmpRegion(pred, ConstantRange(k->getValue()));
  if (V == x) return R.intersectWith(A);
  if (auto *b = dyn_cast<BinaryOperator>(V)) if (b->getOperand(0) == x) if (auto *d = dyn_cast<ConstantInt>(b->getOperand(1)))
    return LVI.getConstantRange(x, at, false).intersectWith(A).binaryOp(b->getOpcode(), ConstantRange(d->getValue())).intersectWith(R);
  return R;
}
static bool nonzero(LazyValueInfo &LVI, Value *V, Instruction *at) {
  if (!V->getType()->isIntegerTy()) return false;
  if (auto *s = dyn_cast<SelectInst>(V)) {
    auto *c = dyn_cast<ICmpInst>(s->getCondition());
    auto T = rangeUnder(LVI, s->getTrueValue(), at, c, true), E = rangeUnder(LVI, s->getFalseValue(), at, c, false);
    auto Z = APInt::getZero(T.getBitWidth());
    if (!T.contains(Z) && !E.contains(Z)) return true;
  }
  auto R = LVI.getConstantRange(V, at, false);
  return !R.contains(APInt::getZero(R.getBitWidth()));
}
static const Value *widened(const Value *v) {
  while (isa<ZExtInst>(v) || isa<SExtInst>(v)) v = cast<CastInst>(v)->getOperand(0);
  return v;
}
// X and Y differ wherever the instruction executes
static bool differ(Function &F, DominatorTree &DT, const Value *X, const Value *Y, const Instruction *at, bool *compared) {
  X = widened(X); Y = widened(Y);
  for (auto &B : F) for (auto &I : B) if (auto *ic = dyn_cast<ICmpInst>(&I)) {
    const Value *a = widened(ic->getOperand(0)), *b = widened(ic->getOperand(1));
    if (!((a == X && b == Y) || (a == Y && b == X))) continue;
    *compared = true;
    for (auto *u : ic->users()) if (auto *br = dyn_cast<BranchInst>(u)) if (br->isConditional()) for (int k = 0; k < 2; k++) {
      auto p = k == 0 ? ic->getPredicate() : ic->getInversePredicate();
      if (ICmpInst::isTrueWhenEqual(p)) continue;
      if (DT.dominates(BasicBlockEdge(br->getParent(), br->getSuccessor(k)), at->getParent())) return true;
    }
  }
  return false;
}
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  if (getenv("VERIF_REPO")) repo = std::string(getenv("VERIF_REPO")) + "/";
  LLVMContext C; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, C);
  if (!M) { err.print("exctool", errs()); return 2; }
  // a constructor may be called under another name of its code
  for (auto &A : M->aliases()) if (auto *G = A.getAliaseeObject()) for (auto *U : SmallVector<User *, 8>(A.user_begin(), A.user_end())) if (auto *cb = dyn_cast<CallBase>(U)) if (cb->getCalledOperand() == &A) cb->setCalledOperand(G);
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  FunctionPassManager P;
  if (auto e = PB.parsePassPipeline(P, "sroa,mem2reg")) { errs() << toString(std::move(e)); return 2; }
  FunctionPassManager P2;
  if (auto e = PB.parsePassPipeline(P2, "early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg")) { errs() << toString(std::move(e)); return 2; }
  for (auto &F : *M) if (!F.isDeclaration()) {
    P.run(F, FAM);
    // conditions of assertions that always hold
    for (auto &B : F) if (calls(&B, "__assert_fail")) { FAM.invalidate(F, PreservedAnalyses::none()); F.removeFnAttr(Attribute::OptimizeNone); P2.run(F, FAM); break; }
  }
  // integer divisions: members that divide, then what is stored in them
  const DataLayout &DL0 = M->getDataLayout();
  std::set<std::string> members;
  auto simplify = [&](Function &F) { FAM.invalidate(F, PreservedAnalyses::none()); F.removeFnAttr(Attribute::OptimizeNone); P2.run(F, FAM); FAM.invalidate(F, PreservedAnalyses::none()); };
  std::set<Function *> done, divides;
  for (auto &F : *M) if (!F.isDeclaration()) {
    bool d = false;
    for (auto &B : F) for (auto &I : B) if (divisor(I)) d = true;
    if (!d) continue;
    simplify(F); done.insert(&F); divides.insert(&F);
    for (auto &B : F) for (auto &I : B) if (auto *v = divisor(I)) if (auto *L = dyn_cast<LoadInst>(plain(v))) { auto m = member(L->getPointerOperand(), DL0); if (!m.empty()) members.insert(m); }
  }
  struct St { std::string member, l, fn; bool nz; };
  std::vector<St> fieldstores;
  for (auto &F : *M) if (!F.isDeclaration()) {
    bool d = false;
    for (auto &B : F) for (auto &I : B) if (auto *S = dyn_cast<StoreInst>(&I)) if (members.count(member(S->getPointerOperand(), DL0))) d = true;
    if (!d) continue;
    if (!done.count(&F)) { simplify(F); done.insert(&F); }
    auto &LVI = FAM.getResult<LazyValueAnalysis>(F);
    for (auto &B : F) for (auto &I : B) if (auto *S = dyn_cast<StoreInst>(&I)) {
      auto m = member(S->getPointerOperand(), DL0);
      if (members.count(m)) fieldstores.push_back({m, loc(I), F.getName().str(), nonzero(LVI, S->getValueOperand(), S)});
    }
  }
  std::map<const Function *, bool> retnz;
  for (auto *F0 : std::set<Function *>(divides)) for (auto &B : *F0) for (auto &I : B) if (auto *v = divisor(I)) if (auto *cb = dyn_cast<CallBase>(plain(v))) if (auto *G = cb->getCalledFunction()) if (!G->isDeclaration() && !retnz.count(G)) {
    if (!done.count(G)) { simplify(*G); done.insert(G); }
    auto &LVI = FAM.getResult<LazyValueAnalysis>(*G);
    bool nz = true;
    for (auto &B2 : *G) if (auto *R = dyn_cast<ReturnInst>(B2.getTerminator())) {
      auto *rv = R->getReturnValue();
      if (auto *p = dyn_cast<PHINode>(rv)) { for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { auto R2 = LVI.getConstantRangeOnEdge(p->getIncomingValue(k), p->getIncomingBlock(k), p->getParent()); if (R2.contains(APInt::getZero(R2.getBitWidth()))) nz = false; } }
      else if (!nonzero(LVI, rv, R)) nz = false;
    }
    retnz[G] = nz;
  }
  std::error_code ec; raw_fd_ostream os(argv[2], ec);
  json::OStream J(os);
  J.object([&] {
    J.attributeArray("functions", [&] {
      for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        J.object([&] {
          J.attribute("name", F.getName());
          J.attribute("dem", demangle(F.getName().str()));
          auto *sp = F.getSubprogram();
          std::string f = sp ? fileOf(sp) : "";
          if (!f.empty() && f[0] != '/') J.attribute("proj", true);
          J.attribute("file", f);
          if (sp) J.attribute("line", (int64_t)sp->getLine());
          if (F.hasLinkOnceLinkage()) J.attribute("linkonce", true);
          if (F.doesNotThrow()) J.attribute("nounwind", true);
          if (F.hasLocalLinkage()) J.attribute("internal", true);
          J.attribute("ft", ty(F.getFunctionType()));
          DominatorTree DT(F);
          J.attributeArray("calls", [&] {
            for (auto &B : F) for (auto &I : B) {
              auto *cb = dyn_cast<CallBase>(&I);
              if (!cb || isa<IntrinsicInst>(cb)) continue;
              auto *cv = cb->getCalledOperand()->stripPointerCasts();
              auto *G = dyn_cast<Function>(cv);
              if (G && G->getName().starts_with("llvm.")) continue;
              bool inh = false;
              J.object([&] {
                if (G) J.attribute("c", G->getName());
                else {
                  J.attribute("ft", ty(cb->getFunctionType()));
                  if (auto *L = dyn_cast<LoadInst>(cv)) {
                    int64_t n = 0; const Value *b = L->getPointerOperand()->stripPointerCasts();
                    const DataLayout &DL = M->getDataLayout();
                    APInt off(64, 0);
                    b = b->stripAndAccumulateConstantOffsets(DL, off, true);
                    n = off.getSExtValue();
                    if (isa<LoadInst>(b)) J.attribute("slot", n / 8);
                  }
                }
                if (G && (G->getName() == "__cxa_throw") && cb->arg_size() > 1) J.attribute("ti", cb->getArgOperand(1)->stripPointerCasts()->getName());
                for (auto &B2 : F) for (auto &I2 : B2) if (auto *c2 = dyn_cast<CallBase>(&I2)) if (c2 != cb && c2->getCalledFunction() && c2->getCalledFunction()->getName() == "__cxa_begin_catch" && DT.dominates(&I2, &I)) inh = true;
                if (inh) J.attribute("h", true);
                // a thrown pointer that is not the address of something static
                if (G && G->getName() == "__cxa_throw" && cb->getArgOperand(1)->stripPointerCasts()->getName().starts_with("_ZTIP"))
                  for (auto *u : cb->getArgOperand(0)->users()) if (auto *S = dyn_cast<StoreInst>(u)) if (S->getPointerOperand() == cb->getArgOperand(0) && !isa<Constant>(S->getValueOperand())) J.attribute("local", true);
                if (G && G->getName() == "__cxa_throw") J.attributeArray("before", [&] {
                  for (auto &x : mustBefore(F, I)) J.value(x);
                });
                if (cb->doesNotThrow() || (G && G->doesNotThrow())) J.attribute("nt", true);
                if (cb->doesNotReturn() || (G && G->doesNotReturn())) J.attribute("nr", true);
                J.attribute("l", loc(I));
                if (auto *V = dyn_cast<InvokeInst>(cb)) {
                  auto *U = V->getUnwindDest();
                  auto *LP = U->getLandingPadInst();
                  if (terminates(U)) J.attribute("term", true);
                  J.attributeArray("pad", [&] {
                    for (unsigned k = 0; k < LP->getNumClauses(); k++) {
                      if (LP->isCatch(k)) { auto *c = LP->getClause(k)->stripPointerCasts(); J.value(isa<ConstantPointerNull>(c) ? StringRef("*") : c->getName()); }
                      else J.value("filter");
                    }
                  });
                }
                bool any = false;
                for (auto &a : cb->args()) if (isa<Function>(a.get()->stripPointerCasts())) any = true;
                if (any) J.attributeArray("fargs", [&] { for (auto &a : cb->args()) if (auto *f = dyn_cast<Function>(a.get()->stripPointerCasts())) J.value(f->getName()); });
              });
            }
          });
          if (sp && !f.empty() && f[0] != '/') J.attributeArray("must", [&] {
            std::set<std::string> must; bool first = true;
            for (auto &B : F) if (isa<ReturnInst>(B.getTerminator())) {
              bool dead = false;
              auto t = mustBefore(F, *B.getTerminator(), &dead);
              if (dead) continue;
              if (first) { must = t; first = false; }
              else { std::set<std::string> u; for (auto &x : must) if (t.count(x)) u.insert(x); must = u; }
            }
            for (auto &x : must) J.value(x);
          });
          J.attributeArray("handlers", [&] {
            for (auto &B : F) for (auto &I : B) {
              auto *cb = dyn_cast<CallBase>(&I);
              if (!cb || !cb->getCalledFunction() || cb->getCalledFunction()->getName() != "__cxa_begin_catch") continue;
              handler(J, F, DT, *cb);
            }
          });
          if (divides.count(&F)) J.attributeArray("divs", [&] {
            auto &LVI = FAM.getResult<LazyValueAnalysis>(F);
            for (auto &B : F) for (auto &I : B) if (auto *v = divisor(I)) J.object([&] {
              J.attribute("l", loc(I));
              bool nz = nonzero(LVI, v, &I);
              auto *b = plain(v);
              if (b != v && !nz) nz = nonzero(LVI, const_cast<Value *>(b), &I) && !isa<TruncInst>(v);
              auto &AC = FAM.getResult<AssumptionAnalysis>(F);
              if (!nz) nz = isKnownNonZero(v, DL0, 0, &AC, &I, &DT);
              bool compared = false;
              if (!nz) {
                const Value *w = widened(v);
                if (auto *sb = dyn_cast<BinaryOperator>(w); sb && sb->getOpcode() == Instruction::Sub) nz = differ(F, DT, sb->getOperand(0), sb->getOperand(1), &I, &compared);
                else {
                  if (auto *ad = dyn_cast<BinaryOperator>(w); ad && ad->getOpcode() == Instruction::Add) { }
                  for (auto *u : w->users()) if (isa<ICmpInst>(u)) compared = true;
                }
              }
              J.attribute("nz", nz);
              if (compared) J.attribute("checked", true);
              if (auto *L = dyn_cast<LoadInst>(b)) J.attribute("member", member(L->getPointerOperand(), DL0));
              if (auto *cb = dyn_cast<CallBase>(b)) if (auto *G = cb->getCalledFunction()) { J.attribute("call", G->getName()); if (retnz.count(G)) J.attribute("retnz", retnz[G]); }
            });
          });
          std::set<std::string> taken;
          for (auto &B : F) for (auto &I : B) if (auto *S = dyn_cast<StoreInst>(&I)) if (auto *f = dyn_cast<Function>(S->getValueOperand()->stripPointerCasts())) taken.insert(f->getName().str());
          J.attributeArray("stores", [&] { for (auto &t : taken) J.value(t); });
        });
      }
    });
    J.attributeArray("memberstores", [&] { for (auto &x : fieldstores) J.object([&] { J.attribute("member", x.member); J.attribute("l", x.l); J.attribute("fn", x.fn); J.attribute("nz", x.nz); }); });
    J.attributeObject("vtables", [&] {
      for (auto &G : M->globals()) if (G.hasInitializer() && G.getName().starts_with("_ZTV"))
        J.attributeArray(G.getName(), [&] {
          if (auto *cs = dyn_cast<ConstantStruct>(G.getInitializer())) for (auto &a : cs->operands()) if (auto *ca = dyn_cast<ConstantArray>(a)) {
            J.array([&] { for (auto &x : ca->operands()) { auto *v = x->stripPointerCasts(); if (auto *f = dyn_cast<Function>(v)) J.value(f->getName()); else J.value(nullptr); } });
          }
        });
    });
    J.attributeObject("typeinfo", [&] {
      for (auto &G : M->globals()) if (G.getName().starts_with("_ZTI"))
        J.attributeArray(G.getName(), [&] {
          if (G.hasInitializer()) for (auto &o : G.getInitializer()->operands()) { auto *v = o.get()->stripPointerCasts(); if (v->getName().starts_with("_ZTI")) J.value(v->getName()); }
        });
    });
    J.attributeArray("declared", [&] { for (auto &F : *M) if (F.isDeclaration() && !F.getName().starts_with("llvm.")) J.value(F.getName()); });
  });
  return 0;
}
