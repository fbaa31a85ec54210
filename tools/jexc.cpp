// P16: after a library operation that may raise, a Java native looks at the manager's exception log before it returns;
// when there is one it throws a Java exception and builds no Java value any more.
#include "apa.h"
#include "jni.h"
#include "slots.h"
#include "llvm/Transforms/Utils/Cloning.h"
namespace {
struct JExc {
  Module &M; Types T; Jni J; Slots S; std::map<const Function *, int> raises, throwsM, builds;
  JExc(Module &M) : M(M), T(M), J(T), S(M, T) {}
  static const Function *callee(const CallBase *CB) { return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); }
  static bool inFile(const Function &G, const char *d) { auto *SP = G.getSubprogram(); return SP && SP->getFilename().str().find(d) != std::string::npos; }
  static bool takesManager(const Function &G) { auto sig = signatureOf(G); for (size_t i = 1; i < sig.size(); i++) if (sig[i] && typeName(sig[i]) == "ap_manager_t*") return true; return false; }
  // may raise an exception of the library
  bool mayRaise(const Function &G, int d = 0) {
    auto it = raises.find(&G); if (it != raises.end()) return it->second; raises[&G] = 0;
    StringRef n = G.getName(); bool r = false;
    if (n == "ap_manager_raise_exception") r = true;
    else if (G.isDeclaration()) r = !G.isIntrinsic() && takesManager(G) && !n.contains("manager");
    else if (inFile(G, "/japron/") || n.ends_with("_free") || n.ends_with("_clear")) r = false; // giving back is no operation
    else for (auto &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      if (auto *H = callee(CB)) { if (H != &G && mayRaise(*H, d + 1)) { r = true; break; } continue; }
      const Value *b; int sl = S.calledSlot(CB, b); if (sl >= 0 && S.op(sl) != "FREE") { r = true; break; }
    }
    return raises[&G] = r;
  }
  bool throws(const Function &G) {
    auto it = throwsM.find(&G); if (it != throwsM.end()) return it->second; throwsM[&G] = 0; bool r = false;
    if (!G.isDeclaration() && inFile(G, "/japron/")) for (auto &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) { if (auto *H = callee(CB)) { if (throws(*H)) { r = true; break; } continue; } auto s = J.slot(CB); if (s == "Throw" || s == "ThrowNew") { r = true; break; } }
    return throwsM[&G] = r;
  }
  bool readsLog(const Function &G) { for (auto &I : instructions(G)) if (auto *L = dyn_cast<LoadInst>(&I)) if (isLog(L)) return true; return false; }
  bool isLog(const LoadInst *L) { const Value *b; std::string n; return L->getType()->isPointerTy() && T.fieldOf(L->getPointerOperand(), b, n) && StringRef(n).ends_with("exclog"); }
  bool buildsJava(const Function &G) {
    auto it = builds.find(&G); if (it != builds.end()) return it->second; builds[&G] = 0; bool r = false;
    if (!G.isDeclaration() && inFile(G, "/japron/")) for (auto &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) { if (auto *H = callee(CB)) { if (buildsJava(*H)) { r = true; break; } continue; } if (isBuild(J.slot(CB))) { r = true; break; } }
    return builds[&G] = r;
  }
  static bool isBuild(StringRef s) { return s.starts_with("New") || (s.starts_with("Set") && (s.ends_with("Field") || s == "SetObjectArrayElement")); }
  // branches deciding on the log: branch, index of the edge taken when there is an exception
  bool logTest(const BranchInst *Br, const LoadInst *&L, unsigned &exc) {
    if (!Br->isConditional()) return false; const Value *V = Br->getCondition(); bool flip = false;
    for (int i = 0; i < 8; i++) {
      if (auto *I = dyn_cast<ICmpInst>(V)) {
        if (!I->isEquality()) return false; const Value *x = I->getOperand(0), *y = I->getOperand(1); if (isa<Constant>(x)) std::swap(x, y);
        if (!isa<ConstantPointerNull>(y) && !(isa<ConstantInt>(y) && cast<ConstantInt>(y)->isZero())) return false;
        if (I->getPredicate() == CmpInst::ICMP_EQ) flip = !flip; V = x;
        if (auto *X = dyn_cast<LoadInst>(V)) { if (!isLog(X)) return false; L = X; exc = flip ? 1 : 0; return true; }
        continue;
      }
      if (auto *C = dyn_cast<CastInst>(V)) { V = C->getOperand(0); continue; }
      if (auto *B = dyn_cast<BinaryOperator>(V)) if (B->getOpcode() == Instruction::Xor && isa<ConstantInt>(B->getOperand(1))) { flip = !flip; V = B->getOperand(0); continue; }
      return false;
    }
    return false;
  }
  std::string slotOrFn(const CallBase *CB) { if (auto *G = callee(CB)) return fnName(*G); auto s = J.slot(CB); return s.empty() ? "?" : s; }
  void native(Function &F0) {
    ValueToValueMapTy VM; Function *F = CloneFunction(&F0, VM); F->setName(F0.getName() + ".spec"); std::string fn = fnName(F0);
    inlineInto(*F, [&](const Function &H) { if (!inFile(H, "/japron/")) return false; if (throws(H) && readsLog(H)) { bool raise = false; for (auto &I : instructions(H)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = callee(CB)) if (!inFile(*G, "/japron/") && mayRaise(*G)) raise = true; bool pure = !raise && clears(H); return !pure; } for (auto &I : instructions(H)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = callee(CB)) if (!inFile(*G, "/japron/") && mayRaise(*G)) return true; return readsLog(H); });
    promoteFunction(*F);
    std::set<const LoadInst *> tests; std::vector<std::pair<const BranchInst *, unsigned>> brs;
    for (auto &B : *F) if (auto *Br = dyn_cast<BranchInst>(B.getTerminator())) { const LoadInst *L; unsigned e; if (logTest(Br, L, e)) { tests.insert(L); brs.push_back({Br, e}); } }
    std::map<std::string, int> nth; bool any = false;
    for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = callee(CB)) if (!inFile(*G, "/japron/") && mayRaise(*G)) {
      any = true; std::string k = fnName(*G); int n = nth[k]++; if (n) k += " #" + std::to_string(n + 1);
      const Instruction *bad = nullptr; walk(CB->getNextNode(), [&](const Instruction *X) { if (auto *L = dyn_cast<LoadInst>(X)) if (tests.count(L)) return false; if (auto *C2 = dyn_cast<CallBase>(X)) { auto *H = callee(C2); if (H && H->doesNotReturn()) return false; } if (isa<ReturnInst>(X)) { bad = X; return false; } return true; });
      tally("raising_calls"); emitObligation("exception-checked", fn, k, !bad);
      if (bad) emitFinding("exception-checked", fn, CB->getDebugLoc(), k, fn + ": a path from the call of " + fnName(*G) + " returns to Java without a look at the manager's exceptions");
    }
    if (any) tally("natives");
    int i = 0; for (auto &b : brs) {
      i++; auto *X = b.first->getSuccessor(b.second); const Instruction *silent = nullptr; const CallBase *build = nullptr;
      walk(&X->front(), [&](const Instruction *Y) { if (auto *C2 = dyn_cast<CallBase>(Y)) { auto *H = callee(C2); if (H && throws(*H)) return false; auto s = J.slot(C2); if (s == "Throw" || s == "ThrowNew") return false; } if (isa<ReturnInst>(Y)) { silent = Y; return false; } return true; });
      walk(&X->front(), [&](const Instruction *Y) { if (auto *C2 = dyn_cast<CallBase>(Y)) { auto *H = callee(C2); bool t = H && throws(*H) && readsLog(*H); if (!t && ((H && buildsJava(*H)) || isBuild(J.slot(C2)))) { if (!build) build = C2; return false; } } return true; });
      std::string k = "test " + std::to_string(i);
      emitObligation("exception-thrown", fn, k, !silent); emitObligation("result-withheld", fn, k, !build); tally("tests");
      if (silent) emitFinding("exception-thrown", fn, b.first->getDebugLoc(), k, fn + ": an exception of the library is seen but no Java exception is thrown");
      if (build) emitFinding("result-withheld", fn, build->getDebugLoc() ? build->getDebugLoc() : b.first->getDebugLoc(), k, fn + ": " + slotOrFn(build) + " builds a Java value although the library raised an exception");
    }
    F->eraseFromParent();
  }
  // the thrower empties the log
  bool clears(const Function &H) { for (auto &I : instructions(H)) { if (auto *CB = dyn_cast<CallBase>(&I)) { auto *G = callee(CB); if (G && clearsLog(*G)) return true; } if (auto *X = dyn_cast<StoreInst>(&I)) if (isClear(X)) return true; } return false; }
  bool isClear(const StoreInst *X) { const Value *b; std::string n; return isa<ConstantPointerNull>(X->getValueOperand()) && T.fieldOf(X->getPointerOperand(), b, n) && StringRef(n).ends_with("exclog"); }
  bool clearsLog(const Function &G) { for (auto &I : instructions(G)) if (auto *X = dyn_cast<StoreInst>(&I)) if (isClear(X)) return true; return false; }
  template <class Fn> void walk(const Instruction *from, Fn f) {
    std::set<const BasicBlock *> seen; std::vector<const Instruction *> w{from};
    while (!w.empty()) { auto *I = w.back(); w.pop_back(); bool go = true; for (; I; I = I->getNextNode()) if (!f(I)) { go = false; break; } else if (I->isTerminator()) { for (auto *X : successors(I->getParent())) if (seen.insert(X).second) w.push_back(&X->front()); go = false; break; } (void)go; }
  }
  void thrower(Function &H) { // from the entry on, the log is empty on every path to a throw
    std::string fn = fnName(H); const Instruction *bad = nullptr;
    walk(&H.getEntryBlock().front(), [&](const Instruction *Y) { if (auto *CB = dyn_cast<CallBase>(Y)) { auto *G = callee(CB); if (G && clearsLog(*G)) return false; auto s = J.slot(CB); if (s == "Throw" || s == "ThrowNew") { bad = Y; return false; } } if (auto *X = dyn_cast<StoreInst>(Y)) if (isClear(X)) return false; return true; });
    emitObligation("log-emptied", fn, "exclog", !bad); if (bad) emitFinding("log-emptied", fn, bad->getDebugLoc(), "exclog", fn + ": the exception is thrown while it stays in the manager");
  }
};
}
int runJexc(std::vector<std::string> args) {
  LLVMContext Cx; auto M = loadModule(args[0], Cx); if (!M) return 2; promote(*M);
  JExc E(*M); std::vector<Function *> fs; for (Function &F : *M) if (!F.isDeclaration()) fs.push_back(&F);
  for (auto *F : fs) { if (F->getName().starts_with("Java_")) E.native(*F); else if (E.inFile(*F, "/japron/") && E.readsLog(*F) && E.throws(*F) ) E.thrower(*F); }
  return 0;
}
