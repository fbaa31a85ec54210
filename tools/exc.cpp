// P13: no logic_error / cannot_convert leaves a function with C linkage; the handlers report and
// return a usable value.
#include "apa.h"
namespace {
enum { LOGIC = 1, CONV = 2 };
const char *CLS[] = {"", "std::logic_error", "cannot_convert"};
unsigned classOfType(StringRef n) {
  if (n == "_ZTI14cannot_convert") return CONV;
  for (auto s : {"_ZTISt11logic_error", "_ZTISt16invalid_argument", "_ZTISt12length_error", "_ZTISt12domain_error", "_ZTISt12out_of_range"}) if (n == s) return LOGIC;
  return 0;
}
unsigned caughtBy(const Value *clause) {
  if (isa<ConstantPointerNull>(clause)) return LOGIC | CONV;
  StringRef n = clause->stripPointerCasts()->getName();
  if (n == "_ZTISt9exception") return LOGIC | CONV;
  if (n == "_ZTISt11logic_error") return LOGIC;
  if (n == "_ZTI14cannot_convert") return CONV;
  return 0;
}
struct Exc {
  Module &M;
  std::map<const Function *, unsigned> esc;
  std::map<std::pair<const Function *, unsigned>, const Instruction *> why;
  Exc(Module &M) : M(M) { solve(); }
  static const Function *callee(const CallBase *CB) { return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); }
  unsigned thrown(const CallBase *CB) {
    const Function *G = callee(CB);
    if (CB->doesNotThrow()) return 0;
    if (!G) { return 0; }
    StringRef n = G->getName();
    if (n == "__cxa_throw") return classOfType(CB->getArgOperand(1)->stripPointerCasts()->getName());
    if (n == "__cxa_rethrow") return LOGIC | CONV;
    if (G->doesNotThrow()) return 0;
    if (!G->isDeclaration()) return esc[G];
    if (!n.starts_with("_Z")) return 0;
    if (n.contains("__throw_length_error") || n.contains("__throw_logic_error") || n.contains("__throw_out_of_range") || n.contains("__throw_invalid_argument") || n.contains("__throw_domain_error")) return LOGIC;
    if (n.contains("Parma_Polyhedra_Library")) return LOGIC;
    return 0;
  }
  static unsigned caught(const InvokeInst *II) {
    unsigned c = 0; auto *L = II->getLandingPadInst();
    for (unsigned i = 0; i < L->getNumClauses(); i++) if (L->isCatch(i)) c |= caughtBy(L->getClause(i));
    return c;
  }
  void solve() {
    bool ch = true;
    while (ch) { ch = false;
      for (Function &F : M) { if (F.isDeclaration() || F.doesNotThrow()) continue;
        unsigned e = esc[&F];
        for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
          unsigned t = thrown(CB);
          if (auto *II = dyn_cast<InvokeInst>(CB)) t &= ~caught(II);
          for (unsigned c : {1u, 2u}) if ((t & c) && !(e & c)) { e |= c; why[{&F, c}] = CB; }
        }
        if (e != esc[&F]) { esc[&F] = e; ch = true; }
      } }
  }
  std::string chain(const Function *F, unsigned c) {
    std::string s; std::set<const Function *> seen;
    while (F && seen.insert(F).second) {
      auto it = why.find({F, c}); if (it == why.end()) break;
      auto *CB = cast<CallBase>(it->second); const Function *G = callee(CB);
      std::string f; unsigned l; locOf(CB, f, l);
      s += (s.empty() ? "" : " <- ") + (G ? demangle(G->getName()) : std::string("?")) + " line " + std::to_string(l);
      F = G && !G->isDeclaration() ? G : nullptr;
      if (s.size() > 300) break;
    }
    return s;
  }
  static std::string demangle(StringRef n) { return n.str(); }
};
// blocks that start the handling of class c in F: true successor of (selector == typeid(X))
std::vector<const BasicBlock *> handlers(const Function &F, unsigned c) {
  std::vector<const BasicBlock *> r;
  for (const Instruction &I : instructions(F)) {
    auto *IC = dyn_cast<ICmpInst>(&I); if (!IC || !IC->isEquality()) continue;
    const IntrinsicInst *T = dyn_cast<IntrinsicInst>(IC->getOperand(1)); if (!T) T = dyn_cast<IntrinsicInst>(IC->getOperand(0));
    if (!T || T->getIntrinsicID() != Intrinsic::eh_typeid_for) continue;
    if (!(caughtBy(T->getArgOperand(0)) & c)) continue;
    for (const User *U : IC->users()) if (auto *B = dyn_cast<BranchInst>(U)) r.push_back(B->getSuccessor(IC->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1));
  }
  // catch (...) has no comparison: the landing pad itself
  return r;
}
struct Report {
  Types T; Exc &E;
  Report(Module &M, Exc &E) : T(M), E(E) {}
  unsigned flagOf(const Value *P) {
    const Value *b; std::string n;
    if (!T.fieldOf(P, b, n)) return 0;
    return StringRef(n).ends_with("flag_exact") ? 1 : StringRef(n).ends_with("flag_best") ? 2 : 0;
  }
  // on every path from B to a return: raised, or both flags stored false after entering the handler
  // (a phi that is false when coming from the handler counts)
  void check(const Function &F, const BasicBlock *H, unsigned cls, const std::string &n) {
    // must state per block: bits 1,2 flags false; 4 raised
    std::map<const BasicBlock *, unsigned> in; std::vector<const BasicBlock *> work{H}; in[H] = 0;
    std::set<const BasicBlock *> from; // blocks reachable from H
    auto step = [&](const BasicBlock *B, unsigned m) {
      for (const Instruction &I : *B) {
        if (auto *S = dyn_cast<StoreInst>(&I)) { unsigned f = flagOf(S->getPointerOperand());
          if (f) { if (falseHere(S->getValueOperand(), from)) m |= f; else m &= ~f; } }
        else if (auto *CB = dyn_cast<CallBase>(&I)) {
          auto *G = Exc::callee(CB);
          if (G && G->getName() == "ap_manager_raise_exception") { auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(1)); if (!(c && c->isZero())) m |= 7; }
        }
      }
      return m;
    };
    { std::vector<const BasicBlock *> w{H}; from.insert(H); while (!w.empty()) { auto *B = w.back(); w.pop_back(); for (auto *S : successors(B)) if (!isa<LandingPadInst>(S->getFirstNonPHI()) && from.insert(S).second) w.push_back(S); } }
    bool ch = true; std::map<const BasicBlock *, unsigned> out;
    while (ch) { ch = false;
      for (auto *B : from) {
        unsigned m = 7; bool any = false;
        if (B == H) { m = 0; any = true; }
        else for (auto *P : predecessors(B)) if (from.count(P) && out.count(P)) { m &= out[P]; any = true; }
        if (!any) continue;
        unsigned o = step(B, m);
        auto it = out.find(B); if (it == out.end() || it->second != o) { out[B] = o; ch = true; }
      } }
    for (auto *B : from) if (auto *R = dyn_cast<ReturnInst>(B->getTerminator())) {
      if (!out.count(B)) continue;
      bool ok = (out[B] & 3) == 3 || (out[B] & 4);
      emitObligation("exception-reported", n, std::string(CLS[cls]) + "@" + std::to_string(idx), ok);
      if (!ok) { std::string f; unsigned l; locOf(&*H->getFirstInsertionPt(), f, l);
        emitFindingAt("exception-reported", n, f, l, CLS[cls], n + ": a handler of " + CLS[cls] + " reaches the return without raising an apron exception or clearing flag_exact and flag_best"); }
      if (const Value *V = R->getReturnValue()) if (V->getType()->isPointerTy()) {
        std::string bad; std::set<const Value *> seen; usable(V, from, H, bad, seen);
        emitObligation("exception-result", n, std::string(CLS[cls]) + "@" + std::to_string(idx), bad.empty());
        if (!bad.empty()) { std::string f; unsigned l; locOf(&*H->getFirstInsertionPt(), f, l);
          emitFindingAt("exception-result", n, f, l, CLS[cls], n + ": after " + CLS[cls] + " it returns " + bad + " instead of a usable value"); }
      }
    }
    idx++;
  }
  int idx = 0;
  bool falseHere(const Value *V, const std::set<const BasicBlock *> &from, int d = 0) {
    if (auto *C = dyn_cast<ConstantInt>(V)) return C->isZero();
    if (d > 8) return false;
    if (auto *Z = dyn_cast<CastInst>(V)) return falseHere(Z->getOperand(0), from, d + 1);
    if (auto *P = dyn_cast<PHINode>(V)) {
      if (!from.count(P->getParent())) return false;
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (from.count(P->getIncomingBlock(i)) && !falseHere(P->getIncomingValue(i), from, d + 1)) return false;
      return true;
    }
    if (auto *B = dyn_cast<BinaryOperator>(V)) if (B->getOpcode() == Instruction::And) return falseHere(B->getOperand(0), from, d + 1) || falseHere(B->getOperand(1), from, d + 1);
    if (auto *L = dyn_cast<LoadInst>(V)) { // x = y = false: reload of a flag stored false just before
      if (flagOf(L->getPointerOperand())) { for (auto *I = L->getPrevNode(); I; I = I->getPrevNode()) if (auto *S = dyn_cast<StoreInst>(I)) if (flagOf(S->getPointerOperand()) == flagOf(L->getPointerOperand())) return falseHere(S->getValueOperand(), from, d + 1); }
    }
    return false;
  }
  void usable(const Value *V, const std::set<const BasicBlock *> &from, const BasicBlock *H, std::string &bad, std::set<const Value *> &seen) {
    if (!seen.insert(V).second || !bad.empty()) return;
    if (isa<UndefValue>(V)) { bad = "a value that was not set"; return; }
    if (isa<ConstantPointerNull>(V)) { bad = "NULL"; return; }
    if (auto *P = dyn_cast<PHINode>(V)) {
      bool in = from.count(P->getParent());
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (!in || from.count(P->getIncomingBlock(i))) usable(P->getIncomingValue(i), from, H, bad, seen);
    } else if (auto *S = dyn_cast<SelectInst>(V)) { usable(S->getTrueValue(), from, H, bad, seen); usable(S->getFalseValue(), from, H, bad, seen); }
    else if (auto *C = dyn_cast<CastInst>(V)) usable(C->getOperand(0), from, H, bad, seen);
    else if (auto *G = dyn_cast<CallBase>(V)) { // a helper whose every return is NULL
      auto *F = Exc::callee(G); if (!F || F->isDeclaration()) return;
      for (const BasicBlock &B : *F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) if (R->getReturnValue() && isa<ConstantPointerNull>(R->getReturnValue())) bad = "NULL";
    }
  }
};
}
int runExc(std::vector<std::string> args) {
  LLVMContext Ctx; auto M = loadModule(args[0], Ctx);
  promote(*M);
  Exc E(*M); Report R(*M, E);
  for (Function &F : *M) {
    if (F.isDeclaration() || !F.getSubprogram()) continue;
    StringRef file = F.getSubprogram()->getFilename();
    if (file.starts_with("/usr/") || F.getName().starts_with("_Z") || F.hasLocalLinkage()) continue;
    tally("interface_functions");
    std::string n = F.getName().str();
    for (unsigned c : {1u, 2u}) {
      bool ok = !(E.esc[&F] & c);
      emitObligation("exception-contained", n, CLS[c], ok);
      if (!ok) { std::string f; unsigned l; locOf(E.why[{&F, c}], f, l);
        emitFindingAt("exception-contained", n, f, l, CLS[c], n + ": " + CLS[c] + " can leave this C function: " + E.chain(&F, c)); }
      R.idx = 0;
      auto sig = signatureOf(F); bool prints = false; // printing has no result to mark inexact
      for (unsigned k = 1; k < sig.size(); k++) if (StringRef(typeName(sig[k])).contains("FILE")) prints = true;
      if (prints && c == CONV) continue;
      for (auto *H : handlers(F, c)) { tally("handlers"); R.check(F, H, c, n); }
    }
    for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (E.thrown(CB)) tally("throwing_calls");
  }
  for (Function &F : *M) for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (!Exc::callee(CB) && !CB->isInlineAsm() && F.getSubprogram() && F.getSubprogram()->getFilename().contains("ppl")) tally("indirect_calls_assumed_not_throwing");
  return 0;
}
