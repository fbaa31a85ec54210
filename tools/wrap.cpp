// P14: C++ wrappers.  For every fallible library call and every exception kind K: assuming the
// manager's exclog holds K after the call, no path returns normally, the result is released, and
// nothing is assigned to or released from the arguments before the throw.
#include "apa.h"
#include "slots.h"
#include "llvm/IR/ConstantFolder.h"
namespace {
const Function *calleeOf(const CallBase *CB) { return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); }

StringRef cname(const Function *G) { if (G->getName().starts_with("_Z")) if (auto *S = G->getSubprogram()) return S->getName(); return G->getName(); }

struct Wrap {
  Module &M; Types T; std::map<int64_t, std::string> kinds; int64_t none = 0;
  Wrap(Module &M) : M(M), T(M) {
    kinds = enumerators(M, "ap_exc_t");
    for (auto &p : kinds) if (p.second == "AP_EXC_NONE") none = p.first;
  }
  bool fallible(const Function *G) {
    StringRef n = G->getName();
    if (!n.starts_with("ap_abstract0_") && !n.starts_with("ap_abstract1_")) return false;
    if (n.ends_with("_free") || n.ends_with("_clear")) return false;
    return mayFail(G);
  }
  // reaches a raise or a dispatched operation
  std::map<const Function *, bool> mf;
  bool mayFail(const Function *G) {
    auto it = mf.find(G); if (it != mf.end()) return it->second;
    mf[G] = false; bool r = false;
    if (cname(G) == "ap_manager_raise_exception") r = true;
    else for (const Instruction &I : instructions(*G)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      if (auto *H = calleeOf(CB)) { if (H->isDeclaration() ? H->getName() == "ap_manager_raise_exception" : mayFail(H)) { r = true; break; } }
      else if (!CB->isInlineAsm()) { r = true; break; }
    }
    return mf[G] = r;
  }
  static bool releaser(StringRef n) {
    return (n.starts_with("ap_") && (n.ends_with("_free") || n.ends_with("_clear"))) || n == "free";
  }
  // --- conditional evaluation under the assumption
  struct Run {
    Wrap &W; const CallBase *C; int64_t K;
    std::map<const BasicBlock *, unsigned> in; // must-released bits at entry of reached blocks (entry: start block after C)
    std::set<std::pair<const BasicBlock *, const BasicBlock *>> edges;
    std::map<const Value *, int> memo;
    Run(Wrap &W, const CallBase *C, int64_t K) : W(W), C(C), K(K) {}
    // value known: has / val
    struct Val { bool k = false; int64_t v = 0; };
    bool isResult(const Value *V, int d = 0) {
      if (V == C) return true;
      if (d > 6) return false;
      if (auto *X = dyn_cast<ExtractValueInst>(V)) return isResult(X->getAggregateOperand(), d + 1);
      if (auto *P = dyn_cast<PHINode>(V)) { bool any = false; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (edges.count({P->getIncomingBlock(i), P->getParent()})) { if (!isResult(P->getIncomingValue(i), d + 1)) return false; any = true; } return any; }
      if (auto *L = dyn_cast<LoadInst>(V)) return resultMem(L->getPointerOperand());
      if (auto *X = dyn_cast<CastInst>(V)) return isResult(X->getOperand(0), d + 1);
      return false;
    }
    // memory the result (or part of it) was stored in
    bool resultMem(const Value *P) {
      int64_t o; const Value *B = stripOffset(P->stripPointerCasts(), W.T.DL, o);
      if (C->hasStructRetAttr() && B == C->getArgOperand(0)->stripPointerCasts()) return true;
      for (const User *U : B->users()) {
        const Value *Q = U; const StoreInst *S = dyn_cast<StoreInst>(U);
        if (S && S->getPointerOperand() == B && stores(S)) return true;
        if (auto *G = dyn_cast<GEPOperator>(U)) for (const User *V : G->users()) if (auto *S2 = dyn_cast<StoreInst>(V)) if (S2->getPointerOperand() == G && stores(S2)) return true;
        (void)Q;
      }
      // copied from memory that holds it
      for (const User *U : B->users()) if (auto *MC = dyn_cast<MemCpyInst>(U)) if (MC->getDest() == B && MC->getSource() != B && isa<AllocaInst>(MC->getSource()->stripPointerCasts()) && resultMem(MC->getSource())) return true;
      return false;
    }
    bool stores(const StoreInst *S) { const Value *V = S->getValueOperand(); for (int i = 0; i < 4; i++) { if (V == C) return true; if (auto *X = dyn_cast<ExtractValueInst>(V)) V = X->getAggregateOperand(); else if (auto *I = dyn_cast<InsertValueInst>(V)) V = I->getInsertedValueOperand(); else break; } return false; }
    Val eval(const Value *V, int d = 0) {
      Val r;
      if (auto *c = dyn_cast<ConstantInt>(V)) { if (c->getBitWidth() <= 64) return {true, c->getSExtValue()}; return r; }
      if (isa<ConstantPointerNull>(V)) return {true, 0};
      if (d > 12) return r;
      if (isResult(V) && V->getType()->isPointerTy()) return {true, 1};
      if (auto *L = dyn_cast<LoadInst>(V)) {
        const Value *b; std::string n;
        if (W.T.fieldOf(L->getPointerOperand(), b, n)) {
          if (StringRef(n).ends_with(".exclog")) return {true, 1};
          if (n == "ap_exclog_t.exn" || n == "ap_result_t.exn" || StringRef(n).ends_with("exclog_t.exn")) return {true, K};
        }
        return r;
      }
      if (auto *I = dyn_cast<ICmpInst>(V)) {
        Val a = eval(I->getOperand(0), d + 1), b = eval(I->getOperand(1), d + 1);
        if (!a.k || !b.k) return r;
        bool q;
        switch (I->getPredicate()) {
        case CmpInst::ICMP_EQ: q = a.v == b.v; break; case CmpInst::ICMP_NE: q = a.v != b.v; break;
        case CmpInst::ICMP_ULT: q = (uint64_t)a.v < (uint64_t)b.v; break; case CmpInst::ICMP_UGT: q = (uint64_t)a.v > (uint64_t)b.v; break;
        case CmpInst::ICMP_ULE: q = (uint64_t)a.v <= (uint64_t)b.v; break; case CmpInst::ICMP_UGE: q = (uint64_t)a.v >= (uint64_t)b.v; break;
        case CmpInst::ICMP_SLT: q = a.v < b.v; break; case CmpInst::ICMP_SGT: q = a.v > b.v; break;
        case CmpInst::ICMP_SLE: q = a.v <= b.v; break; case CmpInst::ICMP_SGE: q = a.v >= b.v; break;
        default: return r;
        }
        return {true, q ? -1 : 0};
      }
      if (auto *S = dyn_cast<SelectInst>(V)) { Val c = eval(S->getCondition(), d + 1); if (c.k) return eval(c.v ? S->getTrueValue() : S->getFalseValue(), d + 1); return r; }
      if (auto *X = dyn_cast<CastInst>(V)) { Val c = eval(X->getOperand(0), d + 1); if (c.k && isa<ZExtInst>(X) && X->getSrcTy()->isIntegerTy(1)) c.v = c.v ? 1 : 0; return c; }
      if (auto *B = dyn_cast<BinaryOperator>(V)) {
        Val a = eval(B->getOperand(0), d + 1), b = eval(B->getOperand(1), d + 1);
        if (B->getOpcode() == Instruction::And) { if ((a.k && !a.v) || (b.k && !b.v)) return {true, 0}; if (a.k && b.k) return {true, a.v & b.v}; }
        if (B->getOpcode() == Instruction::Or) { if ((a.k && a.v) || (b.k && b.v)) return {true, -1}; if (a.k && b.k) return {true, a.v | b.v}; }
        if (B->getOpcode() == Instruction::Xor && a.k && b.k) return {true, a.v ^ b.v};
        return r;
      }
      if (auto *P = dyn_cast<PHINode>(V)) {
        bool first = true; Val x;
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (!edges.count({P->getIncomingBlock(i), P->getParent()})) continue;
          Val y = eval(P->getIncomingValue(i), d + 1); if (!y.k) return r; if (first) { x = y; first = false; } else if (x.v != y.v) return r; }
        return first ? r : x;
      }
      return r;
    }
    unsigned need = 0; // bits to release
    unsigned released(const CallBase *CB) {
      const Function *G = calleeOf(CB); if (!G || !releaser(cname(G))) return 0;
      unsigned m = 0;
      for (const Value *A : CB->args()) { if (!A->getType()->isPointerTy()) continue;
        const Value *B = A->stripPointerCasts();
        if (isResult(B) || resultMem(B)) m |= cname(G) == "ap_environment_free" ? 2 : cname(G) == "ap_abstract0_free" ? 1 : 3; }
      return m;
    }
  };
  static bool fromArg(const Value *P, const DataLayout &DL, int d = 0) {
    int64_t o; P = stripOffset(P->stripPointerCasts(), DL, o);
    if (auto *G = dyn_cast<GEPOperator>(P)) return fromArg(G->getPointerOperand(), DL, d + 1);
    if (isa<Argument>(P)) return true;
    if (d > 6) return false;
    if (auto *L = dyn_cast<LoadInst>(P)) return fromArg(L->getPointerOperand(), DL, d + 1);
    if (auto *X = dyn_cast<PHINode>(P)) { for (auto &v : X->incoming_values()) if (v.get() != X && fromArg(v.get(), DL, d + 1)) return true; }
    return false;
  }
  // object location (argument + constant offset) a pointer designates
  static bool objLoc(const Value *P, const DataLayout &DL, const Argument *&A, int64_t &o) { const Value *B = stripOffset(P->stripPointerCasts(), DL, o); A = dyn_cast<Argument>(B); return A != nullptr; }

  void analyse(Function &F, const std::string &disp, bool ctor) {
    std::string n = disp; std::map<std::string, int> nth;
    std::vector<CallBase *> calls;
    for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = calleeOf(CB)) if (fallible(G)) calls.push_back(CB);
    for (CallBase *C : calls) {
      auto *G = calleeOf(C); std::string cn = G->getName().str(); int k = ++nth[cn]; std::string key = k == 1 ? cn : cn + "#" + std::to_string(k);
      tally("fallible_calls");
      auto sig = signatureOf(*G); std::string rt = sig.empty() ? "" : typeName(sig[0]);
      unsigned need = 0;
      if (rt == "ap_abstract1_t") need = 3; else if (rt == "ap_abstract0_t*") need = 1; else if (rt == "ap_interval_t*" || rt == "ap_interval_t**" || rt == "ap_box1_t" || StringRef(rt).ends_with("_array_t") || rt == "ap_linexpr0_t*") need = 3;
      bool destr = false; // in-place: ap_..(man,true,a,..)
      for (unsigned i = 0; i + 1 < C->arg_size() && i < 3; i++) if (auto *b = dyn_cast<ConstantInt>(C->getArgOperand(i))) if (C->getArgOperand(i)->getType()->isIntegerTy(1) && b->isOne()) destr = true;
      std::string fl; unsigned ln; locOf(C, fl, ln);
      bool okChecked = true, okRel = true, okKeep = true; std::string badK, keepWhy; const Instruction *keepAt = nullptr;
      for (auto &kp : kinds) {
        if (kp.first == none || kp.second.find("SIZE") != std::string::npos) continue;
        Run R(*this, C, kp.first);
        // forward from the instruction after C; exclog cleared => assumption no longer needed once cleared
        std::map<const BasicBlock *, unsigned> in; std::vector<const BasicBlock *> work;
        bool returned = false, threwUnreleased = false, threw = false;
        auto scan = [&](const BasicBlock *B, BasicBlock::const_iterator it, unsigned m) {
          for (; it != B->end(); ++it) {
            const Instruction *I = &*it;
            if (auto *CB = dyn_cast<CallBase>(I)) {
              auto *H = calleeOf(CB);
              if (H && H->getName() == "__cxa_throw") {
                threw = true; if ((m & need) != need) threwUnreleased = true;
                return; }
              m |= R.released(CB);
              if (H && releaser(cname(H)) && !R.released(CB)) {
                for (const Value *A : CB->args()) if (A->getType()->isPointerTy() && typeName(T.pointee(A)) != "ap_manager_t" && cname(H) != "ap_manager_free" && fromArg(A, T.DL)) { if (okKeep) { okKeep = false; keepAt = I; keepWhy = "releases the old value of an argument (" + H->getName().str() + ")"; } }
              }
              if (CB->hasFnAttr(Attribute::NoReturn)) return;
            } else if (auto *S = dyn_cast<StoreInst>(I)) {
              if (!ctor && !destr && fromArg(S->getPointerOperand(), T.DL) && R.isResult(S->getValueOperand())) { if (okKeep) { okKeep = false; keepAt = I; keepWhy = "assigns the result to an argument"; } }
            } else if (auto *MC = dyn_cast<MemCpyInst>(I)) {
              if (!ctor && !destr && fromArg(MC->getDest(), T.DL) && R.resultMem(MC->getSource())) { if (okKeep) { okKeep = false; keepAt = I; keepWhy = "assigns the result to an argument"; } }
            }
          }
          auto go = [&](const BasicBlock *S) { R.edges.insert({B, S}); auto f = in.find(S); if (f == in.end()) { in[S] = m; work.push_back(S); } else if ((f->second & m) != f->second) { f->second &= m; work.push_back(S); } else { /* new edge may change phis */ } };
          auto *Tm = B->getTerminator();
          if (isa<ReturnInst>(Tm)) { returned = true; return; }
          if (auto *II = dyn_cast<InvokeInst>(Tm)) { go(II->getNormalDest()); return; }
          if (auto *Br = dyn_cast<BranchInst>(Tm)) { if (Br->isConditional()) { auto v = R.eval(Br->getCondition()); if (v.k) { go(Br->getSuccessor(v.v ? 0 : 1)); return; } } for (auto *S : successors(B)) go(S); return; }
          if (auto *Sw = dyn_cast<SwitchInst>(Tm)) { auto v = R.eval(Sw->getCondition()); if (v.k) { const BasicBlock *D = Sw->getDefaultDest(); for (auto &c : Sw->cases()) if (c.getCaseValue()->getSExtValue() == v.v) D = c.getCaseSuccessor(); go(D); return; } for (auto *S : successors(B)) go(S); return; }
        };
        if (auto *II = dyn_cast<InvokeInst>(C)) { R.edges.insert({C->getParent(), II->getNormalDest()}); in[II->getNormalDest()] = 0; work.push_back(II->getNormalDest()); }
        else scan(C->getParent(), std::next(C->getIterator()), 0);
        while (!work.empty()) { auto *B = work.back(); work.pop_back(); scan(B, B->begin(), in[B]); }
        if (returned) { okChecked = false; if (!badK.empty()) badK += ", "; badK += kp.second; }
        if (threw && threwUnreleased && !destr) okRel = false;
        if (threw && threwUnreleased && destr) {}
      }
      emitObligation("exception-checked", n, key, okChecked);
      if (!okChecked) emitFindingAt("exception-checked", n, fl, ln, key, n + ": after " + cn + " fails with " + badK + " a path returns normally without throwing");
      if (okChecked) {
        if (need) { emitObligation("result-released", n, key, okRel); if (!okRel) emitFindingAt("result-released", n, fl, ln, key, n + ": the value returned by the failed " + cn + " is not released before the exception is thrown"); }
        emitObligation("old-value-kept", n, key, okKeep);
        if (!okKeep) { std::string f2; unsigned l2; locOf(keepAt, f2, l2); emitFindingAt("old-value-kept", n, f2, l2, key, n + ": after the failed " + cn + " it " + keepWhy + " before it throws"); }
      }
    }
    if (calls.empty()) return;
    // a value released from an argument is not followed by anything that may throw
    for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = calleeOf(CB)) {
      if (!(cname(G) == "ap_abstract0_free" || cname(G) == "ap_abstract1_clear" || cname(G) == "ap_abstract1_free")) continue;
      const Value *V = CB->getArgOperand(1)->stripPointerCasts(); const Argument *A; int64_t o; bool old = false;
      if (auto *L = dyn_cast<LoadInst>(V)) old = objLoc(L->getPointerOperand(), T.DL, A, o) && A->getType()->isPointerTy();
      else old = objLoc(V, T.DL, A, o);
      if (!old) continue;
      { // handed in for release on failure (manager::raise): an argument of the constructor/raise, not the object
        auto *S2 = CB->getDebugLoc() ? dyn_cast_or_null<DISubprogram>(CB->getDebugLoc()->getScope()->getSubprogram()) : nullptr;
        if (S2 && S2->getName() == "raise") continue;
      }
      std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w; const Instruction *bad = nullptr;
      auto scan = [&](const BasicBlock *B, BasicBlock::const_iterator it) {
        for (; it != B->end(); ++it) if (auto *D = dyn_cast<CallBase>(&*it)) { auto *H = calleeOf(D); if (H && (H->getName() == "__cxa_throw" || fallible(H))) { if (!bad) bad = D; return; } }
        auto *Tm = B->getTerminator();
        if (auto *II = dyn_cast<InvokeInst>(Tm)) { if (seen.insert(II->getNormalDest()).second) w.push_back(II->getNormalDest()); return; }
        for (auto *S : successors(B)) if (seen.insert(S).second) w.push_back(S);
      };
      scan(CB->getParent(), std::next(CB->getIterator()));
      while (!w.empty() && !bad) { auto *B = w.back(); w.pop_back(); scan(B, B->begin()); }
      int k = ++nth["rel" + G->getName().str()]; std::string key = G->getName().str() + "#" + std::to_string(k);
      emitObligation("release-last", n, key, !bad);
      if (bad) { std::string f, f2; unsigned l, l2; locOf(CB, f, l); locOf(bad, f2, l2); emitFindingAt("release-last", n, f, l, key, n + ": the object's old value is released before an operation that may fail (line " + std::to_string(l2) + "): on failure the object keeps a released value"); }
    }
  }
};
std::string display(const Function &F) {
  auto *S = F.getSubprogram(); std::string n = S ? S->getName().str() : F.getName().str();
  std::string sc; if (S) for (const DIScope *c = S->getScope(); c; c = c->getScope()) { if (isa<DIFile>(c) || isa<DICompileUnit>(c)) break; if (!c->getName().empty() && c->getName() != "apron") sc = c->getName().str() + "::" + sc; }
  std::string a; auto sig = signatureOf(F); for (unsigned i = 1; i < sig.size(); i++) { if (auto *D = dyn_cast_or_null<DIDerivedType>(sig[i])) if (D->isArtificial()) continue; std::string t = typeName(sig[i]); a += (a.empty() ? "" : ",") + t; }
  return sc + n + "(" + a + ")";
}
}
int runWrap(std::vector<std::string> args) {
  LLVMContext Ctx; auto M = loadModule(args[0], Ctx);
  promote(*M);
  std::vector<Function *> fs;
  for (Function &F : *M) { if (F.isDeclaration() || !F.getName().starts_with("_ZN") || !F.getSubprogram()) continue; if (F.getSubprogram()->getFilename().contains("apxx_")) fs.push_back(&F); }
  std::set<const Function *> lib(fs.begin(), fs.end());
  auto isLib = [&](const Function &G) { return G.getName().starts_with("_Z") && !G.getName().starts_with("_ZNS") && !G.getName().starts_with("_ZS") && G.getSubprogram() && G.getSubprogram()->getFilename().contains("apxx_") ; };
  { Wrap W0(*M); // inline helpers only where a library call is involved
    std::set<const Function *> tgt;
    for (Function *F : fs) { bool has = false; for (Instruction &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = calleeOf(CB)) if (W0.fallible(G) || cname(G) == "ap_abstract0_free" || cname(G) == "ap_abstract1_clear") has = true; if (has) tgt.insert(F); }
    fs.erase(std::remove_if(fs.begin(), fs.end(), [&](Function *F) { return !tgt.count(F); }), fs.end());
  }
  std::set<const Function *> orig(fs.begin(), fs.end());
  // callers of functions that return an unchecked result are covered by inlining them
  std::vector<Function *> clones; std::map<Function *, Function *> src;
  for (Function *F : fs) { inlineInto(*F, isLib); cleanup(*F); }
  Wrap W(*M);
  for (Function *F : fs) {
    StringRef nm = F->getName(); if (nm.contains("C1E") && M->getFunction((nm.substr(0, nm.find("C1E")) + "C2E" + nm.substr(nm.find("C1E") + 3)).str())) continue;
    tally("wrappers"); auto *S = F->getSubprogram();
    bool ctor = S && nm.contains("C2E");
    debugDump(*F);
    W.analyse(*F, display(*F), ctor);
  }
  return 0;
}
