// Ownership: what functions do with the storage their parameters point to (summaries), and a path exploration of one
// acquired resource at a time from its acquisition to the return.
#pragma once
#include "apa.h"
#include "cond.h"
#include "jni.h"
#include "slots.h"
struct Own {
  Module &M; Types &T; Jni J; Slots *S;
  Own(Module &M, Types &T, Slots *S) : M(M), T(T), J(T), S(S) {}
  enum { ESC = 1, REL = 2, RELP = 4, ACQ = 8, MUSTREL = 16, MUSTACQ = 32 };
  std::map<const Function *, std::vector<unsigned>> sum; std::map<const Function *, bool> fresh;
  std::set<std::string> acquireNames, releaseNames; // reference counting: functions that take and give back a reference
  static std::string base(std::string n) { auto p = n.rfind('.'); if (p != std::string::npos && p + 1 < n.size() && n.find_first_not_of("0123456789", p + 1) == std::string::npos) n.resize(p); return n; }
  static StringRef nm(const Function *G) { return G->getName(); }
  static const Function *callee(const CallBase *CB) { return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); }
  // what external functions do with their arguments
  static bool ext(StringRef n, unsigned k, unsigned &e) {
    e = 0;
    if (n == "free" || n == "mpfr_free_str") { e = k == 0 ? RELP | MUSTREL : 0; return true; }
    if (n == "realloc") { e = k == 0 ? RELP | MUSTREL : 0; return true; }
    if (n.starts_with("__gmp") || n.starts_with("mpfr_") || n.starts_with("__mpfr") || n.starts_with("__gmpfr")) {
      StringRef b = n; b.consume_front("__"); 
      if (b.contains("_clear") && !b.contains("flags") && !b.contains("underflow") && !b.contains("overflow") && !b.contains("inex") && !b.contains("erange") && !b.contains("nanflag")) { e = REL | MUSTREL; return true; }
      if (b.contains("_init") || b.contains("randinit")) { e = k == 0 ? ACQ | MUSTACQ : 0; return true; }
      if (b.contains("asprintf")) { e = k == 0 ? ACQ | MUSTACQ : 0; return true; }
      if (b.contains("_swap")) { e = 0; return true; }
      return true;
    }
    if (n == "asprintf" || n == "vasprintf") { e = k == 0 ? ACQ | MUSTACQ : 0; return true; }
    if (n.starts_with("llvm.")) return true;
    static const std::set<std::string> borrow{"printf", "fprintf", "snprintf", "sprintf", "vsnprintf", "vfprintf", "strlen", "strcmp", "strncmp", "strcpy", "strncpy", "strcat", "memcpy", "memmove", "memset", "memcmp", "qsort", "bsearch", "fputs", "puts", "fwrite", "fread", "fputc", "putchar", "putc", "strdup", "atoi", "atol", "strtol", "strtod", "fflush", "fclose", "abort", "exit", "__assert_fail", "perror", "sscanf", "fscanf", "memchr", "strchr", "strstr", "frexp", "modf", "bcopy", "bcmp", "bzero", "__isoc99_sscanf", "gettimeofday", "time", "clock", "fesetround", "pow", "sqrt"};
    if (borrow.count(n.str())) return true;
    e = ESC; return false;
  }
  static bool extFresh(StringRef n) { return n == "malloc" || n == "calloc" || n == "realloc" || n == "strdup" || n == "__gmpz_get_str" || n == "__gmpq_get_str" || n == "mpfr_get_str"; }
  static bool destructiveOp(StringRef o) { static const std::set<std::string> d{"MEET", "MEET_ARRAY", "JOIN", "JOIN_ARRAY", "ADD_RAY_ARRAY", "MEET_LINCONS_ARRAY", "MEET_TCONS_ARRAY", "ASSIGN_LINEXPR_ARRAY", "SUBSTITUTE_LINEXPR_ARRAY", "ASSIGN_TEXPR_ARRAY", "SUBSTITUTE_TEXPR_ARRAY", "ADD_DIMENSIONS", "REMOVE_DIMENSIONS", "PERMUTE_DIMENSIONS", "FORGET_ARRAY", "EXPAND", "FOLD", "CLOSURE"}; return d.count(o.str()); }
  static bool voidOp(StringRef o) { return o == "MINIMIZE" || o == "CANONICALIZE" || o == "APPROXIMATE" || o == "FPRINT" || o == "FPRINTDIFF" || o == "FDUMP" || o == "FREE"; }
  // effect of call CB on its pointer argument k
  unsigned effect(const CallBase *CB, unsigned k) {
    if (auto *G = callee(CB)) {
      std::string n = base(fnName(*G));
      if (releaseNames.count(n)) return k == 0 ? RELP | MUSTREL : 0;
      if (acquireNames.count(n)) return 0;
      if (StringRef(n).starts_with("ap_intlinearize_texpr0")) return 0;
      auto it = sum.find(G); if (it != sum.end()) { unsigned r = k < it->second.size() ? it->second[k] : (unsigned)ESC; if ((r & ACQ) && (n.find("_init_") != std::string::npos || StringRef(n).ends_with("_init"))) r &= ~(REL | MUSTREL); return r; }
      unsigned e; ext(nm(G), k, e); return e;
    }
    if (CB->isInlineAsm()) return 0;
    std::string s = J.slot(CB);
    if (!s.empty()) { StringRef r = s; if (r.starts_with("Release") && k == 2) return RELP | MUSTREL; if ((r.starts_with("Set") && r.ends_with("Field")) || r == "NewDirectByteBuffer") return k >= 3 ? ESC : 0; return 0; }
    const Value *b; int sl = S ? S->calledSlot(CB, b) : -1;
    if (sl == -2) { if (CB->arg_size() > 2 && k == 2 && CB->getArgOperand(1)->getType()->isIntegerTy(8)) { auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(1)); return c && c->isZero() ? 0 : ESC; } return 0; }
    if (sl >= 0) { std::string o = S->op(sl); if (o == "FREE") return k == 1 ? RELP | MUSTREL : 0; if (destructiveOp(o) && k == 2) { auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(1)); return c && c->isZero() ? 0 : ESC; } return 0; }
    return ESC;
  }
  // a non-destructive operation on abstract values
  static bool newValue(const CallBase *CB, const Function *G) {
    if (!CB->getType()->isPointerTy() || CB->arg_size() < 3 || !startsWith(fnName(*G), "ap_abstract0_")) return false; auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(1)); if (!c || !c->isZero() || !c->getType()->isIntegerTy(8)) return false;
    auto sig = signatureOf(*G); return !sig.empty() && sig[0] && typeName(sig[0]) == "ap_abstract0_t*";
  }
  bool returnsFresh(const CallBase *CB) {
    if (auto *G = callee(CB)) {
      if (newValue(CB, G)) return true; std::string n = base(fnName(*G)); if (acquireNames.count(n)) return true; if (StringRef(n).starts_with("ap_intlinearize_texpr0") && CB->getType()->isPointerTy()) return true; auto it = fresh.find(G); if (it != fresh.end()) return it->second; if (!G->isDeclaration() || !extFresh(nm(G))) return false; if (nm(G).contains("get_str")) { auto *a0 = CB->getArgOperand(0); return isa<ConstantPointerNull>(a0); } return true; }
    std::string s = J.slot(CB); StringRef r = s; if (r.starts_with("Get") && (r.ends_with("ArrayElements") || r == "GetStringUTFChars" || r == "GetStringChars")) return true;
    const Value *b; int sl = S ? S->calledSlot(CB, b) : -1; if (sl == -2) return CB->getType()->isPointerTy(); if (sl >= 0 && CB->getType()->isStructTy()) { std::string os = S->op(sl); StringRef o = os; return o.starts_with("TO_") && o.ends_with("_ARRAY"); } if (sl >= 0 && CB->getType()->isPointerTy()) { std::string o = S->op(sl); return o != "UNKNOWN" && !voidOp(o); }
    return false;
  }
  // ------------------------------------------------------------ summaries (insensitive to flow)
  // everything derived from parameter P: 0 pointers into what P points to, 1 values loaded from there
  void derive(const Value *P, std::map<const Value *, int> &d) {
    std::vector<const Value *> w{P}; d[P] = 0;
    while (!w.empty()) {
      auto *V = w.back(); w.pop_back(); int l = d[V];
      auto add = [&](const Value *X, int k) { auto it = d.find(X); if (it == d.end() || it->second > k) { d[X] = k; w.push_back(X); } };
      for (auto *U : V->users()) {
        if (isa<GetElementPtrInst>(U)) { if (cast<GetElementPtrInst>(U)->getPointerOperand() == V) add(U, l); }
        else if (isa<CastInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U) || isa<FreezeInst>(U)) { if (U->getType()->isPointerTy()) add(U, l); }
        else if (auto *L = dyn_cast<LoadInst>(U)) { if (L->getType()->isPointerTy()) add(L, 1); }
        else if (auto *St = dyn_cast<StoreInst>(U)) { if (St->getValueOperand() == V) if (auto *A = dyn_cast<AllocaInst>(getUnderlying(St->getPointerOperand()))) for (auto *UU : A->users()) if (auto *L = dyn_cast<LoadInst>(UU)) if (L->getType()->isPointerTy()) add(L, l); }
      }
    }
  }
  static const Value *getUnderlying(const Value *V) { for (int i = 0; i < 16; i++) { V = V->stripPointerCasts(); if (auto *G = dyn_cast<GEPOperator>(V)) V = G->getPointerOperand(); else break; } return V; }
  bool mustReach(const Instruction *I) { // on every path from the entry to a return, null tests and flags aside
    const Function *F = I->getFunction(); auto &DT = dom(*F);
    for (auto &B : *F) if (isa<ReturnInst>(B.getTerminator()) && !DT.dominates(I->getParent(), &B)) return false; return true;
  }
  std::map<const Function *, std::unique_ptr<DominatorTree>> doms;
  DominatorTree &dom(const Function &F) { auto &p = doms[&F]; if (!p) p = std::make_unique<DominatorTree>(const_cast<Function &>(F)); return *p; }
  unsigned paramEffect(const Function &G, unsigned k) {
    const Argument *P = G.getArg(k); if (!P->getType()->isPointerTy()) return P->getType()->isIntegerTy(64) ? 0 : 0;
    std::map<const Value *, int> d; derive(P, d); unsigned r = 0; bool mr = false, ma = false;
    for (auto &p : d) for (auto *U : p.first->users()) {
      const Value *V = p.first; int l = p.second;
      if (auto *St = dyn_cast<StoreInst>(U)) {
        if (St->getValueOperand() == V && l == 0) { auto *B = getUnderlying(St->getPointerOperand()); if (!isa<AllocaInst>(B)) r |= ESC; else for (auto *UU : B->users()) { if (auto *CB = dyn_cast<CallBase>(UU)) if (!isa<IntrinsicInst>(CB)) r |= ESC; if (isa<MemTransferInst>(UU)) r |= ESC; } }
        if (St->getPointerOperand() == V && l == 0 && St->getValueOperand()->getType()->isPointerTy() && freshValue(St->getValueOperand())) { r |= ACQ; ma |= mustReach(St); }
      } else if (isa<ReturnInst>(U)) { if (l == 0) r |= ESC; }
      else if (isa<InsertValueInst>(U) || isa<PtrToIntInst>(U)) { if (l == 0) { bool diff = false; if (isa<PtrToIntInst>(U)) { diff = true; for (auto *UU : U->users()) if (!isa<ICmpInst>(UU) && !(isa<BinaryOperator>(UU) && cast<BinaryOperator>(UU)->getOpcode() == Instruction::Sub)) diff = false; } if (!diff) r |= ESC; } }
      else if (auto *MT = dyn_cast<MemTransferInst>(U)) { if (MT->getRawDest() == V && l == 0 && P->hasStructRetAttr()) { auto *A = dyn_cast<AllocaInst>(getUnderlying(MT->getRawSource())); bool any = false; if (A && localFresh(A, any) && any) { r |= ACQ; ma |= mustReach(MT); } } }
      else if (auto *CB = dyn_cast<CallBase>(U)) for (unsigned a = 0; a < CB->arg_size(); a++) if (CB->getArgOperand(a) == V) {
        unsigned e = effect(CB, a);
        if (l == 0 && P->hasStructRetAttr() && CB->paramHasAttr(a, Attribute::StructRet)) for (unsigned b = 0; b < CB->arg_size(); b++) if (b != a && CB->getArgOperand(b)->getType()->isPointerTy() && (effect(CB, b) & ESC) && freshValue(CB->getArgOperand(b))) { r |= ACQ; ma |= mustReach(CB); }
        if (l == 0) { r |= e & (ESC | REL | ACQ); if (e & RELP) { int64_t off; auto *B = stripOffset(V, T.DL, off); r |= B == P || isa<PHINode>(B) || isa<SelectInst>(B) || isa<LoadInst>(B) ? RELP | REL : REL; } if (e & MUSTREL && (e & (REL | RELP))) mr |= mustReach(CB); if (e & MUSTACQ) ma |= mustReach(CB); }
        else { if (e & (REL | RELP)) { r |= REL; if (e & MUSTREL) mr |= mustReach(CB); } }
      }
    }
    if (mr) r |= MUSTREL; if (ma) r |= MUSTACQ;
    return r;
  }
  bool freshValue(const Value *V, int d = 0) {
    V = V->stripPointerCasts(); if (d > 6) return false;
    if (auto *CB = dyn_cast<CallBase>(V)) return returnsFresh(CB);
    if (auto *X = dyn_cast<ExtractValueInst>(V)) return freshValue(X->getAggregateOperand(), d + 1);
    if (auto *P = dyn_cast<PHINode>(V)) { bool any = false; for (auto &I : P->incoming_values()) { if (isa<ConstantPointerNull>(I) || isa<UndefValue>(I)) continue; if (I == P) continue; if (!freshValue(I, d + 1)) return false; any = true; } return any; }
    return false;
  }
  bool retFresh(const Function &G) {
    if (G.getReturnType()->isVoidTy() || G.isVarArg()) return false; bool any = false;
    bool agg = G.getReturnType()->isStructTy(); if (!agg && !G.getReturnType()->isPointerTy()) return false;
    for (auto &B : G) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) {
      std::vector<const Value *> w{R->getReturnValue()}; std::set<const Value *> seen;
      while (!w.empty()) {
        auto *V = w.back()->stripPointerCasts(); w.pop_back(); if (!seen.insert(V).second) continue;
        if (isa<ConstantPointerNull>(V) || isa<UndefValue>(V) || isa<ConstantAggregateZero>(V)) continue;
        if (auto *P = dyn_cast<PHINode>(V)) { for (auto &I : P->incoming_values()) w.push_back(I); continue; }
        if (auto *X = dyn_cast<SelectInst>(V)) { w.push_back(X->getTrueValue()); w.push_back(X->getFalseValue()); continue; }
        if (auto *I = dyn_cast<InsertValueInst>(V)) { w.push_back(I->getAggregateOperand()); if (I->getInsertedValueOperand()->getType()->isPointerTy()) w.push_back(I->getInsertedValueOperand()); continue; }
        if (auto *CB = dyn_cast<CallBase>(V)) { if (!returnsFresh(CB) || leaks(CB)) return false; any = true; continue; }
        if (auto *X = dyn_cast<ExtractValueInst>(V)) { w.push_back(X->getAggregateOperand()); continue; }
        if (auto *L = dyn_cast<LoadInst>(V)) { // result gathered in a local
          auto *A = dyn_cast<AllocaInst>(getUnderlying(L->getPointerOperand())); if (!A || !localFresh(A, any)) return false; continue; }
        return false;
      }
    }
    return any;
  }
  // constants G returns on paths that have not reached anything acquired through parameter k
  std::map<std::pair<const Function *, unsigned>, std::set<int64_t>> answers;
  const std::set<int64_t> &notAcquired(const Function &G, unsigned k) {
    auto key = std::make_pair(&G, k); auto it = answers.find(key); if (it != answers.end()) return it->second; auto &r = answers[key]; if (G.isDeclaration() || !G.getReturnType()->isIntegerTy()) return r;
    std::map<const Value *, int> d; derive(G.getArg(k), d); std::vector<const BasicBlock *> w; std::set<const BasicBlock *> after;
    for (auto &p : d) for (auto *U : p.first->users()) { bool a = false; if (auto *St = dyn_cast<StoreInst>(U)) a = St->getPointerOperand() == p.first && St->getValueOperand()->getType()->isPointerTy() && freshValue(St->getValueOperand()); else if (auto *CB = dyn_cast<CallBase>(U)) for (unsigned x = 0; x < CB->arg_size(); x++) if (CB->getArgOperand(x) == p.first && (effect(CB, x) & ACQ)) a = true; if (a) w.push_back(cast<Instruction>(U)->getParent()); }
    while (!w.empty()) { auto *B = w.back(); w.pop_back(); if (!after.insert(B).second) continue; for (auto *X : successors(B)) w.push_back(X); }
    std::set<const Value *> seen; std::function<void(const Value *, const BasicBlock *)> go = [&](const Value *V, const BasicBlock *from) { if (auto *P = dyn_cast<PHINode>(V)) { if (seen.insert(P).second) for (unsigned i = 0; i < P->getNumIncomingValues(); i++) go(P->getIncomingValue(i), P->getIncomingBlock(i)); return; } if (auto *C = dyn_cast<ConstantInt>(V)) if (!after.count(from)) r.insert(C->getSExtValue()); };
    for (auto &B : G) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) if (R->getReturnValue()) go(R->getReturnValue(), &B);
    return r;
  }
  // a null result of G: -1 never, -2 for reasons unknown, k only when parameter k is null
  std::map<const Function *, int> nulls;
  int nullResult(const Function &G) {
    auto it = nulls.find(&G); if (it != nulls.end()) return it->second; nulls[&G] = -2; int res = -1; if (G.isDeclaration() || !G.getReturnType()->isPointerTy()) return -2;
    auto &DT = dom(G); std::set<const Value *> seen;
    std::function<void(const Value *, const BasicBlock *)> go = [&](const Value *V, const BasicBlock *from) {
      V = V->stripPointerCasts(); if (res == -2) return;
      if (auto *P = dyn_cast<PHINode>(V)) { if (!seen.insert(P).second) return; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) go(P->getIncomingValue(i), P->getIncomingBlock(i)); return; }
      if (auto *CB = dyn_cast<CallBase>(V)) { auto *H = callee(CB); if (H && (H->isDeclaration() ? extFresh(nm(H)) : nullResult(*H) == -1)) return; res = -2; return; }
      if (!isa<ConstantPointerNull>(V)) { res = -2; return; }
      for (auto &B : G) if (auto *Br = dyn_cast<BranchInst>(B.getTerminator())) if (Br->isConditional()) if (auto *I = dyn_cast<ICmpInst>(Br->getCondition())) if (I->isEquality() && isa<ConstantPointerNull>(I->getOperand(1))) {
        auto *A = dyn_cast<Argument>(I->getOperand(0)); auto *MC = dyn_cast<CallBase>(I->getOperand(0)->stripPointerCasts()); bool oom = MC && callee(MC) && callee(MC)->isDeclaration() && extFresh(nm(callee(MC))); if (!A && !oom) continue; // a failed allocation does not count
        auto *X = Br->getSuccessor(I->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1); bool d = X == from ? X->getSinglePredecessor() != nullptr : DT.dominates(BasicBlockEdge(&B, X), from); if (&B == from) d = true;
        if (d) { if (oom) return; int k = A->getArgNo(); if (res == -1 || res == k) { res = k; return; } }
      }
      res = -2;
    };
    for (auto &B : G) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) go(R->getReturnValue(), &B);
    return nulls[&G] = res;
  }
  // a local aggregate whose pointers are all fresh
  bool localFresh(const AllocaInst *A, bool &any) {
    std::vector<const Value *> w{A}; std::set<const Value *> seen;
    while (!w.empty()) {
      auto *V = w.back(); w.pop_back(); if (!seen.insert(V).second) continue;
      for (auto *U : V->users()) {
        if (isa<GetElementPtrInst>(U) || isa<CastInst>(U)) w.push_back(U);
        else if (auto *St = dyn_cast<StoreInst>(U)) { if (St->getPointerOperand() != V) return false; auto *X = St->getValueOperand(); if (X->getType()->isPointerTy() && !isa<Constant>(X)) { if (!freshValue(X)) return false; any = true; } }
        else if (isa<MemTransferInst>(U)) { if (cast<MemTransferInst>(U)->getRawDest() == V) return false; }
        else if (auto *CB = dyn_cast<CallBase>(U)) { if (isa<IntrinsicInst>(CB)) continue; for (unsigned a = 0; a < CB->arg_size(); a++) if (CB->getArgOperand(a) == V) { unsigned e = effect(CB, a); if (e & ACQ) any = true; if (e & (ESC | REL | RELP)) return false; } }
      }
    }
    return true;
  }
  // the fresh value is also kept elsewhere
  bool leaks(const CallBase *CB) {
    std::map<const Value *, int> d; derive(CB, d);
    for (auto &p : d) if (p.second == 0) for (auto *U : p.first->users()) if (auto *St = dyn_cast<StoreInst>(U)) { if (St->getValueOperand() == p.first) { auto *B = getUnderlying(St->getPointerOperand()); if (!isa<AllocaInst>(B) && !(d.count(B) && d[B] == 0)) return true; } }
      else if (auto *C2 = dyn_cast<CallBase>(U)) { if (!isa<IntrinsicInst>(C2)) for (unsigned a = 0; a < C2->arg_size(); a++) if (C2->getArgOperand(a) == p.first && (effect(C2, a) & ESC)) return true; }
      else if (isa<PtrToIntInst>(U)) for (auto *UU : U->users()) if (auto *C2 = dyn_cast<CallBase>(UU)) if (!isa<IntrinsicInst>(C2)) return true;
    return false;
  }
  void summarise() {
    for (Function &G : M) if (!G.isDeclaration()) { sum[&G] = std::vector<unsigned>(G.arg_size(), 0); fresh[&G] = false; }
    for (int it = 0; it < 30; it++) {
      bool ch = false;
      for (Function &G : M) if (!G.isDeclaration()) {
        for (unsigned k = 0; k < G.arg_size(); k++) { unsigned e = paramEffect(G, k); if (e != sum[&G][k]) { sum[&G][k] = e; ch = true; } }
        bool f = retFresh(G); if (f != fresh[&G]) { fresh[&G] = f; ch = true; }
      }
      if (!ch) return;
    }
    tally("summaries_not_stable");
  }
};
