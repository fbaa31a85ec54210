// P20: every operation of a reduced product acts on each component, with the component's own
// manager, value and the same operation, combines the answers correctly, and collects the flags.
#include "apa.h"
#include "slots.h"
#include "cond.h"
#include "llvm/Analysis/LoopInfo.h"
#include <algorithm>
namespace {
struct Elem { const Value *base = nullptr; int64_t off = 0; const Value *idx = nullptr; int64_t cidx = 0; bool ok = false; };
struct Prod {
  Module &M; Types T; Slots S; int64_t oT = -1, oS = -1, oP = -1, oRes = -1, oEx = -1, oBe = -1, oLog = -1;
  Prod(Module &M) : M(M), T(M), S(M, T) {
    oT = off("ap_reducedproduct_internal_t", "tmanagers"); oS = off("ap_reducedproduct_internal_t", "size"); oP = off("ap_reducedproduct_t", "p");
    oRes = off("ap_manager_t", "result"); oEx = oRes + off("ap_result_t", "flag_exact"); oBe = oRes + off("ap_result_t", "flag_best"); oLog = oRes + off("ap_result_t", "exclog");
    if (oT < 0 || oS < 0 || oP < 0 || oRes < 0) { emitError("reduced product types not found"); exit(3); }
  }
  int64_t off(const char *t, const char *f) {
    auto *C = T.composite(t); if (!C) return -1;
    for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) if (D->getName() == f) return D->getOffsetInBits() / 8;
    return -1;
  }
  Elem elem(const Value *P) {
    Elem e; P = P->stripPointerCasts(); int64_t o = 0; const Value *idx = nullptr;
    while (auto *G = dyn_cast<GEPOperator>(P)) {
      MapVector<Value *, APInt> vars; APInt c(64, 0);
      if (!const_cast<GEPOperator *>(G)->collectOffset(T.DL, 64, vars, c)) return e;
      o += c.getSExtValue();
      for (auto &v : vars) { if (idx || v.second != 8) return e; idx = v.first; }
      P = G->getPointerOperand()->stripPointerCasts();
    }
    e.base = P; e.off = o; e.idx = idx; e.ok = true; return e;
  }
  bool isIntern(const Value *V) {
    if (auto *L = dyn_cast<LoadInst>(V->stripPointerCasts())) { const Value *b; std::string n; return T.fieldOf(L->getPointerOperand(), b, n) && n == "ap_manager_t.internal"; }
    return false;
  }
  // V is intern->tmanagers[i]
  bool manElem(const Value *V, Elem &e) {
    auto *L = dyn_cast<LoadInst>(V->stripPointerCasts()); if (!L) return false;
    e = elem(L->getPointerOperand()); if (!e.ok || !isIntern(e.base)) return false;
    if (e.idx) return e.off == oT;
    if (e.off < oT) return false;
    e.cidx = (e.off - oT) / 8; return true;
  }
  void roots(const Value *V, std::set<const Value *> &r, int d = 0) {
    V = V->stripPointerCasts(); if (d > 8) return;
    if (auto *P = dyn_cast<PHINode>(V)) { for (auto &x : P->incoming_values()) if (x.get() != P) roots(x.get(), r, d + 1); return; }
    if (auto *s = dyn_cast<SelectInst>(V)) { roots(s->getTrueValue(), r, d + 1); roots(s->getFalseValue(), r, d + 1); return; }
    r.insert(V);
  }
  bool isProd(const Value *V) { std::set<const Value *> r; roots(V, r); for (auto *x : r) { if (auto *A = dyn_cast<Argument>(x)) { if (typeName(T.pointee(A)) != "ap_reducedproduct_t") return false; } else if (isa<ConstantPointerNull>(x)) {} else if (auto *C = dyn_cast<CallBase>(x)) { auto *G = C->getCalledFunction(); if (!G || !(G->getName() == "malloc" || G->getName() == "calloc")) return false; } else if (auto *L = dyn_cast<LoadInst>(x)) { if (typeName(T.pointee(L)) != "ap_reducedproduct_t" && typeName(T.pointee(L->getPointerOperand())) != "ap_reducedproduct_t*") return false; } else return false; } return !r.empty(); }
  // V is x->p[i]
  bool valElem(const Value *V, Elem &e) { auto *L = dyn_cast<LoadInst>(V->stripPointerCasts()); return L && ptrElem(L->getPointerOperand(), e); }
  bool ptrElem(const Value *P, Elem &e) {
    e = elem(P); if (!e.ok || !isProd(e.base)) return false;
    if (e.idx) return e.off == oP;
    if (e.off < oP) return false;
    e.cidx = (e.off - oP) / 8; return true;
  }
  int calledSlot(const CallBase *CB, const Value *&base) {
    int k = S.calledSlot(CB, base); if (k != -1) return k;
    auto *L = dyn_cast<LoadInst>(CB->getCalledOperand()->stripPointerCasts()); if (!L) return -1;
    Elem e = elem(L->getPointerOperand()), m; if (!e.ok || !manElem(e.base, m)) return -1;
    base = e.base; if (e.off < (int64_t)S.off || e.off >= (int64_t)S.off + 8 * S.nslots) return -1;
    return e.idx ? -2 : (e.off - S.off) / 8;
  }
  static bool same(const Elem &a, const Elem &b) { if (a.idx || b.idx) return a.idx == b.idx; return a.cidx == b.cidx; }
  // a loop over all the components: its index value(s)
  bool fullLoop(const Loop *L, std::set<const Value *> &index) {
    if (!L) return false;
    auto *H = L->getHeader();
    auto isSize = [&](const Value *V) { if (auto *X = dyn_cast<LoadInst>(V)) { Elem e = elem(X->getPointerOperand()); return e.ok && !e.idx && e.off == oS && isIntern(e.base); } return false; };
    for (const PHINode &P : H->phis()) {
      const Value *init = nullptr, *next = nullptr; bool bad = false;
      for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
        if (L->contains(P.getIncomingBlock(i))) { if (next && next != P.getIncomingValue(i)) bad = true; next = P.getIncomingValue(i); } else { if (init && init != P.getIncomingValue(i)) bad = true; init = P.getIncomingValue(i); }
      }
      if (bad || !init || !next) continue;
      auto *B = dyn_cast<BinaryOperator>(next); auto *c = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr;
      if (!B || !c || B->getOperand(0) != &P) continue;
      int64_t step = B->getOpcode() == Instruction::Add ? c->getSExtValue() : B->getOpcode() == Instruction::Sub ? -c->getSExtValue() : 0;
      auto *c0 = dyn_cast<ConstantInt>(init);
      for (auto *BB : L->blocks()) {
        auto *Br = dyn_cast<BranchInst>(BB->getTerminator()); if (!Br || !Br->isConditional()) continue;
        bool t = L->contains(Br->getSuccessor(0)), f = L->contains(Br->getSuccessor(1)); if (t == f) continue;
        auto *C = dyn_cast<ICmpInst>(Br->getCondition()); if (!C) continue;
        auto pred = t ? C->getPredicate() : C->getInversePredicate(); const Value *a = C->getOperand(0), *b = C->getOperand(1);
        if (isSize(a) || (isa<ConstantInt>(a))) { std::swap(a, b); pred = CmpInst::getSwappedPredicate(pred); }
        if (step == 1 && c0 && c0->isZero() && BB == H && a == &P && isSize(b) && (pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_NE || pred == CmpInst::ICMP_SLT)) { index = {&P}; return true; }
        if (step == 1 && c0 && c0->isZero() && BB != H && a == next && isSize(b) && (pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_NE || pred == CmpInst::ICMP_SLT)) { index = {&P}; return true; }
        auto *k = dyn_cast<ConstantInt>(b);
        if (step == -1 && k && k->isZero() && BB == H && a == &P && isSize(init) && (pred == CmpInst::ICMP_UGT || pred == CmpInst::ICMP_NE || pred == CmpInst::ICMP_SGT)) { index = {next}; return true; }
      }
    }
    return false;
  }
  bool countedExit(const Loop *L, const BasicBlock *from, const BasicBlock *to) {
    auto *Br = dyn_cast<BranchInst>(from->getTerminator()); if (!Br || !Br->isConditional()) return false;
    auto *C = dyn_cast<ICmpInst>(Br->getCondition()); if (!C) return false;
    auto isSize = [&](const Value *V) { if (auto *X = dyn_cast<LoadInst>(V)) { Elem e = elem(X->getPointerOperand()); return e.ok && !e.idx && e.off == oS && isIntern(e.base); } return false; };
    return isSize(C->getOperand(0)) || isSize(C->getOperand(1)) || (isa<ConstantInt>(C->getOperand(1)) && isa<PHINode>(C->getOperand(0)) && cast<PHINode>(C->getOperand(0))->getParent() == L->getHeader());
  }
  void analyse(Function &F, const std::set<int> &slots);
};
static std::string scopeName(const Instruction *I, const Function &F) {
  if (I->getDebugLoc()) if (auto *S = dyn_cast_or_null<DISubprogram>(I->getDebugLoc()->getScope()->getSubprogram())) return S->getName().str();
  return fnName(F);
}
const std::set<std::string> ORS = {"IS_BOTTOM", "SAT_INTERVAL", "SAT_LINCONS", "SAT_TCONS"}, ANDS = {"IS_TOP", "IS_LEQ", "IS_EQ", "IS_DIMENSION_UNCONSTRAINED"};
const std::set<std::string> AUX = {"IS_BOTTOM", "BOTTOM", "FREE", "DIMENSION"};
const std::set<std::string> NOFLAGS = {"FREE", "DIMENSION", "ASIZE", "COPY", "FPRINT", "FPRINTDIFF", "FDUMP", "SERIALIZE_RAW", "DESERIALIZE_RAW", "HASH"};

void Prod::analyse(Function &F, const std::set<int> &slots) {
  std::string n = fnName(F); DominatorTree DT(F); LoopInfo LI(DT);
  std::string op = S.op(*slots.begin());
  auto fl = [&](const Instruction *I, const std::string &rule, const std::string &key, const std::string &msg) { std::string f; unsigned l; locOf(I, f, l); emitFindingAt(rule, n, f, l, key, n + " (" + op + "): " + msg); };
  struct Disp { CallBase *CB; int slot; Elem man; };
  std::vector<Disp> all; std::vector<CallBase *> mains; std::map<std::string, int> nth; bool callback = false;
  for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
    if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) { if (G->getName() == "ap_manager_raise_exception") callback = true; continue; }
    if (CB->isInlineAsm()) continue;
    const Value *b = nullptr; int k = calledSlot(CB, b);
    if (k == -1) { if (auto *L = dyn_cast<LoadInst>(CB->getCalledOperand()->stripPointerCasts())) { Elem e = elem(L->getPointerOperand()); if (e.ok && isIntern(e.base)) callback = true; } continue; }
    std::string ks = k < 0 ? "?" : S.op(k); int no = ++nth[ks]; std::string key = ks + "#" + std::to_string(no);
    tally("dispatches");
    bool own = slots.count(k);
    // which operation
    bool okOp = own || AUX.count(ks);
    emitObligation("same-operation", n, key, okOp);
    if (!okOp) fl(CB, "same-operation", key, "calls operation " + ks + " of a component");
    // whose manager
    Elem me; bool okMan = manElem(b, me); const Value *passed = nullptr;
    for (const Value *A : CB->args()) if (A->getType()->isPointerTy()) { Elem x; if (A->stripPointerCasts() == b->stripPointerCasts()) passed = A; else if (manElem(A, x)) { if (okMan && same(x, me)) passed = A; else okMan = false; } }
    if (!passed) okMan = false;
    emitObligation("component-manager", n, key, okMan);
    if (!okMan) fl(CB, "component-manager", key, "operation " + ks + " is taken from one manager and called with another, or not from the component's manager");
    if (!okMan) continue;
    // whose value
    bool okVal = true; unsigned vals = 0;
    std::function<void(const Value *, int)> chk = [&](const Value *A, int d) {
      Elem ve; A = A->stripPointerCasts();
      if (auto *P = dyn_cast<PHINode>(A)) { if (d < 3) for (auto &x : P->incoming_values()) if (x.get() != P) chk(x.get(), d + 1); return; }
      if (auto *s = dyn_cast<SelectInst>(A)) { if (d < 3) { chk(s->getTrueValue(), d + 1); chk(s->getFalseValue(), d + 1); } return; }
      if (valElem(A, ve)) { vals++; if (!same(ve, me)) okVal = false; }
      else if (auto *C = dyn_cast<CallBase>(A)) { const Value *b2; int k2 = calledSlot(C, b2); if (k2 != -1) { vals++; Elem m2; if (!manElem(b2, m2) || !same(m2, me)) okVal = false; } }
    };
    for (const Value *A : CB->args()) if (A->getType()->isPointerTy() && A != passed) chk(A, 0);
    emitObligation("component-value", n, key, okVal);
    if (!okVal) fl(CB, "component-value", key, "operation " + ks + " of one component's manager is given the value of another component");
    all.push_back({CB, k, me}); if (own) mains.push_back(CB);
  }
  if (mains.empty()) {
    if (op == "TO_GENERATOR_ARRAY" || op == "APPROXIMATE" || callback) { bool ok = callback; emitObligation("every-component", n, op, ok); if (!ok) fl(&*F.getEntryBlock().begin(), "every-component", op, "neither calls the operation of a component nor raises an exception"); }
    else { emitObligation("every-component", n, op, false); fl(&*F.getEntryBlock().begin(), "every-component", op, "does not call operation " + op + " of the components"); }
    return;
  }
  if (op == "DIMENSION") { emitObligation("every-component", n, op, true); return; }
  // the loop over the components
  std::set<const BasicBlock *> mainBlocks; const Loop *L = nullptr; bool okLoop = true;
  for (auto *D : mains) { // the innermost loop around the call that runs over all the components
    mainBlocks.insert(D->getParent()); const Loop *l = LI.getLoopFor(D->getParent()); std::set<const Value *> ix; Elem me; const Value *b; calledSlot(D, b);
    while (l && !fullLoop(l, ix)) l = l->getParentLoop();
    if (!l || !manElem(b, me) || !ix.count(me.idx)) { okLoop = false; continue; }
    if (L && L != l) okLoop = false;
    L = l;
  }
  if (L && okLoop) { // on every iteration
    Cond c; const BasicBlock *H = L->getHeader(); auto *latchOK = H;
    c.explore(H, [&](const BasicBlock *B) { return mainBlocks.count(B) || !L->contains(B) || B == latchOK; });
    for (auto &e : c.edges) if (e.second == H && !mainBlocks.count(H)) okLoop = false;
  }
  emitObligation("every-component", n, op, okLoop && L);
  if (!okLoop || !L) { fl(mains[0], "every-component", op, "operation " + op + " is not called once for every component (loop over all components not found, or an iteration may skip it)"); return; }
  std::set<const Value *> ix; fullLoop(L, ix);
  // arguments
  for (auto *D : mains) {
    bool ok = D->arg_size() == F.arg_size(); std::string why; std::string key = op + "@" + std::to_string(&D - &mains[0]);
    key = op;
    if (ok) for (unsigned i = 0; i < F.arg_size(); i++) {
      const Argument *A = F.getArg(i); const Value *V = D->getArgOperand(i)->stripPointerCasts();
      std::string tn; 
      const DIType *P = A->getType()->isPointerTy() ? T.pointee(A) : nullptr; tn = P ? typeName(P) : "";
      if (A->hasStructRetAttr() || (i == 0 && F.hasStructRetAttr())) continue;
      if (tn == "ap_manager_t") continue;
      if (tn == "ap_reducedproduct_t") {
        std::set<const Value *> r; roots(V, r); bool any = false;
        for (auto *x : r) { Elem e; if (isa<ConstantPointerNull>(x)) continue; std::set<const Value *> rr; if (valElem(x, e)) { roots(e.base, rr); if (rr.count(A) ) any = true; else { ok = false; why = "argument " + std::to_string(i) + " is not the component of the corresponding argument"; } } else { ok = false; why = "argument " + std::to_string(i) + " is not a component of the corresponding argument"; } }
        if (ok && !any) { ok = false; why = "argument " + std::to_string(i) + " is not a component of the corresponding argument"; }
        if (ok && any && r.size() > 1) { // absent only when the argument is absent
          Cond c; c.leaf = [&](const Value *X) { return X == A ? Cond::known(1) : Cond::Val(); };
          if (V == A) {} c.explore(&F.getEntryBlock());
          if (auto *PN = dyn_cast<PHINode>(V)) for (unsigned j = 0; j < PN->getNumIncomingValues(); j++) if (isa<ConstantPointerNull>(PN->getIncomingValue(j)) && c.edges.count({PN->getIncomingBlock(j), PN->getParent()})) { ok = false; why = "the optional argument " + std::to_string(i) + " is not handed to the component"; }
          if (auto *SI = dyn_cast<SelectInst>(V)) { auto v = c.eval(SI->getCondition()); if (!v.k || isa<ConstantPointerNull>(v.v ? SI->getTrueValue() : SI->getFalseValue())) { ok = false; why = "the optional argument " + std::to_string(i) + " is not handed to the component"; } }
        }
      } else if (tn == "ap_reducedproduct_t*") { // array: a buffer filled with tab[j]->p[i]
        bool filled = false, badIdx = false; Elem me; const Value *b; calledSlot(D, b); manElem(b, me);
        for (auto *U : V->users()) if (auto *G = dyn_cast<GEPOperator>(U)) for (auto *U2 : G->users()) if (auto *st = dyn_cast<StoreInst>(U2)) if (st->getPointerOperand() == G) {
          Elem e; auto *ld = dyn_cast<LoadInst>(st->getValueOperand()); if (!ld) continue; e = elem(ld->getPointerOperand()); if (!e.ok) continue;
          auto *tb = dyn_cast<LoadInst>(e.base->stripPointerCasts()); if (!tb) continue; Elem te = elem(tb->getPointerOperand());
          if (e.off == oP && te.ok && te.base == A) { if (!(e.idx && me.idx && e.idx == me.idx)) badIdx = true; else { Elem be = elem(G); if (be.idx == te.idx) filled = true; else badIdx = true; } } }
        if (!filled || badIdx) { ok = false; why = "the array handed to the component does not hold the components of the corresponding arguments"; }
      } else if (op == "DESERIALIZE_RAW") continue;
      else { std::set<const Value *> r; const Value *X = V; while (auto *C = dyn_cast<CastInst>(X)) X = C->getOperand(0); if (X != A) { ok = false; why = "argument " + std::to_string(i) + " is not the product operation's own argument"; } }
    } else why = "another number of arguments";
    emitObligation("same-arguments", n, key, ok);
    if (!ok) fl(D, "same-arguments", key, why);
  }
  bool retProd = false; auto sig = signatureOf(F); if (!sig.empty() && sig[0]) retProd = typeName(sig[0]) == "ap_reducedproduct_t*";
  // the answer
  std::vector<const ReturnInst *> rets; for (auto &B : F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) rets.push_back(R);
  if (retProd) {
    std::set<const Value *> rr; for (auto *R : rets) if (R->getReturnValue()) roots(R->getReturnValue(), rr);
    for (auto *D : mains) {
      bool ok = false; Elem me; const Value *b; calledSlot(D, b); manElem(b, me);
      for (auto *U : D->users()) if (auto *st = dyn_cast<StoreInst>(U)) { Elem e; if (st->getValueOperand() == D && ptrElem(st->getPointerOperand(), e) && same(e, me)) { std::set<const Value *> br; roots(e.base, br); bool sub = true; for (auto *x : br) if (!rr.count(x)) sub = false; if (sub && DT.dominates(D, st)) ok = true; } }
      emitObligation("result-stored", n, op, ok);
      if (!ok) fl(D, "result-stored", op, "the component's result does not become the same component of the value returned");
    }
  }
  bool isOr = ORS.count(op), isAnd = ANDS.count(op);
  std::vector<const CallBase *> tests; // bottom tests in the loop
  for (auto *B : L->blocks()) for (const Instruction &I : *B) if (auto *CB = dyn_cast<CallBase>(&I)) {
    if (auto *G = CB->getCalledFunction()) { if (G->getName() == "ap_interval_is_bottom") tests.push_back(CB); continue; }
    const Value *b; int k = calledSlot(CB, b); if (k >= 0 && S.op(k) == "IS_BOTTOM" && !slots.count(k)) tests.push_back(CB);
  }
  const BasicBlock *H = L->getHeader();
  if (isOr || isAnd) {
    int64_t dom = isOr ? 1 : 0; bool ok = true; std::string why; std::set<const Value *> ms(mains.begin(), mains.end());
    std::vector<const PHINode *> hp; for (const PHINode &P : H->phis()) if (P.getType()->isIntegerTy() && !ix.count(&P)) hp.push_back(&P);
    auto retOK = [&](Cond &c, int64_t want) { for (auto *R : rets) if (c.reach.count(R->getParent())) { auto v = c.eval(R->getReturnValue()); if (!v.k || (v.v != 0) != (want != 0)) return false; } return true; };
    auto isMain = [&](const Value *V) { return ms.count(V) > 0; };
    auto carried = [&](const PHINode *P) { Cond c; c.leaf = [&](const Value *V) { return V == P ? Cond::known(dom) : Cond::Val(); }; c.explore(H, [&](const BasicBlock *B) { return B == H; });
      if (!retOK(c, dom)) return false; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (L->contains(P->getIncomingBlock(i)) && c.edges.count({P->getIncomingBlock(i), H})) { auto v = c.eval(P->getIncomingValue(i)); if (!v.k || (v.v != 0) != (dom != 0)) return false; } return true; };
    for (auto *D : mains) {
      Cond c; c.leaf = [&](const Value *V) { return V == D ? Cond::known(dom) : Cond::Val(); };
      // as if D had just answered with the deciding value
      std::set<const BasicBlock *> stopH{H};
      c.explore(D->getParent(), [&](const BasicBlock *B) { return B == H; });
      if (!retOK(c, dom)) { ok = false; why = "when a component answers " + std::string(dom ? "true" : "false") + " the product may answer otherwise"; }
      bool back = false; for (auto &e : c.edges) if (e.second == H) back = true;
      if (ok && back) { bool some = false; for (auto *P : hp) { bool all = true; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (L->contains(P->getIncomingBlock(i)) && c.edges.count({P->getIncomingBlock(i), H})) { auto v = c.eval(P->getIncomingValue(i)); if (!v.k || (v.v != 0) != (dom != 0)) all = false; } if (all && carried(P)) some = true; }
        if (!some) { ok = false; why = "when a component answers " + std::string(dom ? "true" : "false") + " the product may answer otherwise"; } }
    }
    if (ok) { // all answer the other way
      Cond c; c.leaf = [&](const Value *V) { return isMain(V) ? Cond::known(!dom) : Cond::Val(); }; c.explore(&F.getEntryBlock());
      if (!retOK(c, !dom)) { ok = false; why = "when every component answers " + std::string(dom ? "false" : "true") + " the product may answer otherwise"; }
      for (auto *B : L->blocks()) for (auto *Sx : successors(B)) if (!L->contains(Sx) && c.edges.count({B, Sx}) && !countedExit(L, B, Sx)) { ok = false; why = "the loop over the components is left before one of them decided"; }
    }
    emitObligation("answers-combined", n, op, ok);
    if (!ok) fl(mains[0], "answers-combined", op, why);
  } else {
    Cond c; c.leaf = [&](const Value *V) { return std::find(tests.begin(), tests.end(), V) != tests.end() ? Cond::known(0) : Cond::Val(); };
    c.explore(&F.getEntryBlock()); bool ok = true; const Instruction *at = nullptr;
    for (auto *B : L->blocks()) for (auto *Sx : successors(B)) if (!L->contains(Sx) && c.edges.count({B, Sx}) && !countedExit(L, B, Sx) && !isa<UnreachableInst>(Sx->getTerminator())) {
      // an inner early exit that leads out only after a bottom interval was found is fine when it depends on a test in an inner loop
      bool dep = false; std::function<void(const Value *, int)> walk = [&](const Value *V, int d) { if (d > 8 || dep) return; if (std::find(tests.begin(), tests.end(), V) != tests.end()) { dep = true; return; } if (auto *I = dyn_cast<Instruction>(V)) for (auto &O : I->operands()) if (isa<Instruction>(O)) walk(O.get(), d + 1); };
      if (auto *Br = dyn_cast<BranchInst>(B->getTerminator())) if (Br->isConditional()) walk(Br->getCondition(), 0);
      bool inner = false; for (auto *t : tests) if (LI.getLoopFor(t->getParent()) != L) inner = true;
      if (inner && !retProd) { (void)dep; continue; }
      ok = false; at = B->getTerminator(); }
    emitObligation("loop-complete", n, op, ok);
    if (!ok) fl(at, "loop-complete", op, "the loop over the components is left although no component was found empty");
    // a bottom component makes all components bottom
    if (retProd && !tests.empty()) {
      bool okF = true; std::string why = "after a component was found empty the other components are not all set to bottom";
      std::set<const BasicBlock *> fill;
      for (auto &d : all) if (S.op(d.slot) == "BOTTOM") {
        const Loop *fl2 = LI.getLoopFor(d.CB->getParent()); std::set<const Value *> fx; if (!fl2 || fl2 == L || !fullLoop(fl2, fx) || !d.man.idx || !fx.count(d.man.idx)) continue;
        bool st = false; for (auto *U : d.CB->users()) if (auto *s = dyn_cast<StoreInst>(U)) { Elem e; if (ptrElem(s->getPointerOperand(), e) && same(e, d.man)) st = true; }
        if (!st) continue;
        Cond c2; c2.leaf = [&](const Value *V) { if (auto *I = dyn_cast<ICmpInst>(V)) if (I->isEquality() && (fx.count(I->getOperand(0)) || fx.count(I->getOperand(1))) && ix.count(fx.count(I->getOperand(0)) ? I->getOperand(1) : I->getOperand(0))) return Cond::known(I->getPredicate() == CmpInst::ICMP_NE); return Cond::Val(); };
        const BasicBlock *fh = fl2->getHeader(); c2.explore(fh, [&](const BasicBlock *B) { return B == d.CB->getParent() || B == fh || !fl2->contains(B); });
        bool skips = false; for (auto &e : c2.edges) if (e.second == fh) skips = true;
        if (!skips) fill.insert(fh); else why = "a component may be left as it is when another one was found empty";
      }
      for (auto *t : tests) { Cond c3; c3.leaf = [&](const Value *V) { return V == t ? Cond::known(1) : Cond::Val(); }; c3.explore(t->getParent(), [&](const BasicBlock *B) { return fill.count(B) || B == H; });
        bool back = false; for (auto &e : c3.edges) if (e.second == H) back = true;
        if (!back) for (auto *R : rets) if (c3.reach.count(R->getParent()) ) okF = false; }
      emitObligation("bottom-everywhere", n, op, okF);
      if (!okF) fl(tests[0], "bottom-everywhere", op, why);
    }
    // flags of the operation survive the emptiness test
    if (!NOFLAGS.count(op)) for (auto *t : tests) if (!t->getCalledFunction()) {
      const Value *b; calledSlot(t, b); bool ok2 = true;
      for (int64_t o : {oEx, oBe}) {
        std::set<const BasicBlock *> st; 
        for (const Instruction &I : instructions(F)) if (auto *s = dyn_cast<StoreInst>(&I)) { int64_t so; const Value *sb = stripOffset(s->getPointerOperand(), T.DL, so); if (so == o && sb == b) if (auto *ld = dyn_cast<LoadInst>(s->getValueOperand())) { int64_t lo; const Value *lb = stripOffset(ld->getPointerOperand(), T.DL, lo); if (lb == b && lo == o && DT.dominates(ld, t) && DT.dominates(t, s)) st.insert(s->getParent()); } }
        if (st.count(t->getParent())) continue;
        Cond c4; c4.leaf = [&](const Value *V) { return V == t ? Cond::known(0) : Cond::Val(); }; c4.explore(t->getParent(), [&](const BasicBlock *B) { return st.count(B) || B == H; });
        for (auto &e : c4.edges) if (e.second == H) ok2 = false;
      }
      emitObligation("flags-kept", n, op, ok2);
      if (!ok2) fl(t, "flags-kept", op, "the test for emptiness overwrites the flags the component's operation reported");
    }
  }
  // results collected
  std::set<const BasicBlock *> coll; std::set<const Loop *> cl;
  for (Instruction &I : instructions(F)) if (auto *ld = dyn_cast<LoadInst>(&I)) { int64_t o; const Value *b = stripOffset(ld->getPointerOperand(), T.DL, o); Elem e; const Loop *l = LI.getLoopFor(I.getParent());
    if (l && (o == oEx || o == oLog) && manElem(b, e)) { std::set<const Value *> cx; const Loop *q = l; while (q && !fullLoop(q, cx)) q = q->getParentLoop(); if (q && q != L && e.idx && cx.count(e.idx)) cl.insert(q); else if (l != L) { std::string f; unsigned ln; locOf(ld, f, ln); std::string sn = scopeName(ld, F); emitFindingAt("flags-collected", sn, f, ln, "all", sn + " does not read the results of all components"); } } }
  for (auto *l : cl) coll.insert(l->getHeader());
  for (auto *D : mains) {
    Cond c; c.explore(D->getParent(), [&](const BasicBlock *B) { return coll.count(B) > 0; }); bool ok = true;
    for (auto *R : rets) if (c.reach.count(R->getParent())) ok = false;
    emitObligation("results-collected", n, op, ok);
    if (!ok) { fl(D, "results-collected", op, "returns without gathering the flags and exceptions of the components"); }
  }
  for (auto *l : cl) { // the gathering loop itself
    std::set<const Value *> cx; fullLoop(l, cx); auto *h = l->getHeader();
    bool logMoved = false, logCleared = false; const Instruction *first = &*h->begin(); std::string sn; const Instruction *at = nullptr;
    std::map<int64_t, bool> okAnd; bool okInit = true;
    for (int64_t o : {oEx, oBe}) okAnd[o] = false;
    for (auto *B : l->blocks()) for (const Instruction &I : *B) {
      if (auto *ld = dyn_cast<LoadInst>(&I)) { int64_t lo; const Value *b = stripOffset(ld->getPointerOperand(), T.DL, lo); Elem e; if (manElem(b, e) && lo == oEx) { at = ld; sn = scopeName(ld, F); } }
      auto *s = dyn_cast<StoreInst>(&I); if (!s) continue;
      int64_t o; const Value *b = stripOffset(s->getPointerOperand(), T.DL, o); Elem e; bool own = isa<Argument>(b), comp = manElem(b, e);
      if (own && (o == oEx || o == oBe)) {
        // 0 when the component's flag is 0, and when the flag so far is 0
        Cond c1; c1.leaf = [&](const Value *V) { if (auto *ld = dyn_cast<LoadInst>(V)) { int64_t lo; const Value *lb = stripOffset(ld->getPointerOperand(), T.DL, lo); Elem x; if (lo == o && manElem(lb, x) && x.idx && cx.count(x.idx)) return Cond::known(0); } return Cond::Val(); };
        c1.explore(h, [&](const BasicBlock *X) { return X == h; }); 
        Cond c2; c2.leaf = [&](const Value *V) { if (auto *ld = dyn_cast<LoadInst>(V)) { int64_t lo; const Value *lb = stripOffset(ld->getPointerOperand(), T.DL, lo); if (lo == o && lb == b) return Cond::known(0); } if (auto *P = dyn_cast<PHINode>(V)) if (P->getParent() == h && !cx.count(P) && !P->getType()->isPointerTy()) return Cond::known(0); return Cond::Val(); };
        c2.explore(h, [&](const BasicBlock *X) { return X == h; });
        // path-wise: every incoming value that is feasible
        std::function<bool(Cond &, const Value *, int64_t, int)> zero = [&](Cond &c, const Value *V, int64_t, int d) -> bool {
          auto v = c.eval(V); if (v.k) return v.v == 0; if (d > 6) return false;
          if (auto *X = dyn_cast<CastInst>(V)) return zero(c, X->getOperand(0), o, d + 1);
          if (auto *X = dyn_cast<ICmpInst>(V)) { if (auto *k = dyn_cast<ConstantInt>(X->getOperand(1))) if (k->isZero() && X->getPredicate() == CmpInst::ICMP_NE) return zero(c, X->getOperand(0), o, d + 1); return false; }
          if (auto *X = dyn_cast<BinaryOperator>(V)) if (X->getOpcode() == Instruction::And) return zero(c, X->getOperand(0), o, d + 1) || zero(c, X->getOperand(1), o, d + 1);
          if (auto *P = dyn_cast<PHINode>(V)) { if (P->getParent() == h) return false; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (c.edges.count({P->getIncomingBlock(i), P->getParent()}) && !zero(c, P->getIncomingValue(i), o, d + 1)) return false; return true; }
          return false; };
        bool good = (zero(c1, s->getValueOperand(), o, 0) || !c1.reach.count(s->getParent())) && (zero(c2, s->getValueOperand(), o, 0) || !c2.reach.count(s->getParent()));
        // a store under a test of the component's flag: when the flag is 0 the store must happen
        { Cond c5; c5.leaf = c1.leaf; c5.explore(h, [&](const BasicBlock *X) { return X == h || X == s->getParent(); }); for (auto &ed : c5.edges) if (ed.second == h && s->getParent() != h && ed.first != s->getParent()) good = false; }
        okAnd[o] = good;
      }
      if (own && o == oLog) { std::set<const Value *> r; roots(s->getValueOperand(), r); for (auto *x : r) if (auto *ld = dyn_cast<LoadInst>(x)) { int64_t lo; const Value *lb = stripOffset(ld->getPointerOperand(), T.DL, lo); Elem y; if (lo == oLog && manElem(lb, y)) logMoved = true; } }
      if (comp && o == oLog && isa<ConstantPointerNull>(s->getValueOperand())) logCleared = true;
    }
    // carried in a register and stored after the loop
    for (int64_t o : {oEx, oBe}) if (!okAnd[o]) for (Instruction &I : instructions(F)) if (auto *s = dyn_cast<StoreInst>(&I)) if (!l->contains(s->getParent())) {
      int64_t so; const Value *b = stripOffset(s->getPointerOperand(), T.DL, so); if (so != o || !isa<Argument>(b)) continue;
      std::set<const Value *> w{s->getValueOperand()}; const PHINode *P = nullptr; { const Value *x = s->getValueOperand(); while (auto *C = dyn_cast<CastInst>(x)) x = C->getOperand(0); P = dyn_cast<PHINode>(x); }
      if (!P || P->getParent() != h) continue;
      Cond c1; c1.leaf = [&](const Value *V) { if (V == P) return Cond::known(0); return Cond::Val(); }; c1.explore(h, [&](const BasicBlock *X) { return X == h; });
      Cond c2; c2.leaf = [&](const Value *V) { if (auto *ld = dyn_cast<LoadInst>(V)) { int64_t lo; const Value *lb = stripOffset(ld->getPointerOperand(), T.DL, lo); Elem x; if (lo == o && manElem(lb, x)) return Cond::known(0); } return Cond::Val(); }; c2.explore(h, [&](const BasicBlock *X) { return X == h; });
      bool good = true; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (l->contains(P->getIncomingBlock(i))) for (Cond *c : {&c1, &c2}) if (c->edges.count({P->getIncomingBlock(i), h})) { auto v = c->eval(P->getIncomingValue(i)); if (!v.k) if (auto *Q = dyn_cast<PHINode>(P->getIncomingValue(i))) { v = Cond::known(0); for (unsigned j = 0; j < Q->getNumIncomingValues(); j++) if (c->edges.count({Q->getIncomingBlock(j), Q->getParent()})) { auto u = c->eval(Q->getIncomingValue(j)); if (!u.k || u.v) v = Cond::Val(); } } if (!v.k || v.v) good = false; }
      okAnd[o] = good; }
    if (!at) continue; // gathers only the exceptions: seen with the flags elsewhere
    std::string f; unsigned ln; locOf(at, f, ln);
    for (auto &q : okAnd) { const char *w = q.first == oEx ? "flag_exact" : "flag_best"; emitObligation("flags-collected", sn, w, q.second); if (!q.second) emitFindingAt("flags-collected", sn, f, ln, w, sn + ": the product's " + w + " may be true although a component's is false"); }
    bool lg = logMoved && logCleared; emitObligation("exceptions-collected", sn, "exclog", lg);
    if (!lg) emitFindingAt("exceptions-collected", sn, f, ln, "exclog", sn + ": the exceptions of a component are not moved to the product's manager");
  }
}
}
int runProduct(std::vector<std::string> args) {
  LLVMContext Ctx; auto M = loadModule(args[0], Ctx);
  promote(*M);
  std::map<Function *, std::set<int>> ops;
  { Types T(*M); Slots S(*M, T);
    for (auto &p : S.functions()) { auto *F = const_cast<Function *>(p.first); if (F->isDeclaration()) continue; bool is = false; for (auto *t : signatureOf(*F)) if (t) { std::string n = typeName(t); if (n == "ap_reducedproduct_t*" || n == "ap_reducedproduct_t**") is = true; } if (is) ops[F] = p.second; } }
  auto want = [&](const Function &G) { auto *s = G.getSubprogram(); return s && s->getFilename().contains("reducedproduct"); };
  for (auto &p : ops) { inlineInto(*p.first, want); cleanup(*p.first, false); }
  Prod P(*M);
  for (auto &p : ops) { tally("product_operations"); debugDump(*p.first); P.analyse(*p.first, p.second); }
  return 0;
}
