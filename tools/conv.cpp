// P05: an operation of the octagon domains that had to round a number on conversion does not
// report an exact or best result without having examined whether it had to.
#include "apa.h"
#include "slots.h"
namespace {
const std::set<std::string> NOFLAG = {"ASIZE", "FREE", "FPRINT", "FPRINTDIFF", "FDUMP", "SERIALIZE_RAW", "DESERIALIZE_RAW", "DIMENSION", "UNKNOWN", "COPY", "HASH"};
struct Conv {
  Module &M; std::unique_ptr<Types> T; std::unique_ptr<Slots> S;
  std::map<const Function *, int> inexact; // conversions: can they answer "not exact"
  std::set<const Function *> touch;        // reach the conv mark, the flags or a conversion
  Conv(Module &M) : M(M) { refresh(); }
  void refresh() { T = std::make_unique<Types>(M); S = std::make_unique<Slots>(M, *T); }
  static const Function *callee(const CallBase *CB) { return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); }
  static bool boolean(const Function *F) { return F->getReturnType()->isIntegerTy(8) || F->getReturnType()->isIntegerTy(1); }
  static bool isConversion(const Function *F) {
    if (!boolean(F)) return false;
    StringRef n = F->getName(); size_t p = n.find("_set_");
    if (p == StringRef::npos) return false;
    static const std::set<std::string> KIND = {"bound", "num", "numint", "numrat", "numflt", "double", "mpq", "mpfr", "mpz", "int", "float", "ldouble", "lfrac", "llfrac", "itv", "int2", "intrat"};
    return KIND.count(n.substr(0, p).str()) > 0;
  }
  // can this conversion report a loss?  (returns anything but true)
  bool mayLose(const Function *F, int d = 0) {
    if (F->isDeclaration() || d > 8) return true;
    auto it = inexact.find(F); if (it != inexact.end()) return it->second;
    inexact[F] = 1; bool lose = false; std::set<const Value *> seen; std::vector<const Value *> w;
    for (auto &B : *F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) w.push_back(R->getReturnValue());
    while (!w.empty() && !lose) {
      const Value *V = w.back(); w.pop_back(); if (!V || !seen.insert(V).second) continue;
      if (auto *C = dyn_cast<ConstantInt>(V)) { if (C->isZero()) lose = true; }
      else if (auto *P = dyn_cast<PHINode>(V)) for (auto &x : P->incoming_values()) w.push_back(x);
      else if (auto *S = dyn_cast<SelectInst>(V)) { w.push_back(S->getTrueValue()); w.push_back(S->getFalseValue()); }
      else if (isa<ZExtInst>(V) || isa<TruncInst>(V)) w.push_back(cast<Instruction>(V)->getOperand(0));
      else if (auto *I = dyn_cast<ICmpInst>(V)) { auto *z = dyn_cast<ConstantInt>(I->getOperand(1)); if (I->getPredicate() == CmpInst::ICMP_NE && z && z->isZero()) w.push_back(I->getOperand(0)); else lose = true; }
      else if (auto *CB = dyn_cast<CallBase>(V)) { auto *G = callee(CB); if (!G || !boolean(G) || mayLose(G, d + 1)) lose = true; }
      else lose = true;
    }
    return inexact[F] = lose;
  }
  // 1 = conv mark, 2 = exact flag, 4 = best flag
  int place(const Value *P) {
    const Value *b; std::string n;
    if (!T->fieldOf(P, b, n)) return 0;
    StringRef s = n; s = s.ltrim("_");
    if (s.ends_with("internal_t.conv")) return 1;
    if (s.ends_with("flag_exact")) return 2;
    if (s.ends_with("flag_best")) return 4;
    if (s == "oct_t.m" || s == "avo_t.m") return 8; // the bounds of a value: both absent, the value is empty
    if (s == "oct_t.closed" || s == "avo_t.closed") return 16;
    return 0;
  }
  static bool raises(const Function *G) { return G->getName() == "ap_manager_raise_exception"; }
  void reach() {
    bool ch = true;
    for (Function &F : M) if (!F.isDeclaration() && F.getInstructionCount() < 60) for (Instruction &I : instructions(F)) // what gives a value its bounds, or none
      if (auto *St = dyn_cast<StoreInst>(&I)) if (place(St->getPointerOperand()) >= 8) touch.insert(&F);
    while (ch) { ch = false;
      for (Function &F : M) { if (F.isDeclaration() || touch.count(&F) || isConversion(&F)) continue;
        bool t = false;
        for (Instruction &I : instructions(F)) {
          if (auto *L = dyn_cast<LoadInst>(&I)) t |= (place(L->getPointerOperand()) & 7) != 0;
          else if (auto *St = dyn_cast<StoreInst>(&I)) t |= (place(St->getPointerOperand()) & 7) != 0;
          else if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = callee(CB)) { if (touch.count(G) || raises(G) || (isConversion(G) && mayLose(G))) t = true; }
          if (t) break;
        }
        if (t) { touch.insert(&F); ch = true; }
      } }
  }
};
struct State { // a path: what has been lost so far, what the mark and the flags hold
  const Instruction *loss = nullptr; bool mark = false;
  bool exact = true, best = true, empty = false; int absent = 0, present = 0; const Value *object = nullptr; // the value last given bounds, or none
  std::map<const Value *, int64_t> env; // truth values and null pointers known on this path
  auto tie() const { return std::make_tuple(loss != nullptr, mark, exact, best, empty, absent, present, object); }
  bool operator<(const State &o) const { auto a = tie(), b = o.tie(); return a != b ? a < b : env < o.env; }
};
struct Walk {
  Conv &C; Function &F; std::set<const Value *> tracked;
  std::set<std::pair<const BasicBlock *, State>> seen; std::vector<std::pair<const BasicBlock *, State>> work;
  std::map<std::string, const Instruction *> bad; bool over = false; std::map<std::pair<const BasicBlock *, State>, std::pair<const BasicBlock *, State>> parent; State cur;
  std::set<const Instruction *> convSites;
  Walk(Conv &C, Function &F) : C(C), F(F) {}
  void track(const Value *V) {
    std::vector<const Value *> w{V};
    while (!w.empty()) { V = w.back(); w.pop_back(); if (!V || !tracked.insert(V).second) continue;
      if (auto *P = dyn_cast<PHINode>(V)) for (auto &x : P->incoming_values()) w.push_back(x);
      else if (auto *S = dyn_cast<SelectInst>(V)) { w.push_back(S->getTrueValue()); w.push_back(S->getFalseValue()); }
      else if (isa<CastInst>(V)) w.push_back(cast<Instruction>(V)->getOperand(0)); }
  }
  std::optional<int64_t> eval(const Value *V, const State &s) {
    if (auto *c = dyn_cast<ConstantInt>(V)) return c->getBitWidth() <= 64 ? std::optional<int64_t>(c->getZExtValue()) : std::nullopt;
    if (isa<ConstantPointerNull>(V)) return 0;
    auto it = s.env.find(V); if (it != s.env.end()) return it->second;
    if (isa<ZExtInst>(V) || isa<TruncInst>(V) || isa<SExtInst>(V)) {
      auto *o = cast<Instruction>(V)->getOperand(0); auto v = eval(o, s); if (!v) return v;
      unsigned from = o->getType()->getIntegerBitWidth(), to = V->getType()->getIntegerBitWidth();
      int64_t x = *v; if (isa<SExtInst>(V) && from < 64 && (x >> (from - 1) & 1)) x |= ~0ULL << from;
      return to < 64 ? x & ((1LL << to) - 1) : x;
    }
    if (auto *I = dyn_cast<ICmpInst>(V)) { auto a = eval(I->getOperand(0), s), b = eval(I->getOperand(1), s); if (!a || !b || !I->isEquality()) return std::nullopt; return (*a == *b) == (I->getPredicate() == CmpInst::ICMP_EQ); }
    if (auto *S = dyn_cast<SelectInst>(V)) { auto c = eval(S->getCondition(), s); if (c) return eval(*c ? S->getTrueValue() : S->getFalseValue(), s); auto a = eval(S->getTrueValue(), s), b = eval(S->getFalseValue(), s); if (a && b && *a == *b) return a; }
    if (auto *Fz = dyn_cast<FreezeInst>(V)) return eval(Fz->getOperand(0), s);
    if (auto *B = dyn_cast<BinaryOperator>(V)) {
      auto a = eval(B->getOperand(0), s), b = eval(B->getOperand(1), s);
      switch (B->getOpcode()) {
      case Instruction::And: if ((a && !*a) || (b && !*b)) return 0; if (a && b) return *a & *b; break;
      case Instruction::Or: if (a && b) return *a | *b; if (V->getType()->isIntegerTy(1) && ((a && *a) || (b && *b))) return 1; break;
      case Instruction::Xor: if (a && b) return (*a ^ *b) & (V->getType()->isIntegerTy(1) ? 1 : -1); break;
      default: break;
      } }
    return std::nullopt;
  }
  // condition V, or its negation, is "L != 0" for some value L
  const Value *zeroTest(const Value *V, bool &neg) {
    while (true) {
      if (isa<ZExtInst>(V) || isa<TruncInst>(V) || isa<SExtInst>(V)) { V = cast<Instruction>(V)->getOperand(0); continue; }
      if (auto *I = dyn_cast<ICmpInst>(V)) if (I->isEquality()) if (auto *z = dyn_cast<ConstantInt>(I->getOperand(1))) { if (!z->isZero() && !z->isOne()) return V; if ((I->getPredicate() == CmpInst::ICMP_EQ) == z->isZero()) neg = !neg; V = I->getOperand(0); continue; }
      if (auto *B = dyn_cast<BinaryOperator>(V)) if (B->getOpcode() == Instruction::Xor) if (auto *z = dyn_cast<ConstantInt>(B->getOperand(1))) if (z->isOne() || z->isMinusOne()) { neg = !neg; V = B->getOperand(0); continue; }
      if (auto *Fz = dyn_cast<FreezeInst>(V)) { V = Fz->getOperand(0); continue; }
      return V;
    }
  }
  // what must hold for V to be `want`: facts about single values
  void assume(const Value *V, bool want, State &s, bool &dead, int d = 0) {
    bool neg = false; const Value *L = zeroTest(V, neg); bool nz = want != neg;
    if (auto c = eval(L, s)) { if ((*c != 0) != nz) dead = true; return; }
    if (d < 6) {
      if (auto *Se = dyn_cast<SelectInst>(L)) { // a && b, a || b
        auto t = eval(Se->getTrueValue(), s), f = eval(Se->getFalseValue(), s);
        if (f && (*f != 0) != nz) { assume(Se->getCondition(), true, s, dead, d + 1); assume(Se->getTrueValue(), nz, s, dead, d + 1); }
        else if (t && (*t != 0) != nz) { assume(Se->getCondition(), false, s, dead, d + 1); assume(Se->getFalseValue(), nz, s, dead, d + 1); }
        return;
      }
      if (auto *B = dyn_cast<BinaryOperator>(L)) { if ((B->getOpcode() == Instruction::And && nz) || (B->getOpcode() == Instruction::Or && !nz)) { assume(B->getOperand(0), nz, s, dead, d + 1); assume(B->getOperand(1), nz, s, dead, d + 1); } return; }
    }
    if (isa<PHINode>(L) || isa<CallBase>(L)) if (L->getType()->isIntegerTy(1) || !nz) if (tracked.count(L)) s.env[L] = nz;
  }
  bool usedElsewhere(const CallBase *CB) { // its result flows somewhere this analysis does not follow: taken to be examined there
    std::vector<const Value *> w{CB}; std::set<const Value *> sn;
    while (!w.empty()) { auto *V = w.back(); w.pop_back(); if (!sn.insert(V).second) continue;
      for (auto *U : V->users()) { if (isa<ICmpInst>(U) || isa<CastInst>(U) || isa<SelectInst>(U) || isa<BinaryOperator>(U) || isa<FreezeInst>(U)) w.push_back(cast<Value>(U)); else if (auto *P = dyn_cast<PHINode>(U)) w.push_back(P); else if (auto *St = dyn_cast<StoreInst>(U)) { if (!(C.place(St->getPointerOperand()) & 7)) return true; } else if (isa<BranchInst>(U) || isa<SwitchInst>(U)) ; else return true; } }
    return false;
  }
  const Value *object(const Value *P) {
    for (int d = 0; d < 8; d++) { int64_t o; P = stripOffset(P, C.M.getDataLayout(), o); auto *Ph = dyn_cast<PHINode>(P); if (!Ph) break;
      const Value *one = nullptr; for (auto &x : Ph->incoming_values()) { if (isa<ConstantPointerNull>(x) || x == Ph) continue; if (one && one != x) return P; one = x; }
      if (!one) break; P = one; }
    return P;
  }
  void violate(const std::string &k, const Instruction *I) { bad.emplace(k, I); }
  std::map<const Value *, std::set<const BasicBlock *>> liveIn; // blocks at whose entry a value can still matter
  const std::set<const BasicBlock *> &live(const Value *V) {
    auto it = liveIn.find(V); if (it != liveIn.end()) return it->second;
    auto &r = liveIn[V]; auto *D = dyn_cast<Instruction>(V); if (!D) return r;
    std::vector<const Value *> w{V}; std::set<const Value *> sn; std::vector<const BasicBlock *> bs;
    while (!w.empty()) { auto *X = w.back(); w.pop_back(); if (!sn.insert(X).second) continue;
      for (auto &U : X->uses()) { auto *I = dyn_cast<Instruction>(U.getUser()); if (!I) continue;
        if (auto *P = dyn_cast<PHINode>(I)) bs.push_back(P->getIncomingBlock(U));
        else { bs.push_back(I->getParent()); if (isa<ICmpInst>(I) || isa<CastInst>(I) || isa<SelectInst>(I) || isa<BinaryOperator>(I) || isa<FreezeInst>(I)) w.push_back(I); } } }
    while (!bs.empty()) { auto *B = bs.back(); bs.pop_back();
      if (B == D->getParent() && !isa<PHINode>(D)) { continue; }
      if (!r.insert(B).second) continue;
      if (B == D->getParent()) continue;
      for (auto *P : predecessors(B)) bs.push_back(P); }
    return r;
  }
  void enter(const BasicBlock *from, const BasicBlock *to, State s) {
    std::vector<std::pair<const Value *, std::optional<int64_t>>> nv;
    for (auto &P : to->phis()) if (tracked.count(&P)) nv.push_back({&P, eval(P.getIncomingValueForBlock(from), s)});
    for (auto &p : nv) if (p.second) s.env[p.first] = *p.second; else s.env.erase(p.first);
    for (auto it = s.env.begin(); it != s.env.end();) { if (!live(it->first).count(to)) it = s.env.erase(it); else ++it; }
    if (seen.size() > 200000) { over = true; return; }
    if (seen.insert({to, s}).second) { if (getenv("APA_CONV")) parent[{to, s}] = {from, cur}; work.push_back({to, s}); }
  }
  void run() {
    for (auto &B : F) for (auto &I : B) {
      if (auto *R = dyn_cast<ReturnInst>(&I)) { if (R->getReturnValue()) track(R->getReturnValue()); }
      if (auto *St = dyn_cast<StoreInst>(&I)) if (C.place(St->getPointerOperand()) >= 8) track(St->getValueOperand());
      if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = Conv::callee(CB)) if (G->getName().ends_with("_set_mat")) for (auto &a : CB->args()) if (a->getType()->isPointerTy()) track(a);
    }
    for (auto &B : F) for (auto &P : B.phis()) if (P.getType()->isIntegerTy(1) || P.getType()->isIntegerTy(8)) tracked.insert(&P);
    pred = Conv::boolean(&F);
    work.push_back({&F.getEntryBlock(), State()});
    while (!work.empty() && !over) { auto [B, s] = work.back(); work.pop_back(); cur = s; from(B, B->begin(), s); }
  }
  bool pred = false;
  void from(const BasicBlock *B, BasicBlock::const_iterator it, State s) {
    for (; it != B->end(); ++it) {
      const Instruction &I = *it;
      if (auto *L = dyn_cast<LoadInst>(&I)) {
        int p = C.place(L->getPointerOperand()); if (!p) continue;
        if (p == 1) s.env[L] = s.mark; else if (p == 2) s.env[L] = s.exact; else if (p == 4) s.env[L] = s.best;
        else if (object(L->getPointerOperand()) == s.object && (s.absent & p)) s.env[L] = 0; else if (object(L->getPointerOperand()) == s.object && (s.present & p)) s.env[L] = 1; else s.env.erase(L);
      } else if (auto *St = dyn_cast<StoreInst>(&I)) {
        int p = C.place(St->getPointerOperand()); if (!p) continue;
        auto v = eval(St->getValueOperand(), s);
        if (p >= 8) {
          auto *o = object(St->getPointerOperand()); if (o != s.object) { s.absent = s.present = 0; s.object = o; }
          s.absent &= ~p; s.present &= ~p;
          if (v && *v == 0) s.absent |= p; else if (isa<CallBase>(object(St->getValueOperand())) || (v && *v)) s.present |= p; // allocation failures aside
        } else if (p == 1) {
          bool was = s.mark; s.mark = !v || *v;
          if (s.mark && (!was || !isa<LoadInst>(St->getValueOperand())) && !s.loss) s.loss = St;
          if (s.mark) convSites.insert(St);
        } else (p == 2 ? s.exact : s.best) = !v || *v;
      } else if (auto *CB = dyn_cast<CallBase>(&I)) {
        auto *G = Conv::callee(CB); if (!G) continue;
        if (Conv::raises(G)) return; // an exception is reported, not an exact result
        if (Conv::isConversion(G) && C.mayLose(G)) {
          convSites.insert(CB); s.env.erase(CB);
          if (!usedElsewhere(CB)) { State n = s; if (!n.loss) n.loss = CB; n.env[CB] = 0; from(B, std::next(it), n); s.env[CB] = 1; }
          continue;
        }
        if (G->getName() == "ap_interval_set_bottom") s.empty = true;
        if (G->getName().ends_with("_set_mat")) { bool all = true; unsigned i = 0; for (auto &a : CB->args()) { if (i >= 2 && a->getType()->isPointerTy()) { auto v = eval(a, s); if (!v || *v) all = false; } i++; } if (all) s.empty = true; }
        if (CB->doesNotReturn()) return;
      }
    }
    const Instruction *t = B->getTerminator();
    if (auto *R = dyn_cast<ReturnInst>(t)) {
      if (!s.loss) return;
      if (s.empty || s.absent == 24) return; // an empty result over-approximates nothing else
      if (pred) { auto v = eval(R->getReturnValue(), s); if (v && *v) return; }
      if (s.exact && getenv("APA_CONV") && !bad.count("exact")) { std::pair<const BasicBlock *, State> n{B, cur}; for (int k = 0; k < 60; k++) { const DebugLoc &l = n.first->getTerminator()->getDebugLoc(); fprintf(stderr, "  %s:%u l%d m%d e%d", l ? l->getFilename().str().c_str() : "?", l ? l.getLine() : 0, n.second.loss != nullptr, n.second.mark, n.second.exact); auto it = parent.find(n); if (it == parent.end()) break; n = it->second; } fprintf(stderr, "\n"); }
      if (s.exact) violate("exact", s.loss);
      if (s.best) violate("best", s.loss);
      return;
    }
    if (auto *Br = dyn_cast<BranchInst>(t)) if (Br->isConditional()) {
      for (unsigned k = 0; k < 2; k++) { State n = s; bool d = false; assume(Br->getCondition(), k == 0, n, d); if (!d) enter(B, Br->getSuccessor(k), n); }
      return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(t)) if (auto v = eval(Sw->getCondition(), s)) {
      for (auto &c : Sw->cases()) if ((int64_t)c.getCaseValue()->getZExtValue() == *v) { enter(B, c.getCaseSuccessor(), s); return; }
      enter(B, Sw->getDefaultDest(), s); return;
    }
    for (unsigned k = 0; k < t->getNumSuccessors(); k++) enter(B, t->getSuccessor(k), s);
  }
};
} // namespace
int runConv(std::vector<std::string> args) {
  LLVMContext Ctx; auto M = loadModule(args[0], Ctx); if (!M) return 3;
  promote(*M);
  Conv C(*M); C.reach();
  auto ops = C.S->functions();
  std::vector<Function *> fs;
  for (auto &p : ops) { bool any = false; for (int k : p.second) if (!NOFLAG.count(C.S->op(k))) any = true;
    if (any && !p.first->isDeclaration() && C.touch.count(p.first)) fs.push_back(const_cast<Function *>(p.first)); }
  for (Function &F : *M) { // operations offered outside the table
    if (F.isDeclaration() || F.hasLocalLinkage() || ops.count(&F) || !C.touch.count(&F) || !F.getSubprogram()) continue;
    StringRef file = F.getSubprogram()->getFilename();
    if (!file.contains("/octagons/") && !file.contains("/avoct/")) continue;
    auto sg = signatureOf(F); if (sg.size() < 3 || typeName(sg[1]) != "ap_manager_t*") continue;
    fs.push_back(&F);
  }
  tally("operations", ops.size());
  auto touch = C.touch; auto conv = C.inexact;
  for (auto *F : fs) { inlineInto(*F, [&](const Function &G) { return touch.count(&G) && !Conv::isConversion(&G) && !Conv::raises(&G); }); cleanup(*F); }
  C.refresh();
  long n = 0;
  for (auto *F : fs) {
    Walk W(C, *F); W.run();
    if (W.convSites.empty()) continue;
    n++; std::string name = fnName(*F);
    if (getenv("APA_CONV")) fprintf(stderr, "%s sites %zu states %zu%s\n", name.c_str(), W.convSites.size(), W.seen.size(), W.over ? " OVER" : "");
    if (W.over) { emitError(name + ": too many states"); continue; }
    for (const char *k : {"exact", "best"}) {
      auto it = W.bad.find(k);
      emitObligation("conversion-examined", name, std::string("flag_") + k, it == W.bad.end());
      if (it != W.bad.end()) { std::string f; unsigned l; locOf(it->second, f, l);
        emitFindingAt("conversion-examined", name, f, l, k, name + " can return a result reported as " + k + " without having examined whether the conversion at line " + std::to_string(l) + " of " + f + " lost precision"); }
    }
    tally("conversion_sites", W.convSites.size());
  }
  tally("converting_operations", n);
  return 0;
}
