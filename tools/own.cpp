// P06/P16/P23: every acquired resource is released, handed over or escapes on every path to the return; none twice.
#include "own.h"
#include <deque>
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Analysis/LoopInfo.h"
namespace {
struct Trace {
  Own &O; Types &T; Function *F = nullptr; std::string fn;
  Trace(Own &O) : O(O), T(O.T) {}
  struct St {
    bool live = true, pre = false, over = false; std::set<const Value *> alias; std::set<std::pair<const Value *, int64_t>> hold; std::map<std::string, int> facts; std::map<const Value *, int64_t> phis;
    bool operator<(const St &o) const { return std::tie(live, pre, over, alias, hold, facts, phis) < std::tie(o.live, o.pre, o.over, o.alias, o.hold, o.facts, o.phis); }
  };
  struct Out { const Instruction *leak = nullptr, *twice = nullptr, *after = nullptr; bool gaveUp = false, released = false, escaped = false; };
  // ---- conditions on a path
  std::string key(const Value *V, int d = 0) {
    if (d > 8) return "?"; V = V->stripPointerCasts();
    if (auto *C = dyn_cast<ConstantInt>(V)) return C->getBitWidth() <= 64 ? std::to_string(C->getSExtValue()) : "?c";
    if (isa<ConstantPointerNull>(V)) return "0";
    if (auto *L = dyn_cast<LoadInst>(V)) return "L(" + key(L->getPointerOperand(), d + 1) + ")";
    if (auto *G = dyn_cast<GEPOperator>(V)) { std::string s = "G(" + key(G->getPointerOperand(), d + 1); for (auto it = G->idx_begin(); it != G->idx_end(); ++it) s += "," + key(it->get(), d + 1); return s + ")"; }
    if (auto *Z = dyn_cast<CastInst>(V)) return key(Z->getOperand(0), d + 1);
    if (auto *B = dyn_cast<BinaryOperator>(V)) return std::to_string(B->getOpcode()) + "(" + key(B->getOperand(0), d + 1) + "," + key(B->getOperand(1), d + 1) + ")";
    char b[32]; snprintf(b, 32, "%p", (const void *)V); if (leaves) leaves->insert(V); return b;
  }
  std::set<const Value *> *leaves = nullptr; std::map<std::string, std::set<const Value *>> leavesOf; std::unique_ptr<LoopInfo> LI;
  void forget(St &s, std::function<bool(const Value *)> gone) { for (auto it = s.facts.begin(); it != s.facts.end();) { bool g = false; for (auto *V : leavesOf[it->first]) if (gone(V)) g = true; if (g) it = s.facts.erase(it); else ++it; } }
  std::map<std::string, int> uses; // how often a condition is branched on
  std::set<const PHINode *> flagPhis;
  static constexpr int64_t NZ = INT64_MAX - 7; // not zero, otherwise unknown
  bool num(const Value *V, const St &s, int64_t &v) { return num1(V, s, v) && v != NZ; }
  bool num1(const Value *V, const St &s, int64_t &v) {
    if (auto *C = dyn_cast<ConstantInt>(V)) { if (C->getBitWidth() > 64) return false; v = C->getBitWidth() == 1 ? C->getZExtValue() : C->getSExtValue(); return true; }
    if (isa<ConstantPointerNull>(V)) { v = 0; return true; }
    if (auto *Z = dyn_cast<CastInst>(V)) return !isa<PtrToIntInst>(Z) && num1(Z->getOperand(0), s, v);
    auto it = s.phis.find(V); if (it != s.phis.end()) { v = it->second; return true; }
    return false;
  }
  // atom of a condition: key and polarity; known: value decided already
  void atom(const Value *V, const St &s, std::string &k, bool &pol, int &known) {
    std::set<const Value *> lv; auto *old = leaves; leaves = &lv; atom1(V, s, k, pol, known); leaves = old; if (!k.empty()) leavesOf[k].insert(lv.begin(), lv.end());
  }
  void atom1(const Value *V, const St &s, std::string &k, bool &pol, int &known) {
    known = -1; pol = true; int64_t a, b;
    if (num(V, s, a)) { known = a != 0; return; }
    if (auto *X = dyn_cast<BinaryOperator>(V)) if (X->getOpcode() == Instruction::Xor && isa<ConstantInt>(X->getOperand(1))) { atom1(X->getOperand(0), s, k, pol, known); if (known >= 0) known = !known; pol = !pol; return; }
    if (auto *Tr = dyn_cast<TruncInst>(V)) { k = "ne " + key(Tr->getOperand(0)) + " 0"; atomLookup(s, k, pol, known); return; }
    auto *I = dyn_cast<ICmpInst>(V); if (!I) { k = "v " + key(V); atomLookup(s, k, pol, known); return; }
    const Value *x = I->getOperand(0), *y = I->getOperand(1); auto p = I->getPredicate();
    bool ka = num(x, s, a), kb = num(y, s, b);
    if (ka && kb) { uint64_t ua = a, ub = b; switch (p) { case CmpInst::ICMP_EQ: known = a == b; break; case CmpInst::ICMP_NE: known = a != b; break; case CmpInst::ICMP_ULT: known = ua < ub; break; case CmpInst::ICMP_ULE: known = ua <= ub; break; case CmpInst::ICMP_UGT: known = ua > ub; break; case CmpInst::ICMP_UGE: known = ua >= ub; break; case CmpInst::ICMP_SLT: known = a < b; break; case CmpInst::ICMP_SLE: known = a <= b; break; case CmpInst::ICMP_SGT: known = a > b; break; case CmpInst::ICMP_SGE: known = a >= b; break; default:; } return; }
    { int64_t n; bool z = (kb && b == 0 && num1(x, s, n) && n == NZ) || (ka && a == 0 && num1(y, s, n) && n == NZ); if (z) switch (p) { case CmpInst::ICMP_EQ: known = 0; return; case CmpInst::ICMP_NE: known = 1; return; case CmpInst::ICMP_UGT: if (kb) { known = 1; return; } break; case CmpInst::ICMP_ULE: if (kb) { known = 0; return; } break; default:; } }
    if (ka && !kb) { std::swap(x, y); std::swap(a, b); std::swap(ka, kb); p = CmpInst::getSwappedPredicate(p); }
    // zext of a condition compared with a constant
    if (kb && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && b == 0) if (auto *Z = dyn_cast<ZExtInst>(x)) if (Z->getSrcTy()->isIntegerTy(1)) { atom1(Z->getOperand(0), s, k, pol, known); if (p == CmpInst::ICMP_EQ) { pol = !pol; if (known >= 0) known = !known; } return; }
    std::string kx = key(x), ky = kb ? std::to_string(b) : key(y);
    if (kb && b == 0 && p == CmpInst::ICMP_UGT) p = CmpInst::ICMP_NE; if (kb && b == 0 && p == CmpInst::ICMP_ULE) p = CmpInst::ICMP_EQ;
    if (kb && b == 1 && p == CmpInst::ICMP_UGE) { p = CmpInst::ICMP_NE; ky = "0"; } if (kb && b == 1 && p == CmpInst::ICMP_ULT) { p = CmpInst::ICMP_EQ; ky = "0"; }
    if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_SGE || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_UGT) { pol = !pol; p = CmpInst::getInversePredicate(p); }
    if (!kb && ky < kx) { if (p == CmpInst::ICMP_NE) std::swap(kx, ky); }
    k = std::string(CmpInst::getPredicateName(p)) + " " + kx + " " + ky; atomLookup(s, k, pol, known);
  }
  void atomLookup(const St &s, const std::string &k, bool pol, int &known) { auto it = s.facts.find(k); if (it != s.facts.end()) known = it->second == (int)pol; }
  // a counter that has been increased
  static bool counted(const Value *V) { if (auto *B = dyn_cast<BinaryOperator>(V)) if (B->getOpcode() == Instruction::Add && isa<PHINode>(B->getOperand(0))) if (auto *C = dyn_cast<ConstantInt>(B->getOperand(1))) return C->isOne(); return false; }
  bool nonNull(const Value *V, const St &s) {
    if (s.live && !s.pre && !inplace && !par && isAlias(V, s)) return true; if (isa<AllocaInst>(Own::getUnderlying(V)) || isa<GlobalValue>(Own::getUnderlying(V))) return true;
    auto ph = s.phis.find(V); if (ph != s.phis.end()) return ph->second != 0;
    if (auto *CB = dyn_cast<CallBase>(V->stripPointerCasts())) if (auto *G = Own::callee(CB)) { if (G->isDeclaration() && Own::extFresh(G->getName())) return true; int k = O.nullResult(*G); if (k == -1) return true; if (k >= 0 && (unsigned)k < CB->arg_size() && nonNull(CB->getArgOperand(k), s)) return true; }
    auto it = s.facts.find("ne " + key(V) + " 0"); return it != s.facts.end() && it->second == 1;
  }
  // ---- aliases
  bool isAlias(const Value *V, const St &s, int d = 0) {
    V = V->stripPointerCasts(); if (par && isPar(V)) return true; if (s.alias.count(V)) return true; if (d > 10) return false;
    if (auto *G = dyn_cast<GEPOperator>(V)) return isAlias(G->getPointerOperand(), s, d + 1);
    if (auto *X = dyn_cast<SelectInst>(V)) return isAlias(X->getTrueValue(), s, d + 1) || isAlias(X->getFalseValue(), s, d + 1);
    if (auto *I = dyn_cast<CastInst>(V)) return isAlias(I->getOperand(0), s, d + 1);
    if (auto *X = dyn_cast<ExtractValueInst>(V)) return X->getType()->isPointerTy() && isAlias(X->getAggregateOperand(), s, d + 1);
    if (auto *X = dyn_cast<InsertValueInst>(V)) return isAlias(X->getAggregateOperand(), s, d + 1) || isAlias(X->getInsertedValueOperand(), s, d + 1);
    return false;
  }
  // ---- references held by a parameter: owned (destructive operation) or borrowed
  const Argument *par = nullptr; int64_t poff = -1; bool borrowed = false;
  bool wholeArray = false; static bool wholeArray0(const DILocalVariable *dv) { return typeName(dv->getType()) == "ap_environment_t**"; }
  bool atPar(const Value *P) { int64_t off; if (wholeArray) return Own::getUnderlying(P) == par; return stripOffset(P, T.DL, off) == par && off == poff; }
  bool isPar(const Value *V) { if (poff < 0) return V == par; auto *L = dyn_cast<LoadInst>(V); return L && L->getType()->isPointerTy() && atPar(L->getPointerOperand()); }
  // an aggregate loaded from a place that holds the resource
  bool aggregate(const Instruction &I, St &s) {
    auto *L = dyn_cast<LoadInst>(&I); const Value *A; int64_t off; if (!L || !L->getType()->isAggregateType() || !cell(L->getPointerOperand(), A, off)) return false;
    int64_t n = T.DL.getTypeStoreSize(L->getType()); bool h = false; for (auto &x : s.hold) if (x.first == A && x.second >= off && x.second < off + n) h = true;
    if (h) s.alias.insert(L); else s.alias.erase(L); return true;
  }
  bool stepPar(const Instruction &I, St &s, Out &o) {
    const Value *A, *B; int64_t off, off2; aggregate(I, s);
    auto keep = [&](const Instruction *W) { if (borrowed) { if (s.live && !o.leak) { o.leak = W; leakState = s; } } else { if (!s.live && !o.twice) o.twice = W; s.live = false; o.escaped = true; } return false; };
    if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->getType()->isPointerTy() && cell(L->getPointerOperand(), A, off)) { if (s.hold.count({A, off})) s.alias.insert(L); else s.alias.erase(L); } return true; }
    if (auto *X = dyn_cast<StoreInst>(&I)) {
      bool al = (X->getValueOperand()->getType()->isPointerTy() || X->getValueOperand()->getType()->isAggregateType()) && isAlias(X->getValueOperand(), s);
      if (cell(X->getPointerOperand(), A, off)) { if (al) s.hold.insert({A, off}); else s.hold.erase({A, off}); return true; }
      if (poff >= 0 && atPar(X->getPointerOperand())) { if (al) return true; if (!s.live) return false; s.over = true; return true; }
      if (al) return keep(X);
      return true;
    }
    if (auto *MT = dyn_cast<MemTransferInst>(&I)) {
      auto *n = dyn_cast<ConstantInt>(MT->getLength()); int64_t len = n ? n->getSExtValue() : 1 << 20; bool toLocal = cell(MT->getRawDest(), B, off2);
      if (poff >= 0 && stripOffset(MT->getRawSource(), T.DL, off) == par && off <= poff && poff < off + len) { if (!toLocal) return keep(MT); s.hold.insert({B, off2 + poff - off}); return true; }
      if (cell(MT->getRawSource(), A, off)) { std::vector<std::pair<const Value *, int64_t>> add; for (auto &h : s.hold) if (h.first == A && h.second >= off && h.second < off + len) { if (!toLocal) return keep(MT); add.push_back({B, off2 + h.second - off}); } for (auto &h : add) s.hold.insert(h); }
      return true;
    }
    if (auto *R = dyn_cast<ReturnInst>(&I)) {
      if (s.over) { if (s.live && !o.after) o.after = R; return false; }
      auto *V = R->getReturnValue(); if (V && isAlias(V, s)) return keep(R);
      if (borrowed) { if (!s.live && !o.twice) o.twice = R; } else if (s.live && !o.leak) { o.leak = R; leakState = s; }
      return false;
    }
    if (isa<UnreachableInst>(I)) return false;
    if (isa<DbgInfoIntrinsic>(I) || isa<LifetimeIntrinsic>(I)) return true;
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      auto *G = Own::callee(CB); if (G && G->doesNotReturn()) return false;
      for (unsigned k = 0; k < CB->arg_size(); k++) {
        auto *V = CB->getArgOperand(k); if (!V->getType()->isPointerTy()) continue; unsigned e = O.effect(CB, k);
        if (isAlias(V, s)) {
          if (e & Own::RELP) { if (!s.live) { if (!o.twice) o.twice = CB; return false; } s.live = false; o.released = true; if (poff < 0 && borrowed) { o.twice = CB; return false; } continue; }
          if (e & Own::ESC) return false;
          continue;
        }
        if (poff >= 0 && stripOffset(V, T.DL, off) == par && off == 0) {
          if (G && G->isDeclaration() && G->getName() == "free") { if (s.live && !o.after) o.after = CB; return false; }
          uint64_t n = argSize(CB, k); if (n && (int64_t)n <= poff) continue; // a part that does not include the reference
          if (e & (Own::REL | Own::RELP)) { if (!borrowed && !s.live && (e & Own::REL) && !(e & Own::RELP) && !o.twice) o.twice = CB; return false; }
          if (k > 0 && G && startsWith(fnName(*G), "ap_abstract1_")) { auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(k - 1)); if (c && c->getType()->isIntegerTy(8) && !c->isZero()) return false; }
        }
      }
    }
    return true;
  }
  // the start of the block, not an address inside
  bool exact(const Value *V, const St &s) { V = V->stripPointerCasts(); if (auto *I = dyn_cast<CastInst>(V)) return exact(I->getOperand(0), s); if (auto *G = dyn_cast<GEPOperator>(V)) return G->hasAllZeroIndices() && exact(G->getPointerOperand(), s); return true; }
  const Value *heap = nullptr; // a block allocated here whose contents are followed
  bool cell(const Value *V, const Value *&A, int64_t &off) { const Value *B = stripOffset(V, T.DL, off); A = isa<AllocaInst>(B) || (heap && B == heap) ? B : nullptr; return A; }
  const Instruction *at = nullptr; bool inplace = false; const Value *root = nullptr; int64_t roff = 0; const CallBase *acq = nullptr; unsigned acqArg = 0; bool must = true;
  uint64_t sizeOf(const Value *V, unsigned) { return 0; (void)V; }
  uint64_t argSize(const CallBase *CB, unsigned k) { // size of what parameter k points to
    if (auto *G = Own::callee(CB)) { auto sig = signatureOf(*G); unsigned sh = G->hasStructRetAttr() ? 1 : 0; if (k + 1 - sh < sig.size()) if (auto *D = dyn_cast_or_null<DIDerivedType>(stripType(sig[k + 1 - sh]))) if (D->getTag() == dwarf::DW_TAG_pointer_type) if (auto *B = stripType(D->getBaseType())) return B->getSizeInBits() / 8; }
    return 0;
  }
  const Value *localBase(const Value *V) { auto *B = Own::getUnderlying(V); return isa<AllocaInst>(B) || (heap && B == heap) ? B : nullptr; }
  // the block is only used through its address
  bool plainBlock(const Value *V, int d = 0) { if (d > 8) return false; for (auto *U : V->users()) { if (isa<GetElementPtrInst>(U) || isa<BitCastInst>(U)) { if (!plainBlock(U, d + 1)) return false; } else if (!isa<CallBase>(U) && !isa<LoadInst>(U) && !isa<StoreInst>(U) && !isa<ICmpInst>(U) && !isa<ReturnInst>(U)) return false; } return true; }
  bool covers(const CallBase *CB, unsigned k, const Value *A, int64_t off, const Value *B, int64_t boff) {
    if (A != B) return false; if (off == boff) return true; uint64_t n = argSize(CB, k); return boff >= off && (n == 0 ? boff == off : boff < off + (int64_t)n);
  }
  // an instruction in state s; false: the path ends here
  bool step(const Instruction &I, St &s, Out &o) {
    if (auto *X = dyn_cast<StoreInst>(&I)) { if (auto *A = dyn_cast<AllocaInst>(Own::getUnderlying(X->getPointerOperand()))) forget(s, [&](const Value *V) { return V == A; }); }
    else if (auto *CB = dyn_cast<CallBase>(&I)) { static const std::set<std::string> reads{"bsearch", "memcmp", "strcmp", "printf", "fprintf", "strlen"}; auto *Gc = Own::callee(CB); if (!isa<DbgInfoIntrinsic>(CB) && !isa<LifetimeIntrinsic>(CB) && !(Gc && reads.count(Gc->getName().str()))) { std::set<const Value *> as; for (auto &V : CB->args()) if (V->getType()->isPointerTy()) if (auto *A = dyn_cast<AllocaInst>(Own::getUnderlying(V))) as.insert(A); if (!as.empty()) forget(s, [&](const Value *V) { return as.count(V) > 0; }); } }
    if (par) return stepPar(I, s, o);
    if (&I == at) {
      if (s.pre) { s.pre = false; if (!inplace) s.alias.insert(acq); return true; }
      if (inplace) { if (s.live && o.leak == nullptr) { o.leak = &I; leakState = s; } return false; }
      if (!call(acq, s, o)) return false; // it may take over what it got before
      s.alias.erase(acq);
      if (s.live && s.alias.empty() && s.hold.empty()) { if (!o.leak) { o.leak = &I; leakState = s; } return false; }
      return true;
    }
    if (s.pre) return !isa<ReturnInst>(I) && !isa<UnreachableInst>(I);
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      const Value *A; int64_t off;
      if (inplace && L->getType()->isPointerTy() && cell(L->getPointerOperand(), A, off) && A == root && off == roff) content.insert(L);
      if (aggregate(I, s)) return true;
      if (L->getType()->isPointerTy() && cell(L->getPointerOperand(), A, off)) { if (s.hold.count({A, off})) s.alias.insert(L); else s.alias.erase(L); }
      else if (!L->getType()->isPointerTy() && cell(L->getPointerOperand(), A, off)) { // a piece of an aggregate as integer
        if (s.hold.count({A, off}) || (inplace && A == root && off == roff && false)) { s.live = false; o.escaped = true; } }
      if (!inplace && !s.live && o.released && isAlias(L->getPointerOperand(), s)) { if (!o.after) o.after = L; return false; }
      return true;
    }
    if (auto *X = dyn_cast<StoreInst>(&I)) {
      if (heap && X->getValueOperand()->getType()->isPointerTy() && Own::getUnderlying(X->getValueOperand()) == heap) { if (s.live) { s.live = false; o.escaped = true; } return false; }
      if (inplace && content.count(X->getValueOperand()->stripPointerCasts())) { if (s.live) { s.live = false; o.escaped = true; } return false; }
      const Value *A; int64_t off; bool al = X->getValueOperand()->getType()->isPointerTy() || X->getValueOperand()->getType()->isIntegerTy(64) ? isAlias(X->getValueOperand(), s) : X->getValueOperand()->getType()->isAggregateType() && isAlias(X->getValueOperand(), s);
      if (cell(X->getPointerOperand(), A, off)) { if (al) { if (s.live) s.hold.insert({A, off}); } else if (!X->getValueOperand()->getType()->isIntegerTy() || true) s.hold.erase({A, off}); }
      else if (al && s.live) { s.live = false; o.escaped = true; return false; }
      if (!s.live && !inplace && o.released && isAlias(X->getPointerOperand(), s)) { if (!o.after) o.after = X; return false; }
      return true;
    }
    if (auto *MT = dyn_cast<MemTransferInst>(&I)) {
      const Value *A, *B; int64_t off, off2;
      if (cell(MT->getRawSource(), A, off)) {
        auto *n = dyn_cast<ConstantInt>(MT->getLength()); int64_t len = n ? n->getSExtValue() : 1 << 20; bool toLocal = cell(MT->getRawDest(), B, off2);
        if (inplace && A == root && roff >= off && roff < off + len) { if (s.live) { s.live = false; o.escaped = true; return false; } }
        std::vector<std::pair<const Value *, int64_t>> add; for (auto &h : s.hold) if (h.first == A && h.second >= off && h.second < off + len) { if (!toLocal) { if (s.live) { s.live = false; o.escaped = true; return false; } } else add.push_back({B, off2 + h.second - off}); }
        for (auto &h : add) s.hold.insert(h);
      } else if (!inplace && isAlias(MT->getRawSource(), s)) { /* contents copied: whoever has the copy owns them */ }
      return true;
    }
    if (auto *R = dyn_cast<ReturnInst>(&I)) {
      if (!s.live) return false; auto *V = R->getReturnValue(); if (heap && V && V->getType()->isPointerTy() && Own::getUnderlying(V) == heap) { o.escaped = true; return false; } if (V && inplace && content.count(V->stripPointerCasts())) { o.escaped = true; return false; }
      if (V && isAlias(V, s)) { o.escaped = true; return false; }
      if (!o.leak) { o.leak = R; leakState = s; } return false;
    }
    if (isa<UnreachableInst>(I)) return false;
    if (isa<DbgInfoIntrinsic>(I) || isa<LifetimeIntrinsic>(I)) return true;
    if (isa<PtrToIntInst>(I)) { return true; }
    if (auto *CB = dyn_cast<CallBase>(&I)) return call(CB, s, o);
    return true;
  }
  bool call(const CallBase *CB, St &s, Out &o) {
      if (auto *G = Own::callee(CB)) if (G->doesNotReturn()) return false;
      for (unsigned k = 0; k < CB->arg_size(); k++) {
        const Value *V = CB->getArgOperand(k); const Value *A; int64_t off;
        bool p2i = !V->getType()->isPointerTy() && V->getType()->isIntegerTy(64);
        if (!V->getType()->isPointerTy() && !(p2i && isAlias(V, s)) && !V->getType()->isAggregateType()) continue;
        unsigned e = O.effect(CB, k); if (CB->isByValArgument(k)) e = Own::ESC; // the callee has a copy
        if (!inplace && isAlias(V, s)) {
          if (p2i) { if (s.live && (e & (Own::ESC | Own::RELP) || !O.J.slot(CB).empty())) { s.live = false; o.escaped = true; return false; } continue; }
          if (!s.live) { if (o.released) { if ((e & Own::RELP) && (e & Own::MUSTREL)) { if (!o.twice) o.twice = CB; } else if (!o.after) o.after = CB; } return false; }
          if (e & Own::RELP) { s.live = false; o.released = true; if (!(e & Own::MUSTREL)) return false; if (!exact(V, s)) return false; continue; }
          if (e & Own::ESC) { s.live = false; o.escaped = true; return false; }
          continue;
        }
        if (inplace && content.count(V->stripPointerCasts())) { if (e & (Own::RELP | Own::ESC)) { if (s.live) { s.live = false; if (e & Own::RELP) o.released = true; else o.escaped = true; return false; } } continue; }
        if (cell(V, A, off)) {
          if (inplace && A == root) {
            if (auto *Gf = Own::callee(CB)) if (heap && Gf->isDeclaration() && Gf->getName() == "free") { if (s.live && !o.leak) { o.leak = CB; leakState = s; } return false; }
            bool c = covers(CB, k, A, off, root, roff); 
            if ((e & Own::REL) && (e & Own::ACQ)) { if (c) continue; }
            if (e & (Own::REL | Own::RELP) && c) {
              if (!s.live) { if (o.released && (e & Own::MUSTREL) && !o.twice) o.twice = CB; return false; }
              s.live = false; o.released = true; if (!(e & Own::MUSTREL)) return false; continue;
            }
            if ((e & Own::ACQ) && c && off == roff) { if (s.live) { if (e & Own::MUSTACQ && !o.leak) { o.leak = CB; leakState = s; } } return false; }
            if (e & Own::ESC && s.live) { s.live = false; o.escaped = true; return false; }
            if (!s.live && c && off == roff && o.released && !(e & Own::ACQ) && Own::callee(CB)) { if (!o.after) o.after = CB; return false; }
          }
          for (auto h : std::set<std::pair<const Value *, int64_t>>(s.hold)) if (h.first == A && s.live) {
            bool c = covers(CB, k, A, off, A, h.second) || argSize(CB, k) == 0;
            if ((e & (Own::REL | Own::RELP)) && c) { s.live = false; o.released = true; return false; }
            if (e & (Own::ESC | Own::ACQ)) { s.live = false; o.escaped = true; return false; }
          }
        } else if (const Value *AA = localBase(V)) {
          // a computed place in a local array
          if (inplace && AA == root && (e & (Own::REL | Own::RELP | Own::ESC))) { s.live = false; o.escaped = true; return false; }
          for (auto &h : s.hold) if (h.first == AA && (e & (Own::REL | Own::RELP | Own::ESC)) && s.live) { s.live = false; o.escaped = true; return false; }
        }
      }
      return true;
  }
  static bool nullTest(const Value *V) { auto *I = dyn_cast<ICmpInst>(V); return I && I->isEquality() && isa<ConstantPointerNull>(I->getOperand(1)) && isa<LoadInst>(I->getOperand(0)); }
  std::set<const BasicBlock *> reach; St leakState; std::set<const Value *> content;
  // does the value tested decide whether the resource was acquired at all
  bool edge(const BranchInst *Br, unsigned k, St &s) { // false: infeasible or nothing held
    const Value *Cd = Br->getCondition(); bool truth = k == 0;
    std::string ky; bool pol; int known; atom(Cd, s, ky, pol, known);
    if (known >= 0 && known != (int)truth) return false;
    // nullness
    if (auto *I = dyn_cast<ICmpInst>(Cd)) if (I->isEquality()) {
      const Value *x = I->getOperand(0), *y = I->getOperand(1); if (isa<ConstantPointerNull>(x)) std::swap(x, y);
      bool isnull = (I->getPredicate() == CmpInst::ICMP_EQ) == truth;
      if (isa<ConstantPointerNull>(y)) {
        if (!s.pre && !inplace && isAlias(x, s) && isnull) { if (s.live || par) return false; }
        if (!s.pre && inplace && isnull && content.count(x->stripPointerCasts()) && s.live) return false;
        if (!s.pre && acq && acq->getType()->isPointerTy() && inplace && x->stripPointerCasts() == acq && isnull) return false;
      }
    }
    // the acquiring function's answer decides whether it acquired anything
    if (!s.pre && inplace && acq && !must && s.live) {
      auto *I = dyn_cast<ICmpInst>(Cd); const Value *c = Cd; for (int i = 0; i < 4; i++) { if (auto *J = dyn_cast<ICmpInst>(c)) c = J->getOperand(0); else if (auto *Z = dyn_cast<CastInst>(c)) c = Z->getOperand(0); else break; }
      if (c == acq) {
        auto *G = Own::callee(acq); auto *K = I ? dyn_cast<Constant>(I->getOperand(1)) : nullptr; if (!G || !I || !K || !I->isEquality()) { if (!isa<TruncInst>(Cd) || !G) return false; }
        bool zero = I ? (I->getPredicate() == CmpInst::ICMP_EQ) == truth : !truth; if (K && !K->isNullValue()) return false;
        if (acq->getType()->isPointerTy()) { if (zero) return false; }
        else { auto &na = O.notAcquired(*G, acqArg); bool has0 = na.count(0), has1 = na.size() > (has0 ? 1u : 0u); if (has0 == has1 || (has0 && zero) || (has1 && !zero)) return false; }
      }
    }
    if (known < 0 && !ky.empty()) { auto it = uses.find(ky); if (s.pre || (it != uses.end() && it->second > 1) || nullTest(Cd)) s.facts[ky] = truth == pol; }
    if (plain) s.facts.clear();
    return true;
  }
  // what the tests on the way to the acquisition have decided
  void assumeDominating(const Instruction *from, St &s) {
    auto &DT = O.dom(*F); auto *B = from->getParent(); std::vector<std::pair<const BranchInst *, bool>> ds;
    for (auto *N = DT.getNode(B); N && N->getIDom(); N = N->getIDom()) { auto *D = N->getIDom()->getBlock(); auto *Br = dyn_cast<BranchInst>(D->getTerminator()); if (!Br || !Br->isConditional()) continue; for (unsigned k = 0; k < 2; k++) if (DT.dominates(BasicBlockEdge(D, Br->getSuccessor(k)), B)) ds.push_back({Br, k == 0}); }
    std::reverse(ds.begin(), ds.end());
    for (auto &d : ds) { std::string ky; bool pol; int known; atom(d.first->getCondition(), s, ky, pol, known); if (known < 0 && !ky.empty()) s.facts[ky] = d.second == pol; }
  }
  Out exploreParam(const Argument *P, int64_t off, bool borrow) { par = P; poff = off; borrowed = borrow; inplace = false; acq = nullptr; at = nullptr; Out o = explore(&F->getEntryBlock().front()); if (o.gaveUp && off < 0 && borrow) { plain = true; o = explore(&F->getEntryBlock().front()); plain = false; } par = nullptr; return o; }
  bool plain = false; // what is kept of the tests on the way is dropped
  Out explore(const Instruction *from) {
    Out o; content.clear(); std::deque<std::pair<const BasicBlock *, St>> w; std::map<const BasicBlock *, std::set<St>> seen; unsigned n = 0;
    auto run = [&](const BasicBlock *B, BasicBlock::const_iterator it, St s) {
      bool wasLive = true; (void)wasLive;
      for (; it != B->end(); ++it) { if (isa<PHINode>(*it)) continue; Out before = o; if (!step(*it, s, o)) return; }
      auto *Tm = B->getTerminator();
      for (unsigned k = 0; k < Tm->getNumSuccessors(); k++) {
        const BasicBlock *X = Tm->getSuccessor(k); St t = s;
        if (auto *Br = dyn_cast<BranchInst>(Tm)) { if (Br->isConditional() && Tm->getSuccessor(0) != Tm->getSuccessor(1) && !edge(Br, k, t)) continue; }
        else if (auto *Sw = dyn_cast<SwitchInst>(Tm)) { int64_t v; if (num(Sw->getCondition(), t, v)) { bool isCase = false; for (auto &c : Sw->cases()) if (c.getCaseValue()->getSExtValue() == v) { isCase = true; if (c.getCaseSuccessor() != X) X = nullptr; break; } if (!X || (!isCase && X != Sw->getDefaultDest())) continue; } else { std::string ky = "sw " + key(Sw->getCondition()); if (uses[ky] > 1) { int val = -1; for (auto &c : Sw->cases()) if (c.getCaseSuccessor() == X) val = (int)c.getCaseValue()->getSExtValue(); auto it = t.facts.find(ky); if (it != t.facts.end() && it->second != val) continue; if (!plain) t.facts[ky] = val; } } }
        if (auto *L = LI->getLoopFor(X)) if (L->getHeader() == X && L->contains(B)) forget(t, [&](const Value *V) { auto *I = dyn_cast<Instruction>(V); return I && !isa<AllocaInst>(I) && L->contains(I); });
        // phis
        std::map<const PHINode *, std::pair<bool, std::pair<bool, int64_t>>> np; for (auto &P : X->phis()) { int i = P.getBasicBlockIndex(B); if (i < 0) continue; auto *V = P.getIncomingValue(i); int64_t v; bool kn = num1(V, t, v); if (!kn && V->getType()->isPointerTy() && nonNull(V, t)) { kn = true; v = 1; } if (!kn && V->getType()->isIntegerTy() && counted(V)) { kn = true; v = NZ; } np[&P] = {(V->getType()->isPointerTy() || V->getType()->isAggregateType()) && isAlias(V, t), {kn, kn ? v : 0}}; }
        for (auto &p : np) { if (p.second.first) t.alias.insert(p.first); else t.alias.erase(p.first); t.phis.erase(p.first); if (p.second.second.first && flagPhis.count(p.first)) t.phis[p.first] = p.second.second.second; }
        if (!t.live && !o.released && !par) continue;
        if (t.pre && !reach.count(X)) continue;
        if (n > 2000) prune(X, t);
        w.push_back({X, t});
      }
    };
    St s0; s0.pre = !par; auto *B0 = from->getParent(); auto *N = O.dom(*F).getNode(B0); for (int i = 0; i < 9 && N->getIDom(); i++) N = N->getIDom(); B0 = N->getBlock();
    reach.clear(); { std::vector<const BasicBlock *> wl{from->getParent()}; while (!wl.empty()) { auto *X = wl.back(); wl.pop_back(); if (!reach.insert(X).second) continue; for (auto *P : predecessors(X)) wl.push_back(P); } }
    assumeDominating(&B0->front(), s0);
    run(B0, B0 == from->getParent() ? from->getIterator() : B0->begin(), s0);
    while (!w.empty()) {
      auto p = w.front(); w.pop_front(); if (!seen[p.first].insert(p.second).second) continue;
      if (++n > 20000) { o.gaveUp = true; if (getenv("APA_GAVE")) fprintf(stderr, "gave up %s plain=%d par=%d seen=%zu facts=%zu\n", fn.c_str(), plain, par != nullptr, seen.size(), p.second.facts.size()); break; }
      run(p.first, p.first->begin(), p.second);
      if (o.leak && o.twice) break;
    }
    return o;
  }
  // what no later block asks for is dropped
  std::map<const BasicBlock *, std::set<const BasicBlock *>> later; std::map<std::string, std::set<const BasicBlock *>> askedIn;
  const std::set<const BasicBlock *> &from(const BasicBlock *B) {
    auto it = later.find(B); if (it != later.end()) return it->second; auto &r = later[B]; std::vector<const BasicBlock *> w{B};
    while (!w.empty()) { auto *X = w.back(); w.pop_back(); if (!r.insert(X).second) continue; for (auto *Y : successors(X)) w.push_back(Y); } return r;
  }
  bool usedLater(const Value *V, const std::set<const BasicBlock *> &r) { for (auto *U : V->users()) if (auto *I = dyn_cast<Instruction>(U)) { if (r.count(I->getParent())) return true; if (isa<CastInst>(I) || isa<GetElementPtrInst>(I)) if (usedLater(I, r)) return true; } return false; }
  void prune(const BasicBlock *B, St &s) {
    auto &r = from(B);
    for (auto it = s.facts.begin(); it != s.facts.end();) {
      bool k = false; for (auto *X : askedIn[it->first]) if (r.count(X)) { k = true; break; }
      if (!k && StringRef(it->first).starts_with("ne ") && StringRef(it->first).ends_with(" 0")) for (auto *V : leavesOf[it->first]) for (auto *U : V->users()) if (auto *I = dyn_cast<CallBase>(U)) if (r.count(I->getParent())) k = true;
      if (k) ++it; else it = s.facts.erase(it);
    }
    for (auto it = s.phis.begin(); it != s.phis.end();) if (usedLater(it->first, r)) ++it; else it = s.phis.erase(it);
    if (!s.live || s.alias.size() > 1) for (auto it = s.alias.begin(); it != s.alias.end();) if (*it == acq || usedLater(*it, r)) ++it; else it = s.alias.erase(it);
  }
  void prepare(Function &G) {
    later.clear(); askedIn.clear();
    F = &G; leavesOf.clear(); LI = std::make_unique<LoopInfo>(O.dom(G)); uses.clear(); flagPhis.clear(); St s;
    std::map<std::string, std::set<const BasicBlock *>> u;
    for (auto &B : G) { if (auto *Br = dyn_cast<BranchInst>(B.getTerminator())) { if (Br->isConditional()) { std::string k; bool p; int kn; atom(Br->getCondition(), s, k, p, kn); if (!k.empty()) { uses[k]++; askedIn[k].insert(&B); } flags(Br->getCondition()); } } else if (auto *Sw = dyn_cast<SwitchInst>(B.getTerminator())) { uses["sw " + key(Sw->getCondition())]++; askedIn["sw " + key(Sw->getCondition())].insert(&B); flags(Sw->getCondition()); } }
    for (auto &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = Own::callee(CB)) { int k = O.nullResult(*H); if (k >= 0 && (unsigned)k < CB->arg_size()) if (auto *P = dyn_cast<PHINode>(CB->getArgOperand(k))) flagPhis.insert(P); }
    for (int it = 0; it < 4; it++) { auto c = flagPhis; for (auto *P : c) for (auto &I : P->incoming_values()) if (auto *Q = dyn_cast<PHINode>(I)) flagPhis.insert(Q); }
  }
  void flags(const Value *V, int d = 0) { if (d > 4) return; if (auto *P = dyn_cast<PHINode>(V)) { bool c = false; for (auto &I : P->incoming_values()) if (isa<Constant>(I) || isa<PHINode>(I)) c = true; if (c) flagPhis.insert(P); return; } if (auto *I = dyn_cast<Instruction>(V)) if (isa<ICmpInst>(I) || isa<CastInst>(I) || (isa<BinaryOperator>(I) && I->getOpcode() == Instruction::Xor)) for (auto &o : I->operands()) flags(o, d + 1); }
  std::string what(const Instruction *I) {
    std::string n; if (auto *dv = variableOf(I)) n = dv->getName().str();
    else for (auto *U : I->users()) { if (isa<PHINode>(U) || isa<CastInst>(U)) { if (auto *dv = variableOf(U)) { n = dv->getName().str(); break; } } else if (auto *X = dyn_cast<StoreInst>(U)) if (X->getValueOperand() == I) { if (auto *A = dyn_cast<AllocaInst>(Own::getUnderlying(X->getPointerOperand()))) { auto *dv = variableOf(A); n = dv ? dv->getName().str() : A->getName().str(); break; } } }
    auto *CB = cast<CallBase>(I); std::string c; if (auto *G = Own::callee(CB)) c = Own::base(fnName(*G)); else { c = O.J.slot(CB); if (c.empty()) { const Value *b; int sl = O.S ? O.S->calledSlot(CB, b) : -1; c = sl >= 0 ? "operation " + O.S->op(sl) : "?"; } }
    return (n.empty() ? "result" : n) + " of " + c;
  }
  std::string inl(const Instruction *I, const std::string &f) { if (auto &D = I->getDebugLoc()) if (auto *S = D->getScope()->getSubprogram()) return S->getName().str(); return f; }
  void report(const Out &o, const std::string &w) {
    tally("resources"); if (o.gaveUp) tally("gave_up"); else tally("explored");
    emitObligation("released-on-every-path", fn, w, !o.leak); emitObligation("released-once", fn, w, !o.twice); emitObligation("not-used-after-release", fn, w, !o.after);
    auto fd = [&](const char *rule, const Instruction *I, const std::string &m) { if (I->getDebugLoc()) emitFinding(rule, fn, I->getDebugLoc(), w, m); else emitFinding(rule, fn, at->getDebugLoc(), w, m); };
    if (o.leak) fd("released-on-every-path", o.leak, fn + ": " + w + " (line " + std::to_string(at->getDebugLoc() ? at->getDebugLoc().getLine() : 0) + ") is not released on a path to here");
    if (o.twice) fd("released-once", o.twice, fn + ": " + w + " is released twice");
    if (o.after) fd("not-used-after-release", o.after, fn + ": " + w + " is used after it is released");
  }
  void function(Function &G) {
    fn = fnName(G); prepare(G); std::map<std::string, int> nth;
    for (Instruction &I : instructions(G)) {
      auto *CB = dyn_cast<CallBase>(&I); if (!CB || isa<IntrinsicInst>(CB)) continue;
      if (only && !only(CB)) continue;
      if (O.returnsFresh(CB)) { inplace = false; at = CB; acq = CB; Out o = explore(CB); std::string w = what(CB); int n = nth[w]++; report(o, n ? w + " #" + std::to_string(n + 1) : w); }
      for (unsigned k = 0; k < CB->arg_size(); k++) {
        if (!CB->getArgOperand(k)->getType()->isPointerTy()) continue; const Value *A; int64_t off; heap = nullptr;
        if (!cell(CB->getArgOperand(k), A, off)) { A = stripOffset(CB->getArgOperand(k), T.DL, off); auto *HB = dyn_cast<CallBase>(A); if (!HB || HB == CB || off != 0 || !O.returnsFresh(HB) || !Own::callee(HB) || !Own::callee(HB)->isDeclaration() || Own::callee(HB)->getName() == "realloc" || !plainBlock(A)) continue; heap = A; }
        unsigned e = O.effect(CB, k); if (!(e & Own::ACQ) || (e & (Own::REL | Own::RELP | Own::ESC))) continue;
        inplace = true; root = A; roff = off; at = CB; acq = CB; acqArg = k; must = e & Own::MUSTACQ; Out o = explore(CB);
        auto *dv = variableOf(A); if (heap) tally("blocks"); std::string w = (dv ? dv->getName().str() : A->getName().str()) + (off ? "+" + std::to_string(off) : "") + " by " + (Own::callee(CB) ? Own::base(fnName(*Own::callee(CB))) : "?"); int n = nth[w]++; report(o, n ? w + " #" + std::to_string(n + 1) : w);
      }
      heap = nullptr;
    }
  }
  std::function<bool(const CallBase *)> only;
};
}
namespace {
// v = f() where the result comes in a temporary that is then copied: the call fills v itself
void directResults(Function &F, const DataLayout &DL) {
  std::vector<MemTransferInst *> ms; for (auto &I : instructions(F)) if (auto *MT = dyn_cast<MemTransferInst>(&I)) ms.push_back(MT);
  for (auto *MT : ms) {
    auto *A = dyn_cast<AllocaInst>(MT->getRawSource()->stripPointerCasts()), *D = dyn_cast<AllocaInst>(MT->getRawDest()->stripPointerCasts()); auto *n = dyn_cast<ConstantInt>(MT->getLength());
    if (!A || !D || A == D || !n || n->getZExtValue() != DL.getTypeAllocSize(A->getAllocatedType()) || DL.getTypeAllocSize(D->getAllocatedType()) != n->getZExtValue()) continue;
    CallBase *CB = nullptr; bool ok = true; for (auto *U : A->users()) { if (U == MT) continue; auto *C = dyn_cast<CallBase>(U); if (!C) { ok = false; break; } if (isa<LifetimeIntrinsic>(C) || isa<DbgInfoIntrinsic>(C)) continue; if (CB || !C->paramHasAttr(0, Attribute::StructRet) || C->getArgOperand(0) != A) { ok = false; break; } CB = C; }
    if (!ok || !CB || CB->getParent() != MT->getParent() || !CB->comesBefore(MT)) continue;
    for (auto it = std::next(CB->getIterator()); &*it != MT; ++it) if (!isa<LifetimeIntrinsic>(*it) && !isa<DbgInfoIntrinsic>(*it) && !isa<GetElementPtrInst>(*it)) { if (auto *C = dyn_cast<CallBase>(&*it)) { (void)C; ok = false; } for (auto &o : it->operands()) if (Own::getUnderlying(o) == D) ok = false; }
    for (unsigned k = 1; k < CB->arg_size(); k++) if (CB->getArgOperand(k)->getType()->isPointerTy() && Own::getUnderlying(CB->getArgOperand(k)) == D) ok = false;
    if (!ok) continue;
    CB->setArgOperand(0, D); MT->eraseFromParent(); tally("direct_results");
  }
}
bool isEnvPtr(const DIType *D) { return D && typeName(D) == "ap_environment_t*"; }
bool givesEnv(const CallBase *CB) {
  auto *G = Own::callee(CB); if (!G) return false;
  if (G->isDeclaration() && G->getName() == "malloc") { if (auto *dv = variableOf(CB)) return isEnvPtr(dv->getType()); return false; }
 auto sig = signatureOf(*G); return !sig.empty() && isEnvPtr(sig[0]); }
bool inScope(const Function &F, const std::vector<std::string> &args) {
  auto *SP = F.getSubprogram(); if (!SP) return false; std::string file = SP->getFilename().str();
  if (StringRef(file).ends_with(".cc") || StringRef(file).ends_with(".hh") || file.find("/usr/") == 0) return false;
  if (args.size() <= 2) return true; for (size_t i = 2; i < args.size(); i++) if (file.find(args[i]) != std::string::npos) return true; return false;
}
// P23: references to environments
void environments(Module &M, Own &O, Trace &Tr, const std::vector<std::string> &args) {
  Tr.only = givesEnv; std::vector<Function *> fs;
  for (Function &F : M) if (!F.isDeclaration() && inScope(F, args)) { std::string n = Own::base(fnName(F)); if (!O.acquireNames.count(n) && !O.releaseNames.count(n)) fs.push_back(&F); }
  for (auto *F : fs) {
    auto sig = signatureOf(*F); bool mentions = false;
    for (auto *D : sig) { std::string t = D ? typeName(D) : ""; if (t.find("1_t") != std::string::npos || t.find("1_array_t") != std::string::npos || t.find("environment") != std::string::npos) mentions = true; }
    if (!mentions) continue;
    // a helper of this file alone is judged where it is expanded
    if (F->hasLocalLinkage() && !F->use_empty() && !(!sig.empty() && isEnvPtr(sig[0]))) { bool calls = true; for (auto *U : F->users()) { auto *CB = dyn_cast<CallBase>(U); if (!CB || CB->getCalledOperand() != F || CB->getFunction() == F) calls = false; } if (calls) { tally("helpers"); continue; } }
    tally("functions");
    int da = -1; for (auto &A : F->args()) if (auto *dv = variableOf(&A)) if (dv->getName() == "destructive") da = A.getArgNo();
    for (int v = da < 0 ? -1 : 0; v <= (da < 0 ? -1 : 1); v++) {
      ValueToValueMapTy VM; Function *G = v < 0 ? CloneFunction(F, VM) : specialise(*F, da, v); if (v < 0) G->setName(F->getName() + ".spec"); 
      inlineInto(*G, [&](const Function &H) { std::string n = Own::base(fnName(H)); auto hs = signatureOf(H); return H.hasLocalLinkage() && H.getSubprogram() && !(!hs.empty() && isEnvPtr(hs[0])) && H.getSubprogram()->getFile() == F->getSubprogram()->getFile() && !O.acquireNames.count(n) && !O.releaseNames.count(n); });
      promoteFunction(*G); O.doms.erase(G);
      Tr.function(*G); tally(v < 0 ? "bodies" : v ? "bodies_destructive" : "bodies_nondestructive");
      // what the parameters hold
      Tr.fn = fnName(*F); Tr.prepare(*G);
      for (auto &A : G->args()) {
        if (!A.getType()->isPointerTy() || A.hasStructRetAttr()) continue; auto *dv = variableOf(&A); if (!dv) continue;
        const DIType *D = stripType(dv->getType()); auto *P = dyn_cast_or_null<DIDerivedType>(D); if (!P || P->getTag() != dwarf::DW_TAG_pointer_type) continue;
        int64_t off = -1; if (typeName(dv->getType()) == "ap_environment_t**") off = 0; else if (!isEnvPtr(dv->getType())) { auto *C = dyn_cast_or_null<DICompositeType>(stripType(P->getBaseType())); if (!C || C->getTag() != dwarf::DW_TAG_structure_type) continue; for (auto *E : C->getElements()) if (auto *m = dyn_cast<DIDerivedType>(E)) if (isEnvPtr(m->getBaseType())) off = m->getOffsetInBits() / 8; if (off < 0) continue; }
        bool touched = false, stored = false, loaded = false; if (off < 0) touched = true; else for (auto &I : instructions(*G)) { if (auto *L = dyn_cast<LoadInst>(&I)) { int64_t o2; if (Tr.wholeArray0(dv) && Own::getUnderlying(L->getPointerOperand()) == &A) touched = true; if (stripOffset(L->getPointerOperand(), O.T.DL, o2) == &A) { loaded = true; if (o2 == off) touched = true; } } else if (auto *X = dyn_cast<StoreInst>(&I)) { int64_t o2; if (stripOffset(X->getPointerOperand(), O.T.DL, o2) == &A && o2 == off) stored = true; } else if (auto *MT = dyn_cast<MemTransferInst>(&I)) { int64_t o2; if (stripOffset(MT->getRawSource(), O.T.DL, o2) == &A) touched = true; } else if (auto *CB = dyn_cast<CallBase>(&I)) { auto *G = Own::callee(CB); if (G && G->getName() == "free" && CB->getArgOperand(0)->stripPointerCasts() == &A) touched = true; for (unsigned k = 0; k < CB->arg_size(); k++) if (CB->getArgOperand(k)->getType()->isPointerTy()) { int64_t o2; if (stripOffset(CB->getArgOperand(k), O.T.DL, o2) == &A && (O.effect(CB, k) & Own::REL)) loaded = true; } } }
        if (stored && loaded) touched = true; // not an output
        if (!touched) continue;
        bool owned = v == 1 && A.getArgNo() == (unsigned)da + 1 && typeName(dv->getType()) == "ap_abstract1_t*";
        Tr.wholeArray = typeName(dv->getType()) == "ap_environment_t**"; Trace::Out o = Tr.exploreParam(&A, off, !owned); Tr.wholeArray = false; std::string key = std::string(dv->getName()) + (off < 0 ? "" : typeName(dv->getType()) == "ap_environment_t**" ? "[]" : "->env") + (v == 1 ? " when destructive" : "");
        tally("parameters"); if (o.gaveUp) tally("gave_up");
        auto fd = [&](const char *rule, const Instruction *I, const std::string &m) { emitObligation(rule, Tr.fn, key, !I); if (!I) return; const Instruction *J = I; if (!J->getDebugLoc()) for (auto &K : instructions(*G)) if (K.getDebugLoc()) { J = &K; break; } emitFinding(rule, Tr.fn, J->getDebugLoc(), key, m); };
        static const std::set<std::string> transfers{"ap_lincons1_array_set cons", "ap_tcons1_array_set cons", "ap_generator1_array_set gen"};
        if (transfers.count(Tr.fn + " " + dv->getName().str())) fd("transferred-reference-released", o.gaveUp || o.twice ? nullptr : &G->getEntryBlock().front(), Tr.fn + ": the reference " + key + ", which the caller hands over, is never released");
        else if (owned) {
          fd("consumed-reference-passed-on", o.leak, Tr.fn + ": the reference " + key + " is neither released nor passed on in the result on a path to here");
          fd("reference-once", o.twice, Tr.fn + ": the reference " + key + " is released and passed on, or released twice");
        } else {
          fd("kept-reference-acquired", o.leak, Tr.fn + ": " + key + " is kept in a result without a reference of its own");
          fd("borrowed-reference-left", o.twice, Tr.fn + ": the caller's reference " + key + " is released and left in place");
        }
        if (off >= 0) fd("replaced-reference-released", o.after, Tr.fn + ": " + key + " is overwritten or freed while it still holds a reference");
      }
      G->eraseFromParent(); O.doms.erase(G);
    }
  }
}
}
int runOwn(std::vector<std::string> args) {
  LLVMContext Cx; auto M = loadModule(args[0], Cx); if (!M) return 2;
  promote(*M); for (Function &F : *M) if (!F.isDeclaration()) directResults(F, M->getDataLayout());
  Types T(*M); Slots S(*M, T); Own O(*M, T, &S);
  std::string mode = args.size() > 1 ? args[1] : "all";
  O.acquireNames = {"ap_environment_copy"}; O.releaseNames = {"ap_environment_free", "ap_environment_free2"};
  O.summarise();
  if (getenv("APA_SUM")) for (auto &p : O.sum) { std::string n = fnName(*p.first); if (n != getenv("APA_SUM")) continue; fprintf(stderr, "%s fresh=%d", n.c_str(), (int)O.fresh[p.first]); for (auto e : p.second) fprintf(stderr, " %u", e); fprintf(stderr, "\n"); }
  Trace Tr(O);
  if (mode == "env") { environments(*M, O, Tr, args); return 0; }
  if (mode == "local") Tr.only = [](const CallBase *CB) { return !givesEnv(CB); };
  for (Function &F : *M) if (!F.isDeclaration() && inScope(F, args)) { tally("functions"); Tr.function(F); }
  return 0;
}
