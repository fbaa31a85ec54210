// Operation tables: which slot a pointer addresses, what is dispatched, which functions are stored.
#pragma once
#include "apa.h"
struct Slots {
  Module &M; Types &T; uint64_t off = 0; int nslots = 0;
  std::map<int64_t, std::string> ids;
  Slots(Module &M, Types &T) : M(M), T(T) {
    ids = enumerators(M, "ap_funid_t");
    const DICompositeType *C = T.composite("ap_manager_t");
    if (!C || ids.size() < 40) { emitError("ap_manager_t or ap_funid_t not found"); exit(3); }
    for (auto *E : C->getElements())
      if (auto *D = dyn_cast<DIDerivedType>(E))
        if (D->getName() == "funptr") { off = D->getOffsetInBits() / 8; nslots = D->getSizeInBits() / 64; }
    if (!nslots) { emitError("ap_manager_t.funptr not found"); exit(3); }
  }
  std::string op(int k) { auto it = ids.find(k); return it == ids.end() ? "?" : it->second.substr(strlen("AP_FUNID_")); }
  // slot number addressed by V, -2 = some slot, -1 = none
  int slot(const Value *V, const Value *&base) {
    int64_t o; const Value *B = stripOffset(V, T.DL, o);
    base = B;
    if (auto *G = dyn_cast<GEPOperator>(B)) {
      int64_t o2; const Value *B2 = stripOffset(G->getPointerOperand(), T.DL, o2);
      if (typeName(T.pointee(B2)) == "ap_manager_t" && (uint64_t)o2 >= off && (uint64_t)o2 < off + 8 * nslots) { base = B2; return -2; }
      return -1;
    }
    if (typeName(T.pointee(B)) != "ap_manager_t") return -1;
    if ((uint64_t)o < off || (uint64_t)o >= off + 8 * nslots) return -1;
    return (o - off) / 8;
  }
  // slot an indirect call goes through (-1: none, -2: a slot with a computed number)
  int calledSlot(const CallBase *CB, const Value *&base, const Value **index = nullptr) {
    if (isa<Function>(CB->getCalledOperand()->stripPointerCasts()) || CB->isInlineAsm()) return -1;
    auto *L = dyn_cast<LoadInst>(CB->getCalledOperand()->stripPointerCasts());
    if (!L) return -1;
    (void)index;
    return slot(L->getPointerOperand(), base);
  }
  // functions stored in operation tables, with their slots
  std::map<const Function *, std::set<int>> functions() {
    std::map<const Function *, std::set<int>> r;
    for (Function &F : M) for (Instruction &I : instructions(F)) {
      const Value *b;
      if (auto *S = dyn_cast<StoreInst>(&I)) {
        auto *f = dyn_cast<Function>(S->getValueOperand()->stripPointerCasts()); if (!f) continue;
        int k = slot(S->getPointerOperand(), b); if (k >= 0) r[f].insert(k);
      } else if (auto *MC = dyn_cast<MemCpyInst>(&I)) {
        int k = slot(MC->getDest(), b); if (k < 0) continue;
        auto *GV = dyn_cast<GlobalVariable>(MC->getSource()->stripPointerCasts());
        if (GV && GV->hasInitializer()) if (auto *CA = dyn_cast<ConstantAggregate>(GV->getInitializer()))
          for (unsigned i = 0; i < CA->getNumOperands(); i++) if (auto *f = dyn_cast<Function>(CA->getOperand(i)->stripPointerCasts())) r[f].insert(k + i);
      }
    }
    return r;
  }
  static std::vector<const BasicBlock *> rpo(const Function &F) {
    std::vector<const BasicBlock *> r; std::set<const BasicBlock *> seen;
    std::vector<std::pair<const BasicBlock *, unsigned>> st{{&F.getEntryBlock(), 0}}; seen.insert(&F.getEntryBlock());
    while (!st.empty()) {
      auto &p = st.back(); auto *t = p.first->getTerminator();
      if (p.second < t->getNumSuccessors()) { auto *s = t->getSuccessor(p.second++); if (seen.insert(s).second) st.push_back({s, 0}); }
      else { r.push_back(p.first); st.pop_back(); }
    }
    std::reverse(r.begin(), r.end()); return r;
  }
};
