// Access paths from parameters through memory: which element and field of which argument a value is loaded from.
#pragma once
#include "apa.h"
#include "cond.h"
struct Step { std::string field; bool known = true; int64_t idx = 0; int64_t sub = 0; };
struct Chain {
  Types &T; Cond C;
  Chain(Types &T) : T(T) {}
  // a parameter passed on by its address: the value stored there
  const Value *thru(const Value *V) {
    for (int k = 0; k < 4; k++) {
      V = V->stripPointerCasts(); auto *L = dyn_cast<LoadInst>(V); if (!L) return V;
      const Value *P = L->getPointerOperand()->stripPointerCasts();
      while (auto *G = dyn_cast<GEPOperator>(P)) { for (auto it = G->idx_begin(); it != G->idx_end(); ++it) { auto v = C.eval(it->get()); if (!v.k || v.v) return V; } P = G->getPointerOperand()->stripPointerCasts(); }
      auto *A = dyn_cast<AllocaInst>(P); if (!A || A->getAllocatedType() != L->getType()) return V;
      const Value *st = nullptr; for (auto *U : A->users()) if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() != A || st) return V; st = S->getValueOperand(); }
      if (!st) return V; V = st;
    }
    return V;
  }
  // the chain of loads from a parameter to pointer P (P itself included as last step)
  bool steps(const Value *P, int &root, std::vector<Step> &r, int d = 0) {
    if (d > 12) return false;
    Step st; const Value *V = P->stripPointerCasts();
    const Value *b; std::string n; 
    if (T.fieldOf(V, b, n)) st.field = n;
    while (true) {
      V = V->stripPointerCasts();
      if (auto *G = dyn_cast<GEPOperator>(V)) {
        unsigned k = 0; Type *t = G->getSourceElementType();
        for (auto it = G->idx_begin(); it != G->idx_end(); ++it, ++k) {
          bool elem = k == 0 || (t && t->isArrayTy());
          if (k > 0) { if (t->isStructTy()) { auto *c = dyn_cast<ConstantInt>(it->get()); if (c) st.sub += T.DL.getStructLayout(cast<StructType>(t))->getElementOffset(c->getZExtValue()); t = c ? cast<StructType>(t)->getElementType(c->getZExtValue()) : nullptr; } else if (t->isArrayTy()) t = t->getArrayElementType(); if (!t) break; }
          if (elem) { auto v = C.eval(it->get()); if (!v.k) st.known = false; else st.idx += v.v; }
        }
        V = G->getPointerOperand(); continue;
      }
      break;
    }
    V = thru(V);
    if (auto *A = dyn_cast<Argument>(V)) { root = A->getArgNo(); r.push_back(st); return true; }
    if (auto *L = dyn_cast<LoadInst>(V)) { if (!steps(L->getPointerOperand(), root, r, d + 1)) return false; r.push_back(st); return true; }
    return false;
  }
  // index of the outermost element a chain goes through
  static void outer(const std::vector<Step> &r, size_t upto, bool &known, int64_t &i) { known = true; i = 0; for (size_t k = 0; k < upto && k < r.size(); k++) { if (!r[k].known) { known = false; return; } i += r[k].idx; } }
};
