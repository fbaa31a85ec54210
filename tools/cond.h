// Conditional evaluation: constants of values and feasible edges under assumptions on leaves.
#pragma once
#include "apa.h"
struct Cond {
  struct Val { bool k = false; int64_t v = 0; };
  std::function<Val(const Value *)> leaf; // assumptions
  std::set<std::pair<const BasicBlock *, const BasicBlock *>> edges;
  std::set<const BasicBlock *> reach;
  static Val known(int64_t v) { Val r; r.k = true; r.v = v; return r; }
  Val eval(const Value *V, int d = 0) {
    Val r;
    if (auto *c = dyn_cast<ConstantInt>(V)) { if (c->getBitWidth() <= 64) return known(c->getBitWidth() == 1 ? c->getZExtValue() : c->getSExtValue()); return r; }
    if (isa<ConstantPointerNull>(V)) return known(0);
    if (leaf) { Val l = leaf(V); if (l.k) return l; }
    if (d > 16) return r;
    if (auto *I = dyn_cast<ICmpInst>(V)) {
      Val a = eval(I->getOperand(0), d + 1), b = eval(I->getOperand(1), d + 1);
      if (!a.k || !b.k) return r;
      bool q;
      switch (I->getPredicate()) {
      case CmpInst::ICMP_EQ: q = a.v == b.v; break; case CmpInst::ICMP_NE: q = a.v != b.v; break;
      case CmpInst::ICMP_ULT: q = (uint64_t)a.v < (uint64_t)b.v; break; case CmpInst::ICMP_UGT: q = (uint64_t)a.v > (uint64_t)b.v; break;
      case CmpInst::ICMP_ULE: q = (uint64_t)a.v <= (uint64_t)b.v; break; case CmpInst::ICMP_UGE: q = (uint64_t)a.v >= (uint64_t)b.v; break;
      case CmpInst::ICMP_SLT: q = a.v < b.v; break; case CmpInst::ICMP_SGT: q = a.v > b.v; break;
      case CmpInst::ICMP_SLE: q = a.v <= b.v; break; case CmpInst::ICMP_SGE: q = a.v >= b.v; break;
      default: return r;
      }
      return known(q);
    }
    if (auto *S = dyn_cast<SelectInst>(V)) {
      Val c = eval(S->getCondition(), d + 1); if (c.k) return eval(c.v ? S->getTrueValue() : S->getFalseValue(), d + 1);
      Val a = eval(S->getTrueValue(), d + 1), b = eval(S->getFalseValue(), d + 1); if (a.k && b.k && a.v == b.v) return a;
      return r;
    }
    if (auto *X = dyn_cast<CastInst>(V)) {
      Val c = eval(X->getOperand(0), d + 1); if (!c.k) return c;
      if (isa<ZExtInst>(X)) { unsigned w = X->getSrcTy()->getIntegerBitWidth(); if (w < 64) c.v &= (int64_t(1) << w) - 1; }
      else if (isa<SExtInst>(X)) { if (X->getSrcTy()->isIntegerTy(1)) c.v = c.v & 1 ? -1 : 0; }
      else if (isa<TruncInst>(X)) { unsigned w = X->getDestTy()->getIntegerBitWidth(); if (w == 1) c.v &= 1; else if (w < 64) c.v = (int64_t)((uint64_t)c.v << (64 - w)) >> (64 - w); }
      return c;
    }
    if (auto *F = dyn_cast<FreezeInst>(V)) return eval(F->getOperand(0), d + 1);
    if (auto *B = dyn_cast<BinaryOperator>(V)) {
      Val a = eval(B->getOperand(0), d + 1), b = eval(B->getOperand(1), d + 1);
      auto wrap = [&](int64_t v) { unsigned w = B->getType()->isIntegerTy() ? B->getType()->getIntegerBitWidth() : 64; return known(w == 1 ? v & 1 : w < 64 ? (int64_t)((uint64_t)v << (64 - w)) >> (64 - w) : v); };
      switch (B->getOpcode()) {
      case Instruction::And: if ((a.k && !a.v) || (b.k && !b.v)) return known(0); if (a.k && b.k) return known(a.v & b.v); break;
      case Instruction::Mul: if (a.k && b.k) return wrap((int64_t)((uint64_t)a.v * (uint64_t)b.v)); break;
      case Instruction::Or: if (a.k && b.k) return known(a.v | b.v); if (B->getType()->isIntegerTy(1) && ((a.k && a.v) || (b.k && b.v))) return known(1); break;
      case Instruction::Xor: if (a.k && b.k) return known(a.v ^ b.v); break;
      case Instruction::Add: if (a.k && b.k) return wrap((int64_t)((uint64_t)a.v + (uint64_t)b.v)); break;
      case Instruction::Sub: if (a.k && b.k) return wrap((int64_t)((uint64_t)a.v - (uint64_t)b.v)); break;
      default: break;
      }
      return r;
    }
    if (auto *P = dyn_cast<PHINode>(V)) {
      bool first = true; Val x;
      for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
        if (!edges.count({P->getIncomingBlock(i), P->getParent()})) continue;
        if (P->getIncomingValue(i) == P) continue;
        Val y = eval(P->getIncomingValue(i), d + 2); if (!y.k) return r; if (first) { x = y; first = false; } else if (x.v != y.v) return r; }
      return first ? r : x;
    }
    return r;
  }
  // successors feasible from B's terminator
  std::vector<const BasicBlock *> next(const BasicBlock *B) {
    std::vector<const BasicBlock *> r; auto *T = B->getTerminator();
    if (auto *II = dyn_cast<InvokeInst>(T)) { r.push_back(II->getNormalDest()); return r; }
    if (auto *Br = dyn_cast<BranchInst>(T)) if (Br->isConditional()) { auto v = eval(Br->getCondition()); if (v.k) { r.push_back(Br->getSuccessor(v.v ? 0 : 1)); return r; } }
    if (auto *Sw = dyn_cast<SwitchInst>(T)) { auto v = eval(Sw->getCondition()); if (v.k) { const BasicBlock *D = Sw->getDefaultDest(); for (auto &c : Sw->cases()) if (c.getCaseValue()->getSExtValue() == v.v) D = c.getCaseSuccessor(); r.push_back(D); return r; } }
    for (auto *S : successors(B)) r.push_back(S);
    return r;
  }
  // forward exploration from the end of block B (or its beginning); stop(block) = do not continue.
  // Repeats until the set of feasible edges is stable (new edges can only make values less known).
  void explore(const BasicBlock *start, const std::function<bool(const BasicBlock *)> &stop = {}) {
    edges.clear(); reach.clear();
    for (;;) {
      size_t n = edges.size();
      std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w{start};
      while (!w.empty()) {
        auto *B = w.back(); w.pop_back(); if (!seen.insert(B).second) continue;
        if (B != start && stop && stop(B)) continue;
        for (auto *S : next(B)) { edges.insert({B, S}); w.push_back(S); }
      }
      reach = seen;
      if (edges.size() == n) return;
    }
  }
};
