// P24: formatted output stays within its buffer, formats are literals.
#include "apa.h"
#include "llvm/IR/Dominators.h"
namespace {
struct Fmt { int dst, size, fmt; }; // argument numbers, -1 = none
const std::map<std::string, Fmt> FNS = {
  {"snprintf", {0, 1, 2}}, {"vsnprintf", {0, 1, 2}}, {"sprintf", {0, -1, 1}}, {"vsprintf", {0, -1, 1}},
  {"__snprintf_chk", {0, 1, 4}}, {"__sprintf_chk", {0, -1, 3}}, {"__gmp_snprintf", {0, 1, 2}}, {"__gmp_sprintf", {0, -1, 1}},
  {"mpfr_snprintf", {0, 1, 2}}, {"mpfr_sprintf", {0, -1, 1}},
  {"printf", {-1, -1, 0}}, {"fprintf", {-1, -1, 1}}, {"vprintf", {-1, -1, 0}}, {"vfprintf", {-1, -1, 1}}, {"dprintf", {-1, -1, 1}},
  {"asprintf", {-1, -1, 1}}, {"__gmp_fprintf", {-1, -1, 1}}, {"__gmp_printf", {-1, -1, 0}}, {"mpfr_fprintf", {-1, -1, 1}}, {"mpfr_printf", {-1, -1, 0}},
  {"mpfr_asprintf", {-1, -1, 1}}, {"__gmp_asprintf", {-1, -1, 1}}, {"syslog", {-1, -1, 1}},
};
bool literal(const Value *V, std::string *s = nullptr) {
  V = V->stripPointerCasts();
  if (auto *S = dyn_cast<SelectInst>(V)) return literal(S->getTrueValue(), s) && literal(S->getFalseValue(), s);
  if (auto *P = dyn_cast<PHINode>(V)) { for (auto &x : P->incoming_values()) if (!literal(x.get(), s)) return false; return true; }
  auto *G = dyn_cast<GlobalVariable>(V);
  if (!G || !G->isConstant() || !G->hasInitializer()) return false;
  if (auto *C = dyn_cast<ConstantDataSequential>(G->getInitializer())) { if (!C->isCString()) return false; if (s) *s = C->getAsCString().str(); return true; }
  return isa<ConstantAggregateZero>(G->getInitializer());
}
// longest text a literal format can produce, -1 if unbounded
long maxLen(const std::string &f) {
  long n = 0;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { n++; continue; }
    i++;
    long width = 0; bool lng = false;
    while (i < f.size() && strchr("-+ #0", f[i])) i++;
    if (i < f.size() && f[i] == '*') return -1;
    while (i < f.size() && isdigit(f[i])) width = width * 10 + f[i++] - '0';
    if (i < f.size() && f[i] == '.') return -1;
    while (i < f.size() && strchr("hlzjt", f[i])) { if (f[i] != 'h') lng = true; i++; }
    if (i >= f.size()) return -1;
    long w;
    switch (f[i]) {
    case '%': case 'c': w = 1; break;
    case 'd': case 'i': case 'u': w = lng ? 20 : 11; break;
    case 'x': case 'X': case 'o': w = lng ? 24 : 13; break;
    case 'p': w = 20; break;
    default: return -1;
    }
    n += std::max(w, width);
  }
  return n;
}
struct Checker {
  Module &M; const DataLayout &DL;
  Checker(Module &M) : M(M), DL(M.getDataLayout()) {}
  static const Value *stripInt(const Value *V) { while (auto *C = dyn_cast<CastInst>(V)) V = C->getOperand(0); return V; }
  static bool same(const Value *a, const Value *b) {
    a = stripInt(a); b = stripInt(b);
    if (a == b) return true;
    auto *x = dyn_cast<ConstantInt>(a), *y = dyn_cast<ConstantInt>(b);
    if (x && y) return x->getZExtValue() == y->getZExtValue();
    auto *la = dyn_cast<LoadInst>(a), *lb = dyn_cast<LoadInst>(b);
    if (la && lb && la->getPointerOperand() == lb->getPointerOperand() && isa<AllocaInst>(la->getPointerOperand())) return true;
    auto *ia = dyn_cast<Instruction>(a), *ib = dyn_cast<Instruction>(b);
    if (ia && ib && ia->getOpcode() == ib->getOpcode() && isa<BinaryOperator>(ia)) return same(ia->getOperand(0), ib->getOperand(0)) && same(ia->getOperand(1), ib->getOperand(1));
    return false;
  }
  static const Value *addConst(const Value *V, int64_t &c) {
    c = 0;
    for (;;) {
      V = stripInt(V);
      auto *B = dyn_cast<BinaryOperator>(V);
      if (B && B->getOpcode() == Instruction::Add) if (auto *K = dyn_cast<ConstantInt>(B->getOperand(1))) { c += K->getSExtValue(); V = B->getOperand(0); continue; }
      return V;
    }
  }
  bool sameAddr(const Value *a, const Value *b, int d = 0) {
    if (a == b) return true;
    if (d > 4) return false;
    auto *la = dyn_cast<LoadInst>(a), *lb = dyn_cast<LoadInst>(b);
    if (la && lb) return sameAddr(la->getPointerOperand(), lb->getPointerOperand(), d + 1);
    auto *ga = dyn_cast<GEPOperator>(a), *gb = dyn_cast<GEPOperator>(b);
    if (!ga || !gb || ga->getNumIndices() != gb->getNumIndices() || ga->getSourceElementType() != gb->getSourceElementType()) return false;
    if (!sameAddr(ga->getPointerOperand(), gb->getPointerOperand(), d + 1)) return false;
    for (auto i = ga->idx_begin(), j = gb->idx_begin(); i != ga->idx_end(); ++i, ++j) if (!same(*i, *j)) return false;
    return true;
  }
  // the one value stored at the address L reads, when there is one such store in the function
  const Value *stored(const LoadInst *L) {
    const Value *r = nullptr; int n = 0;
    for (auto &I : instructions(*L->getFunction())) if (auto *S = dyn_cast<StoreInst>(&I)) if (sameAddr(S->getPointerOperand(), L->getPointerOperand())) { r = S->getValueOperand(); n++; }
    return n == 1 ? r : nullptr;
  }
  const Instruction *culprit = nullptr;
  // "" = fits; otherwise why not
  std::string fits(const Value *dst, const Value *size, const Instruction *at, int depth, std::set<std::pair<const Function *, int>> &seen) {
    if (depth > 8) return "";
    culprit = at;
    if (auto *L = dyn_cast<LoadInst>(dst)) if (const Value *v = stored(L)) return fits(v, size, at, depth + 1, seen);
    if (auto *P = dyn_cast<PHINode>(dst)) { for (auto &x : P->incoming_values()) { if (isa<ConstantPointerNull>(x)) continue; auto w = fits(x.get(), size, at, depth + 1, seen); if (!w.empty()) return w; } return ""; }
    if (auto *S = dyn_cast<SelectInst>(dst)) { auto w = fits(S->getTrueValue(), size, at, depth + 1, seen); return w.empty() ? fits(S->getFalseValue(), size, at, depth + 1, seen) : w; }
    int64_t off; const Value *B = stripOffset(dst, DL, off);
    const Value *sz = stripInt(size);
    auto *K = dyn_cast<ConstantInt>(sz);
    if (auto *A = dyn_cast<AllocaInst>(B)) {
      if (auto N = A->getAllocationSize(DL); N && !N->isScalable()) {
        uint64_t cap = N->getFixedValue() - off;
        if (!K) return "the limit is not a constant but the buffer has " + std::to_string(cap) + " bytes";
        if (K->getZExtValue() > cap) return "limit " + std::to_string(K->getZExtValue()) + " for a buffer of " + std::to_string(cap) + " bytes";
        return "";
      }
      if (off == 0 && same(A->getArraySize(), sz)) return "";
      return "the limit is not the size of the buffer";
    }
    if (auto *G = dyn_cast<GlobalVariable>(B)) {
      uint64_t cap = DL.getTypeAllocSize(G->getValueType()) - off;
      if (K && K->getZExtValue() <= cap) return "";
      return "limit not within the global buffer";
    }
    if (auto *CB = dyn_cast<CallBase>(B)) if (auto *F = CB->getCalledFunction()) {
      StringRef n = F->getName(); const Value *S = nullptr;
      if (n == "malloc") S = CB->getArgOperand(0); else if (n == "realloc") S = CB->getArgOperand(1);
      if (S) {
        if (off == 0 && same(S, sz)) return "";
        int64_t c1, c2; const Value *b1 = addConst(S, c1), *b2 = addConst(sz, c2);
        if (same(b1, b2) && c2 + off <= c1) return "";
        auto *KS = dyn_cast<ConstantInt>(S);
        if (KS && K) return K->getZExtValue() + off <= KS->getZExtValue() ? "" : "limit " + std::to_string(K->getZExtValue()) + " for a buffer of " + std::to_string(KS->getZExtValue() - off) + " bytes";
        return "the limit is not the size the buffer was allocated with";
      }
    }
    if (auto *A = dyn_cast<Argument>(B)) {
      const Function *F = A->getParent();
      const Value *szs = sz; const Argument *SA = dyn_cast<Argument>(szs);
      if (off == 0 && (SA || K)) {
        if (!seen.insert({F, (int)A->getArgNo()}).second) return "";
        for (const User *U : F->users())
          if (auto *CB = dyn_cast<CallBase>(U)) if (CB->getCalledFunction() == F && CB->arg_size() > A->getArgNo()) {
            auto w = fits(CB->getArgOperand(A->getArgNo()), SA ? CB->getArgOperand(SA->getArgNo()) : sz, CB, depth + 1, seen);
            if (!w.empty()) return w;
          }
        if (K && !F->hasLocalLinkage()) return "writes up to a constant limit in a buffer the caller provides";
        return "";
      }
    }
    // p + idx with limit n - idx
    if (auto *G = dyn_cast<GEPOperator>(dst)) {
      auto *Sub = dyn_cast<BinaryOperator>(sz);
      const Value *idx = G->getNumIndices() == 1 ? stripInt(*G->idx_begin()) : nullptr;
      if (idx && Sub && Sub->getOpcode() == Instruction::Sub && same(Sub->getOperand(1), idx)) {
        auto w = fits(G->getPointerOperand(), Sub->getOperand(0), at, depth + 1, seen);
        if (!w.empty()) return w;
        if (bounded(idx, Sub->getOperand(0), at)) return "";
        return "the remaining size is computed from the lengths of earlier texts, which exceed the buffer when one was truncated: the limit wraps around";
      }
    }
    return "cannot relate the limit to the buffer";
  }
  // idx <= n on every path to at: constant zero, or guarded by a comparison
  bool bounded(const Value *idx, const Value *n, const Instruction *at) {
    if (auto *K = dyn_cast<ConstantInt>(idx)) return K->isZero();
    DominatorTree DT(*const_cast<Function *>(at->getFunction()));
    for (auto &BB : *at->getFunction()) {
      auto *Br = dyn_cast<BranchInst>(BB.getTerminator());
      if (!Br || !Br->isConditional()) continue;
      auto *C = dyn_cast<ICmpInst>(Br->getCondition());
      if (!C) continue;
      for (int side = 0; side < 2; side++) {
        BasicBlockEdge E(&BB, Br->getSuccessor(side));
        if (!DT.dominates(E, at->getParent())) continue;
        auto P = side ? C->getInversePredicate() : C->getPredicate();
        const Value *a = C->getOperand(0), *b = C->getOperand(1);
        if (P == ICmpInst::ICMP_UGT || P == ICmpInst::ICMP_UGE || P == ICmpInst::ICMP_SGT || P == ICmpInst::ICMP_SGE) { std::swap(a, b); P = ICmpInst::getSwappedPredicate(P); }
        if ((P == ICmpInst::ICMP_ULT || P == ICmpInst::ICMP_ULE || P == ICmpInst::ICMP_SLT || P == ICmpInst::ICMP_SLE) && same(a, idx) && same(b, n)) return true;
      }
    }
    return false;
  }
};
}
int runFormat(std::vector<std::string> args) {
  LLVMContext Ctx; auto M = loadModule(args[0], Ctx);
  promote(*M);
  Checker K(*M);
  for (Function &F : *M) {
    std::map<std::string, int> ord;
    for (Instruction &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue;
      auto *G = CB->getCalledFunction(); if (!G) continue;
      std::string n = G->getName().str(), fn = F.getName().str(), file; unsigned line; locOf(CB, file, line);
      if (n == "strcpy" || n == "strcat" || n == "stpcpy" || n == "gets") {
        tally("copies");
        int64_t off; const Value *B = stripOffset(CB->getArgOperand(0), K.DL, off);
        std::string key = n + "#" + std::to_string(ord[n]++);
        bool ok = false; std::string why = "unbounded " + n + " into a buffer of unrelated size";
        // malloc(... + strlen(src) ...)
        if (auto *MB = dyn_cast<CallBase>(B)) if (auto *MF = MB->getCalledFunction()) if (MF->getName() == "malloc" && n == "strcpy") {
          std::vector<const Value *> w{MB->getArgOperand(0)}; std::set<const Value *> s; uint64_t konst = 0;
          while (!w.empty()) { auto *v = w.back(); w.pop_back(); if (!s.insert(v).second) continue;
            if (auto *C2 = dyn_cast<CallBase>(v)) { if (C2->getCalledFunction() && C2->getCalledFunction()->getName() == "strlen" && C2->getArgOperand(0) == CB->getArgOperand(1)) ok = true; }
            else if (auto *BO = dyn_cast<BinaryOperator>(v)) { if (BO->getOpcode() == Instruction::Add) { w.push_back(BO->getOperand(0)); w.push_back(BO->getOperand(1)); } }
            else if (auto *C = dyn_cast<ConstantInt>(v)) konst += C->getZExtValue();
            else if (auto *C = dyn_cast<CastInst>(v)) w.push_back(C->getOperand(0)); }
          if (konst < (uint64_t)off + 1) ok = false;
        }
        std::string lit;
        if (literal(CB->getArgOperand(1), &lit) && n == "strcpy") {
          if (auto *A = dyn_cast<AllocaInst>(B)) if (auto N = A->getAllocationSize(K.DL)) if (lit.size() + 1 + off <= N->getFixedValue()) ok = true;
        }
        emitObligation("copy-limit", fn, key, ok);
        if (!ok) emitFindingAt("copy-limit", fn, file, line, key, why);
        continue;
      }
      auto it = FNS.find(n); if (it == FNS.end()) continue;
      Fmt f = it->second;
      tally("format_calls");
      std::string s; bool lit = literal(CB->getArgOperand(f.fmt), &s);
      std::string key = n + "#" + std::to_string(ord[n]++);
      emitObligation("literal-format", fn, key, lit);
      if (!lit) emitFindingAt("literal-format", fn, file, line, key, "the format of " + n + " is not a literal");
      if (f.dst < 0) continue;
      std::string why;
      std::set<std::pair<const Function *, int>> seen;
      if (f.size >= 0) why = K.fits(CB->getArgOperand(f.dst), CB->getArgOperand(f.size), CB, 0, seen);
      else {
        long L = lit ? maxLen(s) : -1;
        if (L < 0) why = "unbounded " + n;
        else why = K.fits(CB->getArgOperand(f.dst), ConstantInt::get(Type::getInt64Ty(Ctx), L + 1), CB, 0, seen);
      }
      tally("bounded_calls");
      emitObligation("buffer-limit", fn, key, why.empty());
      if (!why.empty()) {
        const Instruction *c = K.culprit ? K.culprit : CB; std::string cf; unsigned cl; locOf(c, cf, cl);
        std::string cfn = c->getFunction()->getName().str(), who = n;
        if (auto *C2 = dyn_cast<CallBase>(c)) if (C2->getCalledFunction()) who = C2->getCalledFunction()->getName().str();
        unsigned k = 0; for (auto &J : instructions(*c->getFunction())) { if (&J == c) break; if (auto *C3 = dyn_cast<CallBase>(&J)) if (C3->getCalledFunction() && C3->getCalledFunction()->getName() == who) k++; }
        emitFindingAt("buffer-limit", cfn, cf, cl, who + "#" + std::to_string(k), who + ": " + why);
      }
    }
  }
  return 0;
}
