// P04: every operation writes flag_exact and flag_best on every path to its return, and reads
// them only after having written them.
#include "apa.h"
#include "slots.h"

namespace {
const std::set<std::string> NOFLAG = { // operations that compute no abstract value, test or bound
  "ASIZE", "FREE", "FPRINT", "FPRINTDIFF", "FDUMP", "SERIALIZE_RAW", "DESERIALIZE_RAW", "DIMENSION", "UNKNOWN", "COPY", "HASH"};
struct Sum { unsigned must = 3; unsigned exposed = 0; const Instruction *why[2] = {nullptr, nullptr}; const Instruction *expWhy = nullptr; bool returns = false; };

struct Flags {
  Module &M; Types T; Slots S;
  std::map<const Function *, Sum> sums; std::set<const Function *> busy;
  Flags(Module &M) : M(M), T(M), S(M, T) {}

  bool ownMan(const Value *V, int d = 0) {
    V = V->stripPointerCasts();
    if (d > 6) return false;
    if (isa<Argument>(V)) return true;
    if (auto *L = dyn_cast<LoadInst>(V)) {
      const Value *b; std::string n;
      if (T.fieldOf(L->getPointerOperand(), b, n)) return StringRef(n).ends_with(".man");
      return false;
    }
    if (auto *P = dyn_cast<PHINode>(V)) { for (auto &x : P->incoming_values()) if (x.get() != P && !ownMan(x.get(), d + 1)) return false; return true; }
    if (auto *S = dyn_cast<SelectInst>(V)) return ownMan(S->getTrueValue(), d + 1) && ownMan(S->getFalseValue(), d + 1);
    return false;
  }
  // 1 = exact, 2 = best, 0 = neither
  unsigned flagOf(const Value *P) {
    const Value *b; std::string n;
    if (!T.fieldOf(P, b, n)) return 0;
    unsigned r = 0;
    if (StringRef(n).ends_with("flag_exact")) r = 1; else if (StringRef(n).ends_with("flag_best")) r = 2; else return 0;
    if (StringRef(n).starts_with("ap_manager_t.") ) return ownMan(b) ? r : 0;
    if (StringRef(n).starts_with("ap_result_t.")) { int64_t o; const Value *bb = stripOffset(b, T.DL, o); return ownMan(bb) ? r : 0; }
    return 0;
  }
  bool passesMan(const CallBase *CB) {
    for (const Value *A : CB->args()) {
      if (!A->getType()->isPointerTy()) continue;
      std::string n = typeName(T.pointee(A));
      if (n == "ap_manager_t" && ownMan(A)) return true;
      if (n == "ap_result_t") return true;
      if (StringRef(n).ends_with("internal_t") || StringRef(n).contains("_internal")) return true;
    }
    return false;
  }
  bool relevant(const Function &) { return true; }
  void refresh() { T.~Types(); new (&T) Types(M); sums.clear(); }
  const Sum &sum(const Function *F) {
    auto it = sums.find(F);
    if (it != sums.end()) return it->second;
    Sum &r = sums[F];
    if (F->isDeclaration()) { r.must = 0; r.returns = !F->hasFnAttribute(Attribute::NoReturn); return r; }
    if (!busy.insert(F).second) return r;
    struct St { unsigned must = 3; bool reach = false; };
    std::map<const BasicBlock *, unsigned> out; // absent = unreached
    unsigned exposed = 0; const Instruction *ew = nullptr;
    auto transfer = [&](const BasicBlock &B, unsigned m, bool &dead) {
      dead = false;
      for (const Instruction &I : B) {
        if (auto *L = dyn_cast<LoadInst>(&I)) { unsigned f = flagOf(L->getPointerOperand()); if (f & ~m) { exposed |= f; if (!ew) ew = L; } }
        else if (auto *SI = dyn_cast<StoreInst>(&I)) m |= flagOf(SI->getPointerOperand());
        else if (auto *MS = dyn_cast<MemIntrinsic>(&I)) { (void)MS; }
        else if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (CB->hasFnAttr(Attribute::NoReturn)) { dead = true; return m; }
          const Function *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
          if (G) {
            if (G->getName() == "ap_manager_raise_exception" || G->getName() == "ap_result_init") {
              auto *c = CB->arg_size() > 1 ? dyn_cast<ConstantInt>(CB->getArgOperand(1)) : nullptr;
              if (!(c && c->isZero()) && ownMan(CB->getArgOperand(0))) m = 3;
            } else if (!G->isDeclaration()) {
              const Sum &s = sum(G);
              if (!s.returns && !busy.count(G)) { dead = true; return m; }
              if (passesMan(CB)) { if (s.exposed & ~m) { exposed |= s.exposed; if (!ew) ew = CB; } m |= s.must; }
            }
          } else if (!CB->isInlineAsm()) {
            const Value *b; int k = S.calledSlot(CB, b);
            if ((k == -2 || (k >= 0 && !NOFLAG.count(S.op(k)))) && ownMan(b)) m = 3;
            else if (k == -1 && CB->arg_size() && typeName(T.pointee(CB->getArgOperand(0))) == "ap_manager_t" && ownMan(CB->getArgOperand(0))) {
              // function passed as argument (operation used as a callback)
              if (isa<Argument>(CB->getCalledOperand())) m = 3;
            }
          }
        }
      }
      return m;
    };
    bool again = true;
    std::vector<const BasicBlock *> rpo = S.rpo(*F);
    std::map<const BasicBlock *, bool> deadAt;
    while (again) {
      again = false;
      for (auto *B : rpo) {
        unsigned in = 3; bool reach = B == &F->getEntryBlock();
        if (reach) in = 0;
        for (auto *P : predecessors(B)) { auto o = out.find(P); if (o != out.end() && !deadAt[P]) { in = reach ? in & o->second : o->second; reach = true; } }
        if (!reach) continue;
        bool dead; unsigned o = transfer(*B, in, dead);
        auto it = out.find(B);
        if (it == out.end() || it->second != o || deadAt[B] != dead) { out[B] = o; deadAt[B] = dead; again = true; }
      }
    }
    unsigned must = 3; bool ret = false; const Instruction *why[2] = {nullptr, nullptr};
    exposed = 0; ew = nullptr;
    for (auto *B : rpo) { // second pass with the fixpoint: exposed reads
      auto it = out.find(B); if (it == out.end()) continue;
      unsigned in = 3; bool reach = B == &F->getEntryBlock(); if (reach) in = 0;
      for (auto *P : predecessors(B)) { auto o = out.find(P); if (o != out.end() && !deadAt[P]) { in = reach ? in & o->second : o->second; reach = true; } }
      if (!reach) continue;
      bool dead; transfer(*B, in, dead);
      if (!dead && isa<ReturnInst>(B->getTerminator())) {
        must &= it->second; ret = true;
        // which incoming path? name the predecessor that brought the missing bit
        for (int k = 0; k < 2; k++) if (!(it->second >> k & 1) && !why[k]) {
          why[k] = B->getTerminator();
          for (auto *P : predecessors(B)) { auto o = out.find(P); if (o != out.end() && !deadAt[P] && !(o->second >> k & 1)) { why[k] = P->getTerminator(); break; } }
        }
      }
    }
    busy.erase(F);
    Sum &q = sums[F];
    q.must = must; q.exposed = exposed; q.returns = ret; q.why[0] = why[0]; q.why[1] = why[1]; q.expWhy = ew;
    return q;
  }
};
}
int runFlags(std::vector<std::string> args) {
  LLVMContext Ctx; auto M = loadModule(args[0], Ctx);
  promote(*M);
  Flags K(*M);
  std::map<const Function *, std::string> ops;
  for (auto &p : K.S.functions()) for (int k : p.second) if (!NOFLAG.count(K.S.op(k))) ops[p.first] += (ops[p.first].empty() ? "" : ",") + K.S.op(k);
  tally("slot_operations", ops.size());
  // the generic layers: external functions that take a manager first and dispatch an operation
  if (args.size() > 1 && args[1] == "generic") {
    std::set<const Function *> disp; bool ch = true;
    while (ch) {
      ch = false;
      for (Function &F : *M) { if (disp.count(&F)) continue;
        for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
          bool d = false; const Value *b;
          if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) d = disp.count(G) && K.passesMan(CB); else { int k = K.S.calledSlot(CB, b); d = k >= 0 && !NOFLAG.count(K.S.op(k)); }
          if (d) { disp.insert(&F); ch = true; break; } } }
    }
    for (auto *F : disp) {
      if (F->hasLocalLinkage() || F->isDeclaration()) continue;
      auto s = signatureOf(*F); if (s.size() < 2 || typeName(s[1]) != "ap_manager_t*") continue;
      if (StringRef(typeName(s[0])).contains("linexpr") || StringRef(typeName(s[0])).contains("texpr")) continue;
      StringRef file = F->getSubprogram()->getFilename();
      if (file.ends_with("ap_abstract0.c") || file.ends_with("ap_abstract1.c")) { // printing, dumping and the like are not operations
        std::string n = F->getName().str(); bool skip = false;
        for (auto &o : NOFLAG) if (StringRef(n).ends_with("_" + StringRef(o).lower())) skip = true;
        if (!skip && !ops.count(F)) { ops[F] = "interface"; tally("interface_functions"); } }
    }
  }
  // helpers that report through their result whether they raised are expanded, so that the
  // branches of the caller are related to what they wrote
  std::set<const Function *> raises, expand; bool grow = true;
  while (grow) { grow = false;
    for (Function &F : *M) {
      if (F.isDeclaration() || ops.count(&F) || raises.count(&F) || F.getInstructionCount() > 400) continue;
      for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()))
        if (G->getName() == "ap_manager_raise_exception" || raises.count(G)) { raises.insert(&F); grow = true; break; }
    } }
  for (auto *F : raises) if (F->getReturnType()->isIntegerTy(1) || F->getReturnType()->isIntegerTy(8)) expand.insert(F);
  for (Function &F : *M) {
    if (F.isDeclaration() || !K.relevant(F)) continue;
    bool has = false;
    for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (expand.count(G)) has = true;
    if (has) { inlineInto(F, [&](const Function &G) { return expand.count(&G) > 0; }); cleanup(F); }
  }
  K.refresh();
  for (auto &p : ops) {
    const Function *F = p.first;
    if (F->isDeclaration()) continue;
    const Sum &s = K.sum(F);
    if (!s.returns) { tally("never_returning"); continue; }
    std::string n = fnName(*F);
    const char *fl[] = {"flag_exact", "flag_best"};
    for (int k = 0; k < 2; k++) {
      bool ok = s.must >> k & 1;
      emitObligation("flag-written", n, fl[k], ok);
      if (!ok) { std::string f; unsigned l; locOf(s.why[k], f, l);
        emitFindingAt("flag-written", n, f, l, fl[k], n + " (" + p.second + ") can return without having written " + fl[k] + " of the manager: the value is left over from an earlier operation (path through line " + std::to_string(l) + ")"); }
    }
    emitObligation("flag-read", n, "flags read after written", !s.exposed);
    if (s.exposed) { std::string f; unsigned l; locOf(s.expWhy, f, l);
      emitFindingAt("flag-read", n, f, l, "stale", n + " (" + p.second + ") reads a flag of the manager before having written it: it depends on an earlier operation"); }
  }
  return 0;
}
