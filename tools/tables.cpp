// P01: operation tables of domain managers.
#include "apa.h"
#include "llvm/Transforms/Utils/Cloning.h"

namespace {
struct Slot { const Function *f = nullptr; bool unset = false, null = false, other = false;
  bool operator==(const Slot &o) const { return !(*this < o) && !(o < *this); }
  bool operator<(const Slot &o) const { return std::tie(f, unset, null, other) < std::tie(o.f, o.unset, o.null, o.other); } };
typedef std::map<std::pair<const Value *, int>, std::set<Slot>> Table; // absent = {unset}

struct Tables {
  Module &M; Types T; uint64_t off = 0; int nslots = 0;
  std::map<int64_t, std::string> ids;
  Tables(Module &M) : M(M), T(M) {
    ids = enumerators(M, "ap_funid_t");
    const DICompositeType *C = T.composite("ap_manager_t");
    if (!C || ids.size() < 40) { emitError("ap_manager_t or ap_funid_t not found"); exit(3); }
    bool ok = false;
    for (auto *E : C->getElements())
      if (auto *D = dyn_cast<DIDerivedType>(E))
        if (D->getName() == "funptr") { off = D->getOffsetInBits() / 8; nslots = D->getSizeInBits() / 64; ok = true; }
    if (!ok) { emitError("ap_manager_t.funptr not found"); exit(3); }
  }
  // slot number addressed by pointer V, or -1 (not a slot), -2 (some slot)
  int slot(const Value *V, const Value *&base) {
    int64_t o; const Value *B = stripOffset(V, T.DL, o);
    base = B;
    if (auto *G = dyn_cast<GEPOperator>(B)) {
      // variable index into the table?
      int64_t o2; const Value *B2 = stripOffset(G->getPointerOperand(), T.DL, o2);
      if (typeName(T.pointee(B2)) == "ap_manager_t" && (uint64_t)o2 >= off && (uint64_t)o2 < off + 8 * nslots) { base = B2; return -2; }
      return -1;
    }
    if (typeName(T.pointee(B)) != "ap_manager_t") return -1;
    if ((uint64_t)o < off || (uint64_t)o >= off + 8 * nslots) return -1;
    return (o - off) / 8;
  }
};

std::string opOf(const std::string &id) {
  std::string s = StringRef(id).drop_front(strlen("AP_FUNID_")).lower();
  return s == "asize" ? "size" : s;
}
// longest operation name that appears as a '_'-delimited piece of a function name
std::string opInName(StringRef n, const std::vector<std::string> &ops) {
  std::string best;
  std::string s = "_" + n.str() + "_";
  for (auto &o : ops) {
    if (s.find("_" + o + "_") != std::string::npos && o.size() > best.size()) best = o;
    if (o == "size" && s.find("_asize_") != std::string::npos && best.size() < 5) best = o;
  }
  return best;
}

// C-level compatibility: what the dispatcher passes (D) against what the callee takes (C)
bool compat(const DIType *D, const DIType *C, int depth = 0) {
  D = stripType(D); C = stripType(C);
  if (!D || !C) return true;
  auto ptr = [](const DIType *T) -> const DIDerivedType * {
    auto *d = dyn_cast<DIDerivedType>(T);
    return d && (d->getTag() == dwarf::DW_TAG_pointer_type) ? d : nullptr; };
  const DIDerivedType *pd = ptr(D), *pc = ptr(C);
  if (pd && pc) {
    const DIType *bd = stripType(pd->getBaseType()), *bc = stripType(pc->getBaseType());
    if (!bd || !bc) return true; // void*
    return compat(bd, bc, depth + 1);
  }
  if (pd || pc) return depth > 0 && (!pd || !stripType(pd->getBaseType())) ? false : false;
  if (auto *cd = dyn_cast<DICompositeType>(D)) {
    auto *cc = dyn_cast<DICompositeType>(C);
    if (!cc) return false;
    if (cd->getTag() == dwarf::DW_TAG_array_type) return true;
    if (cd->getName().empty() || cc->getName().empty()) return typeName(D) == typeName(C);
    return cd->getName() == cc->getName();
  }
  if (auto *bd = dyn_cast<DIBasicType>(D)) {
    auto *bc = dyn_cast<DIBasicType>(C);
    if (!bc) return false;
    return bd->getSizeInBits() == bc->getSizeInBits();
  }
  return true;
}
}

int runTables(std::vector<std::string> args) {
  LLVMContext Ctx;
  auto M = loadModule(args[0], Ctx);
  promote(*M);
  std::vector<std::string> ops;
  struct Site { const CallBase *CB; std::string fn; std::vector<const DIType *> sig; };
  std::map<int, std::vector<Site>> dispatch;
  Tables TB(*M);
  for (auto &p : TB.ids) if (startsWith(p.second, "AP_FUNID_") && p.second != "AP_FUNID_UNKNOWN") ops.push_back(opOf(p.second));
  // the argument is the domain's own value, whatever the caller's declared pointer type
  auto valueArg = [&](const CallBase *CB, unsigned i) {
    if (i >= CB->arg_size()) return false;
    auto *L = dyn_cast<LoadInst>(CB->getArgOperand(i)); const Value *b; std::string n;
    return L && TB.T.fieldOf(L->getPointerOperand(), b, n) && n == "ap_abstract0_t.value";
  };
  std::map<const Function *, int> ret; // 0 unknown/in progress: assume returns
  std::function<bool(const Function &)> canReturn = [&](const Function &F) -> bool {
    if (F.isDeclaration()) return !F.hasFnAttribute(Attribute::NoReturn);
    auto it = ret.find(&F); if (it != ret.end()) return it->second;
    ret[&F] = 1;
    std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w{&F.getEntryBlock()}; bool r = false;
    while (!w.empty()) {
      auto *B = w.back(); w.pop_back(); if (!seen.insert(B).second) continue;
      bool cut = false;
      for (auto &I : *B) if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (CB->hasFnAttr(Attribute::NoReturn)) cut = true;
        else if (auto *G = CB->getCalledFunction()) if (!isa<IntrinsicInst>(CB) && !canReturn(*G)) cut = true;
        if (cut) break; }
      if (cut) continue;
      if (isa<ReturnInst>(B->getTerminator())) { r = true; break; }
      for (auto *S : successors(B)) w.push_back(S);
    }
    return ret[&F] = r;
  };
  // 1. dispatch sites
  for (Function &F : *M)
    for (Instruction &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (CB->getCalledFunction() || CB->isInlineAsm()) continue;
        auto *L = dyn_cast<LoadInst>(CB->getCalledOperand()->stripPointerCasts());
        if (!L) continue;
        const Value *b; int k = TB.slot(L->getPointerOperand(), b);
        if (k == -1) continue;
        std::set<int64_t> ks;
        if (k >= 0) ks.insert(k);
        else { // slot number computed: the constants it can be, over all callers
          int64_t o; auto *G = dyn_cast<GEPOperator>(stripOffset(L->getPointerOperand(), TB.T.DL, o));
          std::vector<const Value *> w; std::set<const Value *> seen;
          if (G) w.push_back(G->getOperand(G->getNumOperands() - 1));
          while (!w.empty()) {
            const Value *v = w.back(); w.pop_back(); if (!seen.insert(v).second) continue;
            if (auto *C = dyn_cast<ConstantInt>(v)) ks.insert(C->getSExtValue());
            else if (auto *X = dyn_cast<CastInst>(v)) w.push_back(X->getOperand(0));
            else if (auto *P = dyn_cast<PHINode>(v)) { for (auto &x : P->incoming_values()) w.push_back(x.get()); }
            else if (auto *S = dyn_cast<SelectInst>(v)) { w.push_back(S->getTrueValue()); w.push_back(S->getFalseValue()); }
            else if (auto *A = dyn_cast<Argument>(v)) {
              for (const User *U : A->getParent()->users())
                if (auto *C2 = dyn_cast<CallBase>(U)) if (C2->getCalledOperand()->stripPointerCasts() == A->getParent() && A->getArgNo() < C2->arg_size()) w.push_back(C2->getArgOperand(A->getArgNo()));
            }
          }
          tally("computed_dispatch_sites");
        }
        Site s{CB, F.getName().str(), {}};
        if (const DILocalVariable *V = variableOf(L))
          if (auto *ST = subroutineOf(V->getType())) for (auto *x : ST->getTypeArray()) s.sig.push_back(x);
        for (auto x : ks) if (x >= 0 && x < TB.nslots) { dispatch[x].push_back(s); tally("dispatch_sites"); }
      }
  tally("dispatched_slots", dispatch.size());
  if (dispatch.size() < 40) { emitError("only " + std::to_string(dispatch.size()) + " dispatched slots found"); }
  // the generic layer's own dispatch (ap_abstract0.c) is the reference; the other dispatchers
  // of the library must call the slot the same way
  auto inGeneric = [](const Site &x) { auto *SP = x.CB->getFunction()->getSubprogram(); return SP && SP->getFilename().ends_with("ap_abstract0.c"); };
  auto typeMismatch = [&](const FunctionType *A, const std::vector<const DIType *> &as, const FunctionType *B, const std::vector<const DIType *> &bs, const CallBase *CB, const CallBase *CB2) -> std::string {
    auto boolish = [](Type *t) { return t->isIntegerTy(1) || t->isIntegerTy(8); };
    if (A->getNumParams() != B->getNumParams()) return "is called with " + std::to_string(A->getNumParams()) + " arguments but takes " + std::to_string(B->getNumParams());
    for (unsigned i = 0; i < A->getNumParams(); i++)
      if (A->getParamType(i) != B->getParamType(i) && !(boolish(A->getParamType(i)) && boolish(B->getParamType(i)))) return "argument " + std::to_string(i + 1) + " is passed with another type than it takes";
    if (A->getReturnType() != B->getReturnType() && !(boolish(A->getReturnType()) && boolish(B->getReturnType())) && !CB->use_empty() && !(CB2 && CB2->use_empty())) return "returns another type than the caller expects";
    if (as.size() == bs.size())
      for (unsigned i = 0; i < bs.size(); i++)
        if (as[i] && bs[i] && !(i == 0 && (CB->use_empty() || (CB2 && CB2->use_empty()))) && !(i > 0 && (valueArg(CB, i - 1) || (CB2 && valueArg(CB2, i - 1)))) && !compat(as[i], bs[i]))
          return (i ? "argument " + std::to_string(i) : std::string("the result")) + " is " + typeName(as[i]) + " for the caller, " + typeName(bs[i]) + " for the function";
    return "";
  };
  for (auto &d : dispatch) {
    std::vector<Site> ref, oth;
    for (auto &x : d.second) (inGeneric(x) ? ref : oth).push_back(x);
    if (ref.empty()) continue;
    for (auto &x : oth) {
      std::string why;
      for (auto &r : ref) if (why.empty()) why = typeMismatch(x.CB->getFunctionType(), x.sig, r.CB->getFunctionType(), r.sig, x.CB, r.CB);
      emitObligation("dispatch-type", x.fn, TB.ids[d.first], why.empty());
      std::string sf; unsigned sl; locOf(x.CB, sf, sl);
      if (!why.empty()) emitFindingAt("dispatch-type", x.fn, sf, sl, TB.ids[d.first], x.fn + " calls slot " + TB.ids[d.first] + " with other types than the generic layer: " + why);
    }
    d.second = ref;
  }
  // 2. constructors
  std::set<const Function *> writers; // functions that (transitively) fill slots
  for (Function &F : *M)
    for (Instruction &I : instructions(F)) {
      const Value *b;
      if (auto *S = dyn_cast<StoreInst>(&I)) { if (TB.slot(S->getPointerOperand(), b) != -1) writers.insert(&F); }
      else if (auto *MC = dyn_cast<MemTransferInst>(&I)) { if (TB.slot(MC->getDest(), b) != -1) writers.insert(&F); }
    }
  bool ch = true; std::set<const Function *> trans = writers;
  while (ch) {
    ch = false;
    for (Function &F : *M) {
      if (trans.count(&F)) continue;
      for (Instruction &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = CB->getCalledFunction()) if (trans.count(G) ) { trans.insert(&F); ch = true; break; }
    }
  }
  std::vector<Function *> ctors;
  for (Function &F : *M) {
    if (F.isDeclaration() || F.hasLocalLinkage() || !trans.count(&F)) continue;
    auto s = signatureOf(F);
    if (s.empty() || typeName(s[0]) != "ap_manager_t*") continue;
    ctors.push_back(&F);
  }
  std::set<const Function *> reach; // called from a constructor
  { std::vector<const Function *> w(ctors.begin(), ctors.end());
    while (!w.empty()) { auto *F = w.back(); w.pop_back(); if (!reach.insert(F).second) continue;
      for (const Instruction &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = CB->getCalledFunction()) if (!G->isDeclaration()) w.push_back(G); } }
  for (auto *F : writers)
    if (!reach.count(F)) emitFindingAt("late-write", F->getName().str(), funcLoc(*F), 0, "late-write", "writes an operation slot of a manager outside any manager constructor");
  for (Function *F0 : ctors) {
    ValueToValueMapTy VM;
    Function *F = CloneFunction(F0, VM);
    F->setName(F0->getName() + ".flat");
    inlineInto(*F, [&](const Function &G) {
      if (trans.count(&G)) return true;
      auto s = signatureOf(G); return !s.empty() && typeName(s[0]) == "ap_manager_t*"; });
    cleanup(*F);
    Types T2(*M); TB.T.~Types(); new (&TB.T) Types(*M);
    // forward analysis
    std::map<const BasicBlock *, Table> out; std::map<const BasicBlock *, bool> done;
    auto get = [](const Table &t, const Value *b, int k) -> std::set<Slot> { auto it = t.find({b, k}); if (it != t.end()) return it->second; Slot s; s.unset = true; return {s}; };
    auto join = [&](Table a, const Table &b) {
      std::set<std::pair<const Value *, int>> ks; for (auto &p : a) ks.insert(p.first); for (auto &p : b) ks.insert(p.first);
      Table r; for (auto &k : ks) { auto x = get(a, k.first, k.second), y = get(b, k.first, k.second); x.insert(y.begin(), y.end()); r[k] = x; } return r; };
    auto classify = [&](const Value *V) { std::set<Slot> r; std::vector<const Value *> w{V}; std::set<const Value *> seen;
      while (!w.empty()) { const Value *v = w.back()->stripPointerCasts(); w.pop_back(); if (!seen.insert(v).second) continue; Slot s;
        if (auto *f = dyn_cast<Function>(v)) s.f = f; else if (isa<ConstantPointerNull>(v)) s.null = true;
        else if (auto *P = dyn_cast<PHINode>(v)) { for (auto &x : P->incoming_values()) w.push_back(x.get()); continue; }
        else if (auto *S = dyn_cast<SelectInst>(v)) { w.push_back(S->getTrueValue()); w.push_back(S->getFalseValue()); continue; }
        else s.other = true;
        r.insert(s); } return r; };
    auto transfer = [&](const BasicBlock &B, Table t) {
      for (const Instruction &I : B) {
        const Value *b;
        if (auto *S = dyn_cast<StoreInst>(&I)) {
          int k = TB.slot(S->getPointerOperand(), b);
          if (k >= 0) t[{b, k}] = classify(S->getValueOperand());
          else if (k == -2) { auto v = classify(S->getValueOperand()); for (int i = 0; i < TB.nslots; i++) { auto x = get(t, b, i); x.insert(v.begin(), v.end()); t[{b, i}] = x; } }
        } else if (auto *MC = dyn_cast<MemCpyInst>(&I)) {
          int k = TB.slot(MC->getDest(), b);
          auto *GV = dyn_cast<GlobalVariable>(MC->getSource()->stripPointerCasts());
          auto *len = dyn_cast<ConstantInt>(MC->getLength());
          if (k >= 0 && GV && GV->hasInitializer() && len)
            for (int i = 0; i < (int)len->getZExtValue() / 8 && k + i < TB.nslots; i++) {
              Slot s; s.other = true;
              if (auto *CA = dyn_cast<ConstantAggregate>(GV->getInitializer())) if (i < (int)CA->getNumOperands()) { t[{b, k + i}] = classify(CA->getOperand(i)); continue; }
              t[{b, k + i}] = {s};
            }
        }
      }
      return t; };
    std::vector<const BasicBlock *> rpo; { std::set<const BasicBlock *> seen; std::function<void(const BasicBlock *)> dfs = [&](const BasicBlock *b) { if (!seen.insert(b).second) return; for (auto *s : successors(b)) dfs(s); rpo.push_back(b); }; dfs(&F->getEntryBlock()); std::reverse(rpo.begin(), rpo.end()); }
    bool again = true; int it = 0;
    while (again && it++ < 50) {
      again = false;
      for (auto *B : rpo) {
        Table in; bool first = true;
        for (auto *P : predecessors(B)) if (done[P]) { in = first ? out[P] : join(in, out[P]); first = false; }
        Table o = transfer(*B, in);
        if (!done[B] || o != out[B]) { out[B] = o; done[B] = true; again = true; }
      }
    }
    // returned tables
    std::vector<std::pair<const Value *, Table>> rets;
    for (auto *B : rpo)
      if (auto *R = dyn_cast<ReturnInst>(B->getTerminator())) {
        const Value *v = R->getReturnValue();
        if (auto *P = dyn_cast<PHINode>(v); P && P->getParent() == B) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) rets.push_back({P->getIncomingValue(i), transfer(*B, out[P->getIncomingBlock(i)])}); }
        else rets.push_back({v, out[B]});
      }
    int seenRet = 0;
    std::string ctor = F0->getName().str();
    std::map<int, std::set<const Function *>> fns;
    for (auto &r : rets) {
      if (isa<ConstantPointerNull>(r.first)) continue;
      seenRet++;
      const Value *base = r.first->stripPointerCasts();
      for (auto &d : dispatch) {
        int k = d.first; std::string id = TB.ids[k];
        auto vs = get(r.second, base, k);
        bool ok = true; std::string why;
        for (auto &s : vs) {
          if (s.unset) { ok = false; why = "is never set on some path"; }
          else if (s.null) { ok = false; why = "is set to NULL"; }
          else if (s.other) { ok = false; why = "holds a value that is not a known function"; }
          else fns[k].insert(s.f);
        }
        emitObligation("slot-set", ctor, id, ok);
        if (!ok) emitFindingAt("slot-set", ctor, F0->getSubprogram() ? F0->getSubprogram()->getFilename().str() : "", F0->getSubprogram() ? F0->getSubprogram()->getLine() : 0, id, "manager built by " + ctor + ": slot " + id + " " + why);
      }
    }
    if (seenRet) tally("constructors");
    std::map<const Function *, std::set<int>> uses;
    for (auto &p : fns) for (auto *f : p.second) uses[f].insert(p.first);
    for (auto &p : fns) for (auto *f : p.second) {
      int k = p.first; std::string id = TB.ids[k], want = opOf(id), n = f->getName().str();
      auto *SP = f->getSubprogram();
      std::string file = SP ? SP->getFilename().str() : ""; unsigned line = SP ? SP->getLine() : 0;
      // identity
      std::string got = opInName(f->getName(), ops);
      bool ok = got == want || got.empty();
      if (got.empty() && uses[f].size() > 1) ok = false;
      emitObligation("slot-op", ctor, id + "=" + n, ok);
      if (!ok) emitFindingAt("slot-op", ctor, file, line, id + "=" + n, "manager built by " + ctor + ": slot " + id + " holds " + n + ", an implementation of '" + got + "'");
      // can it return at all?
      if (!f->isDeclaration()) {
        bool can = canReturn(*f);
        emitObligation("slot-implemented", ctor, id + "=" + n, can);
        if (!can) emitFindingAt("slot-implemented", n, file, line, id + "=" + n, "manager built by " + ctor + ": slot " + id + " holds " + n + ", which never returns (it aborts the program)");
      } else { emitObligation("slot-implemented", ctor, id + "=" + n, false);
        emitFindingAt("slot-implemented", n, file, line, id + "=" + n, "manager built by " + ctor + ": slot " + id + " holds " + n + ", which is not defined in the library"); }
      // signature
      auto cs = signatureOf(*f);
      for (auto &site : dispatch[k]) {
        std::string why = typeMismatch(site.CB->getFunctionType(), site.sig, f->getFunctionType(), cs, site.CB, nullptr);
        emitObligation("slot-type", ctor, id + "=" + n + " from " + site.fn, why.empty());
        std::string sf; unsigned sl; locOf(site.CB, sf, sl);
        if (!why.empty()) emitFindingAt("slot-type", ctor, sf, sl, id + "=" + n + "<-" + site.fn, "manager built by " + ctor + ", slot " + id + ": " + n + " called from " + site.fn + " " + why);
      }
    }
    F->eraseFromParent();
    TB.T.~Types(); new (&TB.T) Types(*M);
  }
  return 0;
}
