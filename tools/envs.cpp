// P03: level-1 operations establish that environments fit before they call level 0.
// Environments of the arguments are abstracted to four: the value's (0), one strictly inside it (1), one that gives a
// variable another type (2), one strictly around it (3). The tests on environments have known answers in a scenario;
// conditional constant propagation over the expanded, peeled operation decides which calls stay feasible.
#include "apa.h"
#include "chain.h"
#include "slots.h"
namespace {
struct Ent { enum K { VALUE, EXPR, ENV, VAR, SIZE } k; bool isArray = false; std::vector<int> env; std::vector<bool> present; int64_t n = -1; std::vector<int> lib; };
typedef std::map<int, Ent> Scen;
struct Holder { Types types; Holder(Module &M) : types(M) {} };
struct Envs : Holder, Chain {
  Module &M; Slots S;
  Envs(Module &M) : Holder(M), Chain(types), M(M), S(M, T) {}
  Function *F = nullptr; Scen sc; std::string nullBuilder; int64_t excInvalid = -1; int manArg = -1;
  static bool eq(int a, int b) { return a == b; }
  static bool leq(int a, int b) { return a == b || (a == 1 && b == 0) || (a == 1 && b == 3) || (a == 0 && b == 3); }
  static bool compat(int a, int b) { return a == b || (a != 2 && b != 2); }
  int element(const Ent &e, bool known, int64_t i, size_t n) { if (known) return i >= 0 && (size_t)i < n ? (int)i : -1; return n == 1 ? 0 : -1; (void)e; }
  // the environment pointed to by V
  int envOf(const Value *V, int d = 0) {
    V = thru(V); if (d > 10) return -1;
    if (auto *A = dyn_cast<Argument>(V)) { auto it = sc.find(A->getArgNo()); return it != sc.end() && it->second.k == Ent::ENV ? it->second.env[0] : -1; }
    if (auto *L = dyn_cast<LoadInst>(V)) {
      int root; std::vector<Step> r; if (!steps(L->getPointerOperand(), root, r)) return -1;
      auto it = sc.find(root); if (it == sc.end() || it->second.env.empty()) return -1;
      if (!StringRef(r.back().field).ends_with(".env") || r.size() != 1) return -1;
      int i = element(it->second, r[0].known, r[0].idx, it->second.env.size()); return i < 0 ? -1 : it->second.env[i];
    }
    if (auto *P = dyn_cast<PHINode>(V)) { int x = -2; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (P->getIncomingValue(i) != P && C.edges.count({P->getIncomingBlock(i), P->getParent()})) { int y = envOf(P->getIncomingValue(i), d + 1); if (x == -2) x = y; else if (x != y) return -1; } return x < 0 ? -1 : x; }
    if (auto *CB = dyn_cast<CallBase>(V)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (fnName(*G) == "ap_environment_copy") return envOf(CB->getArgOperand(0), d + 1);
    return -1;
  }
  // is the variable V present in the value's environment (1), absent (0), unknown (-1)
  int presence(const Value *V) {
    V = thru(V);
    int root; bool known = true; int64_t i = 0;
    if (auto *A = dyn_cast<Argument>(V)) root = A->getArgNo();
    else { auto *L = dyn_cast<LoadInst>(V); std::vector<Step> r; if (!L || !steps(L->getPointerOperand(), root, r) || r.size() != 1) return -1; known = r[0].known; i = r[0].idx; }
    auto it = sc.find(root); if (it == sc.end() || it->second.k != Ent::VAR) return -1;
    int e = element(it->second, known, i, it->second.present.size()); return e < 0 ? -1 : (int)it->second.present[e];
  }
  static bool builder(const std::string &n) { return n == "ap_environment_add" || n == "ap_environment_add_perm" || n == "ap_environment_remove" || n == "ap_environment_remove_perm" || n == "ap_environment_rename" || n == "ap_environment_rename_perm"; }
  Cond::Val leaf(const Value *V) {
    Cond::Val u;
    if (isa<LoadInst>(V)) { auto *W = thru(V); if (W != V) return C.eval(W); }
    if (auto *A = dyn_cast<Argument>(V)) {
      auto it = sc.find(A->getArgNo());
      if (A->getType()->isPointerTy()) return it == sc.end() ? u : Cond::known(it->second.n == 0 && !it->second.isArray ? 0 : 1);
      if (it != sc.end() && it->second.k == Ent::SIZE) return Cond::known(it->second.n);
      return u;
    }
    if (auto *CB = dyn_cast<CallBase>(V)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
      std::string n = fnName(*G);
      auto two = [&](int &a, int &b) { if (CB->arg_size() < 2) return false; a = envOf(CB->getArgOperand(0)); b = envOf(CB->getArgOperand(1)); return a >= 0 && b >= 0; };
      int a, b;
      if (n == "ap_environment_is_eq") return two(a, b) ? Cond::known(eq(a, b)) : u;
      if (n == "ap_environment_is_leq") return two(a, b) ? Cond::known(leq(a, b)) : u;
      if (n == "ap_environment_compare") return two(a, b) ? Cond::known(!compat(a, b) ? -2 : eq(a, b) ? 0 : leq(a, b) ? -1 : leq(b, a) ? 1 : 2) : u;
      if (n == "ap_environment_dimchange") return two(a, b) ? Cond::known(leq(a, b)) : u;
      if (n == "ap_environment_dimchange2") return two(a, b) ? Cond::known(compat(a, b)) : u;
      if (n == "ap_environment_lce") return two(a, b) ? Cond::known(compat(a, b)) : u;
      if (builder(n)) return nullBuilder.empty() ? (vars ? u : Cond::known(1)) : Cond::known(n != nullBuilder);
      if (n == "ap_environment_dim_of_var" || n == "ap_environment_mem_var") {
        a = envOf(CB->getArgOperand(0)); int p = presence(CB->getArgOperand(1)); bool dim = n == "ap_environment_dim_of_var";
        if (a < 0 || p < 0) return u;
        bool in = a == 1 ? false : p; return Cond::known(dim ? (in ? 0 : -1) : in);
      }
      return u;
    }
    if (auto *I = dyn_cast<ICmpInst>(V)) {
      if (!I->isEquality()) return u;
      int a = I->getOperand(0)->getType()->isPointerTy() ? envOf(I->getOperand(0)) : -1, b = a < 0 ? -1 : envOf(I->getOperand(1));
      if (a >= 0 && b >= 0) return a != b ? Cond::known(I->getPredicate() == CmpInst::ICMP_NE) : u;
      // the library of the manager and of an element
      const LoadInst *L[2]; int who[2] = {-1, -1}, lib[2] = {-1, -1};
      for (int k = 0; k < 2; k++) {
        L[k] = dyn_cast<LoadInst>(I->getOperand(k)->stripPointerCasts()); if (!L[k]) return u;
        int root; std::vector<Step> r; if (!steps(L[k]->getPointerOperand(), root, r)) return u;
        if (r.back().field != "ap_manager_t.library") return u;
        if (r.size() == 1) { who[k] = 0; continue; }
        auto it = sc.find(root); if (it == sc.end() || it->second.lib.empty()) return u; bool kn; int64_t i; outer(r, r.size() - 1, kn, i); int e = element(it->second, kn, i, it->second.lib.size()); if (e >= 0) { who[k] = 1; lib[k] = it->second.lib[e]; }
      }
      int l = who[0] == 0 ? lib[1] : who[1] == 0 ? lib[0] : -1; if (l < 0) return u;
      return Cond::known((l == 1) == (I->getPredicate() == CmpInst::ICMP_EQ));
    }
    return u;
  }
  bool vars = false; // variables are scenario'd: builders unknown
  static bool harmless(const std::string &n) { for (auto x : {"free", "copy", "top", "bottom", "dimension", "manager"}) if (n == std::string("ap_abstract0_") + x || n == std::string("_ap_abstract0_") + x) return true; return false; }
  std::vector<const CallBase *> operations() {
    std::vector<const CallBase *> r;
    for (Instruction &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) { std::string n = fnName(*G); if ((startsWith(n, "ap_abstract0_") && !harmless(n)) || startsWith(n, "ap_quasilinearize") || startsWith(n, "ap_intlinearize")) r.push_back(CB); continue; }
      const Value *b; int s = S.calledSlot(CB, b); if (s == -1) continue;
      if (s >= 0 && (S.op(s) == "FREE" || S.op(s) == "DIMENSION" || S.op(s) == "TOP" || S.op(s) == "BOTTOM" || S.op(s) == "COPY")) continue;
      r.push_back(CB);
    }
    return r;
  }
  // does V hold or lead to the client's level-0 expression itself?
  bool raw(const Value *V, int root, int d = 0) {
    if (d > 12) return false; V = thru(V); int64_t off; V = stripOffset(V, T.DL, off);
    while (auto *G = dyn_cast<GEPOperator>(V)) V = thru(G->getPointerOperand());
    if (auto *A = dyn_cast<Argument>(V)) return (int)A->getArgNo() == root;
    if (auto *L = dyn_cast<LoadInst>(V)) { int q; std::vector<Step> r; return steps(L->getPointerOperand(), q, r) && q == root; }
    if (auto *P = dyn_cast<PHINode>(V)) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (P->getIncomingValue(i) != P && C.edges.count({P->getIncomingBlock(i), P->getParent()}) && raw(P->getIncomingValue(i), root, d + 1)) return true; return false; }
    if (auto *X = dyn_cast<SelectInst>(V)) { auto c = C.eval(X->getCondition()); if (c.k) return raw(c.v ? X->getTrueValue() : X->getFalseValue(), root, d + 1); return raw(X->getTrueValue(), root, d + 1) || raw(X->getFalseValue(), root, d + 1); }
    if (isa<AllocaInst>(V) || isa<CallBase>(V)) {
      if (auto *CB = dyn_cast<CallBase>(V)) { auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (!G || (fnName(*G) != "malloc" && fnName(*G) != "calloc")) return false; }
      std::vector<const Value *> w{V}; std::set<const Value *> seen;
      while (!w.empty()) {
        auto *X = w.back(); w.pop_back(); if (!seen.insert(X).second) continue;
        for (auto *U : X->users()) {
          auto *I = dyn_cast<Instruction>(U); if (!I || !C.reach.count(I->getParent())) continue;
          if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I)) w.push_back(I);
          else if (auto *St = dyn_cast<StoreInst>(I)) { if (St->getPointerOperand() == X && St->getValueOperand()->getType()->isPointerTy() && raw(St->getValueOperand(), root, d + 3)) return true; }
          else if (auto *MT = dyn_cast<MemTransferInst>(I)) { if (MT->getRawDest() == X && raw(MT->getRawSource(), root, d + 3)) return true; }
        }
      }
    }
    return false;
  }
  void fail(const std::string &rule, const std::string &fn, const Instruction *I, const std::string &key, const std::string &msg) {
    if (I && I->getDebugLoc()) emitFinding(rule, fn, I->getDebugLoc(), key, msg);
    else emitFindingAt(rule, fn, F->getSubprogram()->getFilename().str(), F->getSubprogram()->getLine(), key, msg);
  }
  // kind: 0 fits, 1 does not fit, 2 fits but must be extended (expr = the argument)
  void run(const std::string &fn, const std::string &name, const Scen &s, int kind, int expr = -1) {
    sc = s; Cond N; C = N; C.leaf = [this](const Value *V) { return leaf(V); };
    C.explore(&F->getEntryBlock()); tally("scenarios");
    auto ops = operations(); const CallBase *at = nullptr; bool direct = false;
    for (auto *o : ops) if (C.reach.count(o->getParent())) { at = o; if (kind == 2 && !direct) for (auto &A : o->args()) if (A->getType()->isPointerTy() && raw(A.get(), expr)) { direct = true; break; } if (direct) break; }
    if (kind != 1) {
      emitObligation("fitting-reaches-level-0", fn, name, at != nullptr);
      if (!at) fail("fitting-reaches-level-0", fn, nullptr, name, fn + ": no level-0 operation is called even when " + name);
      if (kind == 2) { emitObligation("expression-extended", fn, name, !direct); if (direct) fail("expression-extended", fn, at, name, fn + ": hands level 0 the client's expression, written for another environment, when " + name); }
      return;
    }
    emitObligation("unfit-stopped", fn, name, !at);
    if (at) { fail("unfit-stopped", fn, at, name, fn + ": level 0 can be reached although " + name); return; }
    auto raises = [&](const BasicBlock *B) { for (auto &I : *B) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (fnName(*G) == "ap_manager_raise_exception" && CB->arg_size() >= 3) { auto e = C.eval(CB->getArgOperand(1)); if (e.k && e.v == excInvalid) return true; } return false; };
    bool ok = true; std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w{&F->getEntryBlock()}; const Instruction *bad = nullptr;
    while (!w.empty()) { auto *B = w.back(); w.pop_back(); if (!seen.insert(B).second) continue; if (raises(B)) continue; if (isa<ReturnInst>(B->getTerminator())) { ok = false; bad = B->getTerminator(); } for (auto *X : successors(B)) if (C.edges.count({B, X})) w.push_back(X); }
    emitObligation("unfit-raised", fn, name, ok);
    if (!ok) fail("unfit-raised", fn, bad, name, fn + ": returns without raising the invalid-argument exception although " + name);
  }
  void function(Function &G, const std::string &fn) {
    F = &G; auto sig = signatureOf(G); 
    // a result returned through memory shifts the parameters
    unsigned sh = G.arg_size() && G.hasStructRetAttr() ? 1 : 0;
    if (sig.size() + sh != G.arg_size() + 1 && sig.size() + sh < 2) return;
    std::vector<std::string> ty(G.arg_size());
    for (unsigned i = 1; i < sig.size() && i - 1 + sh < G.arg_size(); i++) ty[i - 1 + sh] = typeName(sig[i]);
    manArg = -1; for (unsigned i = 0; i < ty.size(); i++) if (ty[i] == "ap_manager_t*") { manArg = i; break; }
    if (manArg < 0 || operations().empty()) return;
    auto pn = [&](int i) { auto *dv = variableOf(G.getArg(i)); return dv ? dv->getName().str() : "argument " + std::to_string(i); };
    int sizeArg = -1; for (unsigned i = 0; i < ty.size(); i++) if (G.getArg(i)->getType()->isIntegerTy(64) && StringRef(pn(i)).contains("size")) sizeArg = i;
    auto isVar = [&](unsigned i, bool &arr) { arr = false; const DIType *t = i >= sh && i - sh + 1 < sig.size() ? sig[i - sh + 1] : nullptr; auto name = [](const DIType *t) { return t && isa<DIDerivedType>(t) && cast<DIDerivedType>(t)->getTag() == dwarf::DW_TAG_typedef ? t->getName().str() : std::string(); };
      if (name(t) == "ap_var_t") return true; auto *D = dyn_cast_or_null<DIDerivedType>(t); if (D && D->getTag() == dwarf::DW_TAG_pointer_type && name(D->getBaseType()) == "ap_var_t") { arr = true; return true; } return false; };
    Scen base; std::vector<int> values, exprs, envs, vs;
    for (unsigned i = 0; i < ty.size(); i++) {
      Ent e; auto &t = ty[i]; bool arr;
      if (i < sh) continue;
      if (t == "ap_abstract1_t*") { e.k = Ent::VALUE; e.isArray = StringRef(pn(i)).starts_with("tab"); e.env.assign(e.isArray ? 2 : 1, 0); if (e.isArray) e.lib = {1, 1}; values.push_back(i); }
      else if (t == "ap_linexpr1_t*" || t == "ap_texpr1_t*") { e.k = Ent::EXPR; e.isArray = sizeArg >= 0; e.env.assign(e.isArray ? 2 : 1, 0); exprs.push_back(i); }
      else if (t == "ap_lincons1_t*" || t == "ap_tcons1_t*" || t == "ap_lincons1_array_t*" || t == "ap_tcons1_array_t*" || t == "ap_generator1_array_t*") { e.k = Ent::EXPR; e.env = {0}; exprs.push_back(i); }
      else if (t == "ap_environment_t*") { e.k = Ent::ENV; e.env = {0}; envs.push_back(i); }
      else if (isVar(i, arr)) { e.k = Ent::VAR; e.isArray = arr; e.present.assign(arr ? 2 : 1, true); vs.push_back(i); }
      else if ((int)i == sizeArg) { e.k = Ent::SIZE; e.n = 2; }
      else continue;
      base[i] = e;
    }
    if (values.empty() && envs.empty()) return;
    if (values.size() + exprs.size() + envs.size() + vs.size() < 2 && !(values.size() == 1 && base[values[0]].isArray)) return; // nothing to combine
    tally("operations"); nullBuilder.clear(); vars = false;
    bool unify = StringRef(fn).contains("unify"); 
    static const char *what[] = {"the value's own environment", "a smaller environment", "an environment with other types", "a larger environment"};
    auto el = [&](int a, size_t k) { return base[a].isArray ? "[" + std::to_string(k) + "]" : std::string(); };
    run(fn, "all environments are the value's", base, 0);
    for (size_t v = 0; v < values.size(); v++) for (size_t k = 0; k < base[values[v]].env.size(); k++) {
      if (v == 0 && k == 0) continue; int a = values[v];
      for (int id = 1; id < 4; id++) { Scen s = base; s[a].env[k] = id; bool fits = unify && id != 2; run(fn, pn(a) + el(a, k) + " is over " + what[id], s, fits ? 0 : 1); }
    }
    for (int a : values) for (size_t k = 0; k < base[a].lib.size(); k++) { Scen s = base; s[a].lib[k] = 0; run(fn, pn(a) + el(a, k) + " was built by another library", s, 1); }
    for (int a : values) if (base[a].isArray && sizeArg >= 0) { Scen s = base; s[sizeArg].n = 0; s[a].env.clear(); s[a].lib.clear(); run(fn, pn(a) + " is empty", s, 1); }
    for (int a : exprs) for (size_t k = 0; k < base[a].env.size(); k++) for (int id = 1; id < 4; id++) { Scen s = base; s[a].env[k] = id; if (id == 1) for (auto &x : s[a].env) x = 1; run(fn, pn(a) + el(a, k) + " is over " + what[id], s, id == 1 ? 2 : 1, a); }
    if (!values.empty()) for (int a : envs) for (int id = 1; id < 4; id++) { Scen s = base; s[a].env[0] = id; run(fn, pn(a) + " is " + what[id], s, id == 2 ? 1 : 0); }
    if (!vs.empty()) {
      std::set<std::string> bs; for (Instruction &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (builder(fnName(*H))) bs.insert(fnName(*H));
      for (auto &b : bs) { nullBuilder = b; run(fn, b + " refuses the variables", base, 1); } nullBuilder.clear();
      bool looked = false; for (Instruction &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (fnName(*H) == "ap_environment_dim_of_var" || fnName(*H) == "ap_environment_mem_var") looked = true;
      if (looked || bs.empty()) for (int a : vs) for (size_t k = 0; k < base[a].present.size(); k++) {
        if (fresh(a, fn, pn(a), vs)) continue;
        Scen s = base; s[a].present[k] = false; vars = true; run(fn, pn(a) + el(a, k) + " is not in the environment", s, 1); vars = false;
      }
    }
  }
  // variables the operation adds rather than looks up: never passed to a look-up
  bool fresh(int a, const std::string &, const std::string &, const std::vector<int> &) {
    for (Instruction &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (fnName(*H) == "ap_environment_dim_of_var" || fnName(*H) == "ap_environment_mem_var") {
      const Value *V = thru(CB->getArgOperand(1)); if (auto *A = dyn_cast<Argument>(V)) { if ((int)A->getArgNo() == a) return false; } int root; std::vector<Step> r; if (auto *L = dyn_cast<LoadInst>(V)) if (steps(L->getPointerOperand(), root, r) && root == a) return false;
    }
    // passed to a builder next to other variables, and other variables are looked up
    for (Instruction &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (builder(fnName(*H))) for (auto &A : CB->args()) { int64_t o; auto *B = stripOffset(thru(A.get()), T.DL, o); if (auto *P = dyn_cast<Argument>(B)) if ((int)P->getArgNo() == a) return true; }
    return false;
  }
};
}
int runEnvs(std::vector<std::string> args) {
  LLVMContext C; auto M = loadModule(args[0], C); if (!M) return 2;
  promote(*M); Envs A(*M);
  for (auto &p : enumerators(*M, "ap_exc_t")) if (p.second == "AP_EXC_INVALID_ARGUMENT") A.excInvalid = p.first;
  if (A.excInvalid < 0) { emitError("ap_exc_t not found"); return 3; }
  std::vector<std::pair<Function *, std::string>> work; std::vector<Function *> fs;
  for (Function &F : *M) if (!F.isDeclaration() && !F.hasLocalLinkage() && startsWith(fnName(F), "ap_abstract1_")) fs.push_back(&F);
  for (Function *F : fs) { auto sig = signatureOf(*F); bool fid = false; for (auto *t : sig) if (t && startsWith(typeName(t), "ap_funid_t")) fid = true; if (!fid && !StringRef(F->getName()).contains("_raise_") && !StringRef(F->getName()).contains("_check")) work.push_back({F, fnName(*F)}); }
  for (auto &w : work) inlineInto(*w.first, [&](const Function &G) { std::string n = fnName(G); if (n == "ap_environment_copy") return true; return !startsWith(n, "ap_abstract0_") && !startsWith(n, "_ap_abstract0") && !startsWith(n, "ap_environment_") && (G.hasLocalLinkage() || startsWith(n, "ap_abstract1_")) && G.getInstructionCount() < 500; });
  for (auto &w : work) { cleanup(*w.first); peelLoops(*w.first, 3); cleanup(*w.first, false); debugDump(*w.first); A.function(*w.first, w.second); }
  return 0;
}
