// P10: every kind has its own case.
// For every value of a public enumeration type (field, argument, result) and every kind k the interface
// defines (restricted, for internal functions, to the kinds callers can pass): the edges feasible under
// "value = k" are computed; findings are edges decided by the kind into a region that only aborts, kinds
// that reach an uninitialised result, kinds that skip every case of a dispatch, and tables indexed by the
// kind that are too short.
#include "apa.h"
#include "cond.h"
#include "llvm/Analysis/PostDominators.h"
namespace {
struct Enum { std::map<int64_t, std::string> k; };
struct Group { std::string path, addr; std::string en; std::set<const Value *> vals; bool arg = false; };
struct FnInfo { Function *F; std::vector<Group> groups; };
struct Kinds {
  Module &M; Types T; std::map<std::string, Enum> en;
  std::map<const Function *, FnInfo> fi;
  std::map<std::pair<const Function *, std::string>, std::set<int64_t>> poss; // kinds possible for an argument path
  Kinds(Module &M) : M(M), T(M) {}
  static bool legal(StringRef n) { return !n.ends_with("_SIZE"); }
  void addEnum(const std::string &n) {
    auto e = enumerators(M, n); Enum E; for (auto &p : e) if (legal(p.second)) E.k[p.first] = p.second;
    if (!E.k.empty()) en[n] = E;
  }
  std::string enumName(const DIType *D) {
    for (int i = 0; D && i < 8; i++) {
      if (auto *d = dyn_cast<DIDerivedType>(D)) { if (d->getTag() == dwarf::DW_TAG_pointer_type) return ""; D = d->getBaseType(); continue; }
      if (auto *c = dyn_cast<DICompositeType>(D)) return c->getTag() == dwarf::DW_TAG_enumeration_type && en.count(c->getName().str()) ? c->getName().str() : "";
      return "";
    }
    return "";
  }
  std::string path(const Value *V, int d = 0) {
    V = V->stripPointerCasts();
    if (auto *A = dyn_cast<Argument>(V)) return "A" + std::to_string(A->getArgNo());
    if (auto *L = dyn_cast<LoadInst>(V)) if (d < 12) return "(" + paddr(L->getPointerOperand(), d + 1) + ")";
    if (d < 12) {
      if (auto *G = dyn_cast<GEPOperator>(V)) { std::string r = "[" + path(G->getPointerOperand(), d + 1); for (auto &i : G->indices()) r += "," + path(i.get(), d + 1); return r + "]"; }
      if (auto *C = dyn_cast<CastInst>(V)) return path(C->getOperand(0), d + 1);
      if (auto *C = dyn_cast<ConstantInt>(V)) return "#" + std::to_string(C->getSExtValue());
    }
    char s[32]; snprintf(s, 32, "v%p", (const void *)V); return s;
  }
  std::string paddr(const Value *P, int d = 0) { int64_t o; const Value *b = stripOffset(P, T.DL, o); return path(b, d + 1) + "+" + std::to_string(o); }
  std::map<const Instruction *, std::string> tag;
  std::string tagOf(const Instruction *I) { if (auto *N = I->getMetadata("apa.enum")) return cast<MDString>(N->getOperand(0))->getString().str(); return ""; }
  void tagLoads() {
    for (Function &F : M) for (Instruction &I : instructions(F)) {
      std::string e;
      if (auto *L = dyn_cast<LoadInst>(&I)) { if (!L->getType()->isIntegerTy(32)) continue;
        const Value *b; std::string n; const DIType *ft = nullptr;
        if (T.fieldOf(L->getPointerOperand(), b, n, &ft)) e = enumName(ft);
        if (e.empty()) if (auto *G = dyn_cast<GetElementPtrInst>(L->getPointerOperand())) if (auto *ST = dyn_cast<StructType>(G->getSourceElementType())) if (auto *C = T.compositeFor(ST)) {
          APInt A(64, 0); if (G->accumulateConstantOffset(T.DL, A)) { const DIType *f2 = nullptr; T.field(C, A.getZExtValue(), &f2); e = enumName(f2); } }
        if (e.empty()) e = enumName(T.pointee(L->getPointerOperand()));
      } else if (auto *CB = dyn_cast<CallBase>(&I)) { if (!CB->getType()->isIntegerTy(32)) continue;
        if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) { auto s = signatureOf(*G); if (!s.empty() && s[0]) e = enumName(s[0]); }
      } else continue;
      if (!e.empty()) I.setMetadata("apa.enum", MDNode::get(M.getContext(), MDString::get(M.getContext(), e)));
    }
  }
  // arguments through which a function may store a kind (per enumeration), transitively; 1000: unknown
  std::map<const Function *, std::map<std::string, std::set<unsigned>>> stores;
  static const Value *root(const Value *V) { for (int i = 0; i < 40; i++) { V = V->stripPointerCasts(); if (auto *G = dyn_cast<GEPOperator>(V)) V = G->getPointerOperand(); else if (auto *L = dyn_cast<LoadInst>(V)) V = L->getPointerOperand(); else break; } return V; }
  static unsigned argOf(const Value *P) { const Value *r = root(P); if (auto *A = dyn_cast<Argument>(r)) return A->getArgNo(); if (isa<AllocaInst>(r) || isa<GlobalValue>(r)) return 2000; if (auto *C = dyn_cast<CallBase>(r)) if (auto *G = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) if (G->getName() == "malloc" || G->getName() == "calloc") return 2000; return 1000; }
  void computeStores() {
    for (Function &F : M) for (Instruction &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) {
      const Value *b; std::string n; const DIType *ft = nullptr; std::string e;
      if (isa<AllocaInst>(S->getPointerOperand()->stripPointerCasts())) continue;
      if (!S->getValueOperand()->getType()->isIntegerTy(32)) continue;
      if (T.fieldOf(S->getPointerOperand(), b, n, &ft)) e = enumName(ft);
      unsigned a = argOf(S->getPointerOperand());
      if (!e.empty() && a != 2000) stores[&F][e].insert(a);
    }
    bool ch = true; while (ch) { ch = false; for (Function &F : M) for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (G != &F && stores.count(G)) for (auto &e : std::map<std::string, std::set<unsigned>>(stores[G])) for (unsigned x : e.second) {
      if (x == 1000) { for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->getArgOperand(i)->getType()->isPointerTy()) { unsigned a = argOf(CB->getArgOperand(i)); if (a != 2000 && stores[&F][e.first].insert(a).second) ch = true; } }
      else if (x < CB->arg_size()) { unsigned a = argOf(CB->getArgOperand(x)); if (a != 2000 && stores[&F][e.first].insert(a).second) ch = true; } } }
  }
  bool mayStore(Function &F, const Value *leaf, const std::string &e) {
    // a store to the same field, or a call that may store a kind through a pointer from which the leaf is reachable
    std::string root; { auto *L = dyn_cast<LoadInst>(leaf); if (!L) return false; root = paddr(L->getPointerOperand()); }
    for (Instruction &I : instructions(F)) {
      if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->getValueOperand()->getType()->isIntegerTy(32) && paddr(S->getPointerOperand()) == root) return true; }
      else if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (isa<IntrinsicInst>(CB)) continue;
        auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
        if (!G || !stores.count(G) || !stores[G].count(e)) continue;
        auto &w = stores[G][e];
        for (unsigned i = 0; i < CB->arg_size(); i++) { const Value *a = CB->getArgOperand(i); if (!a->getType()->isPointerTy() || (!w.count(i) && !w.count(1000))) continue; std::string p = paddr(a); std::string q = p.substr(0, p.rfind('+')); std::string pa = path(a); if (root.find(pa + "+") != std::string::npos || root.find(q + "+") != std::string::npos) return true; }
      }
    }
    return false;
  }
  // F stores into a field (path from an argument) the kind it reads from another argument's field
  std::map<const Function *, std::set<std::pair<std::string, std::string>>> copies;
  // callee path rewritten to the caller's at a call ("" if not expressible)
  std::string atCall(const CallBase *CB, const std::string &p) {
    if (!p.empty() && p[0] == '#') return p; // a constant
    size_t a = p.find('A'); if (a == std::string::npos) return ""; size_t e = a + 1; while (e < p.size() && isdigit(p[e])) e++;
    unsigned no = std::stoi(p.substr(a + 1, e - a - 1)); if (no >= CB->arg_size()) return "";
    const Value *av = CB->getArgOperand(no);
    if (e >= p.size() || p[e] != '+') return p.substr(0, a) + path(av) + p.substr(e);
    int64_t o; const Value *b = stripOffset(av, T.DL, o); size_t q = e + 1; if (q < p.size() && p[q] == '-') q++; while (q < p.size() && isdigit(p[q])) q++;
    int64_t o2 = std::stoll(p.substr(e + 1, q - e - 1)); return p.substr(0, a) + path(b) + "+" + std::to_string(o + o2) + p.substr(q);
  }
  void computeCopies() {
    auto rooted = [](const std::string &p) { return p.find('A') != std::string::npos && p.find('v') == std::string::npos; };
    for (Function &F : M) for (Instruction &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getValueOperand()->getType()->isIntegerTy(32)) {
      std::string d = paddr(S->getPointerOperand()), src;
      if (auto *L = dyn_cast<LoadInst>(S->getValueOperand())) src = paddr(L->getPointerOperand());
      if (auto *L = dyn_cast<ConstantInt>(S->getValueOperand())) src = "#" + std::to_string(L->getSExtValue());
      if (!src.empty() && rooted(d) && (rooted(src) || src[0] == '#')) copies[&F].insert({d, src});
    }
    bool ch = true; int n = 0; while (ch && n++ < 12) { ch = false; for (Function &F : M) for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (!G || !copies.count(G)) continue;
      for (auto &c : std::set<std::pair<std::string, std::string>>(copies[G])) { std::string d = atCall(CB, c.first), q = atCall(CB, c.second); if (rooted(d) && (rooted(q) || q[0] == '#') && d.size() < 60 && q.size() < 60) if (copies[&F].insert({d, q}).second) ch = true; } } }
  }
  // source groups a field of F is copied from by calls in F
  std::set<std::string> sourcesOf(Function &F, const std::string &addr) {
    std::set<std::string> r; for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (!G || !copies.count(G)) continue; for (auto &c : copies[G]) if (atCall(CB, c.first) == addr) r.insert("(" + atCall(CB, c.second) + ")"); }
    return r;
  }
  void collect(Function &F) {
    FnInfo &I = fi[&F]; I.F = &F; std::map<std::string, int> at;
    auto put = [&](const Value *V, const std::string &p, const std::string &e, bool arg) {
      std::string ad; if (auto *L = dyn_cast<LoadInst>(V)) ad = paddr(L->getPointerOperand());
      auto it = at.find(p); if (it == at.end()) { at[p] = I.groups.size(); I.groups.push_back({p, ad, e, {V}, arg}); } else I.groups[it->second].vals.insert(V); };
    for (Argument &A : F.args()) if (A.getType()->isIntegerTy(32)) { auto *V = variableOf(&A); if (V) { auto e = enumName(V->getType()); if (!e.empty()) put(&A, path(&A), e, true); } }
    for (Instruction &J : instructions(F)) {
      std::string e = tagOf(&J);
      if (e.empty()) if (auto *L = dyn_cast<LoadInst>(&J)) { const Value *b; std::string n; const DIType *ft = nullptr; if (L->getType()->isIntegerTy(32) && T.fieldOf(L->getPointerOperand(), b, n, &ft)) e = enumName(ft); }
      if (e.empty()) continue;
      if (isa<LoadInst>(J)) { if (mayStore(F, &J, e)) { char s[32]; snprintf(s, 32, "u%p", (const void *)&J); put(&J, s, e, false); } else { std::string p = path(&J); put(&J, p, e, p.find("A") == 1 && p.find('v') == std::string::npos); } }
      else { char s[32]; snprintf(s, 32, "c%p", (const void *)&J); put(&J, s, e, false); }
    }
  }
  // number of feasible things under k
  void assume(Cond &C, Function &F, const Group &G, int64_t k) {
    C.leaf = [&G, k](const Value *V) { if (G.vals.count(V)) return Cond::known(k); return Cond::Val(); };
    C.explore(&F.getEntryBlock());
  }
};
bool aborts(const Function *G) { static const std::set<std::string> n = {"abort", "__assert_fail", "exit", "_exit", "_Exit", "_ZSt9terminatev", "raise"}; return G && (n.count(G->getName().str()) || (G->hasFnAttribute(Attribute::NoReturn) && !G->getName().starts_with("__cxa_") && !G->getName().starts_with("_ZSt") && !G->getName().starts_with("_Unwind"))); }
const Function *calleeOf(const CallBase *CB); // declared below
// the bindings' answer to a kind that does not exist
bool rejects(const CallBase *CB) {
  auto *G = calleeOf(CB); if (!G) return false; StringRef n = G->getName();
  if (n.starts_with("_ZNSt16invalid_argumentC")) return true;
  if (n == "jgmp_throw_by_name") for (auto &a : CB->args()) if (auto *V = dyn_cast<GlobalVariable>(a->stripPointerCasts())) if (V->hasInitializer()) if (auto *D = dyn_cast<ConstantDataArray>(V->getInitializer())) if (D->isString() && D->getAsString().contains("IllegalArgumentException")) return true;
  return false; }
const Function *calleeOf(const CallBase *CB) { return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); }
}
int runKinds(std::vector<std::string> args) {
  LLVMContext Ctx; auto M = loadModule(args[0], Ctx);
  bool dump = args.size() > 1 && args[1] == "dump";
  Kinds K(*M);
  for (auto *n : {"ap_scalar_discr_t", "ap_coeff_discr_t", "ap_linexpr_discr_t", "ap_constyp_t", "ap_gentyp_t", "ap_texpr_op_t", "ap_texpr_rtype_t", "ap_texpr_rdir_t", "ap_texpr_discr_t", "ap_exc_t", "ap_coefftag_t", "tbool_t", "ap_linexpr_type_t"}) K.addEnum(n);
  K.tagLoads();
  promote(*M);
  K.T.~Types(); new (&K.T) Types(*M);
  K.computeStores(); K.computeCopies();
  // small pure helpers on kinds are inlined
  auto helper = [&](const Function &G) {
    if (G.isDeclaration() || !G.getReturnType()->isIntegerTy() || G.getInstructionCount() > 60) return false;
    for (auto &A : G.args()) if (!A.getType()->isIntegerTy()) return false;
    for (auto &I : instructions(G)) if (isa<StoreInst>(I)) return false;
    return G.arg_size() > 0; };
  for (Function &F : *M) if (!F.isDeclaration()) { inlineInto(F, helper); cleanup(F, false); }
  K.T.~Types(); new (&K.T) Types(*M);
  for (Function &F : *M) if (!F.isDeclaration()) K.collect(F);
  for (auto &p : K.fi) { for (auto &g : p.second.groups) { tally("discriminants"); tally("discriminants:" + g.en); } }
  // kinds internal functions can be given
  auto internalOnly = [&](const Function &F) { if (!F.hasLocalLinkage() && (F.getName().starts_with("ap_") || F.getName().starts_with("_Z"))) return false; if (F.use_empty()) return false; for (auto *U : F.users()) { auto *CB = dyn_cast<CallBase>(U); if (!CB || CB->getCalledOperand()->stripPointerCasts() != &F) return false; for (auto &a : CB->args()) if (a.get() == &F) return false; } return true; };
  for (auto &p : K.fi) for (auto &g : p.second.groups) if (g.arg) { auto &s = K.poss[{p.first, g.path}]; if (!internalOnly(*p.first)) for (auto &k : K.en[g.en].k) s.insert(k.first); }
  auto kindsOf = [&](const Function *F, const Group &g) { std::set<int64_t> r; if (g.arg) return K.poss[{F, g.path}]; for (auto &k : K.en[g.en].k) r.insert(k.first); return r; };
  bool ch = true; int round = 0;
  std::map<std::pair<const Function *, std::string>, std::map<int64_t, std::set<std::string>>> contrib; // who passes the kind
  std::map<std::tuple<const Function *, std::string, int64_t>, std::shared_ptr<Cond>> cache;
  auto under = [&](Function *F, const Group &g, int64_t k) { auto &c = cache[{F, g.path, k}]; if (!c) { c = std::make_shared<Cond>(); K.assume(*c, *F, g, k); } return c; };
  while (ch && round++ < 20) {
    ch = false;
    for (Function &F : *M) { if (F.isDeclaration()) continue;
      for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
        auto *G = calleeOf(CB); if (!G || G->isDeclaration() || !internalOnly(*G)) continue;
        for (auto &g : K.fi[G].groups) if (g.arg) {
          auto &dst = K.poss[{G, g.path}]; auto &by = contrib[{G, g.path}];
          auto add = [&](int64_t k, const Group *x) { if (dst.insert(k).second) ch = true; auto &w = by[k]; if (x && x->arg && internalOnly(F)) { for (auto &n : contrib[{&F, x->path}][k]) if (w.insert(n).second) ch = true; } else { std::string n = fnName(F); if (n.empty()) n = F.getName().str(); if (w.insert(n).second) ch = true; } };
          const Value *av = nullptr; size_t a = g.path.find('A'); { size_t e = a + 1; while (e < g.path.size() && isdigit(g.path[e])) e++; unsigned no = std::stoi(g.path.substr(a + 1, e - a - 1)); if (no >= CB->arg_size()) continue; av = CB->getArgOperand(no); }
          std::string cp = K.atCall(CB, g.path);
          if (auto *c = dyn_cast<ConstantInt>(av)) { if (a == 0) { add(c->getSExtValue(), nullptr); continue; } }
          const Group *cg = nullptr; for (auto &x : K.fi[&F].groups) if (x.path == cp || (a == 0 && x.vals.count(av))) cg = &x;
          if (!cg && cp.size() > 2) { // set by calls that copy the kind of something else
            auto src = K.sourcesOf(F, cp.substr(1, cp.size() - 2)); std::vector<const Group *> gs; bool all = !src.empty(); std::set<int64_t> cs;
            for (auto &q : src) { if (q[1] == '#') { cs.insert(std::stoll(q.substr(2))); continue; } const Group *x = nullptr; for (auto &y : K.fi[&F].groups) if ("(" + y.addr + ")" == q) { x = &y; gs.push_back(x); } if (!x) all = false; }
            if (all) { for (int64_t k : cs) add(k, nullptr); for (auto *x : gs) for (int64_t k : kindsOf(&F, *x)) if (under(&F, *x, k)->reach.count(CB->getParent())) add(k, x); continue; }
          }
          if (!cg) { for (auto &k : K.en[g.en].k) add(k.first, nullptr); }
          else for (int64_t k : kindsOf(&F, *cg)) if (under(&F, *cg, k)->reach.count(CB->getParent())) add(k, cg);
        } } }
  }
  // blocks from which only aborting is possible
  for (auto &fp : K.fi) {
    Function &F = *fp.second.F; if (fp.second.groups.empty()) continue;
    std::set<const BasicBlock *> live; bool rejecting = false;
    auto computeLive = [&] { live.clear(); bool c2 = true; auto dead = [&](const BasicBlock &B) { for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (aborts(calleeOf(CB)) || (rejecting && rejects(CB))) return true; return false; };
      for (auto &B : F) if ((isa<ReturnInst>(B.getTerminator()) || isa<ResumeInst>(B.getTerminator()) || (isa<UnreachableInst>(B.getTerminator()))) && !dead(B)) live.insert(&B);
      while (c2) { c2 = false; for (auto &B : F) if (!live.count(&B) && !dead(B)) for (auto *S : successors(&B)) if (live.count(S)) { live.insert(&B); c2 = true; break; } } };
    computeLive(); auto live0 = live; rejecting = true; computeLive(); auto live1 = live;
    std::string n = fnName(F); if (n.empty()) n = F.getName().str();
    Cond none; none.explore(&F.getEntryBlock());
    PostDominatorTree PDT(F);
    for (auto &g : fp.second.groups) {
      auto ks = kindsOf(&F, g); if (ks.empty()) continue;
      live = g.en == "ap_exc_t" ? live0 : live1;
      if (auto *L = dyn_cast<LoadInst>(*g.vals.begin())) { const Value *b; std::string fn; if (g.en == "ap_exc_t" && K.T.fieldOf(L->getPointerOperand(), b, fn) && StringRef(fn).ends_with(".exn")) continue; } // a pending failure, not a kind given by a client
      std::map<std::string, std::vector<std::string>> part; int decided = 0; std::set<int64_t> barren;
      std::map<int64_t, std::set<std::pair<const BasicBlock *, const BasicBlock *>>> dec;
      std::string what; { const Value *v = *g.vals.begin(); if (auto *L = dyn_cast<LoadInst>(v)) { const Value *b; std::string fn; if (K.T.fieldOf(L->getPointerOperand(), b, fn)) what = fn; else what = g.en; } else what = g.en; }
      for (int64_t k : ks) {
        auto C = under(&F, g, k);
        for (auto &e : C->edges) { auto *T = e.first->getTerminator(); if (T->getNumSuccessors() < 2 || none.next(e.first).size() < 2) continue; if (C->next(e.first).size() == 1) dec[k].insert(e); }
        decided += dec[k].size();
        std::string s; size_t sel = 0;
        for (auto *B : C->reach) for (auto &I : *B) {
          if (auto *S = dyn_cast<SelectInst>(&I)) { auto v = C->eval(S->getCondition()), v0 = none.eval(S->getCondition()); if (v.k && !v0.k) { char b[64]; snprintf(b, 64, "%p?%d ", (void *)S, (int)(v.v & 1)); s += b; sel++; } }
          else if (auto *X = dyn_cast<ICmpInst>(&I)) { bool plain = true; for (auto *U : X->users()) if (!isa<BranchInst>(U) && !isa<SelectInst>(U) && !isa<PHINode>(U)) plain = false; if (!plain) { auto v = C->eval(X), v0 = none.eval(X); if (v.k && !v0.k) { char b[64]; snprintf(b, 64, "%p=%d ", (void *)X, (int)(v.v & 1)); s += b; sel++; } } } }
        decided += sel; {
          auto *R = [&]() -> const BasicBlock * { for (auto *B : C->reach) if (isa<ReturnInst>(B->getTerminator())) return B; return nullptr; }(); if (!R) barren.insert(k); }
         for (auto &e : dec[k]) { char b[64]; snprintf(b, 64, "%p>%p ", (void *)e.first, (void *)e.second); s += b; }
        if (!barren.count(k)) part[s].push_back(K.en[g.en].k[k]);
      }
      if (!decided) continue;
      tally("dispatching"); 
      if (dump) { std::string l; for (auto &p : part) { l += "{"; for (auto &x : p.second) l += x + " "; l += "} "; } const Instruction *at = nullptr; if (auto *I = dyn_cast<Instruction>(*g.vals.begin())) at = I; std::string f; unsigned ln = 0; if (at) locOf(at, f, ln); emitFindingAt("partition", n, f, ln, what + "@" + std::to_string(ln), l); }
      // kinds treated alike
      if (part.size() >= 2 && ks.size() == K.en[g.en].k.size()) {
        auto *SP = F.getSubprogram(); (void)SP;
        bool tester = F.getReturnType()->isIntegerTy() && F.getReturnType()->getIntegerBitWidth() <= 8;
        std::map<std::string, int> cls; for (auto &p : part) { static int id = 0; ++id; for (auto &x : p.second) cls[x] = id; }
        auto same = [&](const char *a, const char *b) { return cls.count(a) && cls.count(b) && cls[a] == cls[b]; };
        std::vector<std::pair<std::string, std::string>> bad;
        auto pairs = [&](std::vector<const char *> A, std::vector<const char *> B) { for (auto a : A) for (auto b : B) if (strcmp(a, b) < 0 || A != B) if (strcmp(a, b) && same(a, b)) bad.push_back({a, b}); };
        if (g.en == "ap_scalar_discr_t") pairs({"AP_SCALAR_DOUBLE", "AP_SCALAR_MPQ", "AP_SCALAR_MPFR"}, {"AP_SCALAR_DOUBLE", "AP_SCALAR_MPQ", "AP_SCALAR_MPFR"});
        else if (g.en == "ap_gentyp_t") { if (!same("AP_GEN_LINE", "AP_GEN_RAY")) pairs({"AP_GEN_LINE", "AP_GEN_LINEMOD"}, {"AP_GEN_RAY", "AP_GEN_RAYMOD"}); if (part.size() >= 3 || !same("AP_GEN_VERTEX", "AP_GEN_RAY")) pairs({"AP_GEN_VERTEX"}, {"AP_GEN_LINE", "AP_GEN_LINEMOD", "AP_GEN_RAY", "AP_GEN_RAYMOD"}); }
        else if (g.en == "ap_constyp_t") {
          if (part.size() >= 3) { if (!tester) pairs({"AP_CONS_EQ"}, {"AP_CONS_SUPEQ", "AP_CONS_SUP"}); pairs({"AP_CONS_EQ"}, {"AP_CONS_DISEQ"}); pairs({"AP_CONS_EQMOD"}, {"AP_CONS_SUPEQ", "AP_CONS_SUP"}); if (!same("AP_CONS_SUP", "AP_CONS_SUPEQ")) pairs({"AP_CONS_DISEQ"}, {"AP_CONS_SUPEQ", "AP_CONS_SUP"}); if (!tester) pairs({"AP_CONS_EQ"}, {"AP_CONS_EQMOD"}); }
          
          for (auto xy : {std::pair{"AP_CONS_SUP", "AP_CONS_SUPEQ"}, std::pair{"AP_CONS_SUPEQ", "AP_CONS_SUP"}}) for (auto z : {"AP_CONS_EQMOD", "AP_CONS_DISEQ"}) if (same(xy.first, z) && !same(xy.first, xy.second) && !same(xy.first, "AP_CONS_EQ")) { auto b = std::pair<std::string, std::string>{xy.first, z}; if (std::find(bad.begin(), bad.end(), b) == bad.end()) bad.push_back(b); }
          if (part.size() < 3 && same("AP_CONS_EQ", "AP_CONS_SUPEQ") && same("AP_CONS_EQ", "AP_CONS_SUP") && !same("AP_CONS_EQMOD", "AP_CONS_DISEQ")) { if (same("AP_CONS_EQ", "AP_CONS_EQMOD")) bad.push_back({"AP_CONS_EQ", "AP_CONS_EQMOD"}); if (same("AP_CONS_EQ", "AP_CONS_DISEQ")) bad.push_back({"AP_CONS_EQ", "AP_CONS_DISEQ"}); }
        } else if (g.en == "ap_texpr_op_t") { if (part.size() >= 5 && !tester) { std::vector<const char *> six = {"AP_TEXPR_NEG", "AP_TEXPR_CAST", "AP_TEXPR_ADD", "AP_TEXPR_SUB", "AP_TEXPR_MUL", "AP_TEXPR_DIV"}; pairs(six, six); pairs(six, {"AP_TEXPR_MOD", "AP_TEXPR_POW", "AP_TEXPR_SQRT"}); } }
        else if (g.en == "ap_texpr_rtype_t") { if (part.size() >= 3) { std::vector<const char *> v = {"AP_RTYPE_REAL", "AP_RTYPE_INT", "AP_RTYPE_SINGLE", "AP_RTYPE_DOUBLE"}; pairs(v, v); pairs({"AP_RTYPE_REAL", "AP_RTYPE_INT", "AP_RTYPE_SINGLE"}, {"AP_RTYPE_EXTENDED", "AP_RTYPE_QUAD"}); } }
        else if (g.en == "ap_texpr_rdir_t") { if (part.size() >= 3) { std::vector<const char *> v = {"AP_RDIR_NEAREST", "AP_RDIR_ZERO", "AP_RDIR_UP", "AP_RDIR_DOWN"}; pairs(v, v); pairs({"AP_RDIR_ZERO", "AP_RDIR_UP", "AP_RDIR_DOWN"}, {"AP_RDIR_RND"}); } }
        emitObligation("kinds-distinguished", n, what, bad.empty());
        for (auto &b : bad) { std::string f; unsigned ln = 0; if (auto *I = dyn_cast<Instruction>(*g.vals.begin())) locOf(I, f, ln); else { f = funcLoc(F); }
          emitFindingAt("kinds-distinguished", n, f, ln, what + ":" + b.first + "~" + b.second, n + ": kinds " + b.first + " and " + b.second + " (" + what + ") are treated alike where others are told apart"); }
      }
      // one kind alone does nothing in a switch where every other kind has a case
      for (auto *V : g.vals) for (auto *U : V->users()) if (auto *Sw = dyn_cast<SwitchInst>(U)) if (Sw->getCondition() == V) {
        auto *node = PDT.getNode(Sw->getParent()); auto *ip = node && node->getIDom() ? node->getIDom()->getBlock() : nullptr; if (!ip) continue;
        std::vector<int64_t> none2; size_t acting = 0;
        for (int64_t k : ks) { const BasicBlock *D = Sw->getDefaultDest(); for (auto &c : Sw->cases()) if (c.getCaseValue()->getSExtValue() == k) D = c.getCaseSuccessor();
          int n = 0; while (D != ip && D->size() == 1 && D->getUniqueSuccessor() && n++ < 8) D = D->getUniqueSuccessor();
          bool dflt = true; for (auto &c : Sw->cases()) if (c.getCaseValue()->getSExtValue() == k) dflt = false;
          if (dflt && D == ip) none2.push_back(k); else acting++; }
        bool bad = none2.size() == 1 && (acting >= 3 || (g.en == "ap_scalar_discr_t" && acting == 2 && K.en[g.en].k[none2[0]] != "AP_SCALAR_DOUBLE")) && ks.size() == K.en[g.en].k.size();
        emitObligation("kind-skipped", n, what, !bad);
        if (bad) { std::string f; unsigned ln; locOf(Sw, f, ln); emitFindingAt("kind-skipped", n, f, ln, what + "=" + K.en[g.en].k[none2[0]], n + ": of all the kinds (" + what + ") only " + K.en[g.en].k[none2[0]] + " has no case"); }
      }
      for (int64_t k : ks) {
        auto C = under(&F, g, k); bool bad = false;
        for (auto &e : dec[k]) if (!live.count(e.second) && live.count(e.first)) {
          bool possible = true;
          for (auto &g2 : fp.second.groups) if (&g2 != &g && possible) {
            bool any = false; for (int64_t k2 : kindsOf(&F, g2)) { Cond J; J.leaf = [&](const Value *V) { if (g.vals.count(V)) return Cond::known(k); if (g2.vals.count(V)) return Cond::known(k2); return Cond::Val(); }; J.explore(&F.getEntryBlock()); if (J.edges.count(e)) { any = true; break; } }
            if (!any) possible = false; }
          if (possible && !g.addr.empty()) for (auto &q : K.sourcesOf(F, g.addr)) for (auto &g2 : fp.second.groups) if ("(" + g2.addr + ")" == q && possible) {
            Cond J; J.leaf = [&](const Value *V) { return g.vals.count(V) || g2.vals.count(V) ? Cond::known(k) : Cond::Val(); }; J.explore(&F.getEntryBlock()); if (!J.edges.count(e)) possible = false; }
          if (!possible) continue;
          bad = true; std::string f; unsigned ln; locOf(e.first->getTerminator(), f, ln);
          std::string m = n + ": a value of kind " + K.en[g.en].k[k] + " (" + what + ") leads to an abort or failed assertion", key = what + "=" + K.en[g.en].k[k];
          auto ci = contrib.find({&F, g.path});
          if (g.arg && internalOnly(F) && ci != contrib.end() && ci->second.count(k)) for (auto &c : ci->second[k]) emitFindingAt("kind-aborts", n, f, ln, key + "<" + c, m + ", passed by " + c);
          else emitFindingAt("kind-aborts", n, f, ln, key, m); }
        emitObligation("kind-aborts", n, what + "=" + K.en[g.en].k[k], !bad);
        // uninitialised result
        for (const BasicBlock *RB : C->reach) if (auto *R = dyn_cast<ReturnInst>(RB->getTerminator())) if (R->getReturnValue()) {
          std::vector<std::pair<const Value *, bool>> w{{R->getReturnValue(), false}}; std::set<const Value *> seen;
          while (!w.empty()) { auto [v, kd] = w.back(); w.pop_back(); if (!seen.insert(v).second) continue;
            if (isa<UndefValue>(v) && kd) { std::string f; unsigned ln; locOf(R, f, ln); emitFindingAt("kind-uninitialised", n, f, ln, what + "=" + K.en[g.en].k[k], n + ": for a value of kind " + K.en[g.en].k[k] + " (" + what + ") the result is uninitialised"); continue; }
            if (auto *P = dyn_cast<PHINode>(v)) for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (!C->edges.count({P->getIncomingBlock(i), P->getParent()})) continue;
              bool other = kd; for (int64_t k2 : ks) if (k2 != k && !under(&F, g, k2)->edges.count({P->getIncomingBlock(i), P->getParent()})) other = true;
              w.push_back({P->getIncomingValue(i), other}); }
            else if (auto *X = dyn_cast<CastInst>(v)) w.push_back({X->getOperand(0), kd});
            else if (auto *S = dyn_cast<SelectInst>(v)) { auto c = C->eval(S->getCondition()); if (c.k) w.push_back({c.v ? S->getTrueValue() : S->getFalseValue(), true}); else { w.push_back({S->getTrueValue(), kd}); w.push_back({S->getFalseValue(), kd}); } } } }
      }
    }
  }
  return 0;
}
