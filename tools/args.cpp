// P02: the generic layer never hands a domain an argument that does not fit.
// For every level-0 operation and every way an argument can fail to fit (a scenario: the argument's components
// are assumed to have given, unfitting values; everything else is unknown), conditional constant propagation over
// the expanded, partially peeled operation must show that no call of the manager's operation on a value given
// by the client is feasible, and that every feasible path raises the invalid-argument exception for the operation.
#include "apa.h"
#include "chain.h"
#include "slots.h"

namespace {
struct Expr { int null = 0; int64_t discr = 0, size = 0; std::vector<int64_t> dims; int64_t maxdim = 0; };
struct Val { int64_t id = -1, rd = -1; int lib = -1; }; // lib: 1 same as the manager's, 0 another, -1 unknown
struct Ent { bool isArray = false; std::vector<Val> vals; std::vector<int64_t> ints; bool hasInts = false; std::vector<Expr> exprs; bool hasExprs = false; int64_t intdim = -1, realdim = -1, psize = -1; int add = -1, remove = -1; };
typedef std::map<int, Ent> Scen;

struct TypesHolder { Types types; TypesHolder(Module &M) : types(M) {} };
struct Args : TypesHolder, Chain {
  Module &M; Slots S;
  Args(Module &M) : TypesHolder(M), Chain(types), M(M), S(M, T) {}
  Function *F = nullptr; Scen sc; int libParam = -1, libElem = -1;
  template <class X> static const X *pick(const std::vector<X> &v, bool known, int64_t i) {
    if (known) return i >= 0 && (size_t)i < v.size() ? &v[i] : nullptr;
    return v.size() == 1 ? &v[0] : nullptr;
  }
  const Val *valueOf(const Value *V) { // V: ap_abstract0_t* or its ->value / ->man
    int root; std::vector<Step> r; const Value *W = thru(V);
    bool known = true; int64_t i = 0;
    if (auto *A = dyn_cast<Argument>(W)) { root = A->getArgNo(); }
    else { auto *L = dyn_cast<LoadInst>(W); if (!L) return nullptr; if (!steps(L->getPointerOperand(), root, r)) return nullptr; outer(r, r.size(), known, i); }
    auto it = sc.find(root); if (it == sc.end() || it->second.vals.empty()) return nullptr;
    return pick(it->second.vals, known, i);
  }
  Cond::Val unknown() { return Cond::Val(); }
  Cond::Val leaf(const Value *V) {
    if (isa<LoadInst>(V)) { auto *W = thru(V); if (W != V) return C.eval(W); }
    if (auto *A = dyn_cast<Argument>(V)) {
      auto it = sc.find(A->getArgNo()); if (it == sc.end()) return unknown();
      if (!A->getType()->isPointerTy()) { if (it->second.hasInts && it->second.ints.size() == 1) return Cond::known(it->second.ints[0]); return unknown(); }
      return Cond::known(1); // a pointer the client gives
    }
    if (auto *X = dyn_cast<ExtractValueInst>(V)) {
      auto *CB = dyn_cast<CallBase>(X->getAggregateOperand()); if (!CB || X->getNumIndices() != 1) return unknown();
      const Value *base; int s = S.calledSlot(CB, base); if (s < 0 || S.op(s) != "DIMENSION") return unknown();
      const Val *v = valueOf(CB->getArgOperand(1)); if (!v) return unknown();
      int64_t n = X->getIndices()[0] == 0 ? v->id : v->rd; return n < 0 ? unknown() : Cond::known(n);
    }
    if (auto *CB = dyn_cast<CallBase>(V)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
      if (fnName(*G) == "ap_texpr0_max_dim") {
        int root; std::vector<Step> r; bool known = true; int64_t i = 0; const Value *W = thru(CB->getArgOperand(0));
        if (auto *A = dyn_cast<Argument>(W)) root = A->getArgNo();
        else { auto *L = dyn_cast<LoadInst>(W); if (!L || !steps(L->getPointerOperand(), root, r)) return unknown(); outer(r, r.size(), known, i); }
        auto it = sc.find(root); if (it == sc.end() || !it->second.hasExprs) return unknown();
        auto *e = pick(it->second.exprs, known, i); return e ? Cond::known(e->maxdim) : unknown();
      }
      return unknown();
    }
    if (auto *I = dyn_cast<ICmpInst>(V)) { // the library of the manager and of a value
      if (!I->isEquality()) return unknown();
      const LoadInst *L[2]; int who[2] = {-1, -1}; const Val *vs[2] = {nullptr, nullptr};
      for (int k = 0; k < 2; k++) {
        L[k] = dyn_cast<LoadInst>(I->getOperand(k)->stripPointerCasts()); if (!L[k]) return ptrCmp(I);
        int root; std::vector<Step> r; if (!steps(L[k]->getPointerOperand(), root, r)) return ptrCmp(I);
        if (r.back().field != "ap_manager_t.library") return ptrCmp(I);
        if (r.size() == 1) who[k] = 0; else { who[k] = 1; bool kn; int64_t i; outer(r, r.size() - 1, kn, i); auto it = sc.find(root); if (it != sc.end()) vs[k] = pick(it->second.vals, kn, i); }
      }
      const Val *v = who[0] == 0 ? vs[1] : who[1] == 0 ? vs[0] : nullptr; 
      if (!v || v->lib < 0) return unknown();
      return Cond::known((v->lib == 1) == (I->getPredicate() == CmpInst::ICMP_EQ));
    }
    if (auto *L = dyn_cast<LoadInst>(V)) {
      int root; std::vector<Step> r; if (!steps(L->getPointerOperand(), root, r)) return unknown();
      auto it = sc.find(root); if (it == sc.end()) return unknown(); const Ent &e = it->second; const std::string &f = r.back().field; StringRef fr(f);
      bool kn; int64_t i;
      if (fr.ends_with("_array_t.size") && e.hasExprs) return Cond::known(e.exprs.size());
      if (e.hasExprs) {
        bool term = r.size() > 1 && startsWith(r[r.size() - 2].field, "ap_linexpr0_t.p") && r.back().sub == 0 && L->getType()->isIntegerTy(32);
        if (term) { outer(r, r.size() - 1, kn, i); auto *x = pick(e.exprs, kn, i); if (!x) return unknown(); auto *d = pick(x->dims, r.back().known, r.back().idx); return d ? Cond::known(*d) : unknown(); }
        outer(r, r.size(), kn, i); auto *x = pick(e.exprs, kn, i); if (!x) return unknown();
        if (f == "ap_linexpr0_t.discr") return x->null ? unknown() : Cond::known(x->discr);
        if (f == "ap_linexpr0_t.size") return Cond::known(x->size);
        if (L->getType()->isPointerTy() && (fr.ends_with(".linexpr0") || fr.ends_with(".texpr0") || (f.empty() && r.size() == 1))) return Cond::known(x->null ? 0 : 1);
        return unknown();
      }
      if (f == "ap_dimchange_t.intdim") return e.intdim < 0 ? unknown() : Cond::known(e.intdim);
      if (f == "ap_dimchange_t.realdim") return e.realdim < 0 ? unknown() : Cond::known(e.realdim);
      if (f == "ap_dimchange2_t.add") return e.add < 0 ? unknown() : Cond::known(e.add);
      if (f == "ap_dimchange2_t.remove") return e.remove < 0 ? unknown() : Cond::known(e.remove);
      if (f == "ap_dimperm_t.size") return e.psize < 0 ? unknown() : Cond::known(e.psize);
      if (e.hasInts && !L->getType()->isPointerTy()) { auto *x = pick(e.ints, r.back().known, r.back().idx); return x ? Cond::known(*x) : unknown(); }
      if (L->getType()->isPointerTy() && r.size() == 1 && e.hasInts) return Cond::known(1);
    }
    return unknown();
  }
  Cond::Val ptrCmp(const ICmpInst *I) { // two values given by the client are different objects in the scenarios
    int root[2] = {-1, -1}; std::vector<Step> r[2];
    for (int k = 0; k < 2; k++) { const Value *W = thru(I->getOperand(k)); if (auto *A = dyn_cast<Argument>(W)) root[k] = A->getArgNo(); else if (auto *L = dyn_cast<LoadInst>(W)) { if (!steps(L->getPointerOperand(), root[k], r[k])) return unknown(); } else return unknown(); }
    if (root[0] == root[1] || r[0].size() != r[1].size()) return unknown();
    for (int k = 0; k < 2; k++) { auto it = sc.find(root[k]); if (it == sc.end() || it->second.vals.empty()) return unknown(); }
    return Cond::known(I->getPredicate() != CmpInst::ICMP_EQ);
  }
  // calls through the client's manager on a client's value
  std::vector<const CallBase *> dispatches(std::set<int> &slots) {
    std::vector<const CallBase *> r;
    for (Instruction &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      const Value *base; int s = S.calledSlot(CB, base); if (s < 0) continue;
      auto *A = dyn_cast<Argument>(base->stripPointerCasts()); if (!A || A->getArgNo() != (unsigned)manArg) continue;
      if (S.op(s) == "TOP" || S.op(s) == "BOTTOM" || S.op(s) == "FREE" && fnName(*F) != "ap_abstract0_free") continue;
      slots.insert(s); r.push_back(CB);
    }
    return r;
  }
  bool clients(const CallBase *d) { for (unsigned i = 1; i < d->arg_size(); i++) if (d->getArgOperand(i)->getType()->isPointerTy()) return mayBeClient(d->getArgOperand(i)); return true; }
  // no element outside an array the client gave is looked at
  void overreads(const std::string &name, const std::string &fn) {
    for (Instruction &I : instructions(*F)) if (auto *L = dyn_cast<LoadInst>(&I)) {
      if (!C.reach.count(L->getParent())) continue;
      int root; std::vector<Step> r; if (!steps(L->getPointerOperand(), root, r)) continue;
      auto it = sc.find(root); if (it == sc.end()) continue; const Ent &e = it->second; int64_t n = -1, i = 0; bool kn = true;
      auto last = [&] { kn = r.back().known; i = r.back().idx; };
      if (e.hasInts && L->getType()->isIntegerTy(32) && !F->getArg(root)->getType()->isIntegerTy()) { last(); n = e.ints.size(); }
      else if (e.isArray && !e.vals.empty() && r.size() == 1 && L->getType()->isPointerTy()) { last(); n = e.vals.size(); }
      else if (e.hasExprs) {
        bool term = r.size() > 1 && startsWith(r[r.size() - 2].field, "ap_linexpr0_t.p") && r.back().sub == 0 && L->getType()->isIntegerTy(32);
        if (term) { outer(r, r.size() - 1, kn, i); auto *x = pick(e.exprs, kn, i); if (!x || x->null) continue; last(); n = x->dims.size(); }
        else if (e.isArray && (r.size() == (sizeOfArg.count(root) ? 1u : 2u)) && L->getType()->isPointerTy() && !StringRef(r.back().field).ends_with("_array_t.p")) { last(); n = e.exprs.size(); }
      }
      if (n < 0 || !kn) continue;
      bool ok = i >= 0 && i < n; std::string pn = variableOf(F->getArg(root)) ? variableOf(F->getArg(root))->getName().str() : std::to_string(root);
      if (!ok) { emitObligation("element-in-array", fn, name, false); emitFinding("element-in-array", fn, L->getDebugLoc(), pn, fn + ": looks at element " + std::to_string(i) + " of " + std::to_string(n) + " of " + pn + " (" + name + ")"); return; }
    }
    emitObligation("element-in-array", fn, name, true);
  }
  std::set<int> sizeOfArg;
  int manArg = 0;
  // may V come from an argument of the client (rather than from an object the operation has built)?
  bool mayBeClient(const Value *V, int d = 0) {
    int64_t off; V = stripOffset(V->stripPointerCasts(), T.DL, off); V = thru(V);
    if (d > 12) return true;
    if (auto *L = dyn_cast<LoadInst>(V)) return mayBeClient(L->getPointerOperand(), d + 1);
    if (auto *G = dyn_cast<GEPOperator>(V)) return mayBeClient(G->getPointerOperand(), d + 1);
    if (auto *P = dyn_cast<PHINode>(V)) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (P->getIncomingValue(i) != P && C.edges.count({P->getIncomingBlock(i), P->getParent()}) && mayBeClient(P->getIncomingValue(i), d + 1)) return true; return false; }
    if (auto *X = dyn_cast<SelectInst>(V)) return mayBeClient(X->getTrueValue(), d + 1) || mayBeClient(X->getFalseValue(), d + 1);
    if (auto *CB = dyn_cast<CallBase>(V)) return d == 0 && CB->getCalledFunction() != nullptr; // a buffer built here holds the client's values
    return true;
  }
  void run(const std::string &name, const Scen &scen, const std::vector<const CallBase *> &ds, const std::set<int> &own, bool fits, const std::string &fn) {
    sc = scen; C = Cond(); C.leaf = [this](const Value *V) { return leaf(V); };
    C.explore(&F->getEntryBlock());
    bool reached = false; const CallBase *at = nullptr;
    for (auto *d : ds) if (C.reach.count(d->getParent()) && clients(d)) { reached = true; at = d; break; }
    tally("scenarios");
    overreads(name, fn);
    if (fits) { emitObligation("fitting-reaches-domain", fn, name, reached); if (!reached) emitFindingAt("fitting-reaches-domain", fn, F->getSubprogram()->getFilename().str(), F->getSubprogram()->getLine(), name, fn + ": the domain's operation is not called even when the arguments fit (" + name + ")"); return; }
    emitObligation("unfit-argument-stopped", fn, name, !reached);
    if (reached) { emitFinding("unfit-argument-stopped", fn, at->getDebugLoc(), name, fn + ": the domain's operation can be called although " + name); return; }
    auto raises = [&](const BasicBlock *B) { for (auto &I : *B) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (fnName(*G) == "ap_manager_raise_exception" && CB->arg_size() >= 3) { auto e = C.eval(CB->getArgOperand(1)), f = C.eval(CB->getArgOperand(2)); if (e.k && e.v == excInvalid && f.k && own.count(f.v)) return true; } return false; };
    Cond C2; C2.leaf = C.leaf; bool ok = !raises(&F->getEntryBlock()) ? true : true; const Instruction *bad = nullptr;
    // same feasible edges, cut at raising blocks
    std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w{&F->getEntryBlock()};
    while (!w.empty()) { auto *B = w.back(); w.pop_back(); if (!seen.insert(B).second) continue; if (raises(B)) continue; if (isa<ReturnInst>(B->getTerminator())) { ok = false; bad = B->getTerminator(); } for (auto *N : successors(B)) if (C.edges.count({B, N})) w.push_back(N); }
    emitObligation("unfit-argument-raised", fn, name, ok);
    if (!ok) emitFinding("unfit-argument-raised", fn, bad->getDebugLoc(), name, fn + ": returns without raising its invalid-argument exception although " + name);
  }
  int64_t excInvalid = -1; int64_t DENSE = 0, SPARSE = 1;

  Expr dense(int64_t n) { Expr e; e.discr = DENSE; e.size = n; e.maxdim = n; return e; }
  Expr sparse(std::vector<int64_t> d) { Expr e; e.discr = SPARSE; e.size = d.size(); e.dims = d; e.maxdim = 0; for (auto x : d) if (x != -1) e.maxdim = std::max(e.maxdim, x + 1); return e; }
  void function(Function &G, std::string fn) {
    F = &G; auto sig = signatureOf(G);
    if (sig.size() != G.arg_size() + 1) return;
    std::vector<std::string> ty; for (unsigned i = 1; i < sig.size(); i++) ty.push_back(typeName(sig[i]));
    manArg = -1; for (unsigned i = 0; i < ty.size(); i++) { if (ty[i] == "ap_manager_t*" && manArg < 0) manArg = i; }
    if (manArg < 0) return;
    std::set<int> own; auto ds = dispatches(own); if (ds.empty()) return;
    // the fitting arguments: values with one integer and one real dimension
    Scen base; std::vector<int> valueArgs; bool twice = false; 
    auto lastSize = [&](unsigned i) { for (unsigned k = i + 1; k < ty.size(); k++) if (G.getArg(k)->getType()->isIntegerTy(64) && variableOf(G.getArg(k)) && StringRef(variableOf(G.getArg(k))->getName()).contains("size")) return (int)k; return -1; };
    Val v; v.id = 1; v.rd = 1; v.lib = 1; bool fold = false; for (int s : own) if (S.op(s) == "FOLD") fold = true;
    std::map<int, int> sizeOf; std::set<int> counts;
    for (unsigned i = 0; i < ty.size(); i++) {
      Ent e; auto &t = ty[i]; auto *dv = variableOf(G.getArg(i)); std::string vn = dv ? dv->getName().str() : "";
      if (t == "ap_abstract0_t*") { e.vals = {v}; valueArgs.push_back(i); }
      else if (t == "ap_abstract0_t**") { e.vals = {v, v}; e.isArray = true; valueArgs.push_back(i); sizeOf[i] = lastSize(i); }
      else if (t == "ap_linexpr0_t*" || t == "ap_lincons0_t*") { e.hasExprs = true; e.exprs = {dense(2)}; }
      else if (t == "ap_texpr0_t*" || t == "ap_tcons0_t*") { e.hasExprs = true; e.exprs = {dense(2)}; }
      else if (t == "ap_linexpr0_t**" || t == "ap_texpr0_t**") { e.hasExprs = true; e.exprs = {dense(2), dense(2)}; e.isArray = true; sizeOf[i] = lastSize(i); }
      else if (t == "ap_lincons0_array_t*" || t == "ap_tcons0_array_t*" || t == "ap_generator0_array_t*") { e.hasExprs = true; e.exprs = {dense(2), dense(2)}; e.isArray = true; }
      else if (t == "ap_dimchange_t*") { e.intdim = 1; e.realdim = 0; e.hasInts = true; e.ints = {0}; }
      else if (t == "ap_dimchange2_t*") { e.add = e.remove = 1; e.intdim = 1; e.realdim = 0; e.hasInts = true; e.ints = {0}; }
      else if (t == "ap_dimperm_t*") { e.psize = 2; e.hasInts = true; e.ints = {1, 0}; }
      else if (sig[i + 1] && isDim(sig[i + 1])) { e.hasInts = true; e.ints = {1}; }
      else if (sig[i + 1] && isDimPtr(sig[i + 1])) { e.hasInts = true; e.isArray = true; e.ints = fold ? std::vector<int64_t>{1, 2} : std::vector<int64_t>{0, 1}; sizeOf[i] = lastSize(i); }
      else if (vn == "n" && G.getArg(i)->getType()->isIntegerTy(64)) { e.hasInts = true; e.ints = {2}; counts.insert(i); } // the number of copies
      else continue;
      base[i] = e;
    }
    if (valueArgs.empty()) return;
    if (fold) for (int a : valueArgs) for (auto &x : base[a].vals) x.rd = 2;
    auto setSizes = [&](Scen &s, int64_t n) { for (auto &p : sizeOf) if (p.second >= 0) { Ent e; e.hasInts = true; e.ints = {n}; s[p.second] = e; } };
    if (!sizeOf.empty()) setSizes(base, 2);
    sizeOfArg.clear(); for (auto &p : sizeOf) sizeOfArg.insert(p.first);
    tally("operations");
    auto pn = [&](int i) { auto *dv = variableOf(G.getArg(i)); return dv ? dv->getName().str() : "argument " + std::to_string(i); };
    // an optional value (the destination of an assignment) may be absent
    run("all arguments fit", base, ds, own, true, fn);
    for (auto &p : base) {
      int a = p.first; const Ent &e = p.second; auto &t = ty[a]; bool tree = t.find("texpr") != std::string::npos || t.find("tcons") != std::string::npos;
      auto good = [&](const std::string &w, const Ent &x) { Scen s = base; s[a] = x; size_t n = x.hasExprs ? x.exprs.size() : x.ints.size(); if (sizeOf.count(a)) resize(s, base, sizeOf, n); run("all arguments fit, " + pn(a) + " " + w, s, ds, own, true, fn); };
      if (e.hasExprs) {
        for (int64_t n = 0; n < 2; n++) { Ent x = e; for (auto &y : x.exprs) y = dense(n); good("mentions " + std::to_string(n) + " dimensions", x); }
        if (!tree) for (auto &d : std::vector<std::vector<int64_t>>{{}, {0}, {1}, {0, 1}, {1, -1}, {-1, -1}}) { Ent x = e; for (auto &y : x.exprs) y = sparse(d); std::string l; for (auto q : d) l += " " + std::to_string(q); good("is sparse over [" + l + " ]", x); }
        if (e.isArray && !sizeOf.count(a)) { Ent x = e; x.exprs.clear(); if (ty[a].find("tcons") == std::string::npos && ty[a].find("lincons") == std::string::npos && ty[a].find("gener") == std::string::npos) {} }
      }
      if (t == "ap_dimchange_t*") {
        bool rem = false; for (int q : own) if (S.op(q) == "REMOVE_DIMENSIONS") rem = true;
        std::vector<std::tuple<int, int, std::vector<int64_t>>> g;
        if (!rem) g = {{1, 0, {1}}, {2, 0, {0, 1}}, {2, 0, {1, 1}}, {0, 1, {2}}, {0, 2, {1, 2}}, {0, 2, {2, 2}}, {1, 1, {1, 1}}, {1, 1, {0, 2}}, {1, 2, {1, 2, 2}}};
        else g = {{0, 1, {1}}, {1, 1, {0, 1}}};
        for (auto &q : g) { Ent x = e; x.intdim = std::get<0>(q); x.realdim = std::get<1>(q); x.ints = std::get<2>(q); std::string l; for (auto z : x.ints) l += " " + std::to_string(z); good("is" + l, x); }
      }
      if (t == "ap_dimperm_t*") { Ent x = e; x.ints = {0, 1}; good("is 0 1", x); }
      if (e.hasInts && !e.isArray && a < (int)ty.size() && isDim(sig[a + 1])) { Ent x = e; x.ints = {0}; good("is 0", x); }
      if (e.hasInts && e.isArray && a < (int)ty.size() && isDimPtr(sig[a + 1])) { Ent x = e; x.ints = {1}; good("is [ 1 ]", x); x.ints = {0}; if (!fold) good("is [ 0 ]", x); }
    }
    // --- another library
    for (int a : valueArgs) for (size_t k = 0; k < base[a].vals.size(); k++) { Scen s = base; s[a].vals[k].lib = 0; run(pn(a) + (base[a].isArray ? "[" + std::to_string(k) + "]" : "") + " was built by another library", s, ds, own, false, fn); }
    // --- other dimensions
    std::vector<std::pair<int, int>> other = {{2, 1}, {1, 2}, {0, 2}, {2, 0}, {0, 0}};
    bool first = true; Scen noexpr = base;
    for (int a : valueArgs) for (size_t k = 0; k < base[a].vals.size(); k++) {
      if (first) { first = false; continue; }
      for (auto &o : other) { Scen s = base; s[a].vals[k].id = o.first; s[a].vals[k].rd = o.second + (fold ? 1 : 0); run(pn(a) + (base[a].isArray ? "[" + std::to_string(k) + "]" : "") + " has " + std::to_string(o.first) + "+" + std::to_string(o.second) + " dimensions instead of 1+1", s, ds, own, false, fn); }
    }
    for (auto &p : base) {
      int a = p.first; const Ent &e = p.second; auto &t = ty[a]; bool tree = t.find("texpr") != std::string::npos || t.find("tcons") != std::string::npos;
      if (counts.count(a)) continue;
      if (!e.vals.empty()) {
        if (e.isArray && sizeOf.count(a)) { Scen s = base; s[a].vals.clear(); for (auto &q : sizeOf) if (q.second >= 0) s[q.second].ints = {0}; run(pn(a) + " is empty", s, ds, own, false, fn); }
        continue;
      }
      if (e.hasExprs) {
        std::vector<std::pair<std::string, Expr>> bad;
        if (tree) { bad.push_back({"mentions dimension 2 of 2", dense(3)}); bad.push_back({"mentions dimension 6 of 2", dense(7)}); }
        else { bad.push_back({"is dense with 3 coefficients for 2 dimensions", dense(3)}); bad.push_back({"is dense with 9 coefficients for 2 dimensions", dense(9)});
          bad.push_back({"has a term of dimension 2 of 2", sparse({2})}); bad.push_back({"has terms of dimensions 0 and 2 of 2", sparse({0, 2})}); bad.push_back({"has a term of dimension 2 of 2 before a free slot", sparse({2, -1})}); bad.push_back({"has a term of dimension 7 of 2", sparse({7})}); }
        for (auto &b : bad) {
          if (!e.isArray) { Scen s = base; s[a].exprs = {b.second}; run(pn(a) + " " + b.first, s, ds, own, false, fn); continue; }
          for (int pos = 0; pos < 3; pos++) { Scen s = base; std::vector<Expr> x = pos == 0 ? std::vector<Expr>{b.second} : pos == 1 ? std::vector<Expr>{dense(2), b.second} : std::vector<Expr>{b.second, dense(2)}; s[a].exprs = x; bool sh = sizeOf.count(a); if (sh) resize(s, base, sizeOf, x.size());
            run(pn(a) + (pos == 0 ? "[0]" : pos == 1 ? "[1 of 2]" : "[0 of 2]") + " " + b.first, s, ds, own, false, fn); }
        }
        if (e.isArray) for (int pos = 0; pos < 2; pos++) { Scen s = base; Expr nl; nl.null = 1; s[a].exprs = pos ? std::vector<Expr>{dense(2), nl} : std::vector<Expr>{nl}; if (sizeOf.count(a)) resize(s, base, sizeOf, s[a].exprs.size()); run(pn(a) + (pos ? "[1 of 2]" : "[0]") + " is null", s, ds, own, false, fn); }
        { Scen s = base; for (int q : valueArgs) for (auto &x : s[q].vals) { x.id = 0; x.rd = 0; } Expr z = tree ? dense(1) : sparse({0}); bool simple = true; for (auto &q : base) if (q.first != a && q.second.hasInts && q.second.vals.empty() && !counts.count(q.first)) simple = false; if (simple) { s[a].exprs = {z}; if (sizeOf.count(a)) resize(s, base, sizeOf, 1); run(pn(a) + " mentions dimension 0 of a value without dimensions", s, ds, own, false, fn); } }
        continue;
      }
      if (t == "ap_dimchange2_t*") {
        for (int v = 1; v < 3; v++) { Scen s = base; s[a].add = v & 1; s[a].remove = v >> 1; for (int q : valueArgs) { s[q].vals[0].lib = 0; run(pn(q) + " was built by another library, " + (v == 0 ? "nothing to do" : v == 1 ? "dimensions to add" : "dimensions to remove"), s, ds, own, false, fn); } }
        for (int v = 1; v < 4; v++) for (int64_t d : {2, 7}) { Scen s = base; s[a].add = v & 1; s[a].remove = v >> 1; s[a].ints = {d}; run(pn(a) + (v == 1 ? " adds" : v == 2 ? " removes" : " adds and removes") + " an integer dimension at " + std::to_string(d) + " of 1+1", s, ds, own, false, fn); }
        continue;
      }
      if (t == "ap_dimchange_t*") {
        bool rem = false; for (int q : own) if (S.op(q) == "REMOVE_DIMENSIONS") rem = true;
        std::vector<std::tuple<std::string, int, int, std::vector<int64_t>>> b;
        if (!rem) b = {{"adds an integer dimension at 2, past the integer dimensions", 1, 0, {2}}, {"adds a real dimension at 3 of 2", 0, 1, {3}}, {"adds dimensions 1, 0: not sorted", 2, 0, {1, 0}}, {"adds real dimensions 2, 1: not sorted", 0, 2, {2, 1}}, {"adds dimensions 0, 3", 1, 1, {0, 3}}, {"adds dimensions 0, 2, 1: not sorted", 1, 2, {0, 2, 1}}};
        else b = {{"removes dimension 1 as an integer one", 1, 0, {1}}, {"removes dimension 2 of 2", 0, 1, {2}}, {"removes dimension 1 twice", 0, 2, {1, 1}}, {"removes dimension 0 twice", 2, 0, {0, 0}}, {"removes dimensions 0, 2", 1, 1, {0, 2}}};
        for (auto &x : b) { Scen s = base; s[a].intdim = std::get<1>(x); s[a].realdim = std::get<2>(x); s[a].ints = std::get<3>(x); run(pn(a) + " " + std::get<0>(x), s, ds, own, false, fn); }
        continue;
      }
      if (t == "ap_dimperm_t*") {
        for (auto &x : std::vector<std::pair<int, std::vector<int64_t>>>{{1, {0}}, {3, {0, 1, 2}}, {2, {0, 2}}, {2, {2, 0}}, {2, {0, 9}}}) { Scen s = base; s[a].psize = x.first; s[a].ints = x.second; std::string l; for (auto q : x.second) l += " " + std::to_string(q); run(pn(a) + " is" + l + " for 2 dimensions", s, ds, own, false, fn); }
        continue;
      }
      if (e.hasInts && e.isArray) {
        int64_t n = fold ? 3 : 2; std::vector<std::vector<int64_t>> b = {{n}, {1, n}, {n, 1}, {n + 5}, {1, -1}};
        if (fold) { b.push_back({2, 1}); b.push_back({1, 1}); b.push_back({0, 1}); b.push_back({0, 2}); b.push_back({}); }
        for (auto &x : b) { Scen s = base; resize(s, base, sizeOf, x.size()); s[a].ints = x; std::string l; for (auto q : x) l += " " + std::to_string(q); run(pn(a) + " is [" + l + " ] for " + std::to_string(n) + " dimensions", s, ds, own, false, fn); }
        continue;
      }
      if (e.hasInts && a < (int)ty.size() && isDim(sig[a + 1])) for (int64_t d : {2, 3, -1}) { Scen s = base; s[a].ints = {d}; run(pn(a) + " is " + std::to_string(d) + " of 2 dimensions", s, ds, own, false, fn); }
    }
  }
  void resize(Scen &s, const Scen &base, std::map<int, int> &sizeOf, size_t n) {
    for (auto &q : sizeOf) { if (q.second >= 0) s[q.second].ints = {(int64_t)n}; Ent &e = s[q.first]; if (e.hasExprs && e.exprs.size() > n) e.exprs.resize(n); if (e.hasInts && e.ints.size() > n && n) e.ints.resize(n); }
  }
  static std::string raw(const DIType *t) { while (t) { if (!t->getName().empty() && isa<DIDerivedType>(t) && cast<DIDerivedType>(t)->getTag() == dwarf::DW_TAG_typedef) return t->getName().str(); if (auto *D = dyn_cast<DIDerivedType>(t)) { if (D->getTag() == dwarf::DW_TAG_const_type) { t = D->getBaseType(); continue; } } break; } return ""; }
  static bool isDim(const DIType *t) { return raw(t) == "ap_dim_t"; }
  static bool isDimPtr(const DIType *t) { auto *D = dyn_cast<DIDerivedType>(t); return D && D->getTag() == dwarf::DW_TAG_pointer_type && raw(D->getBaseType()) == "ap_dim_t"; }
};
}
int runArgs(std::vector<std::string> args) {
  LLVMContext C; auto M = loadModule(args[0], C); if (!M) return 2;
  promote(*M); Args A(*M);
  for (auto &p : enumerators(*M, "ap_exc_t")) if (p.second == "AP_EXC_INVALID_ARGUMENT") A.excInvalid = p.first;
  for (auto &p : enumerators(*M, "ap_linexpr_discr_t")) { if (p.second == "AP_LINEXPR_DENSE") A.DENSE = p.first; if (p.second == "AP_LINEXPR_SPARSE") A.SPARSE = p.first; }
  if (A.excInvalid < 0) { emitError("ap_exc_t not found"); return 3; }
  std::vector<Function *> fs;
  for (Function &F : *M) if (!F.isDeclaration() && !F.hasLocalLinkage() && startsWith(fnName(F), "ap_abstract0_")) fs.push_back(&F);
  // operations shared by several identifiers are taken apart
  std::vector<std::pair<Function *, std::string>> work;
  auto ids = enumerators(*M, "ap_funid_t");
  for (Function *F : fs) {
    auto sig = signatureOf(*F); int k = -1; bool hasVal = false; std::string n = fnName(*F);
    for (unsigned i = 1; i < sig.size() && i - 1 < F->arg_size(); i++) { std::string t = typeName(sig[i]); if (startsWith(t, "ap_funid_t") && k < 0) k = i - 1; if (startsWith(t, "ap_abstract0_t*")) hasVal = true; }
    if (k < 0) { work.push_back({F, n}); continue; }
    if (!hasVal || StringRef(n).contains("_check")) continue;
    std::string rest = StringRef(n).substr(strlen("ap_abstract0_")).upper(); std::vector<std::string> want;
    if (startsWith(rest, "ASSSUB_")) { want = {"ASSIGN_" + rest.substr(7), "SUBSTITUTE_" + rest.substr(7)}; }
    else if (startsWith(rest, "MEETJOIN")) { want = {"MEET" + rest.substr(8), "JOIN" + rest.substr(8)}; }
    else want = {rest};
    bool any = false;
    for (auto &w : want) for (auto &p : ids) if (p.second == "AP_FUNID_" + w) { any = true; Function *G = specialise(*F, k, p.first); work.push_back({G, n + "(" + w + ")"}); }
    if (!any) emitError("no operation identifier found for " + n);
  }
  for (auto &w : work) inlineInto(*w.first, [&](const Function &G) { std::string n = fnName(G); return n != "ap_manager_raise_exception" && !startsWith(n, "ap_texpr0_") && !startsWith(n, "ap_linexpr0_") && !startsWith(n, "ap_interval_") && n != "ap_manager_free" && G.getInstructionCount() < 400; });
  for (auto &w : work) {
    Function *F = w.first;
    cleanup(*F); peelLoops(*F, 3); cleanup(*F, false); debugDump(*F);
    A.function(*F, w.second);
  }
  return 0;
}
