// P12: walks of tree expressions visit both operands of a binary node and combine both results.
#include "apa.h"
#include "cond.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <algorithm>
namespace {
const char *OPS[] = {"ADD", "SUB", "MUL", "DIV", "MOD", "POW", "NEG", "CAST", "SQRT"};
struct Tx {
  Module &M; Types T; int64_t kNode = 2;
  int64_t oOp = 0, oType = 4, oDir = 8, oA = 16, oB = 24;
  Tx(Module &M) : M(M), T(M) {
    if (auto *C = T.composite("ap_texpr0_node_t")) for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) { int64_t o = D->getOffsetInBits() / 8; StringRef n = D->getName(); if (n == "op") oOp = o; else if (n == "type") oType = o; else if (n == "dir") oDir = o; else if (n == "exprA") oA = o; else if (n == "exprB") oB = o; }
    for (auto &e : enumerators(M, "ap_texpr_discr_t")) if (e.second == "AP_TEXPR_NODE") kNode = e.first; ops = enumerators(M, "ap_texpr_op_t"); }
  std::map<int64_t, std::string> ops;
  std::map<const Function *, int> scc; std::map<int, std::vector<Function *>> members;
  bool takes(const Function &F, bool node) {
    auto s = signatureOf(F);
    for (unsigned i = 1; i < s.size(); i++) { std::string n = typeName(s[i]); if (n == "ap_texpr0_t*" || n == "const ap_texpr0_t*" || (node && n.find("ap_texpr0_node_t*") != std::string::npos)) return true; }
    return false;
  }
  // strongly connected components of the functions that take expressions
  void build() {
    std::map<Function *, std::set<Function *>> g; std::vector<Function *> fs;
    for (Function &F : M) if (!F.isDeclaration()) { fs.push_back(&F); for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (!G->isDeclaration()) g[&F].insert(G); }
    std::map<Function *, int> idx, low; std::vector<Function *> st; std::set<Function *> on; int n = 0, c = 0;
    std::function<void(Function *)> go = [&](Function *F) {
      idx[F] = low[F] = ++n; st.push_back(F); on.insert(F);
      for (auto *G : g[F]) { if (!idx.count(G)) { go(G); low[F] = std::min(low[F], low[G]); } else if (on.count(G)) low[F] = std::min(low[F], idx[G]); }
      if (low[F] == idx[F]) { c++; std::vector<Function *> m; Function *G; do { G = st.back(); st.pop_back(); on.erase(G); m.push_back(G); } while (G != F); if (m.size() > 1 || g[F].count(F)) { members[c] = m; for (auto *x : m) scc[x] = c; } }
    };
    for (auto *F : fs) if (!idx.count(F)) go(F);
  }
  // symbolic access path of an address-free value
  std::string path(const Value *V, int d = 0) {
    V = V->stripPointerCasts();
    if (auto *A = dyn_cast<Argument>(V)) return "a" + std::to_string(A->getArgNo());
    if (auto *L = dyn_cast<LoadInst>(V)) if (d < 12) { int64_t o; const Value *b = stripOffset(L->getPointerOperand(), T.DL, o); return path(b, d + 1) + "." + std::to_string(o); }
    char s[32]; snprintf(s, 32, "v%p", (const void *)V); return s;
  }
  std::string fieldName(const LoadInst *L) { const Value *b; std::string n; return T.fieldOf(L->getPointerOperand(), b, n) ? n : ""; }
  // operand of a node: (node path, 'A'/'B')
  bool operand(const Value *V, std::string &np, char &c) {
    auto *L = dyn_cast<LoadInst>(V->stripPointerCasts()); if (!L) return false;
    const Value *b; std::string n; if (!T.fieldOf(L->getPointerOperand(), b, n)) return false;
    if (n == "ap_texpr0_node_t.exprA") c = 'A'; else if (n == "ap_texpr0_node_t.exprB") c = 'B'; else return false;
    np = path(b); return true;
  }
  // which arguments a function writes through: least fixpoint over the module
  std::set<std::pair<const Function *, unsigned>> wr;
  void computeWrites() {
    bool ch = true;
    while (ch) {
      ch = false;
      for (Function &F : M) if (!F.isDeclaration()) for (unsigned i = 0; i < F.arg_size(); i++) {
        if (!F.getArg(i)->getType()->isPointerTy() || wr.count({&F, i})) continue;
        std::vector<const Value *> w{F.getArg(i)}; std::set<const Value *> seen; bool r = false;
        while (!w.empty() && !r) {
          auto *V = w.back(); w.pop_back(); if (!seen.insert(V).second) continue;
          for (auto *U : V->users()) {
            if (isa<GetElementPtrInst>(U) || isa<CastInst>(U) || isa<PHINode>(U) || isa<SelectInst>(U)) w.push_back(U);
            else if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == V) r = true; }
            else if (auto *C = dyn_cast<CallBase>(U)) { if (isa<MemIntrinsic>(C)) { if (C->getArgOperand(0) == V) r = true; continue; } auto *G = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()); for (unsigned k = 0; k < C->arg_size(); k++) if (C->getArgOperand(k) == V && G && writes(G, k)) r = true; }
          }
        }
        if (r) { wr.insert({&F, i}); ch = true; }
      }
    }
  }
  bool writes(const Function *F, unsigned i) {
    if (F->isDeclaration()) { StringRef n = F->getName(); return (n.starts_with("__gmp") || n.starts_with("mpfr") || n.starts_with("mem")) && i == 0; }
    return wr.count({F, i});
  }
  void analyse(Function &F, Function &orig);
  std::set<const Function *> walkers;
};
static const Value *rootOf(const Value *V) { for (;;) { V = V->stripPointerCasts(); if (auto *G = dyn_cast<GEPOperator>(V)) V = G->getPointerOperand(); else return V; } }

void Tx::analyse(Function &F, Function &orig) {
  std::string n = fnName(orig); if (n.empty()) n = orig.getName().str();
  auto sig = signatureOf(orig);
  bool tester = F.getReturnType()->isIntegerTy() && F.getReturnType()->getIntegerBitWidth() <= 8;
  bool integer = !tester && F.getReturnType()->isIntegerTy();
  struct Visit { CallBase *CB; unsigned arg; };
  std::vector<Visit> calls; std::set<std::string> nodes; bool tail = false; (void)tail;
  std::map<const PHINode *, bool> loopPhi;
  std::function<void(const Value *, std::function<void(const std::string &, char)>, Cond *, int)> each = [&](const Value *V, std::function<void(const std::string &, char)> f, Cond *C, int d) {
    std::string np; char c; if (operand(V, np, c)) { f(np, c); return; } if (d > 6) return;
    V = V->stripPointerCasts();
    if (auto *P = dyn_cast<PHINode>(V)) for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { if (C && !C->edges.count({P->getIncomingBlock(i), P->getParent()})) continue; if (P->getIncomingValue(i) != P) each(P->getIncomingValue(i), f, C, d + 1); }
    if (auto *S = dyn_cast<SelectInst>(V)) { if (C) { auto v = C->eval(S->getCondition()); if (v.k) { each(v.v ? S->getTrueValue() : S->getFalseValue(), f, C, d + 1); return; } } each(S->getTrueValue(), f, C, d + 1); each(S->getFalseValue(), f, C, d + 1); }
  };
  // blocks where an operand becomes the expression of the next loop round
  std::vector<std::tuple<const PHINode *, const BasicBlock *, std::string, char>> steps;
  for (BasicBlock &B : F) for (PHINode &P : B.phis()) if (P.getType()->isPointerTy()) for (unsigned i = 0; i < P.getNumIncomingValues(); i++) {
    std::string np; char c; if (operand(P.getIncomingValue(i), np, c) && typeName(T.pointee(P.getIncomingValue(i))).find("ap_texpr0_t") == 0) { char s[32]; snprintf(s, 32, "v%p", (const void *)&P); if (np.compare(0, strlen(s), s) == 0) steps.push_back({&P, P.getIncomingBlock(i), np, c}); } }
  for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
    auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (!G || G->isDeclaration() || !takes(*G, false)) continue;
    bool walker = scc.count(G) || G->getName() == orig.getName(); if (!walker) continue;
    for (unsigned i = 0; i < CB->arg_size(); i++) { bool hit = false; each(CB->getArgOperand(i), [&](const std::string &np, char) { nodes.insert(np); hit = true; }, nullptr, 0); if (hit) calls.push_back({CB, i}); }
  }
  for (auto &s : steps) nodes.insert(std::get<2>(s));
  if (nodes.empty()) return;
  walkers.insert(&orig); tally("walkers");
  std::map<std::string, int> once;
  auto fl = [&](const Instruction *I, const std::string &rule, const std::string &key, const std::string &msg) { if (once[rule + key]++) return; std::string f; unsigned l; locOf(I, f, l); emitFindingAt(rule, n, f, l, key, n + ": " + msg); };
  auto *at = calls.empty() ? &*F.getEntryBlock().begin() : (Instruction *)calls[0].CB;
  // the pairs (node path prefix): a1/a2 walks share op
  bool rdOp = false; for (Instruction &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (fieldName(L) == "ap_texpr0_node_t.op") rdOp = true;
  std::set<std::string> producersOut;
  auto isTestCall = [&](const CallBase *CB) { auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (!G || !G->getReturnType()->isIntegerTy()) return false; for (unsigned k = 0; k < CB->arg_size(); k++) if (CB->getArgOperand(k)->getType()->isPointerTy() && writes(G, k)) return false; return G->getReturnType()->getIntegerBitWidth() <= 8; };
  bool anyProducer = false; for (auto &v : calls) if (!isTestCall(v.CB)) anyProducer = true;
  if (anyProducer) tester = false;
  auto isVisit = [&](const CallBase *CB) { for (auto &v : calls) if (v.CB == CB) return true; return false; };
  for (auto &opn : ops) {
    bool binary = false, known = false; std::string on = opn.second; if (on.rfind("AP_TEXPR_", 0) == 0) on = on.substr(9);
    for (int i = 0; i < 9; i++) if (on == OPS[i]) { known = true; binary = i < 6; }
    if (!known) continue;
    tally("node_cases");
    for (auto &np : nodes) {
      // the second tree of a comparison is covered together with the first
      int64_t assume[2] = {-1, -1};
      auto letters = [&](const CallBase *CB, Cond *C) { std::set<char> r; for (auto &v : calls) if (v.CB == CB) each(CB->getArgOperand(v.arg), [&](const std::string &p, char c) { if (p == np) r.insert(c); }, C, 0); return r; };
      Cond C; bool bools = false;
      auto setup = [&](Cond &C, int64_t ra, int64_t rb) {
        C.leaf = [&, ra, rb](const Value *V) -> Cond::Val {
          if (auto *L = dyn_cast<LoadInst>(V)) {
            int64_t o; const Value *b = stripOffset(L->getPointerOperand(), T.DL, o); std::string q = path(b);
            if (nodes.count(q)) {
              if (o == oOp) return Cond::known(opn.first);
              if (o == oType || o == oDir) return Cond::known(0);
              if (o == oA) return Cond::known(1);
              if (o == oB) return Cond::known(binary);
            }
            if (o == 0 && L->getType()->isIntegerTy()) for (auto &x : nodes) if (x.rfind(q + ".", 0) == 0 && x.find('.', q.size() + 1) == std::string::npos) return Cond::known(kNode);
          }
          if (isa<Argument>(V) && V->getType()->isPointerTy()) { std::string p = path(V); for (auto &q : nodes) if (q.rfind(p + ".", 0) == 0) return Cond::known(1); }
          if (auto *CB = dyn_cast<CallBase>(V)) if (isVisit(CB) && V->getType()->isIntegerTy()) {
            if (tester ? true : false) { auto l = letters(CB, nullptr); std::string s(l.begin(), l.end()); if (s == "A") { bools = true; return ra < 0 ? Cond::Val() : Cond::known(ra); } if (s == "B") { if (!binary) return Cond::Val(); bools = true; return rb < 0 ? Cond::Val() : Cond::known(rb); } }
            else if (integer && ra >= 0) { auto l = letters(CB, nullptr); std::string s(l.begin(), l.end()); if (s == "A") return Cond::known(ra); if (s == "B") return Cond::known(rb); }
          }
          if (isa<CallBase>(V) && V->getType()->isPointerTy()) return Cond::known(1); // allocation succeeds
          // other tests of a tester (exactness, equal header fields) succeed
          if (tester) if (auto *CB = dyn_cast<CallBase>(V)) if (CB->getType()->isIntegerTy(1) || CB->getType()->isIntegerTy(8)) if (!isVisit(CB) && CB->getCalledFunction()) return Cond::known(1);
          return {};
        };
      };
      auto result = [&](int64_t a, int64_t b, int64_t scale = 1) -> Cond::Val {
        Cond C; setup(C, a, b); C.explore(&F.getEntryBlock()); (void)scale; Cond::Val r; bool first = true;
        for (auto *B : C.reach) if (auto *R = dyn_cast<ReturnInst>(B->getTerminator())) { if (!R->getReturnValue()) return {}; auto v = C.eval(R->getReturnValue()); if (!v.k) return {}; if (first) { r = v; first = false; } else if (r.v != v.v) return {}; }
        return r;
      };
      std::string key = on + (np.rfind("a0", 0) == 0 || np[0] == 'v' ? "" : "@" + np.substr(0, 2));
      if (np[0] == 'v') key = on;
      if (tester) {
        bool disj = n.find("has_") != std::string::npos;
        auto t11 = result(1, 1), t00 = result(0, 0), t10 = result(1, 0), t01 = result(0, 1);
        if (binary) {
          if (t11.k && t00.k && t11.v == 0 && t00.v == 0) continue; // operator outside the class
          bool ok = disj ? (t11.k && t11.v && t10.k && t10.v && t01.k && t01.v && t00.k && !t00.v) : (t11.k && t11.v && t10.k && !t10.v && t01.k && !t01.v && t00.k && !t00.v);
          emitObligation("results-combined", n, key, ok);
          if (!ok) fl(at, "results-combined", key, std::string("on a ") + on + " node the answer is not the " + (disj ? "disjunction" : "conjunction") + " of the answers for both operands");
          // the operand that keeps the class is the first one
          Cond D; setup(D, -1, -1); D.explore(&F.getEntryBlock()); bool selfA = false, self = false;
          for (auto &v : calls) if (D.reach.count(v.CB->getParent())) if (auto *G = dyn_cast<Function>(v.CB->getCalledOperand()->stripPointerCasts())) if (G == &orig || G->getName() == orig.getName()) { self = true; if (letters(v.CB, &D).count('A')) selfA = true; }
          bool ok2 = selfA || !self; emitObligation("operand-order", n, key, ok2);
          if (!ok2) fl(at, "operand-order", key, std::string("on a ") + on + " node the first operand is never tested with the function itself");
        } else {
          bool ok = !(t11.k && t00.k && t11.v != 0 && t00.v != 0) && !(t00.k && t00.v && !(t11.k && t11.v)); emitObligation("results-combined", n, key, ok);
          if (!ok) fl(at, "results-combined", key, std::string("on a ") + on + " node the answer does not depend on the operand");
        }
        continue;
      }
      setup(C, -1, -1); C.explore(&F.getEntryBlock());
      // visits per block
      std::map<const BasicBlock *, std::set<char>> vis; std::map<char, std::vector<CallBase *>> by; bool mixed = false;
      for (auto &v : calls) if (C.reach.count(v.CB->getParent())) {
        std::set<char> l; each(v.CB->getArgOperand(v.arg), [&](const std::string &p, char c) { if (p == np) l.insert(c); }, &C, 0);
        if (l.size() > 1) mixed = true;
        if (anyProducer && isTestCall(v.CB)) continue;
        for (char c : l) { vis[v.CB->getParent()].insert(c); by[c].push_back(v.CB); }
      }
      (void)mixed;
      // the whole expression is handed to another walker
      for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (C.reach.count(CB->getParent())) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (!G->isDeclaration() && G != &orig && takes(*G, false) && !isTestCall(CB)) for (auto &A : CB->args()) if (A->getType()->isPointerTy()) { std::string q = path(A.get()); if (np.rfind(q + ".", 0) == 0 && np.find('.', q.size() + 1) == std::string::npos) vis[CB->getParent()] = {'A', 'B'};  if (auto *AI = dyn_cast<AllocaInst>(rootOf(A.get()))) for (Instruction &J : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&J)) if (rootOf(S->getPointerOperand()) == AI && S->getValueOperand()->getType()->isPointerTy() && path(S->getValueOperand()) == np) vis[CB->getParent()] = {'A', 'B'}; }
      for (auto &s : steps) if (C.edges.count({std::get<1>(s), std::get<0>(s)->getParent()})) vis[std::get<1>(s)].insert(std::get<3>(s));
      { bool ret = false; for (auto *B : C.reach) if (isa<ReturnInst>(B->getTerminator())) ret = true; if (!ret) continue; } // the operator is refused
      // is there an entry through which this node path is met at all
      std::map<char, bool> ok;
      for (char c : {'A', 'B'}) {
        if (c == 'B' && !binary) continue;
        // greatest fixpoint: every path to a return passes a visit; a branch that depends on the result of a call may skip
        std::map<const BasicBlock *, bool> in; for (auto *B : C.reach) in[B] = true;
        auto dep = [&](const BasicBlock *B) {
          const Value *cond = nullptr; if (auto *Br = dyn_cast<BranchInst>(B->getTerminator())) { if (Br->isConditional()) cond = Br->getCondition(); } else if (auto *Sw = dyn_cast<SwitchInst>(B->getTerminator())) cond = Sw->getCondition();
          if (!cond) return false;
          std::vector<const Value *> w{cond}; std::set<const Value *> s;
          while (!w.empty()) { auto *V = w.back(); w.pop_back(); if (!s.insert(V).second || s.size() > 60) continue; if (auto *CB = dyn_cast<CallBase>(V)) { if (isVisit(CB)) return true; for (auto *A : CB->operand_values()) { const Value *r = rootOf(A); for (auto &kv : by) for (auto *X : kv.second) { if (A == X) return true; if (isa<AllocaInst>(r) || isa<Argument>(r)) for (unsigned k = 0; k < X->arg_size(); k++) if (rootOf(X->getArgOperand(k)) == r && X->getArgOperand(k)->getType()->isPointerTy()) if (auto *G = dyn_cast<Function>(X->getCalledOperand()->stripPointerCasts())) if (writes(G, k) && typeName(T.pointee(X->getArgOperand(k))).find("internal") == std::string::npos) return true; } } continue; } if (auto *I = dyn_cast<Instruction>(V)) { if (isa<LoadInst>(I)) { const Value *r = rootOf(I->getOperand(0)); for (auto &kv : by) for (auto *X : kv.second) { if (r == X) return true; for (auto &A : X->args()) if (isa<AllocaInst>(r) && rootOf(A.get()) == r) return true; } continue; } for (auto &o : I->operands()) w.push_back(o); } }
          return false;
        };
        auto visitsFrom = [&](const BasicBlock *S0) { std::vector<const BasicBlock *> w{S0}; std::set<const BasicBlock *> s{S0}; while (!w.empty()) { auto *B = w.back(); w.pop_back(); if (vis.count(B)) return true; for (auto *S : C.next(B)) if (s.insert(S).second) w.push_back(S); } return false; };
        bool ch = true;
        while (ch) { ch = false; for (auto *B : C.reach) { bool v; if (vis.count(B) && vis[B].count(c)) v = true; else if (isa<ReturnInst>(B->getTerminator())) v = false; else if (isa<UnreachableInst>(B->getTerminator())) v = true; else { bool any = false, all = true; unsigned k = 0; for (auto *S : C.next(B)) { k++; if (in[S]) any = true; else all = false; } if (k && !all && any && dep(B)) { all = true; for (auto *S : C.next(B)) if (!in[S] && visitsFrom(S)) all = false; } v = k == 0 ? true : all; } if (v != in[B]) { in[B] = v; ch = true; } } }
        bool good = in[&F.getEntryBlock()];
        if (!good && anyProducer && F.getReturnType()->isIntegerTy() && F.getReturnType()->getIntegerBitWidth() <= 8) { // refused with a status
          Cond D; setup(D, -1, -1); D.explore(&F.getEntryBlock(), [&](const BasicBlock *B) { return vis.count(B) && vis[B].count(c); }); good = true;
          for (auto *B : D.reach) if (!(vis.count(B) && vis[B].count(c))) if (auto *R = dyn_cast<ReturnInst>(B->getTerminator())) { auto v = D.eval(R->getReturnValue()); if (!v.k || !v.v) good = false; }
        }
        ok[c] = good;
        // tail walks: after a step the loop goes on
        emitObligation("operand-visited", n, key + "." + c, good);
        if (!good) fl(at, "operand-visited", key + "." + c, std::string("on a ") + on + " node the " + (c == 'A' ? "first" : "second") + " operand is not visited on some path");
      }
      // unary node: the operand is not treated twice as two results combined -- fine either way
      if (!binary) continue;
      // comparison of two trees: operands are paired
      for (auto &v : calls) if (C.reach.count(v.CB->getParent())) { std::set<char> l; for (auto &w : calls) if (w.CB == v.CB) each(w.CB->getArgOperand(w.arg), [&](const std::string &, char c) { l.insert(c); }, &C, 0); (void)l; }
      // a status is not forgotten
      bool producerBool = anyProducer && F.getReturnType()->isIntegerTy() && F.getReturnType()->getIntegerBitWidth() <= 8;
      if (producerBool) for (char c : {'A', 'B'}) for (auto *X : by[c]) if (X->getType() == F.getReturnType()) { bool used = !X->use_empty(); emitObligation("results-combined", n, key + ".status." + c, used); if (!used) fl(X, "results-combined", key + ".status." + c, "the status of an operand is forgotten"); }
      // results are used
      for (char c : {'A', 'B'}) for (auto *X : by[c]) {
        auto *G = dyn_cast<Function>(X->getCalledOperand()->stripPointerCasts()); bool used = true, has = false;
        auto consumer = [&](const Instruction *U) { if (!C.reach.count(U->getParent())) return false; if (isa<ReturnInst>(U) || isa<StoreInst>(U)) return true; if (auto *K = dyn_cast<CallBase>(U)) { auto *H = dyn_cast<Function>(K->getCalledOperand()->stripPointerCasts()); if (!H) return true; StringRef hn = H->getName(); if (hn.contains("free") || hn.contains("clear") || hn.contains("Release") || hn.contains("DeleteLocal") || hn.contains("print")) return false; if (isa<DbgInfoIntrinsic>(K) || hn.starts_with("llvm.lifetime")) return false; if (H->getReturnType()->isIntegerTy() && isTestCall(K)) return false; return true; } return false; };
        if (!X->getType()->isVoidTy() && !tester) {
          // value result (not a mere status when there are output arguments)
          bool outs = false; for (unsigned k = 0; k < X->arg_size(); k++) if (G && X->getArgOperand(k)->getType()->isPointerTy() && (isa<AllocaInst>(rootOf(X->getArgOperand(k))) || isa<Argument>(rootOf(X->getArgOperand(k)))) && writes(G, k) && typeName(T.pointee(X->getArgOperand(k))).find("internal") == std::string::npos) outs = true;
          if (!outs) {
            has = true; used = false; std::vector<const Value *> w{X}; std::set<const Value *> s;
            while (!w.empty() && !used) { auto *V = w.back(); w.pop_back(); if (!s.insert(V).second) continue; for (auto *U : V->users()) { auto *I = dyn_cast<Instruction>(U); if (!I) continue; if (integer) { if (isa<ReturnInst>(I) && C.reach.count(I->getParent())) used = true; } else if (consumer(I)) used = true; if (integer && isa<CallBase>(I) && isVisit(cast<CallBase>(I))) used = true; if (isa<PHINode>(I) || isa<CastInst>(I) || isa<SelectInst>(I) || isa<BinaryOperator>(I) || isa<GetElementPtrInst>(I) || isa<FreezeInst>(I)) w.push_back(I); } }
          }
        }
        if (!has) {
          // output arguments: each must be read by something later, or be the function's own output
          std::set<const Value *> outs; for (unsigned k = 0; k < X->arg_size(); k++) if (G && X->getArgOperand(k)->getType()->isPointerTy()) { auto *r = rootOf(X->getArgOperand(k)); if (isa<AllocaInst>(r) && writes(G, k)) outs.insert(r); }
          if (!outs.empty()) {
            has = true; used = false;
            for (auto *r : outs) { std::vector<const Value *> w{r}; std::set<const Value *> s; while (!w.empty() && !used) { auto *V = w.back(); w.pop_back(); if (!s.insert(V).second) continue; for (auto *U : V->users()) { auto *I = dyn_cast<Instruction>(U); if (!I) continue; if (isa<GetElementPtrInst>(I) || isa<CastInst>(I)) w.push_back(I); else if (I != X) { bool nonvisit = !(isa<CallBase>(I) && isVisit(cast<CallBase>(I))); if (auto *K = dyn_cast<CallBase>(I)) { auto *H = dyn_cast<Function>(K->getCalledOperand()->stripPointerCasts()); if (H && (H->getName().contains("_init") || H->getName() == "itv_set_bottom")) nonvisit = false; if (nonvisit && consumer(I)) used = true; } else if (isa<LoadInst>(I) && C.reach.count(I->getParent())) { for (auto *U2 : I->users()) if (isa<StoreInst>(U2) || isa<CallBase>(U2)) used = true; } else if (isa<MemTransferInst>(I)) used = true; } } } }
          }
        }
        if (has) { emitObligation("results-combined", n, key + "." + c, used); if (!used) fl(X, "results-combined", key + "." + c, std::string("on a ") + on + " node the result for the " + (c == 'A' ? "first" : "second") + " operand is not used"); }
      }
      // integers: monotone in both
      bool nested = false; for (auto &v : calls) for (auto &w : calls) for (auto &A : v.CB->args()) if (A.get() == w.CB) nested = true;
      for (auto &v : calls) for (unsigned k = 0; k < v.CB->arg_size(); k++) if (v.CB->getArgOperand(k)->getType()->isPointerTy()) if (auto *G = v.CB->getCalledFunction()) if (writes(G, k)) nested = true;
      if (integer && !nested && n.find("hash") == std::string::npos) { auto x = result(5, 3), y = result(3, 5); if (x.k && y.k) { bool g = x.v >= 5 && y.v >= 5; emitObligation("results-combined", n, key + ".measure", g); if (!g) fl(at, "results-combined", key + ".measure", "the measure of a node is smaller than that of an operand"); } }
      // outputs do not overwrite one another; order of operands for operators that do not commute
      auto outsOf = [&](CallBase *X) { std::set<const Value *> r; auto *G = dyn_cast<Function>(X->getCalledOperand()->stripPointerCasts()); if (X->getType()->isPointerTy()) r.insert(X); for (unsigned k = 0; k < X->arg_size(); k++) if (G && X->getArgOperand(k)->getType()->isPointerTy()) { auto *b = rootOf(X->getArgOperand(k)); if ((isa<AllocaInst>(b) || isa<Argument>(b)) && writes(G, k) && typeName(T.pointee(X->getArgOperand(k))).find("internal") == std::string::npos) { std::string pt = typeName(T.pointee(X->getArgOperand(k))); if (pt.find("texpr") == std::string::npos) r.insert(b); } } return r; };
      for (auto *XA : by['A']) for (auto *XB : by['B']) {
        if (XA == XB) continue;
        auto oa = outsOf(XA), ob = outsOf(XB); std::set<const Value *> common; for (auto *v : oa) if (ob.count(v)) common.insert(v);
        bool print = false; for (auto &A : XA->args()) { std::string pt = typeName(T.pointee(A.get())); if (pt.find("FILE") != std::string::npos || pt.find("stream") != std::string::npos || pt.find("Env") != std::string::npos || pt.find("JNI") != std::string::npos) if (pt.find("FILE") != std::string::npos || pt.find("stream") != std::string::npos) print = true; }
        if (print) { // text order
          DominatorTree DT(F); bool g = !(XB->getParent() == XA->getParent() ? XB->comesBefore(XA) : false); if (XA->getParent() != XB->getParent()) { std::vector<const BasicBlock *> w{XB->getParent()}; std::set<const BasicBlock *> s; while (!w.empty()) { auto *B = w.back(); w.pop_back(); for (auto *S : C.next(B)) if (s.insert(S).second) w.push_back(S); } if (s.count(XA->getParent())) g = false; }
          emitObligation("operand-order", n, key + ".text", g); if (!g) fl(XA, "operand-order", key + ".text", "the second operand is printed before the first"); continue;
        }
        // the same memory receives both results?
        if (!common.empty() && typeName(T.pointee(*common.begin())) != "" ) {
          // only when types say it is a value (not a bitmap or context that accumulates)
          bool value = false; for (auto *v : common) if (isa<AllocaInst>(v)) value = true; for (auto *v : common) if (auto *A = dyn_cast<Argument>(v)) { std::string t = A->getArgNo() + 1 < sig.size() ? typeName(sig[A->getArgNo() + 1]) : ""; if (t.find("itv") != std::string::npos || t.find("linexpr") != std::string::npos || t.find("coeff") != std::string::npos) value = true; }
          if (value) { auto *X1 = XA->getParent() == XB->getParent() && XB->comesBefore(XA) ? XB : XA; bool same = XA->getParent() == XB->getParent(); if (same) { bool read = false; auto *X2 = X1 == XA ? XB : XA; for (auto it = X1->getIterator(); &*it != X2; ++it) if (&*it != X1) if (auto *K = dyn_cast<CallBase>(&*it)) for (auto &A : K->args()) if (common.count(rootOf(A.get()))) read = true; emitObligation("results-combined", n, key + ".both", read); if (!read) fl(X2, "results-combined", key + ".both", "the results for the two operands are put in the same place"); } }
        }
        bool commut = on == "ADD" || on == "MUL";
        for (Instruction &I : instructions(F)) if (auto *K = dyn_cast<CallBase>(&I)) if (C.reach.count(K->getParent()) && K != XA && K != XB && !isVisit(K)) {
          auto *H = dyn_cast<Function>(K->getCalledOperand()->stripPointerCasts()); if (H && (isTestCall(K) || H->getName().starts_with("llvm."))) continue;
          bool construct = H && H->getName().starts_with("ap_texpr0"); bool jni = !H;
          if (commut && !construct && !jni) continue;
          if (H && !construct && H->getReturnType()->isIntegerTy() && H->getReturnType()->getIntegerBitWidth() < 32) continue;
          int pa = -1, pb = -1; for (unsigned k = 0; k < K->arg_size(); k++) { auto *r = rootOf(K->getArgOperand(k)); if (!construct && !jni && isa<Argument>(r) && false) continue; if (oa.count(r) && !common.count(r)) pa = k; if (ob.count(r) && !common.count(r)) pb = k; }
          if (pa < 0 || pb < 0) continue;
          bool g = pa < pb; emitObligation("operand-order", n, key + "." + std::to_string(K->arg_size()), g);
          if (!g) fl(K, "operand-order", key, std::string("on a ") + on + " node the results for the two operands are given in the wrong order to " + (H ? H->getName().str() : std::string("a callback")));
        }
        // stores of the results: each in the field of its operand
        for (auto &pr : {std::make_pair(XA, 'A'), std::make_pair(XB, 'B')}) if (pr.first->getType()->isPointerTy()) for (auto *U : pr.first->users()) if (auto *S = dyn_cast<StoreInst>(U)) if (S->getValueOperand() == pr.first) { const Value *b; std::string fn; if (T.fieldOf(S->getPointerOperand(), b, fn) && (fn == "ap_texpr0_node_t.exprA" || fn == "ap_texpr0_node_t.exprB")) { bool g = fn.back() == pr.second; emitObligation("operand-order", n, std::string("store.") + pr.second, g); if (!g) fl(S, "operand-order", std::string("store.") + pr.second, "the result for one operand is stored as the other operand"); } }
      }
      (void)assume; (void)bools;
    }
    // comparisons: operands of the two trees are paired
    for (auto &v : calls) { std::set<char> l; std::set<std::string> ps; unsigned k = 0; for (auto &w : calls) if (w.CB == v.CB) { k++; std::string np; char c; if (operand(w.CB->getArgOperand(w.arg), np, c)) { l.insert(c); ps.insert(np); } } if (k > 1) { bool g = l.size() == 1 && ps.size() == k; emitObligation("operand-pairs", n, "pair", g); if (!g) fl(v.CB, "operand-pairs", "pair", "two trees are compared on operands that do not correspond"); } }
  }
}
} // namespace

int runTexpr(std::vector<std::string> args) {
  LLVMContext Ctx; auto M = loadModule(args[0], Ctx); if (!M) return 3;
  promote(*M); Tx X(*M); X.build(); X.computeWrites(); if (X.ops.empty()) { emitError("ap_texpr_op_t not found"); return 3; }
  std::set<std::string> expected(args.begin() + 1, args.end());
  std::map<const Function *, std::vector<Function *>> res;
  // representatives of each recursive group
  std::vector<Function *> reps; std::set<Function *> isRep;
  for (auto &kv : X.members) {
    std::vector<Function *> ext, all;
    for (auto *F : kv.second) if (X.takes(*F, false)) {
      all.push_back(F); bool e = !F->hasLocalLinkage();
      for (auto *U : F->users()) { auto *CB = dyn_cast<CallBase>(U); if (!CB || !X.scc.count(CB->getFunction()) || X.scc[CB->getFunction()] != kv.first) e = true; }
      if (e) ext.push_back(F);
    }
    for (auto *F : ext.empty() ? all : ext) { reps.push_back(F); isRep.insert(F); }
  }
  for (auto *R : reps) {
    ValueToValueMapTy VM; Function *F = CloneFunction(R, VM); F->setName(R->getName() + ".w");
    for (int round = 0; round < 6; round++) {
      std::vector<CallBase *> cs;
      for (Instruction &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (Function *G = CB->getCalledFunction()) {
        if (G->isDeclaration() || G == R || G == F || isRep.count(G)) continue;
        bool mate = X.scc.count(G) && X.scc[G] == X.scc[R];
        bool ints = G->getInstructionCount() < 40; for (auto &A : G->args()) if (!A.getType()->isIntegerTy()) ints = false;
        if (ints) { cs.push_back(CB); continue; }
        if (mate || (!X.scc.count(G) && X.takes(*G, true)) || (G->hasLocalLinkage() && !X.scc.count(G) && G->getInstructionCount() < 80 && !G->getName().starts_with("itv_") && !G->getName().starts_with("ap_"))) if (CB->getFunctionType() == G->getFunctionType()) cs.push_back(CB);
      }
      if (cs.empty()) break;
      for (auto *CB : cs) { InlineFunctionInfo IFI; InlineFunction(*CB, IFI); }
    }
    cleanup(*F, false); debugDump(*F);
    X.analyse(*F, *R);
  }
  // the interface functions that must descend
  for (Function &F : *M) {
    std::string n = F.getName().str(); if (F.isDeclaration() || !expected.count(n)) continue;
    bool ok = X.walkers.count(&F); 
    if (!ok) { bool any = false, all = true; for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = CB->getCalledFunction()) if (!G->isDeclaration() && X.takes(*G, true)) { any = true; std::function<bool(Function *, int)> w = [&](Function *H, int d) { if (X.walkers.count(H)) return true; if (X.scc.count(H)) { for (auto *m : X.members[X.scc[H]]) if (X.walkers.count(m)) return true; } if (d > 3) return false; for (Instruction &J : instructions(*H)) if (auto *C2 = dyn_cast<CallBase>(&J)) if (auto *K = C2->getCalledFunction()) if (!K->isDeclaration() && X.takes(*K, true) && w(K, d + 1)) return true; return false; }; if (!w(G, 0)) all = false; } ok = any && all; }
    tally("interface_walks");
    emitObligation("descends", n, "descends", ok);
    if (!ok) { auto *SP = F.getSubprogram(); emitFindingAt("descends", n, SP ? SP->getFilename().str() : "", SP ? SP->getLine() : 0, "descends", n + ": does not descend into the operands of a node"); }
  }
  return 0;
}
