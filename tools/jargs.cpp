// P15: arguments of the Java natives.  One argument (or one object, integer or array read out of the arguments) is assumed
// null or negative; constants are propagated along feasible edges of the expanded native; no use of it as an object,
// size, index or dimension may be feasible.
#include "apa.h"
#include "cond.h"
#include "jni.h"
namespace {
struct JArgs {
  Module &M; Types T; Jni J; Cond C; Function *F = nullptr;
  const Value *nul = nullptr; const Value *neg = nullptr; bool negLoads = false; int only = -1; // one element of the array (of two) is negative
  JArgs(Module &M) : M(M), T(M), J(T) {}
  // the buffer elements of a Java array come from
  const CallBase *bufferOf(const Value *P) { int64_t o; for (int i = 0; i < 8; i++) { P = stripOffset(P, T.DL, o); if (auto *G = dyn_cast<GEPOperator>(P)) { P = G->getPointerOperand(); continue; } break; } auto *CB = dyn_cast<CallBase>(P); return CB && StringRef(J.slot(CB)).ends_with("ArrayElements") && J.slot(CB)[0] == 'G' ? CB : nullptr; }
  // which element P addresses, -1 when unknown
  int64_t indexOf(const Value *P) {
    int64_t r = 0; P = P->stripPointerCasts();
    while (auto *G = dyn_cast<GEPOperator>(P)) { if (G->getNumIndices() != 1) return -1; auto v = C.eval(G->idx_begin()->get()); if (!v.k) return -1; r += v.v * (int64_t)(T.DL.getTypeAllocSize(G->getSourceElementType()) / 4); P = G->getPointerOperand()->stripPointerCasts(); }
    return r;
  }
  Cond::Val leaf(const Value *V) {
    Cond::Val u;
    if (V == nul) return Cond::known(0);
    if (V == neg) return Cond::known(-1);
    if (auto *L = dyn_cast<LoadInst>(V)) { if (neg && negLoads && L->getType()->isIntegerTy() && bufferOf(L->getPointerOperand()) == neg) { if (only < 0) return Cond::known(-1); int64_t i = indexOf(L->getPointerOperand()); return i < 0 ? u : Cond::known(i == only ? -1 : 0); } return u; }
    if (auto *A = dyn_cast<Argument>(V)) { if (A->getType()->isPointerTy()) return Cond::known(1); return u; }
    if (auto *CB = dyn_cast<CallBase>(V)) {
      std::string s = J.slot(CB);
      if (s == "IsInstanceOf" && isNull(CB->getArgOperand(1))) return Cond::known(1);
      if (s == "GetArrayLength" && negLoads) return Cond::known(only < 0 ? 1 : 2);
    }
    return u;
  }
  bool isNull(const Value *V) { auto v = C.eval(V); return v.k && v.v == 0 && nul && from(V, nul); }
  // V is (or may be, along feasible edges) X
  bool from(const Value *V, const Value *X, int d = 0) {
    if (V == X) return true; if (d > 10) return false;
    if (auto *P = dyn_cast<PHINode>(V)) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (P->getIncomingValue(i) != P && C.edges.count({P->getIncomingBlock(i), P->getParent()}) && from(P->getIncomingValue(i), X, d + 1)) return true; return false; }
    if (auto *S = dyn_cast<SelectInst>(V)) { auto c = C.eval(S->getCondition()); return ((!c.k || c.v) && from(S->getTrueValue(), X, d + 1)) || ((!c.k || !c.v) && from(S->getFalseValue(), X, d + 1)); }
    if (auto *I = dyn_cast<CastInst>(V)) return from(I->getOperand(0), X, d + 1);
    return false;
  }
  // an integer computed from the assumed one
  bool tainted(const Value *V, int d = 0) {
    auto ev = C.eval(V); if (ev.k && ev.v >= 0) return false;
    if (V == neg && !negLoads) return true; if (d > 12) return false;
    if (auto *L = dyn_cast<LoadInst>(V)) return negLoads && bufferOf(L->getPointerOperand()) == neg && (only < 0 || indexOf(L->getPointerOperand()) == only);
    if (auto *P = dyn_cast<PHINode>(V)) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (P->getIncomingValue(i) != P && C.edges.count({P->getIncomingBlock(i), P->getParent()}) && tainted(P->getIncomingValue(i), d + 1)) return true; return false; }
    if (auto *S = dyn_cast<SelectInst>(V)) { auto c = C.eval(S->getCondition()); return ((!c.k || c.v) && tainted(S->getTrueValue(), d + 1)) || ((!c.k || !c.v) && tainted(S->getFalseValue(), d + 1)); }
    if (isa<CastInst>(V)) return tainted(cast<CastInst>(V)->getOperand(0), d + 1);
    if (auto *B = dyn_cast<BinaryOperator>(V)) { auto o = B->getOpcode(); if (o == Instruction::Add || o == Instruction::Sub || o == Instruction::Mul || o == Instruction::Shl) return tainted(B->getOperand(0), d + 1) || tainted(B->getOperand(1), d + 1); if (o == Instruction::And || o == Instruction::Or) { auto v = C.eval(V); return v.k && v.v < 0 && (tainted(B->getOperand(0), d + 1) || tainted(B->getOperand(1), d + 1)); } }
    return false;
  }
  // unsigned, or a signed type of sizes and precisions
  static bool isUnsigned(const DIType *t) { for (auto *D = dyn_cast_or_null<DIDerivedType>(t); D; D = dyn_cast_or_null<DIDerivedType>(D->getBaseType())) if (D->getName().ends_with("prec_t") || D->getName().ends_with("size_t")) return true; t = stripType(t); auto *B = dyn_cast_or_null<DIBasicType>(t); return B && (B->getEncoding() == dwarf::DW_ATE_unsigned) && B->getSizeInBits() >= 32; }
  static const DIType *paramType(const Function *G, unsigned k) { auto *S = G->getSubprogram(); if (!S || !S->getType()) return nullptr; auto A = S->getType()->getTypeArray(); return k + 1 < A.size() ? A[k + 1] : nullptr; }
  const Instruction *nullUse(std::string &how) {
    for (BasicBlock &B : *F) if (C.reach.count(&B)) for (Instruction &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) {
      std::string s = J.slot(CB); if (!s.empty()) { for (unsigned k : Jni::derefs(s)) if (k < CB->arg_size() && isNull(CB->getArgOperand(k))) { how = s; return CB; } continue; }
      if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (!G->isDeclaration()) for (unsigned k = 0; k < CB->arg_size() && k < G->arg_size(); k++) if (CB->getArgOperand(k)->getType()->isPointerTy() && isNull(CB->getArgOperand(k)) && needs(*G, k)) { how = fnName(*G); return CB; }
    }
    return nullptr;
  }
  // does G use its parameter k as an object without checking it
  std::map<std::pair<const Function *, unsigned>, bool> need;
  bool needs(const Function &G, unsigned k) {
    auto key = std::make_pair(&G, k); auto it = need.find(key); if (it != need.end()) return it->second;
    need[key] = false; auto sF = F; auto sn = nul; auto sneg = neg; Cond sC = C;
    F = const_cast<Function *>(&G); nul = G.getArg(k); neg = nullptr; explore(); std::string how; bool r = nullUse(how);
    F = sF; nul = sn; neg = sneg; C = sC;
    return need[key] = r;
  }
  void explore() { Cond N; C = N; C.leaf = [this](const Value *V) { return leaf(V); }; C.explore(&F->getEntryBlock()); }
  const Instruction *negUse(std::string &how) {
    for (BasicBlock &B : *F) if (C.reach.count(&B)) for (Instruction &I : B) {
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        std::string s = J.slot(CB);
        if (!s.empty()) {
          bool len = StringRef(s).starts_with("New") && StringRef(s).ends_with("Array"); 
          if ((len || s == "GetObjectArrayElement" || s == "SetObjectArrayElement") && tainted(CB->getArgOperand(len ? 1 : 2))) { how = s; return CB; }
          continue;
        }
        auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (!G || G->isIntrinsic()) continue;
        for (unsigned k = 0; k < CB->arg_size(); k++) if (CB->getArgOperand(k)->getType()->isIntegerTy() && isUnsigned(paramType(G, k)) && tainted(CB->getArgOperand(k))) { how = fnName(*G); return CB; }
      } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        for (auto it = G->idx_begin(); it != G->idx_end(); ++it) if (!isa<Constant>(it->get()) && tainted(it->get())) { bool used = false; for (auto *U : G->users()) if (auto *X = dyn_cast<Instruction>(U)) if (C.reach.count(X->getParent()) && !isa<ICmpInst>(X)) used = true; if (used) { how = "indexing"; return G; } }
      } else if (auto *S = dyn_cast<StoreInst>(&I)) {
        if (!S->getValueOperand()->getType()->isIntegerTy() || !tainted(S->getValueOperand())) continue;
        const Value *b; std::string n; const DIType *ft = nullptr; int64_t o; auto *B0 = stripOffset(S->getPointerOperand(), T.DL, o); while (auto *G = dyn_cast<GEPOperator>(B0)) B0 = stripOffset(G->getPointerOperand(), T.DL, o);
        if (isa<AllocaInst>(B0)) continue;
        const DIType *pt = T.pointee(S->getPointerOperand()); 
        if (T.fieldOf(S->getPointerOperand(), b, n, &ft)) pt = ft;
        if (pt && !isUnsigned(pt)) continue;
        how = "storing"; return S;
      }
    }
    return nullptr;
  }
  std::string scopeOf(const Instruction *I, const std::string &fn) { if (auto &D = I->getDebugLoc()) if (auto *S = D->getScope()->getSubprogram()) return S->getName().str(); return fn; }
  // what a value read out of the arguments is called: variable it is stored in, or the call
  std::string nameOf(const CallBase *CB) { if (auto *dv = variableOf(CB)) return dv->getName().str(); for (auto *U : CB->users()) if (auto *X = dyn_cast<CastInst>(U)) if (auto *dv = variableOf(X)) return dv->getName().str();
    std::string s = J.slot(CB); auto *a = CB->arg_size() > 2 ? CB->getArgOperand(2) : nullptr; if (a) if (auto *L = dyn_cast<LoadInst>(a)) if (L->getPointerOperand()->hasName()) return L->getPointerOperand()->getName().str(); return s; }
  void native(Function &G, const std::string &fn) {
    F = &G; auto sig = signatureOf(G); tally("natives");
    for (unsigned i = 1; i < G.arg_size(); i++) {
      if (i + 1 >= sig.size()) break; auto *A = G.getArg(i); auto *dv = variableOf(A); std::string pn = dv ? dv->getName().str() : "argument " + std::to_string(i); std::string how;
      if (Jni::isObject(sig[i + 1])) {
        bool used = false; for (auto *U : A->users()) if (!isa<DbgInfoIntrinsic>(U)) used = true;
        if (!used) continue;
        nul = A; neg = nullptr; explore(); auto *I = nullUse(how); emitObligation("null-checked", fn, pn, !I);
        if (I) emitFinding("null-checked", fn, I->getDebugLoc(), pn, fn + ": " + how + " is reached with a null " + pn);
      } else if (A->getType()->isIntegerTy(32)) {
        nul = nullptr; neg = A; explore(); auto *I = negUse(how); emitObligation("negative-checked", fn, pn, !I);
        if (I) emitFinding("negative-checked", fn, I->getDebugLoc(), pn, fn + ": " + how + " is reached with a negative " + pn);
      }
    }
    inner(G, fn);
  }
  void inner(Function &G, const std::string &fn) {
    F = &G;
    std::vector<const CallBase *> src; for (Instruction &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) { std::string s = J.slot(CB); if (s == "GetObjectField" || s == "GetObjectArrayElement" || s == "GetIntField" || s == "GetIntArrayElements") src.push_back(CB); }
    for (auto *CB : src) {
      std::string s = J.slot(CB), how, w = scopeOf(CB, fn), n = nameOf(CB); F = &G;
      if (s == "GetObjectField" || s == "GetObjectArrayElement") { nul = CB; neg = nullptr; explore(); auto *I = nullUse(how); emitObligation("null-component-checked", w, n, !I); if (I) emitFinding("null-component-checked", w, I->getDebugLoc(), n, w + ": " + how + " is reached with a null " + n + " found inside an argument"); }
      else { nul = nullptr; neg = CB; negLoads = s == "GetIntArrayElements"; explore(); auto *I = negUse(how); for (int k = 0; negLoads && !I && k < 2; k++) { only = k; explore(); I = negUse(how); } only = -1; negLoads = false; emitObligation("negative-component-checked", w, n, !I); if (I) emitFinding("negative-component-checked", w, I->getDebugLoc(), n, w + ": " + how + " is reached with a negative " + n + " found inside an argument"); }
      nul = neg = nullptr;
    }
  }
  // every declared native is defined, with the declared types
  void declared() {
    for (Function &G : M) if (startsWith(G.getName(), "apa_native_")) for (Instruction &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
      if (!startsWith(H->getName(), "Java_")) continue; std::string n = H->getName().str(); tally("declared");
      bool def = !H->isDeclaration(); emitObligation("native-defined", n, "defined", def);
      if (!def) { emitFindingAt("native-defined", n, "japron", 0, "defined", n + ": declared native in its Java class, but no C function of that name is defined"); continue; }
      bool ok = H->getFunctionType() == CB->getFunctionType(); emitObligation("native-typed", n, "types", ok);
      if (!ok) emitFindingAt("native-typed", n, H->getSubprogram() ? H->getSubprogram()->getFilename().str() : "", H->getSubprogram() ? H->getSubprogram()->getLine() : 0, "types", n + ": the C function's types differ from the native method's");
    }
    // a function with a short name would be bound to every overload of the method
    std::map<std::string, int> over; for (Function &G : M) if (startsWith(G.getName(), "apa_native_")) for (Instruction &I : instructions(G)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *H = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) { StringRef n = H->getName(); size_t p = n.find("__", 5); if (p != StringRef::npos) over[n.substr(0, p).str()]++; }
    for (auto &p : over) { auto *H = M.getFunction(p.first); bool bad = H && !H->isDeclaration(); emitObligation("native-overloads", p.first, "short name", !bad); if (bad) emitFindingAt("native-overloads", p.first, H->getSubprogram() ? H->getSubprogram()->getFilename().str() : "", H->getSubprogram() ? H->getSubprogram()->getLine() : 0, "short name", p.first + ": the Java machine binds this function to every overload of the method"); }
  }
};
}
int runJargs(std::vector<std::string> args) {
  LLVMContext Cx; auto M = loadModule(args[0], Cx); if (!M) return 2;
  promote(*M); JArgs A(*M);
  A.declared();
  std::vector<std::pair<Function *, std::string>> work, helpers;
  for (Function &F : *M) if (!F.isDeclaration()) { if (startsWith(F.getName(), "Java_")) work.push_back({&F, F.getName().str()}); else if ((startsWith(F.getName(), "japron_") || startsWith(F.getName(), "jgmp_")) && isRecursive(F)) helpers.push_back({&F, F.getName().str()}); }
  auto want = [&](const Function &G) { std::string n = fnName(G); return !startsWith(n, "Java_") && !startsWith(n, "ap_") && n != "jgmp_throw_by_name" && n != "japron_exc" && n != "japron_cache" && n != "jgmp_cache" && !isRecursive(G) && (G.hasLocalLinkage() || startsWith(n, "japron_") || startsWith(n, "jgmp_")) && G.getInstructionCount() < 600; };
  for (auto &w : work) inlineInto(*w.first, want);
  for (auto &w : helpers) inlineInto(*w.first, want);
  for (auto *l : {&work, &helpers}) for (auto &w : *l) { cleanup(*w.first); peelLoops(*w.first, 2); cleanup(*w.first, false); debugDump(*w.first); }
  for (auto &w : work) A.native(*w.first, w.second);
  for (auto &w : helpers) { tally("recursive_helpers"); A.inner(*w.first, w.second); }
  return 0;
}
