// P08: no library function writes to a global or static variable, nor calls a routine that
// works on hidden process-wide state.
#include "apa.h"
namespace {
// libc / library routines with hidden shared mutable state
const std::set<std::string> SHARED = {"strtok", "rand", "srand", "random", "srandom", "drand48", "lrand48", "srand48", "setlocale", "localtime", "gmtime", "asctime", "ctime",
  "tmpnam", "getenv", "setenv", "putenv", "strerror", "mpfr_set_default_prec", "mpfr_set_default_rounding_mode", "mpfr_set_emin", "mpfr_set_emax",
  "__gmp_set_memory_functions", "signal", "atexit", "qsort_r_static", "__gmp_randinit", "gmp_randseed_ui", "mpf_set_default_prec", "__gmpf_set_default_prec"};
struct Mod {
  Module &M;
  std::map<std::pair<const Function *, unsigned>, int> memo; // 1 = may write/escape, 0 = no, 2 in progress
  Mod(Module &M) : M(M) {}
  // library calls: does argument i stay unwritten and uncaptured?
  static bool externalReads(const Function &F, unsigned i) {
    StringRef n = F.getName();
    if (F.isIntrinsic()) {
      if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) return i != 0;
      if (n.starts_with("llvm.memset")) return false;
      return true; // dbg, lifetime...
    }
    if (i < F.arg_size()) {
      const Argument *A = F.getArg(i);
      if (A->onlyReadsMemory()) return true;
    }
    if (auto *S = F.getSubprogram()) (void)S;
    static const std::set<std::string> readAll = {"printf", "puts", "strlen", "strcmp", "strncmp", "memcmp", "strdup", "strndup", "strchr", "perror", "__assert_fail", "abort", "exit", "fputs", "fwrite",
      "__cxa_throw", "__cxa_atexit"};
    if (readAll.count(n.str())) return true;
    static const std::map<std::string, int> dst = {{"fprintf", -1}, {"snprintf", 0}, {"sprintf", 0}, {"strcpy", 0}, {"strcat", 0}, {"strncpy", 0}, {"memcpy", 0}, {"fputc", -1}};
    auto it = dst.find(n.str());
    if (it != dst.end()) return (int)i != it->second;
    // GMP / MPFR: the first argument is the destination unless the function is a test, getter or printer
    if (n.starts_with("__gmp") || n.starts_with("mpfr_")) {
      if (n.contains("_cmp") || n.contains("_sgn") || n.contains("_get_") || n.contains("_out_str") || n.contains("_p") || n.contains("sizeinbase")) return !n.contains("_swap");
      if (n.contains("swap")) return false;
      return i != 0;
    }
    return false;
  }
  bool writesParam(const Function *F, unsigned i, std::string &how) {
    if (!F || F->isDeclaration()) { bool r = F && externalReads(*F, i); if (!r) how = F ? "passed to " + F->getName().str() : "passed to an unknown function"; return !r; }
    if (i >= F->arg_size()) { how = "passed as variable argument to " + F->getName().str(); return false; }
    auto k = std::make_pair(F, i);
    auto it = memo.find(k);
    if (it != memo.end()) { if (it->second == 1) how = "passed to " + F->getName().str() + ", which writes it"; return it->second == 1; }
    memo[k] = 2;
    bool r = written(F->getArg(i), how, nullptr);
    memo[k] = r ? 1 : 0;
    if (r) how = "passed to " + F->getName().str() + " (" + how + ")";
    return r;
  }
  // is memory reachable at V itself (not through loads) written, or its address kept?
  bool written(const Value *V, std::string &how, const Instruction **where) {
    std::vector<const Value *> w{V}; std::set<const Value *> seen;
    auto hit = [&](const Instruction *I, const std::string &h) { how = h; if (where) *where = I; return true; };
    while (!w.empty()) {
      const Value *v = w.back(); w.pop_back();
      if (!seen.insert(v).second) continue;
      for (const User *U : v->users()) {
        if (auto *I = dyn_cast<Instruction>(U)) {
          StringRef fn = I->getFunction()->getName(); // initialisation before main is not shared
          if (isa<GlobalVariable>(V) && (fn.starts_with("__cxx_global_var_init") || fn.starts_with("_GLOBAL__"))) continue;
          if (auto *S = dyn_cast<StoreInst>(I)) {
            if (S->getPointerOperand() == v) return hit(S, "written");
            // address stored in a local variable: follow it; anywhere else it escapes
            if (auto *A = dyn_cast<AllocaInst>(S->getPointerOperand()->stripInBoundsOffsets())) { for (const User *AU : A->users()) if (auto *L = dyn_cast<LoadInst>(AU)) w.push_back(L); continue; }
            return hit(S, "its address is stored in memory");
          }
          if (isa<LoadInst>(I) || isa<ICmpInst>(I) || isa<DbgInfoIntrinsic>(I)) continue;
          if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) return hit(I, "atomically modified");
          if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) { w.push_back(I); continue; }
          if (isa<ReturnInst>(I)) { if (isa<Argument>(V)) return hit(I, "returned"); return hit(I, "its address is returned"); }
          if (auto *CB = dyn_cast<CallBase>(I)) {
            if (CB->getCalledOperand() == v) continue;
            for (unsigned i = 0; i < CB->arg_size(); i++)
              if (CB->getArgOperand(i) == v) { std::string h; if (!CB->onlyReadsMemory(i) && writesParam(CB->getCalledFunction(), i, h)) return hit(CB, h); }
            continue;
          }
        } else if (isa<ConstantExpr>(U)) w.push_back(cast<ConstantExpr>(U));
      }
    }
    return false;
  }
};
// does the program end (abort, exit) right after this call, whatever happens?
bool ends(const Instruction *I) {
  const BasicBlock *B = I->getParent();
  std::set<const BasicBlock *> seen;
  while (B && seen.insert(B).second) {
    if (isa<UnreachableInst>(B->getTerminator())) return true;
    B = B->getSingleSuccessor();
  }
  return false;
}
}
int runGlobals(std::vector<std::string> args) {
  LLVMContext Ctx; auto M = loadModule(args[0], Ctx);
  promote(*M);
  Mod K(*M);
  for (GlobalVariable &G : M->globals()) {
    StringRef n = G.getName();
    if (n.starts_with("llvm.") || n.starts_with("_ZT") || n.starts_with("_ZGV") || n.starts_with("__apa_")) continue;
    SmallVector<DIGlobalVariableExpression *, 1> E; G.getDebugInfo(E);
    std::string file; unsigned line = 0;
    if (!E.empty()) { file = E[0]->getVariable()->getFilename().str(); line = E[0]->getVariable()->getLine(); }
    if (StringRef(file).starts_with("/usr/") || E.empty()) { if (!G.isConstant()) tally("foreign_globals"); continue; }
    tally("globals");
    if (G.isConstant()) continue;
    if (G.isDeclaration() && (n == "stdout" || n == "stderr" || n == "stdin")) continue;
    tally("mutable_globals");
    std::string how; const Instruction *where = nullptr;
    bool w = K.written(&G, how, &where);
    // an initialiser may store into a C++ global before main: also shared
    std::string fn = where ? where->getFunction()->getName().str() : "-", id = E[0]->getVariable()->getName().str();
    emitObligation("global-write", id, "never written", !w);
    if (w) { locOf(where, file, line);
      emitFindingAt("global-write", "-", file, line, id, std::string(G.isThreadLocal() ? "thread-local " : "") + "variable " + id + " with static storage is modified: " + how + " (in " + fn + ")"); }
  }
  for (Function &F : *M)
    for (Instruction &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = CB->getCalledFunction()) {
        if (!G->isDeclaration()) continue;
        tally("external_calls");
        if (SHARED.count(G->getName().str()) && !ends(CB)) {
          std::string file; unsigned line; locOf(CB, file, line);
          emitObligation("shared-state", F.getName().str(), G->getName().str(), false);
          emitFindingAt("shared-state", F.getName().str(), file, line, G->getName().str(), "calls " + G->getName().str() + ", which works on state shared by the whole process");
        }
      }
  return 0;
}
