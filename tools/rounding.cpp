// P09: inexact arithmetic on bounds rounds towards plus infinity.
// A forward analysis of the direction in which the contents of every memory cell (access path) may have been
// rounded: U (towards +oo), D (towards -oo: an U result negated, or explicit), N (to nearest / truncated).
// Cells that outlive the function must hold only U (bounds, stored so that enlarging is adding), only D for
// the second result of square root, power and root, and for the lower end of a client interval.
#include "apa.h"
#include "cond.h"
#include <deque>
#include <map>
namespace {
enum { U = 1, D = 2, N = 4 };
typedef std::map<const Instruction *, unsigned> Dir; // origin -> bits
Dir flip(const Dir &d) { Dir r; for (auto &p : d) { unsigned b = p.second & N; if (p.second & U) b |= D; if (p.second & D) b |= U; r[p.first] = b; } return r; }
void join(Dir &a, const Dir &b) { for (auto &p : b) a[p.first] |= p.second; }
unsigned bits(const Dir &d) { unsigned b = 0; for (auto &p : d) b |= p.second; return b; }
typedef std::map<std::string, Dir> State;
bool joinState(State &a, const State &b) { bool ch = false; for (auto &p : b) for (auto &q : p.second) { unsigned &x = a[p.first][q.first]; if ((x | q.second) != x) { x |= q.second; ch = true; } } return ch; }
bool isLib(StringRef n, StringRef p) { return n.starts_with(p); }
std::string bare(const Function &F) { std::string n = fnName(F); size_t p = n.rfind('.'); if (p != std::string::npos && p + 1 < n.size() && n.find_first_not_of("0123456789", p + 1) == std::string::npos) n = n.substr(0, p); return n; }

struct Rounding {
  Module &M; Types T;
  Rounding(Module &M) : M(M), T(M) {}
  std::map<const Value *, std::string> ids; 
  std::string vid(const Value *V) { auto &s = ids[V]; if (s.empty()) s = "v" + std::to_string(ids.size()); return s; }
  std::string path(const Value *V, int d = 0) {
    V = V->stripPointerCasts();
    if (auto *A = dyn_cast<Argument>(V)) return "A" + std::to_string(A->getArgNo());
    if (auto *L = dyn_cast<LoadInst>(V)) if (d < 12) return "(" + paddr(L->getPointerOperand(), d + 1) + ")";
    if (d < 12) {
      if (auto *G = dyn_cast<GEPOperator>(V)) { std::string r = "[" + path(G->getPointerOperand(), d + 1); for (auto &i : G->indices()) r += "," + path(i.get(), d + 1); return r + "]"; }
      if (auto *C = dyn_cast<CastInst>(V)) return path(C->getOperand(0), d + 1);
      if (auto *C = dyn_cast<ConstantInt>(V)) return "#" + std::to_string(C->getSExtValue());
    }
    return vid(V);
  }
  std::map<const Value *, std::string> paddrMemo;
  std::string paddr(const Value *P, int d = 0) { if (d == 0) { auto it = paddrMemo.find(P); if (it != paddrMemo.end()) return it->second; return paddrMemo[P] = paddr1(P, 0); } return paddr1(P, d); }
  std::string paddr1(const Value *P, int d = 0) { int64_t o; const Value *b = stripOffset(P, T.DL, o); return path(b, d + 1) + "+" + std::to_string(o); }
  static const Value *root(const Value *V) { for (int i = 0; i < 60; i++) { V = V->stripPointerCasts(); if (auto *G = dyn_cast<GEPOperator>(V)) V = G->getPointerOperand(); else if (auto *L = dyn_cast<LoadInst>(V)) V = L->getPointerOperand(); else break; } return V; }
  // how the cell at P is to be read: 'l' lower end of a client interval, 's' scratch, 'd' second (down) result, 'u' otherwise, ' ' local
  std::map<std::string, char> use; std::map<std::string, std::string> nice; std::map<std::string, const Instruction *> where;
  Function *cur = nullptr;
  bool scratchType(const DIType *t) { std::string n = typeName(t); return n.find("_internal_t") != std::string::npos || n.find("ap_manager_t") != std::string::npos; }
  void classify(const Value *P, const std::string &p, const Instruction *at) {
    where[p] = at; if (use.count(p)) return;
    const Value *r = root(P); char u = 'u'; std::string nm;
    if (isa<AllocaInst>(r)) u = ' ';
    const Value *V = P; bool ask = true;
    for (int i = 0; i < 60; i++) {
      const Value *b; std::string n; const DIType *ft = nullptr;
      if (ask && T.fieldOf(V, b, n, &ft)) { if (nm.empty()) nm = n; if (startsWith(n, "ap_interval_t.inf")) u = u == 'u' ? 'l' : u; if (n.find("_internal_t.") != std::string::npos || n.find("_internal.") != std::string::npos) u = u == ' ' ? ' ' : 's'; }
      if (u != ' ') if (auto *d = T.pointee(V)) { std::string tn = typeName(d); if (tn.find("_internal_t") != std::string::npos || tn.find("ap_manager_t") != std::string::npos) u = 's'; }
      if (auto *L = dyn_cast<LoadInst>(V)) { // the interval of a coefficient: through a union
        int64_t o1; const Value *b1 = stripOffset(L->getPointerOperand(), T.DL, o1);
        if (auto *L1 = dyn_cast<LoadInst>(b1)) { const Value *b2; std::string n2; if (T.fieldOf(L1->getPointerOperand(), b2, n2) && startsWith(n2, "ap_coeff_t.val") && o1 == 0 && u == 'u') u = 'l'; }
      }
      if (auto *G = dyn_cast<GEPOperator>(V)) { V = G->getPointerOperand(); ask = false; } else if (auto *L = dyn_cast<LoadInst>(V)) { V = L->getPointerOperand(); ask = true; } else break;
    }
    if (auto *A = dyn_cast<Argument>(r)) {
      if (auto *dv = variableOf(A)) nm = (dv->getName() + (nm.empty() ? "" : " -> " + nm)).str();
      StringRef n = bare(*cur) == "" ? cur->getName() : cur->getName(); std::string fn = bare(*cur);
      if (u == 'u' && A->getArgNo() == 1 && (StringRef(fn).ends_with("_sqrt") || StringRef(fn).ends_with("_pow") || StringRef(fn).ends_with("_root")) && (isLib(fn, "num") || isLib(fn, "bound"))) u = 'd';
    }
    { size_t q; if ((q = nm.find("._mpfr")) != std::string::npos) nm = nm.substr(0, q); while ((q = nm.find("[]")) != std::string::npos) nm.erase(q, 2); }
    use[p] = u; nice[p] = nm.empty() ? "a result" : nm;
  }

  // ---- values
  std::map<const Value *, Dir> val;
  const State *now = nullptr; // origins shown exact on every path here are dropped ("$live" holds the others)
  Dir dirOf(const Value *V) {
    auto it = val.find(V); if (it == val.end()) return Dir(); if (!now) return it->second;
    auto l = now->find("$live"); Dir r; if (l != now->end()) for (auto &q : it->second) if (!q.first || l->second.count(q.first)) r.insert(q); return r;
  }
  const Cond *dummy = nullptr;
  bool dependsOn(const Value *V, const std::set<const Instruction *> &os, const State &S, int d = 0) {
    if (d > 14) return false;
    auto *I = dyn_cast<Instruction>(V); if (!I) return false;
    if (os.count(I)) return true;
    if (auto *L = dyn_cast<LoadInst>(I)) { auto it = S.find(paddr(L->getPointerOperand())); if (it != S.end()) for (auto &q : it->second) if (os.count(q.first)) return true; return false; }
    if (auto *CB = dyn_cast<CallBase>(I)) { for (auto &a : CB->args()) { if (a->getType()->isPointerTy()) { auto it = S.find(paddr(a)); if (it != S.end()) for (auto &q : it->second) if (os.count(q.first)) return true; } else if (dependsOn(a, os, S, d + 1)) return true; } return false; }
    if (isa<AllocaInst>(I)) return false;
    for (auto &o : I->operands()) if (isa<Instruction>(o)) { for (auto &q : dirOf(o)) if (os.count(q.first)) return true; if (dependsOn(o, os, S, d + 1)) return true; }
    if (auto *P = dyn_cast<PHINode>(I)) for (auto *B : P->blocks()) if (auto *Br = dyn_cast<BranchInst>(B->getTerminator())) if (Br->isConditional()) if (dependsOn(Br->getCondition(), os, S, d + 3)) return true;
    return false;
  }
  unsigned modeBits(const Value *m, const State &S) {
    if (auto *c = dyn_cast<ConstantInt>(m)) { switch (c->getZExtValue()) { case 2: return U; case 3: return D; default: return N; } }
    return 0; // as requested by the caller
  }
  unsigned fpMode(const State &S) { auto it = S.find("$mode"); if (it == S.end()) return U; unsigned b = 0; for (auto &q : it->second) b |= q.second; return b ? b : U; }
  static bool isConst(const Value *V) { return isa<ConstantFP>(V) || isa<ConstantInt>(V); }

  long ops = 0, inexactOps = 0;
  std::map<std::string, std::set<std::string>> prec; // cell -> cells whose precision it was given (exact copies)
  static int modeIndex(StringRef n, const CallBase *C) { if (n == "mpfr_set4") return 2; if (!C->arg_size()) return -1; int k = C->arg_size() - 1; return C->getArgOperand(k)->getType()->isIntegerTy(32) ? k : -1; }
  void setCell(State &S, const std::string &p, const Dir &d) { if (d.empty()) S.erase(p); else S[p] = d; }
  Dir cell(const State &S, const std::string &p) { auto it = S.find(p); return it == S.end() ? Dir() : it->second; }
  void killUnder(State &S, const std::string &p) { // contents reachable from a pointer with path p change: exact as given
    for (auto it = S.begin(); it != S.end();) if (it->first[0] != '$' && it->first.find("(" + p + "+") != std::string::npos) it = S.erase(it); else ++it;
  }
  void call(CallBase *CB, State &S) {
    if (auto *MI = dyn_cast<MemTransferInst>(CB)) {
      std::string d = paddr(MI->getDest()), s = paddr(MI->getSource()); setCell(S, d, cell(S, s)); classify(MI->getDest(), d, CB);
      return;
    }
    if (isa<DbgInfoIntrinsic>(CB)) return;
    auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    std::string gn = G ? bare(*G) : std::string(); StringRef n = G ? StringRef(gn) : StringRef();
    if (G && G->isIntrinsic()) n = G->getName();
    auto own = [&](unsigned b) { Dir d; if (b) { d[CB] = b; inexactOps++; fresh.push_back(CB); } return d; };
    if (CB->getType()->isFloatingPointTy()) {
      auto a = [&](unsigned i) { return dirOf(CB->getArgOperand(i)); };
      // the integer part of a square root taken in double precision is exact where it is used (below 2^52)
      if (n.starts_with("llvm.floor") || n.starts_with("llvm.ceil") || n == "floor" || n == "ceil") if (auto *Q = dyn_cast<CallBase>(CB->getArgOperand(0))) if (auto *H = dyn_cast<Function>(Q->getCalledOperand()->stripPointerCasts())) if (H->getName() == "sqrt" || H->getName().starts_with("llvm.sqrt")) { val[CB] = Dir(); ops++; return; }
      if (n == "mpfr_get_d" || n == "mpfr_get_ld") { Dir s = cell(S, paddr(CB->getArgOperand(0))); unsigned m = modeBits(CB->getArgOperand(1), S); if (s.empty() || (bits(s) & ~m)) join(s, own(m)); val[CB] = s; }
      else if (n == "__gmpq_get_d" || n == "__gmpz_get_d" || n == "__gmpf_get_d") val[CB] = own(N);
      else if (n.starts_with("llvm.fabs") || n == "fabs" || n == "fabsl" || n.starts_with("llvm.ceil") || n == "ceil" || n == "ceill" || n.starts_with("llvm.floor") || n.starts_with("llvm.trunc") || n == "floor" || n == "trunc" || n.starts_with("floorl") || n == "truncl" || n == "ldexp" || n == "ldexpl" || n.starts_with("llvm.ldexp")) val[CB] = a(0);
      else if (0) {} else if (n.starts_with("llvm.sqrt") || n == "sqrt" || n == "sqrtl") { Dir d = a(0); join(d, own(fpMode(S))); val[CB] = d; }
      else if (n.starts_with("nextafter")) { bool down = false; if (auto *c = dyn_cast<ConstantFP>(CB->getArgOperand(1))) down = c->isZero() || c->isNegative(); val[CB] = own(down ? D : U); }
      else if (n == "fmin" || n == "fmax" || n == "fminl" || n == "fmaxl" || n.starts_with("llvm.min") || n.starts_with("llvm.max")) { Dir d = a(0); join(d, a(1)); val[CB] = d; }
      else if (n.starts_with("llvm.fmuladd") || n.starts_with("llvm.fma") || n == "fma") { Dir d = a(2); join(d, own(fpMode(S))); val[CB] = d; }
      else if (n.starts_with("llvm.rint") || n.starts_with("llvm.nearbyint") || n.starts_with("llvm.round") || n == "rint" || n == "nearbyint" || n == "round") val[CB] = own(N);
      else val[CB] = Dir();
      ops++;
      return;
    }
    if (n == "fesetround") { auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(0)); unsigned b = U; if (c) b = c->getZExtValue() == 0x800 ? U : c->getZExtValue() == 0x400 ? D : N; Dir d; d[nullptr] = b; S["$mode"] = d; return; }
    if (n.starts_with("mpfr_")) {
      ops++;
      if (!CB->arg_size() || !CB->getArgOperand(0)->getType()->isPointerTy()) return;
      std::string d = paddr(CB->getArgOperand(0)); 
      auto src = [&](unsigned i) { return CB->arg_size() > i && CB->getArgOperand(i)->getType()->isPointerTy() ? cell(S, paddr(CB->getArgOperand(i))) : Dir(); };
      int mi = modeIndex(n, CB);
      if (n == "mpfr_set_prec" || n == "mpfr_init2") {
        setCell(S, d, Dir()); prec[d].clear();
        if (auto *C2 = dyn_cast<CallBase>(CB->getArgOperand(1)->stripPointerCasts())) if (auto *G2 = dyn_cast<Function>(C2->getCalledOperand()->stripPointerCasts())) if (bare(*G2) == "mpfr_get_prec") prec[d].insert(paddr(C2->getArgOperand(0)));
        if (auto *L = dyn_cast<LoadInst>(CB->getArgOperand(1))) prec[d].insert(paddr(L->getPointerOperand())); // mpfr_get_prec is a macro: the field at offset 0
        return;
      }
      if (n.starts_with("mpfr_get_z") || n == "mpfr_get_q") { Dir r = src(1); classify(CB->getArgOperand(0), d, CB); setCell(S, d, r); return; }
      static const std::set<std::string> pure = {"mpfr_cmp3", "mpfr_cmp_si", "mpfr_cmp_si_2exp", "mpfr_cmp_ui", "mpfr_cmp_ui_2exp", "mpfr_cmp_d", "mpfr_cmp_q", "mpfr_cmp_z", "mpfr_equal_p", "mpfr_number_p", "mpfr_nan_p", "mpfr_inf_p", "mpfr_zero_p", "mpfr_regular_p", "mpfr_sgn", "mpfr_integer_p", "mpfr_get_prec", "mpfr_get_str", "mpfr_free_str", "mpfr_fits_slong_p", "mpfr_fits_sint_p", "mpfr_fits_intmax_p", "mpfr_out_str", "__gmpfr_out_str", "mpfr_get_si", "mpfr_get_sj", "mpfr_clear", "mpfr_get_exp", "mpfr_less_p", "mpfr_greater_p"};
      if (pure.count(gn)) { if (n == "mpfr_get_si" || n == "mpfr_get_sj") { Dir r = src(0); unsigned m = modeBits(CB->getArgOperand(1), S); join(r, own(m)); val[CB] = r; } if (n == "mpfr_clear") setCell(S, d, Dir()); return; }
      classify(CB->getArgOperand(0), d, CB);
      if (n == "mpfr_set_inf" || n == "mpfr_set_nan" || n == "mpfr_set_zero" || n == "mpfr_init" || n == "mpfr_swap") { if (n == "mpfr_swap") { std::string e = paddr(CB->getArgOperand(1)); Dir x = cell(S, d), y = cell(S, e); setCell(S, d, y); setCell(S, e, x); } else setCell(S, d, Dir()); return; }
      unsigned m = mi >= 0 ? modeBits(CB->getArgOperand(mi), S) : 0;
      bool same = CB->arg_size() > 1 && CB->getArgOperand(1)->getType()->isPointerTy() && paddr(CB->getArgOperand(1)) == d;
      if (n == "mpfr_neg" || n == "mpfr_abs" || n == "mpfr_set4" || n == "mpfr_set") {
        Dir s = src(1); bool neg = n == "mpfr_neg";
        bool exact = same || (CB->getArgOperand(1)->getType()->isPointerTy() && prec[d].count(paddr(CB->getArgOperand(1))));
        // a negation within the library keeps the precision: only an explicit other mode shows
        Dir r = neg ? flip(s) : s; if (!exact && !(n != "mpfr_set4" && n != "mpfr_set" && m == U)) join(r, own(m)); setCell(S, d, r); return;
      }
      if (n.starts_with("mpfr_set_si") || n.starts_with("mpfr_set_ui") || n.starts_with("mpfr_init_set_")) if (CB->arg_size() > 1 && isa<ConstantInt>(CB->getArgOperand(1))) { auto *c = cast<ConstantInt>(CB->getArgOperand(1)); if (c->getSExtValue() >= -65536 && c->getSExtValue() <= 65536) { setCell(S, d, Dir()); return; } }
      Dir r;
      if (n.starts_with("mpfr_set_d") || n.starts_with("mpfr_set_ld")) r = dirOf(CB->getArgOperand(1));
      else if (n == "mpfr_add" || n == "mpfr_min" || n == "mpfr_max") { r = src(1); join(r, src(2)); }
      else if (n == "mpfr_sub") { r = src(1); join(r, flip(src(2))); }
      else if (n == "mpfr_mul" || n == "mpfr_div" || n.starts_with("mpfr_ui_div") || n.starts_with("mpfr_pow") || n.starts_with("mpfr_root")) { if (n.starts_with("mpfr_root")) r = src(1); }
      else r = src(1);
      if (n == "mpfr_min" || n == "mpfr_max") { if (same || 1) { Dir o = own(m); if (m != U) join(r, o); setCell(S, d, r); return; } }
      join(r, own(m)); setCell(S, d, r); return;
    }
    if (n.starts_with("__gmpq_") || n.starts_with("__gmpz_")) {
      StringRef o = n.substr(7);
      if (!CB->arg_size() || !CB->getArgOperand(0)->getType()->isPointerTy()) return;
      if (o.starts_with("cmp") || o == "equal" || o == "get_str" || o == "out_str" || o == "sgn" || o == "get_si" || o == "get_ui" || o.starts_with("fits") || o == "sizeinbase" || o == "size" || o.starts_with("perfect") || o == "get_d_2exp") return;
      std::string d = paddr(CB->getArgOperand(0)); classify(CB->getArgOperand(0), d, CB);
      auto src = [&](unsigned i) { return CB->arg_size() > i && CB->getArgOperand(i)->getType()->isPointerTy() ? cell(S, paddr(CB->getArgOperand(i))) : Dir(); };
      if (o == "set" || o == "mul_2exp" || o == "div_2exp" || o == "abs" || o == "add_ui" || o == "sub_ui") { setCell(S, d, src(1)); return; }
      if (o == "neg") { setCell(S, d, flip(src(1))); return; }
      if (o == "set_d") { setCell(S, d, dirOf(CB->getArgOperand(1))); return; }
      if (o == "set_si" || o == "set_ui" || o == "init_set_si") { setCell(S, d, dirOf(CB->getArgOperand(1))); return; }
      if (o == "add") { Dir r = src(1); join(r, src(2)); setCell(S, d, r); return; }
      if (o == "sub") { Dir r = src(1); join(r, flip(src(2))); setCell(S, d, r); return; }
      if (o.starts_with("cdiv_q") || o.starts_with("fdiv_q") || o.starts_with("tdiv_q")) { ops++; bool ui = o.ends_with("_ui"); setCell(S, d, own(o[0] == 'c' ? U : 0)); return; }
      if (o == "swap") { std::string e = paddr(CB->getArgOperand(1)); Dir x = cell(S, d), y = cell(S, e); setCell(S, d, y); setCell(S, e, x); return; }
      setCell(S, d, Dir()); return;
    }
    // the rounding operations of the number layer, kept as such
    if (prim(n)) {
      if (CB->arg_size() < 2) return;
      std::string d = paddr(CB->getArgOperand(0)); classify(CB->getArgOperand(0), d, CB);
      Dir r = CB->getArgOperand(1)->getType()->isPointerTy() ? cell(S, paddr(CB->getArgOperand(1))) : Dir();
      if (n.starts_with("numint_")) { r = Dir(); if (n.contains("_cdiv")) r = own(U); ops++; } // floor and truncation of integers are operations of their own
      setCell(S, d, r); return;
    }
    if (n == "malloc" || n == "calloc" || n == "free" || n.starts_with("llvm.")) return;
    // any other function: what it writes is its own obligation
    if (G && G->doesNotAccessMemory()) return;
    for (auto &a : CB->args()) if (a->getType()->isPointerTy()) { std::string p = path(a), q = paddr(a); setCell(S, q, Dir()); killUnder(S, p); std::string b = q.substr(0, q.rfind('+')); for (auto it = S.begin(); it != S.end();) if (it->first.compare(0, b.size() + 1, b + "+") == 0) it = S.erase(it); else ++it; }
  }
  static bool prim(StringRef n) {
    if (n.starts_with("numint_")) return n.contains("_cdiv") || n.contains("_fdiv") || n.contains("_tdiv");
    return (n.starts_with("num") || n.starts_with("bound_")) && (n.ends_with("_floor") || n.ends_with("_ceil") || n.ends_with("_trunc"));
  }
  void inst(Instruction &I, State &S) {
    if (auto *CB = dyn_cast<CallBase>(&I)) { call(CB, S); return; }
    Type *t = I.getType();
    if (auto *L = dyn_cast<LoadInst>(&I)) { if (t->isFloatingPointTy() || t->isIntegerTy()) val[L] = cell(S, paddr(L->getPointerOperand())); return; }
    if (auto *St = dyn_cast<StoreInst>(&I)) {
      Type *vt = St->getValueOperand()->getType(); if (!vt->isFloatingPointTy() && !vt->isIntegerTy()) return;
      if (vt->isIntegerTy() && vt->getIntegerBitWidth() < 64) return;
      std::string p = paddr(St->getPointerOperand()); classify(St->getPointerOperand(), p, St);
      setCell(S, p, dirOf(St->getValueOperand())); return;
    }
    auto own = [&](unsigned b) { Dir d; if (b) { d[&I] = b; inexactOps++; fresh.push_back(&I); } return d; };
    if (t->isFloatingPointTy()) {
      Dir a = I.getNumOperands() > 0 ? dirOf(I.getOperand(0)) : Dir(), b = I.getNumOperands() > 1 ? dirOf(I.getOperand(1)) : Dir(), r;
      const Value *x = I.getNumOperands() > 0 ? I.getOperand(0) : nullptr, *y = I.getNumOperands() > 1 ? I.getOperand(1) : nullptr;
      auto sgn = [](const Value *V) { auto *c = dyn_cast_or_null<ConstantFP>(V); return !c ? 0 : c->isNegative() ? -1 : 1; };
      switch (I.getOpcode()) {
      case Instruction::FAdd: r = a; join(r, b); join(r, own(fpMode(S))); break;
      case Instruction::FSub: if (sgn(x) && cast<ConstantFP>(x)->isZero()) { r = flip(b); break; } r = a; join(r, flip(b)); join(r, own(fpMode(S))); break;
      case Instruction::FMul: case Instruction::FDiv:
        if (int s = sgn(y)) r = s > 0 ? a : flip(a); else if (int s = I.getOpcode() == Instruction::FMul ? sgn(x) : 0) r = s > 0 ? b : flip(b);
        { double v = 0; if (auto *c = dyn_cast_or_null<ConstantFP>(y)) if (c->getType()->isDoubleTy()) v = c->getValueAPF().convertToDouble(); if (v == 2.0 || v == 0.5 || v == 1.0 || v == -1.0) break; }
        join(r, own(fpMode(S))); break;
      case Instruction::FNeg: r = flip(a); break;
      case Instruction::FPTrunc: r = a; join(r, own(fpMode(S))); break;
      case Instruction::FPExt: r = a; break;
      case Instruction::SIToFP: case Instruction::UIToFP: r = a; if (I.getOperand(0)->getType()->getIntegerBitWidth() > 32) join(r, own(fpMode(S))); break;
      case Instruction::PHI: for (auto &v : cast<PHINode>(I).incoming_values()) join(r, dirOf(v)); break;
      case Instruction::Select: r = dirOf(I.getOperand(1)); join(r, dirOf(I.getOperand(2))); break;
      case Instruction::Freeze: r = a; break;
      default: break;
      }
      val[&I] = r; ops++;
      return;
    }
    if (t->isIntegerTy() && t->getIntegerBitWidth() >= 32) {
      Dir r;
      switch (I.getOpcode()) {
      case Instruction::FPToSI: case Instruction::FPToUI: {
        const Value *x = I.getOperand(0); while (auto *F = dyn_cast<FreezeInst>(x)) x = F->getOperand(0);
        r = dirOf(x); if (!integral(x)) join(r, own(N)); ops++; break; }
      case Instruction::PHI: for (auto &v : cast<PHINode>(I).incoming_values()) join(r, dirOf(v)); break;
      case Instruction::Select: r = dirOf(I.getOperand(1)); join(r, dirOf(I.getOperand(2))); break;
      case Instruction::Add: r = dirOf(I.getOperand(0)); join(r, dirOf(I.getOperand(1))); break;
      case Instruction::Sub: r = dirOf(I.getOperand(0)); join(r, flip(dirOf(I.getOperand(1)))); break;
      case Instruction::SExt: case Instruction::ZExt: case Instruction::Trunc: case Instruction::Freeze: r = dirOf(I.getOperand(0)); break;
      default: break;
      }
      if (!r.empty()) val[&I] = r;
    }
  }
  // x is an integer: the result of ceil/floor/trunc/rint, or of such on every incoming path
  std::string cellInt;
  bool integral(const Value *x, int d = 0) {
    if (d > 8) return false;
    if (auto *C = dyn_cast<CallBase>(x)) { auto *G = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()); if (!G) return false; StringRef n = G->getName(); return n.starts_with("llvm.ceil") || n.starts_with("llvm.floor") || n.starts_with("llvm.trunc") || n.starts_with("ceil") || n.starts_with("floor") || n.starts_with("trunc") || n.starts_with("llvm.rint"); }
    if (isa<SIToFPInst>(x) || isa<UIToFPInst>(x)) return true;
    if (auto *c = dyn_cast<ConstantFP>(x)) return c->getValueAPF().isInteger();
    if (auto *P = dyn_cast<PHINode>(x)) { for (auto &v : P->incoming_values()) if (!integral(v, d + 1)) return false; return true; }
    if (auto *S = dyn_cast<SelectInst>(x)) return integral(S->getTrueValue(), d + 1) && integral(S->getFalseValue(), d + 1);
    if (auto *U1 = dyn_cast<UnaryOperator>(x)) return integral(U1->getOperand(0), d + 1);
    if (auto *L = dyn_cast<LoadInst>(x)) { // a cell that a rounding function of the number layer filled
      std::string p = paddr(L->getPointerOperand());
      bool any = false; for (Instruction &I : instructions(*cur)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) { std::string gn = bare(*G); if (prim(gn) && C->arg_size() && paddr(C->getArgOperand(0)) == p) any = true; }
      return any;
    }
    return false;
  }
  std::map<const BasicBlock *, std::set<const BasicBlock *>> reachMemo;
  const std::set<const BasicBlock *> &reachable(const BasicBlock *B) {
    auto &r = reachMemo[B]; if (!r.empty()) return r;
    std::vector<const BasicBlock *> w{B}; r.insert(B); while (!w.empty()) { auto *X = w.back(); w.pop_back(); for (auto *Y : successors(X)) if (r.insert(Y).second) w.push_back(Y); }
    return r;
  }
  std::map<const BasicBlock *, std::set<std::pair<const BasicBlock *, const BasicBlock *>>> edgeMemo;
  void edge(const Instruction *T0, unsigned k, State &S) {
    auto *Br = dyn_cast<BranchInst>(T0); if (!Br || !Br->isConditional()) return;
    std::set<const Instruction *> os; for (auto &q : S["$live"]) if (q.first) os.insert(q.first);
    if (os.empty()) return;
    std::set<const Instruction *> drop;
    for (auto *o : os) {
      std::set<const Instruction *> one{o};
      bool dep = dependsOn(Br->getCondition(), one, S);
      // polarity: with an inexact o, which edge is taken?
      const Value *c = Br->getCondition(); bool done = false; if (!dep) { auto *OC = dyn_cast<CallBase>(o); auto *OG = OC ? dyn_cast<Function>(OC->getCalledOperand()->stripPointerCasts()) : nullptr; if (!OG || !startsWith(bare(*OG), "mpfr_get_s")) continue; }
      if (auto *Q = dyn_cast<CmpInst>(c)) { // compared for equality: exact on the equal edge
        auto p = Q->getPredicate(); bool eq = p == CmpInst::FCMP_OEQ || p == CmpInst::FCMP_UEQ, ne = p == CmpInst::FCMP_ONE || p == CmpInst::FCMP_UNE;
        if (dep && (eq || ne)) { if ((eq ? 0u : 1u) == k) drop.insert(o); done = true; }
      }
      if (done) continue;
      // only paths through o matter
      Cond C; C.leaf = [&](const Value *V) -> Cond::Val { if (V == o && V->getType()->isIntegerTy()) return Cond::known(1); if (auto *Q = dyn_cast<FCmpInst>(V)) if (dependsOn(Q, one, S)) { auto p = Q->getPredicate(); if (p == CmpInst::FCMP_OEQ || p == CmpInst::FCMP_UEQ) return Cond::known(0); if (p == CmpInst::FCMP_ONE || p == CmpInst::FCMP_UNE) return Cond::known(1); } if (auto *CB = dyn_cast<CallBase>(V)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) { std::string g = bare(*G); if (g == "mpfr_integer_p") if (auto *OC = dyn_cast<CallBase>(o)) if (auto *OG = dyn_cast<Function>(OC->getCalledOperand()->stripPointerCasts())) if (startsWith(bare(*OG), "mpfr_get_s") && paddr(OC->getArgOperand(0)) == paddr(CB->getArgOperand(0))) return Cond::known(0); if ((startsWith(g, "mpfr_cmp") || startsWith(g, "__gmpq_cmp")) && dependsOn(CB, one, S)) return Cond::known(1); } return Cond::Val(); };
      auto &em = edgeMemo[o->getParent()]; if (em.empty()) for (const BasicBlock *X : reachable(o->getParent())) for (auto *Y : successors(X)) em.insert({X, Y});
      C.edges = em;
      auto v = C.eval(c);
      if (!v.k || (v.v ? 0u : 1u) == k) continue; // the inexact edge, or unrelated
      drop.insert(o);
    }
    if (drop.empty()) return;
    for (auto it = S.begin(); it != S.end();) { for (auto *o : drop) it->second.erase(o); if (it->second.empty()) it = S.erase(it); else ++it; }
  }
  std::vector<const Instruction *> fresh;
  std::set<std::string> reported; bool light = false;
  void analyse(Function &F) {
    cur = &F; use.clear(); nice.clear(); where.clear(); val.clear(); prec.clear(); ids.clear(); reachMemo.clear(); paddrMemo.clear(); edgeMemo.clear();
    std::map<BasicBlock *, State> in; std::set<BasicBlock *> seen; std::deque<BasicBlock *> w{&F.getEntryBlock()}; seen.insert(&F.getEntryBlock());
    std::map<const Instruction *, bool> modeExits;
    std::map<std::string, Dir> atExit; int steps = 0; std::map<BasicBlock *, int> visits;
    long base = inexactOps;
    while (!w.empty()) {
      if (++steps > 60000) { tally("gave_up"); return; }
      BasicBlock *B = w.front(); w.pop_front(); State S = in[B]; visits[B]++;
      auto before = val.size();
      std::map<const Value *, Dir> old; for (Instruction &I : *B) if (val.count(&I)) old[&I] = val[&I];
      now = &S; for (Instruction &I : *B) { S["$live"]; inst(I, S); for (auto it = val.find(&I); it != val.end();) { for (auto &q : it->second) if (q.first == &I) S["$live"][&I] |= q.second; break; } for (auto &q : fresh) S["$live"][q] = 1; fresh.clear(); }
      now = nullptr;
      bool changed = false; for (Instruction &I : *B) if (val.count(&I) && (!old.count(&I) || old[&I] != val[&I])) changed = true;
      auto *T0 = B->getTerminator();
      if (isa<ReturnInst>(T0)) { auto it = S.find("$mode"); if (it != S.end()) { bool ok = !(bits(it->second) & ~U); modeExits[T0] = ok; } }
      if (isa<ReturnInst>(T0)) for (auto &p : S) if (p.first[0] != '$') join(atExit[p.first], p.second);
      for (unsigned k = 0; k < T0->getNumSuccessors(); k++) {
        BasicBlock *N = T0->getSuccessor(k); State S2 = S;
        if (auto *Br = dyn_cast<BranchInst>(T0)) if (Br->isConditional()) if (auto *Ic = dyn_cast<ICmpInst>(Br->getCondition())) if (Ic->isEquality() && Ic->getOperand(0)->getType()->isPointerTy() && isa<Argument>(Ic->getOperand(0)->stripPointerCasts()) && isa<Argument>(Ic->getOperand(1)->stripPointerCasts()))
          if ((Ic->getPredicate() == CmpInst::ICMP_EQ) == (k == 0)) continue; // two arguments: analysed as distinct
        edge(T0, k, S2);
        bool nw = seen.insert(N).second; if (joinState(in[N], S2) || nw || (changed && visits[N] < 6)) if (std::find(w.begin(), w.end(), N) == w.end()) w.push_back(N);
      }
    }
    for (auto &m : modeExits) { emitObligation("rounding-restored", bare(F), "return", m.second); if (!m.second) emitFinding("rounding-restored", bare(F), m.first->getDebugLoc(), "mode", bare(F) + ": returns with the processor in another rounding mode than the one it was called with (towards +oo)"); }
    if (light) return;
    long cells = 0;
    for (auto &p : atExit) {
      if (!use.count(p.first)) continue; char u = use[p.first]; if (u == ' ' || u == 's') continue;
      unsigned bad = u == 'u' ? (D | N) : (U | N); bool ok = true;
      if (u == 'l' && (bits(p.second) & D)) bad = N; // the negation depends on the kind of number
      cells++;
      for (auto &q : p.second) if (q.second & bad) {
        ok = false; unsigned b = q.second & bad;
        std::string key = nice[p.first]; std::string k2 = bare(F) + key; 
        if (reported.insert(k2).second) emitFinding("rounding-direction", bare(F), q.first->getDebugLoc() ? q.first->getDebugLoc() : where[p.first]->getDebugLoc(), key,
          bare(F) + ": " + (b & N ? "a number rounded to nearest or truncated" : u == 'u' ? "a number rounded towards -oo (an upper approximation negated)" : "a number rounded towards +oo") + " ends in " + key + ", which must be rounded towards " + (u == 'u' ? "+oo" : "-oo"));
      }
      emitObligation("rounding-direction", bare(F), nice[p.first], ok);
    }
    tally("cells", cells); if (inexactOps > base) tally("functions_with_rounding");
    debugDump(F);
  }
};
}

// directional operations of the number layer: an arithmetic operation or conversion must not reach a rounding
// downwards or towards zero; floor, ceil and truncation reach their own kind only
static void directional(Module &M) {
  auto callee = [](const CallBase *CB) { return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); };
  auto kindOf = [](StringRef n) -> char {
    if (n.starts_with("__gmpz_") || n.starts_with("mpz_")) { if (n.contains("_fdiv_q")) return 'f'; if (n.contains("_cdiv_q")) return 'c'; if (n.contains("_tdiv_q")) return 't'; return 0; }
    if (n.starts_with("mpfr_rint_")) return n.ends_with("floor") ? 'f' : n.ends_with("ceil") ? 'c' : n.ends_with("trunc") ? 't' : 'n';
    if (n == "mpfr_floor" || n.starts_with("llvm.floor") || n == "floor" || n == "floorl") return 'f';
    if (n == "mpfr_ceil" || n.starts_with("llvm.ceil") || n == "ceil" || n == "ceill") return 'c';
    if (n == "mpfr_trunc" || n.starts_with("llvm.trunc.f") || n == "trunc" || n == "truncl") return 't';
    if (n == "mpfr_rint" || n.starts_with("llvm.rint") || n.starts_with("llvm.round") || n.starts_with("llvm.nearbyint") || n == "rint" || n == "round" || n == "nearbyint" || n == "mpfr_round") return 'n';
    return 0;
  };
  std::map<const Function *, std::set<char>> reach;
  auto named = [](StringRef n) -> char { // operations whose name is their direction
    if (!n.starts_with("num") && !n.starts_with("bound_")) return 0;
    if (n.ends_with("_floor") || n.contains("_fdiv")) return 'f'; if (n.ends_with("_ceil") || n.contains("_cdiv")) return 'c'; if (n.ends_with("_trunc") || n.contains("_tdiv")) return 't'; return 0; };
  bool ch = true;
  while (ch) { ch = false;
    for (Function &F : M) for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = callee(CB)) {
      std::string g = G->isIntrinsic() ? G->getName().str() : bare(*G); std::set<char> add;
      if (char k = kindOf(g)) add.insert(k); else if (char k = named(g)) add.insert(k); else add = reach[G];
      for (char k : add) if (reach[&F].insert(k).second) ch = true;
    } }
  std::set<std::string> done;
  for (Function &F : M) {
    if (F.isDeclaration()) continue; std::string n = bare(F); StringRef s(n);
    if (!done.insert(n).second) continue;
    std::string allowed; std::string what; char k = named(s);
    if (s == "numint_tdiv_q_2exp") continue; // native: floor or ceil according to the sign
    if (k) { allowed = std::string(1, k); what = k == 'f' ? "downwards" : k == 'c' ? "upwards" : "towards zero"; }
    else {
      bool arith = false;
      for (const char *p : {"num_", "numint_", "numrat_", "numflt_", "bound_"}) if (s.starts_with(p)) { StringRef t = s.substr(strlen(p));
        if (t == "add" || t == "sub" || t == "mul" || t == "div" || t == "div_2" || t == "mul_2" || t == "mul_2exp" || t == "add_uint" || t == "sub_uint" || t == "neg" || t == "abs" || t.starts_with("set_")) arith = true; }
      for (const char *p : {"_set_num", "_set_numint", "_set_numrat", "_set_numflt"}) if (s.ends_with(p) || s.ends_with(std::string(p) + "_tmp")) arith = true;
      if (s.ends_with("_div_num") || s.ends_with("_mul_num") || s.ends_with("_div_bound") || s.ends_with("_mul_bound")) arith = true;
      if (!arith) continue; allowed = "c"; what = "upwards";
    }
    bool ok = true; for (char r : reach[&F]) if (allowed.find(r) == std::string::npos) { ok = false;
      emitFinding("directional-operation", n, DebugLoc(), std::string("reaches ") + (r == 'f' ? "floor" : r == 'c' ? "ceil" : r == 't' ? "trunc" : "nearest"), n + ": rounds " + what + " by contract, but reaches an operation that rounds " + (r == 'f' ? "downwards" : r == 'c' ? "upwards" : r == 't' ? "towards zero" : "to nearest")); }
    emitObligation("directional-operation", n, what, ok);
  }
}
// mode constants handed to functions of the library that take an MPFR rounding mode
static void modes(Module &M) {
  for (Function &F : M) for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
    if (G->isDeclaration() || !G->getSubprogram()) continue;
    auto sig = signatureOf(*G);
    for (unsigned i = 1; i < sig.size() && i - 1 < CB->arg_size(); i++) {
      std::string t; for (const DIType *d = sig[i]; d;) { if (auto *D1 = dyn_cast<DIDerivedType>(d)) { if (D1->getName() == "mpfr_rnd_t" || D1->getName() == "mp_rnd_t") t = "rnd"; if (D1->getTag() == dwarf::DW_TAG_pointer_type) break; d = D1->getBaseType(); } else break; }
      if (t.empty()) continue;
      auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(i - 1)); if (!c) continue;
      int64_t v = c->getZExtValue(); bool ok = v == 2 || v == 3;
      emitObligation("rounding-mode", bare(F), bare(*G), ok);
      if (!ok) emitFinding("rounding-mode", bare(F), CB->getDebugLoc(), bare(*G), bare(F) + ": calls " + bare(*G) + " with mode " + std::to_string(v) + ", which is not a directed MPFR rounding mode");
    }
  }
}
static void fpu(Module &M) {
  auto callee = [](const CallBase *CB) { return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); };
  auto dominatesReturns = [](Function &F, const std::function<bool(const CallBase *)> &is, bool needResult) {
    DominatorTree DT(F); std::vector<const Instruction *> cs; for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (is(CB)) cs.push_back(CB);
    if (cs.empty()) return false;
    // a return is fine if it is dominated by a call, or returns null/false
    for (BasicBlock &B : F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) {
      std::vector<std::pair<const Value *, const Instruction *>> w; if (R->getReturnValue()) { if (auto *P = dyn_cast<PHINode>(R->getReturnValue())) for (unsigned i = 0; i < P->getNumIncomingValues(); i++) w.push_back({P->getIncomingValue(i), P->getIncomingBlock(i)->getTerminator()}); else w.push_back({R->getReturnValue(), R}); } else w.push_back({nullptr, R});
      for (auto &x : w) { if (x.first) if (auto *c = dyn_cast<Constant>(x.first)) if (c->isNullValue()) continue;
        bool ok = false; for (auto *c : cs) if (DT.dominates(c, x.second)) ok = true; if (!ok) return false; }
    }
    return true;
  };
  std::set<const Function *> good;
  for (Function &F : M) if (bare(F) == "ap_fpu_init" && !F.isDeclaration()) {
    bool other = false;
    bool ok = dominatesReturns(F, [&](const CallBase *CB) { auto *G = callee(CB); if (!G || G->getName() != "fesetround") return false; auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(0)); bool up = c && c->getZExtValue() == 0x800; if (!up) other = true; return up; }, true);
    ok = ok && !other;
    emitObligation("fpu-upward", "ap_fpu_init", "fesetround", ok); if (ok) good.insert(&F);
    else emitFindingAt("fpu-upward", "ap_fpu_init", F.getSubprogram() ? F.getSubprogram()->getFilename().str() : "", F.getSubprogram() ? F.getSubprogram()->getLine() : 0, "fesetround", "ap_fpu_init does not set the rounding mode towards +oo on every path that reports success");
  }
  bool ch = true; while (ch) { ch = false; for (Function &F : M) if (!F.isDeclaration() && !good.count(&F) && bare(F) != "ap_fpu_init") if (dominatesReturns(F, [&](const CallBase *CB) { auto *G = callee(CB); return G && good.count(G); }, true)) { good.insert(&F); ch = true; } }
  std::set<const Function *> alloc; ch = true;
  for (Function &F : M) for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = callee(CB)) if (bare(*G) == "ap_manager_alloc") alloc.insert(&F);
  while (ch) { ch = false; for (Function &F : M) for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = callee(CB)) if (alloc.count(G) && G->hasLocalLinkage() && alloc.insert(&F).second) ch = true; }
  for (auto *F : alloc) { if (F->hasLocalLinkage()) continue; { auto sig0 = signatureOf(*F); bool takes = false; for (unsigned i = 1; i < sig0.size(); i++) if (typeName(sig0[i]).find("ap_manager_t") != std::string::npos) takes = true; if (takes || startsWith(bare(*F), "ap_disjunction_") || bare(*F) == "ap_manager_alloc") continue; } auto sig = signatureOf(*F); if (sig.empty() || typeName(sig[0]) != "ap_manager_t*") continue;
    bool ok = good.count(F); emitObligation("fpu-upward", bare(*F), "manager", ok); tally("managers");
    if (!ok) emitFindingAt("fpu-upward", bare(*F), F->getSubprogram() ? F->getSubprogram()->getFilename().str() : "", F->getSubprogram() ? F->getSubprogram()->getLine() : 0, "manager", bare(*F) + ": may hand out a manager for hardware floats without having set the processor's rounding mode towards +oo"); }
}
int runRounding(std::vector<std::string> args) {
  LLVMContext C; auto M = loadModule(args[0], C); if (!M) return 2;
  promote(*M);
  bool light = false, flt = false; for (auto &a : args) { if (a == "light") light = true; if (a == "float") flt = true; }
  modes(*M); directional(*M); if (flt) fpu(*M);
  Rounding R(*M); R.light = light;
  std::vector<Function *> roots;
  std::set<const Function *> changes;
  for (Function &F : *M) for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (G->getName() == "fesetround") changes.insert(&F);
  for (Function &F : *M) if (!F.isDeclaration() && (!F.hasLocalLinkage() || changes.count(&F))) roots.push_back(&F);
  std::set<const Function *> rootset(roots.begin(), roots.end());
  std::map<const Function *, unsigned> size; for (Function &F : *M) size[&F] = F.getInstructionCount();
  // functions that take a rounding mode are inlined wherever they are: the mode is the caller's
  for (Function *F : roots) {
    std::string n = bare(*F);
    inlineInto(*F, [&](const Function &G) {
      std::string g = bare(G); if (Rounding::prim(g)) return false;
      if (changes.count(&G)) return false;
      if (G.hasLocalLinkage()) return size[&G] < 300;
      return startsWith(g, "ap_double_set_scalar") || startsWith(g, "ap_mpfr_set_scalar") || startsWith(g, "ap_mpq_set_scalar") || startsWith(g, "ap_scalar_neg") || startsWith(g, "ap_scalar_set_double") || startsWith(g, "ap_scalar_set_mpfr");
    }, 60000);
    R.analyse(*F);
    tally("functions");
  }
  // numeric primitives on their own as well (their results are the bounds)
  tally("operations", R.ops); tally("inexact_operations", R.inexactOps);
  return 0;
}
