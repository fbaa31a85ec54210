// Cell-wise operations (join, meet, inclusion, equality, widening) of the interval and octagon domains.
//
// Each operation, with its helpers expanded, is interpreted abstractly: a matrix (or array of intervals) is one
// generic cell per position expression; the value of a cell is the name of the operand's cell it was copied
// from (or +oo, a threshold, something computed).  Comparisons of bounds split the interpretation and record
// how the operands' cells are ordered.  At each return the cells of the result are compared with the order
// recorded on that path.
#include "apa.h"
#include "slots.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <functional>
#include <unordered_set>
namespace {
enum Op { JOIN, MEET, LEQ, EQ, WIDEN, THRESH };
const char *opName[] = {"join", "meet", "inclusion", "equality", "widening", "widening with thresholds"};

// integer polynomials over named atoms
struct Poly {
  std::map<std::string, int64_t> t; // monomial ("" = constant, "a*b") -> coefficient
  static Poly c(int64_t v) { Poly p; if (v) p.t[""] = v; return p; }
  static Poly atom(const std::string &s) { Poly p; p.t[s] = 1; return p; }
  void add(const Poly &o, int64_t k = 1) { for (auto &x : o.t) { auto &r = t[x.first]; r += k * x.second; if (!r) t.erase(x.first); } }
  bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
  int64_t cst() const { auto it = t.find(""); return it == t.end() ? 0 : it->second; }
  static std::string mono(const std::string &a, const std::string &b) {
    std::vector<std::string> v; for (auto *s : {&a, &b}) { size_t i = 0; int d = 0; std::string cur; for (char ch : *s) { if (ch == '[') d++; if (ch == ']') d--; if (ch == '*' && !d) { v.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) v.push_back(cur); (void)i; }
    std::sort(v.begin(), v.end()); std::string r; for (auto &x : v) r += (r.empty() ? "" : "*") + x; return r;
  }
  Poly mul(const Poly &o) const { Poly r; for (auto &a : t) for (auto &b : o.t) { Poly m; m.t[mono(a.first, b.first)] = a.second * b.second; r.add(m); } return r; }
  std::string str() const { std::string r; for (auto &x : t) r += (r.empty() ? "" : "+") + std::to_string(x.second) + (x.first.empty() ? "" : "." + x.first); return r.empty() ? "0" : r; }
};
struct Sym {
  enum K { Opaque, Null, Ptr, Int } k = Opaque;
  int root = -1; Poly p;
  std::string str() const { return k == Opaque ? "?" : k == Null ? "0" : k == Int ? "i" + p.str() : "p" + std::to_string(root) + "+" + p.str(); }
  static Sym i(int64_t v) { Sym s; s.k = Int; s.p = Poly::c(v); return s; }
  static Sym poly(const Poly &p) { Sym s; s.k = Int; s.p = p; return s; }
  static Sym ptr(int r, const Poly &p = {}) { Sym s; s.k = Ptr; s.root = r; s.p = p; return s; }
  static Sym null() { Sym s; s.k = Null; return s; }
};
struct Root {
  enum K { Arg, Init, Fresh, Ext } k; std::string name;
  int parent = -1; int64_t off = 0; // Init
  int operand = -1;                 // operand number if it is (part of) one
  std::string field;                // field of the operand this is the content of
};
struct Val {
  enum K { Label, Inf, Thr, Computed, Undef, Unknown } k = Unknown;
  int op = -1; std::string group, pos; int root = -1;
  std::string id() const { return k == Label ? std::to_string(op) + ":" + group + "@" + pos : k == Inf ? "oo" : k == Thr ? "thr" : k == Computed ? "cmp" : k == Undef ? "undef" : "?"; }
};
enum { LT = 1, E_ = 2, GT = 4 };
int flip(int m) { return (m & E_) | (m & LT ? GT : 0) | (m & GT ? LT : 0); }

struct State {
  std::map<const Value *, Sym> env;
  std::map<std::pair<int, std::string>, Sym> mem;
  std::map<std::pair<int, std::string>, Val> cells;
  std::map<int, Val> fill;                        // every cell of the block
  std::map<int, bool> nonnull;                    // Init roots: known null / not null
  std::map<std::string, int> rel;                 // "a|b" (a<b) -> mask
  std::map<std::string, int> inf, ci;             // label -> infinite?, sign of comparison with -1
  std::map<int, int> ver;                         // havoc counters of operand structures
  std::set<int> reduced;
  std::map<const Loop *, int> iter; std::map<const Loop *, bool> conc;
  std::map<const Loop *, std::string> atom;
  std::map<const Loop *, Poly> back;              // loops counting down: the last position
  std::map<const Value *, Val> fv;                // floating-point values
  bool other = false;                             // values of other positions were consulted
};

struct Cells {
  Module &M; Types &T; const DataLayout &DL;
  Function *F = nullptr; Op op; std::string name; std::vector<unsigned> operandArgs; int tabArg = -1, sizeArg = -1, nbArg = -1, thrArg = -1; int64_t size = 2;
  bool destructive = false, low = false; // low: a function of the number or bound layer
  const DICompositeType *ST = nullptr;
  std::map<int64_t, std::string> fieldName; std::map<std::string, int64_t> fieldOff;
  std::vector<Root> roots; std::map<std::string, int> rootIx;
  std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI;
  std::map<const BasicBlock *, std::vector<const Value *>> live;
  std::unordered_set<std::string> seen; long steps = 0, ends = 0, checked = 0; bool gaveUp = false;
  int64_t cellSize = 0, itvSize = 0;
  struct Bad { std::string key, msg; DebugLoc loc; };
  std::map<std::string, Bad> bad; std::set<std::string> okKeys;
  std::map<std::string, DebugLoc> writes;

  Cells(Module &M, Types &T) : M(M), T(T), DL(M.getDataLayout()) {}

  int root(Root::K k, const std::string &n, int parent = -1, int64_t off = 0) {
    auto it = rootIx.find(n); if (it != rootIx.end()) return it->second;
    Root r; r.k = k; r.name = n; r.parent = parent; r.off = off; roots.push_back(r); return rootIx[n] = roots.size() - 1;
  }
  bool cellField(const std::string &f) const { return f == "m" || f == "closed" || f == "nsc" || f == "p"; }
  bool isSup(int64_t c) const { return itvSize ? (c % itvSize + itvSize) % itvSize != 0 : c != 0; }
  std::string group(int r, const Poly &p) const {
    const std::string &f = roots[r].field; if (f == "p") return isSup(p.cst()) ? "sup" : "inf"; return f == "closed" ? "m" : f;
  }
  static std::string base(StringRef n) { size_t p = n.rfind('.'); while (p != StringRef::npos && p + 1 < n.size() && n.substr(p + 1).find_first_not_of("0123456789") == StringRef::npos) { n = n.substr(0, p); p = n.rfind('.'); } return n.str(); }
  static bool prim(StringRef n) { if (n.contains("bound_of_scalar")) return true; return n.starts_with("bound_") && !n.starts_with("bound_bm") && !n.starts_with("bound_widening") && !n.starts_with("bound_badd") || n.starts_with("num_") || n.starts_with("numrat_") || n.starts_with("numflt_") || n.starts_with("numint_"); }
  static bool reduction(StringRef n) { return n.contains("cache_closure") || n.contains("hmat_close") || n.contains("hmat_s_step") || n.contains("hmat_check_closed"); }

  // ---------------------------------------------------------------- order facts
  std::string key(const std::string &a, const std::string &b) const { return a < b ? a + "|" + b : b + "|" + a; }
  int direct(const State &S, const std::string &a, const std::string &b) const {
    if (a == b) return E_;
    auto it = S.rel.find(key(a, b)); int m = it == S.rel.end() ? 7 : a < b ? it->second : flip(it->second);
    auto fa = S.inf.find(a), fb = S.inf.find(b);
    if (low) { // 1: +oo, 2: -oo, 3: infinite, 0: finite
      int x = fa == S.inf.end() ? -1 : fa->second, y = fb == S.inf.end() ? -1 : fb->second;
      if (x == 1) m &= (E_ | GT); if (x == 2) m &= (E_ | LT); if (y == 1) m &= (E_ | LT); if (y == 2) m &= (E_ | GT);
      if (!x && y == 1) m &= LT; if (!x && y == 2) m &= GT; if (!y && x == 1) m &= GT; if (!y && x == 2) m &= LT; if (x == y && (x == 1 || x == 2)) m &= E_;
      return m;
    }
    if (fa != S.inf.end() && fa->second) m &= (E_ | GT);
    if (fb != S.inf.end() && fb->second) m &= (E_ | LT);
    if (fa != S.inf.end() && !fa->second && fb != S.inf.end() && fb->second) m &= LT;
    if (fb != S.inf.end() && !fb->second && fa != S.inf.end() && fa->second) m &= GT;
    if (fa != S.inf.end() && fa->second && fb != S.inf.end() && fb->second) m &= E_;
    return m;
  }
  static int comp(int a, int b) { int r = 0; for (int x : {LT, E_, GT}) if (a & x) for (int y : {LT, E_, GT}) if (b & y) r |= x == E_ ? y : y == E_ ? x : x == y ? x : 7; return r; }
  int rel(const State &S, const std::string &a, const std::string &b) const {
    int m = direct(S, a, b); std::set<std::string> l;
    for (auto &x : S.rel) { size_t p = x.first.find('|'); l.insert(x.first.substr(0, p)); l.insert(x.first.substr(p + 1)); }
    for (auto &c : l) if (c != a && c != b) m &= comp(direct(S, a, c), direct(S, c, b));
    return m;
  }
  void setRel(State &S, const std::string &a, const std::string &b, int m) { if (a == b) return; S.rel[key(a, b)] = a < b ? m : flip(m); }

  // ---------------------------------------------------------------- values
  Sym get(const State &S, const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) return C->getBitWidth() <= 64 ? Sym::i(C->getSExtValue()) : Sym();
    if (isa<ConstantPointerNull>(V)) return Sym::null();
    if (auto *A = dyn_cast<Argument>(V)) return argSym(A);
    if (auto *G = dyn_cast<GlobalVariable>(V)) return Sym::ptr(root(Root::Ext, "g" + G->getName().str()));
    if (auto *CE = dyn_cast<ConstantExpr>(V)) { int64_t o; const Value *B = stripOffset(V, DL, o); if (B != V) { Sym s = get(S, B); if (s.k == Sym::Ptr) s.p.add(Poly::c(o)); return s; } }
    auto it = S.env.find(V); return it == S.env.end() ? Sym() : it->second;
  }
  Sym argSym(const Argument *A) {
    unsigned n = A->getArgNo();
    if ((int)n == sizeArg) return Sym::i(size);
    if ((int)n == nbArg) return Sym::i(1);
    if (!A->getType()->isPointerTy()) return Sym();
    int r = root(Root::Arg, "arg" + std::to_string(n));
    for (unsigned i = 0; i < operandArgs.size(); i++) if (operandArgs[i] == n) roots[r].operand = i;
    return Sym::ptr(r);
  }
  // content of memory at (r,p)
  Sym load(State &S, int r, const Poly &p, Type *Ty) {
    auto it = S.mem.find({r, p.str()}); if (it != S.mem.end()) return it->second;
    if (Ty->isIntegerTy()) {
      if (roots[r].operand >= 0 && roots[r].field.empty() && p.isConst()) { auto f = fieldName.find(p.cst()); if (f != fieldName.end()) return Sym::poly(Poly::atom(f->second)); }
      if (roots[r].name.find("algorithm") != std::string::npos) return Sym::i(0);
      return Sym();
    }
    if (!Ty->isPointerTy()) return Sym();
    if (!p.isConst()) return Sym();
    if (roots[r].k == Root::Fresh) return Sym();
    int v = 0; auto iv = S.ver.find(r); if (iv != S.ver.end()) v = iv->second;
    int n = root(Root::Init, roots[r].name + "." + std::to_string(p.cst()) + (v ? "#" + std::to_string(v) : ""), r, p.cst());
    if (tabArg >= 0 && roots[r].name == "arg" + std::to_string(tabArg)) { roots[n].operand = p.cst() / 8; return Sym::ptr(n); }
    if (roots[r].operand >= 0 && roots[r].field.empty()) { roots[n].operand = roots[r].operand; auto f = fieldName.find(p.cst()); roots[n].field = f == fieldName.end() ? "?" : f->second; }
    auto nn = S.nonnull.find(n); if (nn != S.nonnull.end() && !nn->second) return Sym::null();
    return Sym::ptr(n);
  }
  Val cell(State &S, const Sym &s) {
    if (s.k != Sym::Ptr) return Val();
    auto it = S.cells.find({s.root, s.p.str()}); if (it != S.cells.end()) return it->second;
    auto f = S.fill.find(s.root); if (f != S.fill.end()) return f->second;
    const Root &R = roots[s.root];
    if (low && R.k == Root::Arg && R.operand >= 0 && s.p.isConst() && !s.p.cst()) { Val v; v.k = Val::Label; v.op = R.operand; v.group = "v"; v.pos = "0"; v.root = s.root; return v; }
    if (R.operand >= 0 && cellField(R.field)) { Val v; v.k = Val::Label; v.op = R.operand; v.group = group(s.root, s.p); v.pos = s.p.str(); v.root = s.root; return v; }
    if (R.k == Root::Fresh) { Val v; v.k = Val::Undef; return v; }
    return Val();
  }
  void setCell(State &S, const Sym &s, const Val &v) { if (s.k == Sym::Ptr) { S.cells[{s.root, s.p.str()}] = v; } }

  // ---------------------------------------------------------------- loops
  // the value of V if it can be computed without executing further (used for bounds of loops)
  Sym ahead(State &S, const Value *V, int d = 0) {
    Sym s = get(S, V); if (s.k != Sym::Opaque || d > 8) return s;
    auto *I = dyn_cast<Instruction>(V); if (!I || S.env.count(V)) return s;
    if (auto *B = dyn_cast<BinaryOperator>(I)) return binop(B->getOpcode(), ahead(S, B->getOperand(0), d + 1), ahead(S, B->getOperand(1), d + 1));
    if (auto *C = dyn_cast<CastInst>(I)) return ahead(S, C->getOperand(0), d + 1);
    if (auto *L = dyn_cast<LoadInst>(I)) { Sym a = ahead(S, L->getPointerOperand(), d + 1); if (a.k == Sym::Ptr) return load(S, a.root, a.p, L->getType()); return s; }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) return gep(S, G, [&](const Value *v) { return ahead(S, v, d + 1); });
    return s;
  }
  Sym binop(unsigned o, const Sym &a, const Sym &b) {
    if (a.k != Sym::Int || b.k != Sym::Int) return Sym();
    Poly r = a.p;
    switch (o) {
    case Instruction::Add: r.add(b.p); return Sym::poly(r);
    case Instruction::Sub: r.add(b.p, -1); return Sym::poly(r);
    case Instruction::Mul: return Sym::poly(a.p.mul(b.p));
    case Instruction::Shl: if (b.p.isConst() && b.p.cst() < 40) return Sym::poly(a.p.mul(Poly::c(1ll << b.p.cst()))); break;
    case Instruction::Or: if (a.p.isConst() && b.p.isConst()) return Sym::i(a.p.cst() | b.p.cst()); if (b.p.isConst()) return Sym::poly(Poly::atom("or" + std::to_string(b.p.cst()) + "[" + a.p.str() + "]")); break;
    case Instruction::And: if (a.p.isConst() && b.p.isConst()) return Sym::i(a.p.cst() & b.p.cst()); break;
    case Instruction::Xor: if (a.p.isConst() && b.p.isConst()) return Sym::i(a.p.cst() ^ b.p.cst()); break;
    case Instruction::UDiv: case Instruction::SDiv: if (a.p.isConst() && b.p.isConst() && b.p.cst()) return Sym::i(a.p.cst() / b.p.cst()); break;
    }
    return Sym();
  }
  Sym gep(State &S, const GetElementPtrInst *G, const std::function<Sym(const Value *)> &ev) {
    Sym s = ev(G->getPointerOperand()); if (s.k != Sym::Ptr) return Sym();
    MapVector<Value *, APInt> vars; APInt c(64, 0);
    if (!cast<GEPOperator>(G)->collectOffset(DL, 64, vars, c)) return Sym();
    s.p.add(Poly::c(c.getSExtValue()));
    for (auto &x : vars) { Sym i = ev(x.first); if (i.k != Sym::Int) { i = Sym::poly(Poly::atom("v" + std::to_string((uintptr_t)x.first % 1000003))); } s.p.add(i.p, x.second.getSExtValue()); }
    return s;
  }
  // constant step of a phi of loop L, if any
  bool step(const Loop *L, const PHINode *P, int64_t &st, bool &walk) {
    walk = false; st = 0;
    const Value *lv = nullptr; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) if (L->contains(P->getIncomingBlock(i))) { if (lv && lv != P->getIncomingValue(i)) return false; lv = P->getIncomingValue(i); }
    if (!lv || lv == P) return false;
    if (P->getType()->isPointerTy()) {
      int64_t o; const Value *B = stripOffset(lv, DL, o); if (B == P) { st = o; return o != 0; }
      if (auto *Q = dyn_cast<PHINode>(B)) { // stepped by an inner loop
        const Loop *IL = LI->getLoopFor(Q->getParent()); if (IL && IL != L && L->contains(IL) && Q->getParent() == IL->getHeader()) {
          int64_t s2; bool w2; const Value *init = nullptr; for (unsigned i = 0; i < Q->getNumIncomingValues(); i++) if (!IL->contains(Q->getIncomingBlock(i))) init = Q->getIncomingValue(i);
          if (init == P && o == 0 && step(IL, Q, s2, w2) && !w2) { st = s2; walk = true; return true; } } }
      return false;
    }
    if (auto *B = dyn_cast<BinaryOperator>(lv)) {
      if (B->getOpcode() == Instruction::Add) { for (int k = 0; k < 2; k++) if (B->getOperand(k) == P) if (auto *C = dyn_cast<ConstantInt>(B->getOperand(1 - k))) { st = C->getSExtValue(); return true; } }
      if (B->getOpcode() == Instruction::Sub && B->getOperand(0) == P) if (auto *C = dyn_cast<ConstantInt>(B->getOperand(1))) { st = -C->getSExtValue(); return true; }
    }
    return false;
  }
  // is the number of iterations of L a constant (in the entry state)?
  bool concrete(State &S, const Loop *L, const BasicBlock *from) {
    SmallVector<BasicBlock *, 8> ex; L->getExitingBlocks(ex);
    for (auto *B : ex) {
      auto *Br = dyn_cast<BranchInst>(B->getTerminator()); if (!Br || !Br->isConditional()) continue;
      auto *C = dyn_cast<ICmpInst>(Br->getCondition()); if (!C) continue;
      for (int k = 0; k < 2; k++) {
        const Value *a = C->getOperand(k), *b = C->getOperand(1 - k); auto *P = dyn_cast<PHINode>(a);
        if (!P || P->getParent() != L->getHeader()) continue;
        int64_t st; bool w; if (!step(L, P, st, w) || w) continue;
        int ix = P->getBasicBlockIndex(from); if (ix < 0) continue;
        Sym s0 = get(S, P->getIncomingValue(ix)), e = ahead(S, b);
        if (s0.k != e.k || (s0.k != Sym::Int && s0.k != Sym::Ptr) || s0.root != e.root) continue;
        Poly n = e.p; n.add(s0.p, -1); if (n.isConst() && std::abs(n.cst() / st) <= 4) return true;
      }
    }
    return false;
  }
  // number of iterations of L as a polynomial, from the entry state
  bool count(State &S, const Loop *L, Poly &n, const BasicBlock *from, bool &down) {
    down = false;
    SmallVector<BasicBlock *, 8> ex; L->getExitingBlocks(ex);
    for (auto *B : ex) {
      auto *Br = dyn_cast<BranchInst>(B->getTerminator()); if (!Br || !Br->isConditional()) continue;
      auto *C = dyn_cast<ICmpInst>(Br->getCondition()); if (!C) continue;
      auto pr = C->getPredicate(); const Value *a = C->getOperand(0), *b = C->getOperand(1);
      if (!L->contains(Br->getSuccessor(0))) pr = CmpInst::getInversePredicate(pr);
      auto *P = dyn_cast<PHINode>(a); if (!P || P->getParent() != L->getHeader()) { P = dyn_cast<PHINode>(b); std::swap(a, b); pr = CmpInst::getSwappedPredicate(pr); if (!P || P->getParent() != L->getHeader()) continue; }
      int64_t st; bool w; if (!step(L, P, st, w) || w || !st) continue; bool pt = P->getType()->isPointerTy(); if (!pt && st != 1 && st != -1) continue;
      int ix = P->getBasicBlockIndex(from); if (ix < 0) continue;
      Sym s0 = get(S, P->getIncomingValue(ix)), e = ahead(S, b); if (s0.k != e.k || s0.k != (pt ? Sym::Ptr : Sym::Int) || s0.root != e.root) continue;
      n = e.p; n.add(s0.p, -1); { bool div = true; Poly q; for (auto &x : n.t) { if (x.second % st) div = false; q.t[x.first] = x.second / st; } if (!div) continue; n = q; }
      if (st < 0) {
        if (pr == CmpInst::ICMP_UGE || pr == CmpInst::ICMP_SGE) { n.add(Poly::c(1)); down = true; return true; }
        if (pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_SGT || pr == CmpInst::ICMP_NE) { down = true; return true; }
        continue;
      }
      if (pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_SLE) { n.add(Poly::c(1)); return true; }
      if (pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_NE) return true;
    }
    return false;
  }

  // ---------------------------------------------------------------- interpretation
  void liveness() {
    std::map<const BasicBlock *, std::set<const Value *>> in; bool ch = true;
    std::vector<const BasicBlock *> bs; for (auto &B : *F) bs.push_back(&B);
    while (ch) { ch = false; for (auto it = bs.rbegin(); it != bs.rend(); ++it) {
      auto *B = *it; std::set<const Value *> l;
      for (auto *s : successors(B)) { for (auto *v : in[s]) l.insert(v); for (auto &p : s->phis()) { l.erase(&p); auto *v = p.getIncomingValueForBlock(B); if (isa<Instruction>(v)) l.insert(v); } }
      for (auto i = B->rbegin(); i != B->rend(); ++i) { l.erase(&*i); if (!isa<PHINode>(*i)) for (auto &o : i->operands()) if (isa<Instruction>(o.get())) l.insert(o.get()); }
      for (auto &p : B->phis()) l.insert(&p);
      if (l != in[B]) { in[B] = l; ch = true; } } }
    for (auto &x : in) live[x.first] = std::vector<const Value *>(x.second.begin(), x.second.end());
  }
  std::string sig(const BasicBlock *B, const State &S) {
    std::string r = std::to_string((uintptr_t)B) + ";";
    for (auto *v : live[B]) { auto it = S.env.find(v); if (it != S.env.end() && it->second.k != Sym::Opaque) r += std::to_string((uintptr_t)v % 100000007) + "=" + it->second.str() + ";"; }
    for (auto &x : S.mem) if (x.second.k != Sym::Opaque) r += "m" + std::to_string(x.first.first) + x.first.second + x.second.str();
    for (auto &x : S.cells) r += "c" + std::to_string(x.first.first) + x.first.second + x.second.id();
    for (auto &x : S.fill) r += "f" + std::to_string(x.first) + x.second.id();
    for (auto &x : S.nonnull) r += "n" + std::to_string(x.first) + (x.second ? "+" : "-");
    for (auto &x : S.rel) r += x.first + std::to_string(x.second);
    for (auto &x : S.inf) r += "I" + x.first + std::to_string(x.second);
    for (auto &x : S.ci) r += "C" + x.first + std::to_string(x.second);
    for (auto &x : S.iter) r += "l" + std::to_string((uintptr_t)x.first % 100000007) + "." + std::to_string(x.second);
    for (int x : S.reduced) r += "r" + std::to_string(x);
    for (auto &x : S.fv) r += "F" + std::to_string((uintptr_t)x.first % 100000007) + x.second.id();
    r += S.other ? "o" : "";
    return r;
  }
  typedef std::pair<const BasicBlock *, State> Work;
  std::vector<std::pair<std::pair<const BasicBlock *, const BasicBlock *>, State>> todo;
  void push(const BasicBlock *from, const BasicBlock *to, State S) { todo.push_back({{from, to}, std::move(S)}); }

  // a comparison of two cells: split into -1, 0, 1
  void fork3(State &S, const Val &x, const Val &y, std::vector<std::pair<int, State>> &out) {
    for (int v : {-1, 0, 1}) {
      int m = v < 0 ? LT : v ? GT : E_; State N = S;
      if ((x.k == Val::Label || x.k == Val::Thr) && (y.k == Val::Label || y.k == Val::Thr)) { int a = rel(S, x.id(), y.id()); if (!(a & m)) continue; setRel(N, x.id(), y.id(), a & m); }
      else if (x.k == Val::Label && y.k == Val::Inf) { if (v > 0) continue; auto f = S.inf.find(x.id()); if (f != S.inf.end() && (f->second ? v != 0 : v == 0)) continue; N.inf[x.id()] = v == 0; }
      else if (y.k == Val::Label && x.k == Val::Inf) { if (v < 0) continue; auto f = S.inf.find(y.id()); if (f != S.inf.end() && (f->second ? v != 0 : v == 0)) continue; N.inf[y.id()] = v == 0; }
      else if (x.k == Val::Inf && y.k == Val::Inf && v) continue;
      out.push_back({v, std::move(N)});
    }
  }
  static Val V(Val::K k) { Val v; v.k = k; return v; }
  // outcomes of a call: (result, state)
  void call(const CallBase *CB, State S, std::vector<std::pair<Sym, State>> &out) {
    const Function *G = CB->getCalledFunction(); std::string n = G ? base(G->getName()) : "";
    auto arg = [&](unsigned i) { return get(S, CB->getArgOperand(i)); };
    if (auto *I = dyn_cast<IntrinsicInst>(CB)) {
      if (low && (n.find("llvm.maxnum") == 0 || n.find("llvm.minnum") == 0)) { lowCall(CB, n[6] == 'a' ? "fmax" : "fmin", std::move(S), out); return; }
      if (auto *MT = dyn_cast<MemTransferInst>(I)) { Sym d = get(S, MT->getDest()), s = get(S, MT->getSource()), l = get(S, MT->getLength()); copyRange(S, d, s, l); }
      out.push_back({Sym(), std::move(S)}); return;
    }
    if (n == "malloc" || n == "calloc" || n == "realloc") {
      int k = 0; std::string nm; auto used = [&](const std::string &s) { auto it = rootIx.find(s); if (it == rootIx.end()) return false; int r = it->second; for (auto &x : S.mem) if (x.first.first == r || (x.second.k == Sym::Ptr && x.second.root == r)) return true; for (auto &x : S.cells) if (x.first.first == r) return true; for (auto &x : S.env) if (x.second.k == Sym::Ptr && x.second.root == r) return true; return false; };
      do nm = "new" + std::to_string((uintptr_t)CB) + "." + std::to_string(k++); while (used(nm) && k < 6);
      int r = root(Root::Fresh, nm); out.push_back({Sym::ptr(r), std::move(S)}); return;
    }
    if (low && lowPrim(n)) { lowCall(CB, n, std::move(S), out); return; }
    if (prim(n)) { primitive(CB, n, std::move(S), out); return; }
    if (reduction(n)) {
      for (auto &a : CB->args()) { Sym s = get(S, a); if (s.k != Sym::Ptr) continue; if (roots[s.root].operand >= 0 && roots[s.root].field.empty()) { S.ver[s.root]++; for (auto it = S.mem.begin(); it != S.mem.end();) if (it->first.first == s.root && it->second.k == Sym::Ptr) it = S.mem.erase(it); else ++it; } else if (s.p.isConst() || true) S.reduced.insert(s.root); }
      out.push_back({Sym(), std::move(S)}); return;
    }
    bool quiet = n.find("free") == 0 || n.find("printf") != std::string::npos || n.find("raise_exception") != std::string::npos || n.find("init_from_manager") != std::string::npos || n.find("__assert") == 0;
    if (!quiet) for (auto &a : CB->args()) { Sym s = get(S, a); if (s.k != Sym::Ptr) continue; const Root &R = roots[s.root]; bool cells = (R.operand >= 0 && cellField(R.field)); if (R.k == Root::Fresh) cells = true; if (cells) { for (auto &c : S.cells) if (c.first.first == s.root) c.second = Val(); S.fill[s.root] = Val(); } }
    if (CB->doesNotReturn()) return;
    if (CB->getType()->isPointerTy()) { int r = root(Root::Ext, "ext" + std::to_string((uintptr_t)CB)); out.push_back({Sym::ptr(r), std::move(S)}); }
    else out.push_back({Sym(), std::move(S)});
  }
  void copyRange(State &S, const Sym &d, const Sym &s, const Sym &len) { // len bytes
    if (d.k != Sym::Ptr || s.k != Sym::Ptr || len.k != Sym::Int || !cellSize) { if (d.k == Sym::Ptr) S.fill[d.root] = Val(); return; }
    bool div = true; Poly n; for (auto &x : len.p.t) { if (x.second % cellSize) div = false; else n.t[x.first] = x.second / cellSize; }
    if (!div) { return; }
    range(S, d, s, n);
  }
  void range(State &S, const Sym &d, const Sym &s, const Poly &n) {
    Poly at; if (!(n.isConst() && n.cst() == 1)) at = Poly::atom("#[" + n.str() + "]").mul(Poly::c(cellSize));
    Sym d2 = d, s2 = s; d2.p.add(at); s2.p.add(at); setCell(S, d2, cell(S, s2));
  }
  static bool lowPrim(StringRef n) { n.consume_front("__g"); n.consume_front("bound_") || n.consume_front("num_") || n.consume_front("numrat_") || n.consume_front("numflt_") || n.consume_front("numint_") || n.consume_front("mpq_") || n.consume_front("mpz_") || n.consume_front("mpfr_"); return n == "set" || n == "cmp" || n == "infty" || n == "sgn" || n == "max" || n == "min" || n == "fmax" || n == "fmin" || n == "fmaxl" || n == "fminl"; }
  static std::string tail(StringRef n) { size_t p = n.rfind('_'); return (p == StringRef::npos ? n : n.substr(p + 1)).str(); }
  void lowCall(const CallBase *CB, const std::string &n, State S, std::vector<std::pair<Sym, State>> &out) {
    auto arg = [&](unsigned i) { return get(S, CB->getArgOperand(i)); };
    std::string t = tail(n);
    if (n[0] == 'f') { // fmin, fmax
      Val x = fval(S, CB->getArgOperand(0)), y = fval(S, CB->getArgOperand(1)); bool mx = n[2] == 'a'; std::vector<std::pair<int, State>> fs; fork3(S, x, y, fs);
      for (auto &f : fs) { f.second.fv[CB] = (mx ? f.first >= 0 : f.first <= 0) ? x : y; out.push_back({Sym(), std::move(f.second)}); } return;
    }
    if (t == "set") { setCell(S, arg(0), cell(S, arg(1))); out.push_back({Sym(), std::move(S)}); return; }
    if (t == "cmp") { Val x = cell(S, arg(0)), y = cell(S, arg(1)); std::vector<std::pair<int, State>> fs; fork3(S, x, y, fs); for (auto &f : fs) out.push_back({Sym::i(f.first), std::move(f.second)}); return; }
    if (t == "max" || t == "min") { Val x = cell(S, arg(1)), y = cell(S, arg(2)); bool mx = t == "max"; std::vector<std::pair<int, State>> fs; fork3(S, x, y, fs); for (auto &f : fs) { setCell(f.second, arg(0), (mx ? f.first >= 0 : f.first <= 0) ? x : y); out.push_back({Sym(), std::move(f.second)}); } return; }
    Val x = cell(S, arg(0));
    if (x.k != Val::Label) { out.push_back({Sym(), std::move(S)}); return; }
    auto f = S.inf.find(x.id()); int cur = f == S.inf.end() ? -1 : f->second;
    if (t == "infty") { for (int v : {0, 3}) { if (cur >= 0 && (cur == 0) != (v == 0)) continue; State N = S; if (cur < 0) N.inf[x.id()] = v; if (!consistent(N, x.id())) continue; out.push_back({Sym::i(v != 0), std::move(N)}); } return; }
    // sgn
    for (int v : {-1, 0, 1}) { if ((cur == 1 && v != 1) || (cur == 2 && v != -1) || (cur == 3 && !v)) continue; State N = S; if (cur == 3) N.inf[x.id()] = v > 0 ? 1 : 2; if (!consistent(N, x.id())) continue; out.push_back({Sym::i(v), std::move(N)}); }
  }
  Val fval(State &S, const Value *v) { auto it = S.fv.find(v); if (it != S.fv.end()) return it->second; Val r; if (isa<ConstantFP>(v)) r.k = Val::Computed; return r; }
  void primitive(const CallBase *CB, const std::string &n, State S, std::vector<std::pair<Sym, State>> &out) {
    auto arg = [&](unsigned i) { return get(S, CB->getArgOperand(i)); };
    auto none = [&](State N) { out.push_back({Sym(), std::move(N)}); };
    if (n == "bound_set" || n == "bound_init_set") { setCell(S, arg(0), cell(S, arg(1))); none(std::move(S)); return; }
    if (n == "bound_set_infty" || n == "bound_init_set_infty") { Sym g = arg(1); setCell(S, arg(0), g.k == Sym::Int && g.p.isConst() && g.p.cst() > 0 ? V(Val::Inf) : V(Val::Computed)); none(std::move(S)); return; }
    if (n == "bound_max" || n == "bound_min") {
      Val x = cell(S, arg(1)), y = cell(S, arg(2)); Sym d = arg(0); bool mx = n == "bound_max";
      if (x.k == Val::Unknown || y.k == Val::Unknown) { setCell(S, d, V(Val::Unknown)); none(std::move(S)); return; }
      if ((x.k != Val::Label && x.k != Val::Inf) || (y.k != Val::Label && y.k != Val::Inf)) { setCell(S, d, V(Val::Computed)); none(std::move(S)); return; }
      std::vector<std::pair<int, State>> fs; fork3(S, x, y, fs); for (auto &f : fs) { setCell(f.second, d, (mx ? f.first >= 0 : f.first <= 0) ? x : y); none(std::move(f.second)); }
      return;
    }
    if (n == "bound_cmp") { Val x = cell(S, arg(0)), y = cell(S, arg(1)); std::vector<std::pair<int, State>> fs; fork3(S, x, y, fs); for (auto &f : fs) out.push_back({Sym::i(f.first), std::move(f.second)}); return; }
    if (n == "bound_equal") { Val x = cell(S, arg(0)), y = cell(S, arg(1)); std::vector<std::pair<int, State>> fs; fork3(S, x, y, fs); for (auto &f : fs) out.push_back({Sym::i(f.first == 0), std::move(f.second)}); return; }
    if (n == "bound_infty") {
      Val x = cell(S, arg(0)); if (x.k == Val::Inf) { out.push_back({Sym::i(1), std::move(S)}); return; }
      for (int v : {0, 1}) { State N = S; if (x.k == Val::Label) { auto f = S.inf.find(x.id()); if (f != S.inf.end() && f->second != v) continue; N.inf[x.id()] = v; if (!consistent(N, x.id())) continue; } out.push_back({Sym::i(v), std::move(N)}); }
      return;
    }
    if (n == "bound_cmp_int") {
      Val x = cell(S, arg(0)); Sym k = arg(1);
      if (x.k == Val::Label && k.k == Sym::Int && k.p.isConst() && k.p.cst() == -1 && roots[x.root].field == "p") { for (int v : {-1, 0, 1}) { auto f = S.ci.find(x.id()); if (f != S.ci.end() && f->second != v) continue; State N = S; N.ci[x.id()] = v; out.push_back({Sym::i(v), std::move(N)}); } return; }
      S.other = true; out.push_back({Sym(), std::move(S)}); return;
    }
    if (n == "bound_set_array" || n == "bound_init_set_array" || n == "bound_init_array") {
      Sym d = arg(0), c = get(S, CB->getArgOperand(CB->arg_size() - 1));
      if (n == "bound_init_array") { if (d.k == Sym::Ptr) S.fill[d.root] = V(Val::Undef); }
      else if (d.k == Sym::Ptr) { Sym s = arg(1); if (c.k == Sym::Int && cellSize) range(S, d, s, c.p); else S.fill[d.root] = Val(); }
      none(std::move(S)); return;
    }
    if (n == "bound_swap") { Val x = cell(S, arg(0)), y = cell(S, arg(1)); setCell(S, arg(0), y); setCell(S, arg(1), x); none(std::move(S)); return; }
    if (n == "bound_init") { Sym d = arg(0); if (d.k == Sym::Ptr) { if (S.cells.count({d.root, d.p.str()})) setCell(S, d, V(Val::Undef)); S.fill[d.root] = V(Val::Undef); } none(std::move(S)); return; }
    if (n.find("_clear") != std::string::npos || n.find("print") != std::string::npos || n.find("_sgn") != std::string::npos || n.find("hash") != std::string::npos || n.find("_cmp") != std::string::npos || n.find("_equal") != std::string::npos || n.find("integer") != std::string::npos) { none(std::move(S)); return; }
    // anything else computes its first argument
    if (CB->arg_size() && CB->getArgOperand(0)->getType()->isPointerTy()) setCell(S, arg(0), V(Val::Computed));
    if (n.find("_of_scalar") != std::string::npos || n.find("scalar") != std::string::npos) for (auto &a : CB->args()) { Sym s = get(S, a); if (s.k == Sym::Ptr && roots[s.root].k == Root::Init) { for (auto &b : CB->args()) { Sym q = get(S, b); if (q.k == Sym::Ptr && cellish(S, q)) setCell(S, q, V(Val::Thr)); } } }
    none(std::move(S));
  }
  bool cellish(State &, const Sym &s) { return roots[s.root].operand < 0; }
  bool consistent(const State &S, const std::string &a) { for (auto &x : S.rel) { size_t p = x.first.find('|'); std::string l = x.first.substr(0, p), r = x.first.substr(p + 1); if (l == a || r == a) if (!rel(S, l, r)) return false; } return true; }

  void run(const BasicBlock *from, const BasicBlock *B, State S) {
    // entering B from `from`
    const Loop *L = LI->getLoopFor(B); bool header = L && L->getHeader() == B;
    if (from) for (auto it = S.iter.begin(); it != S.iter.end();) if (!it->first->contains(B)) { S.conc.erase(it->first); S.atom.erase(it->first); it = S.iter.erase(it); } else ++it;
    std::map<const Value *, Sym> np;
    bool force = false;
    if (header && from) {
      bool back = L->contains(from);
      if (!back) {
        S.iter[L] = 0; Poly c; bool down, known = count(S, L, c, from, down); if (known && down) { S.back[L] = c; S.back[L].add(Poly::c(1), -1); } else S.back.erase(L); S.conc[L] = (known && c.isConst()) || concrete(S, L, from);
        if (!S.conc[L]) { std::string a = known ? "#[" + c.str() + "]" : "#?" + std::to_string((uintptr_t)L % 1000003);
          int dup = 0; for (auto &x : S.atom) if (x.first != L && x.first->contains(B) && x.second.substr(0, a.size()) == a) dup++; if (dup) a += "'" + std::to_string(dup); S.atom[L] = a; }
      } else S.iter[L]++;
      if (S.iter[L] > (S.conc[L] ? 6 : 1)) return;
      for (auto &p : B->phis()) {
        int64_t st; bool walk; Sym in = get(S, p.getIncomingValueForBlock(from));
        if (!S.conc[L] && step(L, &p, st, walk)) {
          if (back) { np[&p] = get(S, &p); continue; }
          if ((in.k == Sym::Int && !p.getType()->isPointerTy()) || in.k == Sym::Ptr) { Poly a = Poly::atom((walk ? "W" : "") + S.atom[L]); auto bk = S.back.find(L); if (bk != S.back.end()) { Poly q = bk->second; q.add(a, -1); a = q; } in.p.add(a, st); np[&p] = in; continue; }
          np[&p] = Sym(); continue;
        }
        np[&p] = in;
      }
      force = !S.conc[L];
    } else if (from) for (auto &p : B->phis()) np[&p] = get(S, p.getIncomingValueForBlock(from));
    if (low && from) { std::map<const Value *, Val> nf; for (auto &p : B->phis()) { auto it = S.fv.find(p.getIncomingValueForBlock(from)); if (it != S.fv.end()) nf[&p] = it->second; } for (auto &x : nf) S.fv[x.first] = x.second; }
    for (auto &x : np) S.env[x.first] = x.second;
    if (++steps > 400000) { gaveUp = true; return; }
    if (!seen.insert(sig(B, S)).second) return;
    exec(B, B->getFirstNonPHI(), std::move(S));
  }
  void exec(const BasicBlock *B, const Instruction *I, State S) {
    while (true) {
      if (auto *P = dyn_cast<DbgInfoIntrinsic>(I)) { (void)P; I = I->getNextNode(); continue; }
      if (auto *CB = dyn_cast<CallBase>(I)) {
        const Function *G = CB->getCalledFunction();
        if (G && prim(base(G->getName()))) { Sym d = CB->arg_size() ? get(S, CB->getArgOperand(0)) : Sym(); if (d.k == Sym::Ptr && CB->getDebugLoc()) writes[std::to_string(d.root)] = CB->getDebugLoc(); }
        std::vector<std::pair<Sym, State>> out; call(CB, std::move(S), out);
        if (out.empty()) return;
        for (size_t i = 1; i < out.size(); i++) { if (!CB->getType()->isVoidTy()) out[i].second.env[CB] = out[i].first; exec(B, I->getNextNode(), out[i].second); if (gaveUp) return; }
        S = std::move(out[0].second); if (!CB->getType()->isVoidTy()) S.env[CB] = out[0].first;
        I = I->getNextNode(); continue;
      }
      if (I->isTerminator()) { term(B, I, std::move(S)); return; }
      if (auto *A = dyn_cast<AllocaInst>(I)) S.env[I] = Sym::ptr(root(Root::Fresh, "stack" + std::to_string((uintptr_t)A)));
      else if (auto *G = dyn_cast<GetElementPtrInst>(I)) { S.env[I] = gep(S, G, [&](const Value *v) { return get(S, v); }); }
      else if (low && isa<LoadInst>(I) && I->getType()->isFloatingPointTy()) S.fv[I] = cell(S, get(S, cast<LoadInst>(I)->getPointerOperand()));
      else if (low && isa<StoreInst>(I) && cast<StoreInst>(I)->getValueOperand()->getType()->isFloatingPointTy()) setCell(S, get(S, cast<StoreInst>(I)->getPointerOperand()), fval(S, I->getOperand(0)));
      else if (low && isa<LoadInst>(I) && I->getType()->isIntegerTy(64)) { S.fv[I] = cell(S, get(S, cast<LoadInst>(I)->getPointerOperand())); S.env[I] = Sym(); }
      else if (low && isa<StoreInst>(I) && S.fv.count(cast<StoreInst>(I)->getValueOperand())) setCell(S, get(S, cast<StoreInst>(I)->getPointerOperand()), fval(S, I->getOperand(0)));
      else if (low && isa<CmpInst>(I) && S.fv.count(I->getOperand(0)) && S.fv.count(I->getOperand(1))) {
        std::vector<std::pair<int, State>> fs; fork3(S, fval(S, I->getOperand(0)), fval(S, I->getOperand(1)), fs); if (fs.empty()) return;
        auto pr = cast<CmpInst>(I)->getPredicate(); auto ev = [&](int v) { switch (pr) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: case CmpInst::ICMP_EQ: return v == 0; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: case CmpInst::ICMP_NE: return v != 0; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: case CmpInst::ICMP_SLT: return v < 0; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: case CmpInst::ICMP_SLE: return v <= 0; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: case CmpInst::ICMP_SGT: return v > 0; default: return v >= 0; } };
        for (size_t i = 1; i < fs.size(); i++) { fs[i].second.env[I] = Sym::i(ev(fs[i].first)); exec(B, I->getNextNode(), fs[i].second); if (gaveUp) return; }
        S = std::move(fs[0].second); S.env[I] = Sym::i(ev(fs[0].first));
      }
      else if (auto *Ld = dyn_cast<LoadInst>(I)) {
        Sym a = get(S, Ld->getPointerOperand()), r; if (a.k == Sym::Ptr) r = load(S, a.root, a.p, Ld->getType());
        if (r.k == Sym::Opaque && Ld->getType()->isIntegerTy()) { const Value *b; std::string f; if (T.fieldOf(Ld->getPointerOperand(), b, f) && StringRef(f).ends_with(".algorithm")) r = Sym::i(0); }
        S.env[I] = r;
      } else if (auto *St = dyn_cast<StoreInst>(I)) {
        Sym a = get(S, St->getPointerOperand()); if (a.k == Sym::Ptr) { S.mem[{a.root, a.p.str()}] = get(S, St->getValueOperand()); }
      } else if (auto *C = dyn_cast<CastInst>(I)) {
        Sym s = get(S, C->getOperand(0)); if (s.k == Sym::Int && s.p.isConst()) { if (isa<ZExtInst>(C)) { unsigned w = C->getOperand(0)->getType()->getIntegerBitWidth(); if (w < 64) s = Sym::i(s.p.cst() & ((1ll << w) - 1)); } else if (isa<TruncInst>(C) && C->getType()->isIntegerTy(1)) s = Sym::i(s.p.cst() & 1); }
        S.env[I] = s;
      } else if (auto *Bo = dyn_cast<BinaryOperator>(I)) {
        Sym a = get(S, Bo->getOperand(0)), b = get(S, Bo->getOperand(1));
        if (I->getType()->isIntegerTy(1) && (a.k != Sym::Int || b.k != Sym::Int)) { Sym r; for (auto *x : {&a, &b}) if (x->k == Sym::Int && x->p.isConst()) { bool t = x->p.cst() & 1; if (Bo->getOpcode() == Instruction::And && !t) r = Sym::i(0); if (Bo->getOpcode() == Instruction::Or && t) r = Sym::i(1); } S.env[I] = r; }
        else { Sym r = binop(Bo->getOpcode(), a, b); if (I->getType()->isIntegerTy(1) && r.k == Sym::Int && r.p.isConst()) r = Sym::i(r.p.cst() & 1); S.env[I] = r; }
      } else if (auto *C = dyn_cast<ICmpInst>(I)) {
        const Value *x = C->getOperand(0), *y = C->getOperand(1); Sym a = get(S, x), b = get(S, y); Sym r;
        for (auto *q : {&a, &b}) { Sym &o = q == &a ? b : a; if (q->k == Sym::Int && q->p.isConst() && !q->p.cst() && (o.k == Sym::Ptr || o.k == Sym::Null)) *q = Sym::null(); }
        auto nullness = [&](const Sym &s) { if (s.k == Sym::Null) return 0; if (s.k != Sym::Ptr) return -1; const Root &R = roots[s.root]; if (R.k == Root::Init) { auto it = S.nonnull.find(s.root); if (it == S.nonnull.end()) return 2; return it->second ? 1 : 0; } if (R.k == Root::Ext) return -1; return 1; };
        if (C->isEquality() && (x->getType()->isPointerTy() || a.k == Sym::Null || b.k == Sym::Null)) {
          bool eq = C->getPredicate() == CmpInst::ICMP_EQ; const Sym *q = b.k == Sym::Null ? &a : a.k == Sym::Null ? &b : nullptr;
          if (q) {
            int n = nullness(*q);
            if (n == 2) { State N = S; N.nonnull[q->root] = false; N.env[I] = Sym::i(eq); fixNull(N, q->root); exec(B, I->getNextNode(), std::move(N)); if (gaveUp) return; S.nonnull[q->root] = true; S.env[I] = Sym::i(!eq); I = I->getNextNode(); continue; }
            if (n >= 0) r = Sym::i((n == 0) == eq);
          } else if (a.k == Sym::Ptr && b.k == Sym::Ptr) { if (a.root == b.root) { Poly d = a.p; d.add(b.p, -1); if (d.isConst()) r = Sym::i((d.cst() == 0) == eq); } else if (roots[a.root].k != Root::Ext && roots[b.root].k != Root::Ext) r = Sym::i(!eq); }
        } else if ((a.k == Sym::Int && b.k == Sym::Int) || (a.k == Sym::Ptr && b.k == Sym::Ptr && a.root == b.root)) {
          Poly d = a.p; d.add(b.p, -1);
          if (d.isConst()) {
            int64_t v = d.cst(); bool c = a.p.isConst() && b.p.isConst(); int64_t u = a.p.cst(), w = b.p.cst();
            switch (C->getPredicate()) {
            case CmpInst::ICMP_EQ: r = Sym::i(v == 0); break; case CmpInst::ICMP_NE: r = Sym::i(v != 0); break;
            case CmpInst::ICMP_SLT: r = Sym::i(v < 0); break; case CmpInst::ICMP_SLE: r = Sym::i(v <= 0); break;
            case CmpInst::ICMP_SGT: r = Sym::i(v > 0); break; case CmpInst::ICMP_SGE: r = Sym::i(v >= 0); break;
            case CmpInst::ICMP_ULT: if (c) r = Sym::i((uint64_t)u < (uint64_t)w); else r = Sym::i(v < 0); break; case CmpInst::ICMP_ULE: if (c) r = Sym::i((uint64_t)u <= (uint64_t)w); else r = Sym::i(v <= 0); break;
            case CmpInst::ICMP_UGT: if (c) r = Sym::i((uint64_t)u > (uint64_t)w); else r = Sym::i(v > 0); break; case CmpInst::ICMP_UGE: if (c) r = Sym::i((uint64_t)u >= (uint64_t)w); else r = Sym::i(v >= 0); break;
            default: break;
            }
          }
        }
        S.env[I] = r;
      } else if (auto *Se = dyn_cast<SelectInst>(I)) {
        Sym c = get(S, Se->getCondition()); if (c.k == Sym::Int && c.p.isConst()) { const Value *w = c.p.cst() & 1 ? Se->getTrueValue() : Se->getFalseValue(); S.env[I] = get(S, w); if (low && S.fv.count(w)) S.fv[I] = fval(S, w); }
        else { State N = S; N.env[I] = get(S, Se->getTrueValue()); exec(B, I->getNextNode(), std::move(N)); if (gaveUp) return; S.env[I] = get(S, Se->getFalseValue()); }
      } else if (isa<FreezeInst>(I)) S.env[I] = get(S, I->getOperand(0));
      else if (!I->getType()->isVoidTy()) S.env[I] = Sym();
      I = I->getNextNode();
    }
  }
  void fixNull(State &S, int r) { for (auto &x : S.env) if (x.second.k == Sym::Ptr && x.second.root == r) x.second = Sym::null(); for (auto &x : S.mem) if (x.second.k == Sym::Ptr && x.second.root == r) x.second = Sym::null(); }
  void term(const BasicBlock *B, const Instruction *I, State S) {
    if (auto *R = dyn_cast<ReturnInst>(I)) { ends++; finish(S, R->getReturnValue() ? get(S, R->getReturnValue()) : Sym(), R); return; }
    if (auto *Br = dyn_cast<BranchInst>(I)) {
      if (!Br->isConditional()) { run(B, Br->getSuccessor(0), std::move(S)); return; }
      Sym c = get(S, Br->getCondition());
      if (c.k == Sym::Int && c.p.isConst()) { run(B, Br->getSuccessor(c.p.cst() & 1 ? 0 : 1), std::move(S)); return; }
      const Loop *L = LI->getLoopFor(B);
      if (L && L->getHeader() == B && S.iter.count(L) && !S.conc[L]) { // generic loop: exactly one iteration
        bool i0 = L->contains(Br->getSuccessor(0)), i1 = L->contains(Br->getSuccessor(1));
        if (i0 != i1) { bool in = S.iter[L] == 0; run(B, Br->getSuccessor((i0 == in) ? 0 : 1), std::move(S)); return; }
      }
      State N = S; run(B, Br->getSuccessor(0), std::move(N)); if (!gaveUp) run(B, Br->getSuccessor(1), std::move(S)); return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(I)) {
      Sym c = get(S, Sw->getCondition()); std::set<const BasicBlock *> done;
      if (c.k == Sym::Int && c.p.isConst()) { for (auto &k : Sw->cases()) if (k.getCaseValue()->getSExtValue() == c.p.cst()) { run(B, k.getCaseSuccessor(), std::move(S)); return; } run(B, Sw->getDefaultDest(), std::move(S)); return; }
      for (unsigned i = 0; i < Sw->getNumSuccessors(); i++) if (done.insert(Sw->getSuccessor(i)).second) { State N = S; run(B, Sw->getSuccessor(i), std::move(N)); if (gaveUp) return; }
    }
  }

  // ---------------------------------------------------------------- judging the end of a path
  State *cur = nullptr;
  void fail(const std::string &k, const std::string &m, const DebugLoc &loc) { if (getenv("APA_CELLS")) errs() << "  " << k << ": " << m << "\n"; if (getenv("APA_CELLS") && cur && !bad.count(k)) { State &S = *cur; for (auto &x : S.cells) errs() << "    cell " << roots[x.first.first].name << " " << x.first.second << " = " << x.second.id() << "\n"; for (auto &x : S.nonnull) errs() << "    " << roots[x.first].name << (x.second ? " set" : " null") << "\n"; for (auto &x : S.rel) errs() << "   " << x.first << "=" << x.second << "\n"; for (auto &x : S.inf) errs() << "   inf " << x.first << "=" << x.second << "\n"; for (auto &x : S.ci) errs() << "   ci " << x.first << "=" << x.second << "\n"; for (auto &x : S.mem) errs() << "    mem " << roots[x.first.first].name << " " << x.first.second << " = " << x.second.str() << "\n"; } if (!bad.count(k)) bad[k] = {k, m, loc}; }
  std::string opn(int o) { return tabArg >= 0 ? "argument number " + std::to_string(o) : o == 0 ? "the first argument" : "the second argument"; }
  std::string show(const Val &v) { if (v.k == Val::Label) return "the " + v.group + " bound of " + opn(v.op); return v.k == Val::Inf ? "+oo" : v.k == Val::Thr ? "a threshold" : v.k == Val::Computed ? "a computed bound" : v.k == Val::Undef ? "an unset bound" : "an unknown bound"; }
  int opStruct(State &, int o) { for (size_t i = 0; i < roots.size(); i++) if (roots[i].operand == o && roots[i].field.empty()) return i; return -1; }
  bool hinted(State &S, int o) { // some block of the operand is known to be absent
    int sr = opStruct(S, o); if (sr < 0) return false;
    for (auto &f : fieldOff) if (f.first == "m" || f.first == "closed" || f.first == "p") { Sym s = initField(S, sr, f.second); if (s.k == Sym::Null) return true; }
    return false;
  }
  // 1 known empty, 0 known non-empty, -1 unknown
  int emptyOf(State &S, int o) {
    int sr = opStruct(S, o); if (sr < 0) return -1; bool all = true; bool any = false;
    for (auto &f : fieldOff) if (f.first == "m" || f.first == "closed" || f.first == "p") {
      Sym s = initField(S, sr, f.second); int n = -1;
      if (s.k == Sym::Null) n = 0; else if (s.k == Sym::Ptr && roots[s.root].k == Root::Init) { auto it = S.nonnull.find(s.root); if (it != S.nonnull.end()) n = it->second; }
      if (n == 1) any = true; if (n != 0) all = false;
    }
    return all ? 1 : any ? 0 : -1;
  }
  Sym initField(State &S, int sr, int64_t off) { // the field's value before the operation changed it
    int v = 0; auto iv = S.ver.find(sr); if (iv != S.ver.end()) v = iv->second;
    auto it = rootIx.find(roots[sr].name + "." + std::to_string(off) + (v ? "#" + std::to_string(v) : "")); if (it == rootIx.end()) return Sym();
    auto nn = S.nonnull.find(it->second); if (nn != S.nonnull.end() && !nn->second) return Sym::null();
    return Sym::ptr(it->second);
  }
  bool intervalEmpty(State &S, int o, const std::string &pos) { // both bounds equal -1 at this position
    int n = 0; for (auto &x : S.ci) if (x.second == 0 && x.first.substr(0, x.first.find(':')) == std::to_string(o)) n++; return n >= 2; (void)pos;
  }
  // the join of two intervals that are not empty is not recognised as empty: bounds of different operands that both equal -1
  bool mixedEmpty(State &S) {
    std::set<char> a, b; for (auto &x : S.ci) if (x.second == 0) (x.first.find(":inf@") != std::string::npos ? a : b).insert(x.first[0]);
    for (char x : a) for (char y : b) if (x != y && !b.count(x) && !a.count(y)) return true;
    return false;
  }
  bool intervalNotEmpty(State &S, int o) { for (auto &x : S.ci) if (x.second != 0 && x.first.substr(0, x.first.find(':')) == std::to_string(o)) return true; return false; }
  std::string lab(int o, const std::string &g, const std::string &p) { return std::to_string(o) + ":" + g + "@" + p; }
  static std::string sib(const std::string &g) { return g; }
  bool lexBad(State &S, int a, int b, const std::string &g, const std::string &p, int badDir) { // may a's bound be on the bad side of b's?
    if (g == "nsc") { int m = rel(S, lab(a, "m", p), lab(b, "m", p)), n = rel(S, lab(a, g, p), lab(b, g, p)); if (m & badDir) return true; if (m & E_) { auto f = S.inf.find(lab(a, "m", p)), f2 = S.inf.find(lab(b, "m", p)); if ((f != S.inf.end() && f->second) || (f2 != S.inf.end() && f2->second)) return false; return n & badDir; } return false; }
    return rel(S, lab(a, g, p), lab(b, g, p)) & badDir;
  }
  std::string expected() { StringRef n = ST->getName(); auto d = Poly::atom("dim"); if (n.contains("oct_t")) { Poly p = d.mul(d).mul(Poly::c(2)); p.add(d, 2); return p.str(); } if (n.contains("avo_t")) { Poly p = d.mul(d).mul(Poly::c(8)); p.add(d, 4); return p.str(); } Poly p = Poly::atom("intdim"); p.add(Poly::atom("realdim")); return p.str(); }
  static int64_t constOf(const std::string &p) { size_t q = p.find('+'); std::string c = p.substr(0, q); return c.find('.') == std::string::npos ? atoll(c.c_str()) : 0; }
  // does the position run over the whole value?
  void coverage(const std::string &pos, const DebugLoc &loc) {
    size_t a = pos.find("#["); if (a == std::string::npos || pos.find("#?") != std::string::npos) return;
    size_t e = a + 1; int dep = 0; for (; e < pos.size(); e++) { if (pos[e] == '[') dep++; if (pos[e] == ']' && !--dep) break; }
    std::string n = pos.substr(a + 2, e - a - 2); std::string w = pos.substr(0, a);
    if (pos.find("#[", e) != std::string::npos || StringRef(w).ends_with("W") || n.find("or1") != std::string::npos) { // half-matrix walk
      size_t q = pos.find("W#["); if (q == std::string::npos) return; std::string o = pos.substr(q + 3, pos.find(']', q) - q - 3);
      std::string full = ST->getName().contains("avo") ? "4.dim" : "2.dim"; std::string inner = "1+1.or1[1.#[" + o + "]]";
      bool ok = o == full && pos.find("#[" + inner + "]") != std::string::npos;
      if (!ok && n.find("#?") != std::string::npos) return;
      if (!ok) fail("coverage", "the loops visit " + o + " lines of the matrix, which has " + full, loc); else okKeys.insert("coverage");
      return;
    }
    if (n.find("#") != std::string::npos || n.find("or") != std::string::npos || n.find('v') != std::string::npos || n.find('W') != std::string::npos) return;
    if (n != expected()) fail("coverage", "the loop visits " + n + " positions, the value has " + expected(), loc); else okKeys.insert("coverage");
  }
  std::set<std::string> positions(State &S, const std::string &g) {
    std::set<std::string> r; auto add = [&](const std::string &l) { size_t c = l.find(':'), a = l.find('@'); if (l.substr(c + 1, a - c - 1) == g) r.insert(l.substr(a + 1)); };
    for (auto &x : S.rel) { size_t p = x.first.find('|'); add(x.first.substr(0, p)); add(x.first.substr(p + 1)); }
    for (auto &x : S.inf) add(x.first);
    for (auto &x : S.cells) if (x.second.k == Val::Label && x.second.group == g) r.insert(x.second.pos);
    return r;
  }
  void finish(State &S, const Sym &ret, const ReturnInst *R) {
    cur = &S;
    int no = tabArg >= 0 ? size : operandArgs.size();
    DebugLoc loc = R->getDebugLoc();
    if (low) {
      Val v = cell(S, Sym::ptr(root(Root::Arg, "arg0"))); if (v.k == Val::Unknown) return;
      checked++; okKeys.insert("direction"); int badDir = op == JOIN ? LT : GT;
      if (v.k != Val::Label) { fail("value", "the result is " + show(v), loc); return; }
      for (int o = 0; o < 2; o++) if (o != v.op && rel(S, v.id(), lab(o, "v", "0")) & badDir) fail("direction", "the result is " + opn(v.op) + " on a path where " + opn(o) + " may be " + (op == JOIN ? "larger" : "smaller"), loc);
      return;
    }
    std::vector<std::string> groups; bool box = fieldOff.count("p"); if (box) groups = {"inf", "sup"}; else { groups = {"m"}; if (fieldOff.count("nsc")) groups.push_back("nsc"); }
    std::vector<int> em; for (int o = 0; o < no; o++) em.push_back(emptyOf(S, o));
    if (mixedEmpty(S)) return;
    if (op == LEQ || op == EQ) {
      if (ret.k != Sym::Int || !ret.p.isConst()) return;
      bool t = ret.p.cst() & 1; int e0 = em[0], e1 = em[1];
      if (box) { if (intervalEmpty(S, 0, "")) e0 = 1; if (intervalEmpty(S, 1, "")) e1 = 1; }
      if (e0 == 1 || e1 == 1) {
        checked++;
        if (op == LEQ) { if (e0 == 1 && !t) fail("empty", "not included although the first argument is empty", loc); if (e0 == 0 && e1 == 1 && t) fail("empty", "included although only the second argument is empty", loc); }
        else if (e0 == 1 && e1 == 1 ? !t : (e0 == 0 || e1 == 0) && t) fail("empty", t ? "equal although only one argument is empty" : "not equal although both are empty", loc);
        okKeys.insert("empty"); return;
      }
      bool touched = false, proper = false, okT = true, unk = false; std::string why;
      for (auto &g : groups) {
        if (g == "nsc") continue;
        auto ps = positions(S, g); bool here = false;
        for (auto &p : ps) {
          // only positions at which both sides were compared
          int m = rel(S, lab(0, g, p), lab(1, g, p)); std::string p2 = p; if (S.rel.count(key(lab(0, g, p), lab(1, g, p)))) { touched = here = true; coverage(p, loc); } else continue;
          bool gt = m & GT, lt = m & LT, eq = m & E_; (void)lt;
          if (op == LEQ) { if (gt) okT = false; if (!(m & (LT | E_))) proper = true; }
          else { if (m & (GT | LT)) okT = false; if (!eq) proper = true; }
          if (fieldOff.count("nsc") && (m & E_)) { int nm = rel(S, lab(0, "nsc", p), lab(1, "nsc", p)); if (op == LEQ ? (nm & GT) : (nm & (LT | GT))) okT = false; if (op == LEQ ? nm == GT : !(nm & E_)) proper = true; }
        }
        for (auto &x : S.rel) { size_t q = x.first.find('|'); std::string l = x.first.substr(0, q), r = x.first.substr(q + 1); std::string lp = l.substr(l.find('@')), rp = r.substr(r.find('@')); if (l[0] != r[0] && lp != rp) unk = true, why = "bounds at different positions"; }
        if (!here) { touched = touched; if (box) okT = okT && !t ? okT : false; }
      }
      if (unk) { fail("position", "bounds at different positions are compared", loc); return; }
      if (!touched && !t && !S.rel.size() && !S.ci.size() && e0 == 0 && e1 == 0) fail("empty", op == LEQ ? "not included without a comparison although neither argument is empty" : "not equal without a comparison although neither argument is empty", loc);
      if (!touched) { if (t) { fail("direction", "holds without comparing any bound", loc); } return; }
      checked++;
      if (t && !okT) { fail("direction", op == LEQ ? "true although some bound of the first argument may be larger" : "true although some bounds may differ", loc); }
      if (!t && !proper) fail("direction", op == LEQ ? "false although no bound of the first argument is larger" : "false although no bounds differ", loc);
      okKeys.insert("direction");
      return;
    }
    if (ret.k != Sym::Ptr) return;
    std::vector<int> ops; for (int o = 0; o < no; o++) if (em[o] != 1) ops.push_back(o);
    bool fieldSeen = false;
    { // a result without bounds
      bool none = true; for (auto &f : fieldOff) if (f.first == "m" || f.first == "closed" || f.first == "p") { auto it = S.mem.find({ret.root, Poly::c(f.second).str()}); Sym h = it != S.mem.end() ? it->second : roots[ret.root].operand >= 0 ? initField(S, ret.root, f.second) : Sym(); if (h.k != Sym::Null) none = false; }
      if (none) {
        okKeys.insert("empty"); checked++; bool full = false; for (int o = 0; o < no; o++) if (em[o] == 0) full = true;
        bool all = true; for (int o = 0; o < no; o++) if (em[o] == 1 || (em[o] == -1 && hinted(S, o))) all = false;
        if (op == MEET ? all && S.rel.empty() && S.ci.empty() : full) fail("empty", op == MEET ? "the result is empty without a comparison although no argument is" : "the result is empty although an argument is not", loc);
        return;
      }
    }
    if (op == MEET && ops.size() != (size_t)no) return;
    for (auto &f : fieldOff) {
      if (!cellField(f.first)) continue;
      auto it = S.mem.find({ret.root, Poly::c(f.second).str()}); Sym h = it != S.mem.end() ? it->second : roots[ret.root].operand >= 0 ? initField(S, ret.root, f.second) : Sym();
      if (h.k != Sym::Ptr) continue;
      fieldSeen = true;
      DebugLoc wl = loc; auto w = writes.find(std::to_string(h.root)); if (w != writes.end()) wl = w->second;
      if (op == WIDEN || op == THRESH) {
        if (em[0] == 1) continue;
        if (S.reduced.count(h.root) && f.first != "closed") { fail("kept", "the result of the widening is closed in place: the sequence need not stabilise", wl); continue; }
        if (f.first == "closed" && em[1] != 1) { fail("kept", "the result of the widening is given a closed form", wl); continue; }
      }
      // the cells of the block
      std::map<std::string, Val> cs; for (auto &c : S.cells) if (c.first.first == h.root) cs[c.first.second] = c.second;
      auto fl = S.fill.find(h.root);
      if (roots[h.root].operand >= 0 && cellField(roots[h.root].field) && fl == S.fill.end()) // untouched cells keep the operand's bounds
        for (auto &g : groups) for (auto &p : positions(S, g)) if (!cs.count(p) && (box || g == (f.first == "closed" ? "m" : f.first))) { Sym a = Sym::ptr(h.root); Val v; v.k = Val::Label; v.op = roots[h.root].operand; v.group = g; v.pos = p; v.root = h.root; cs[p] = v; (void)a; }
      if (cs.empty()) {
        if (fl != S.fill.end()) { if (fl->second.k == Val::Undef) { fail("unset", "the bounds of the result are not set", wl); } continue; }
        if (roots[h.root].operand >= 0 && ops.size() > 1) { fail("kept", "the result keeps the bounds of " + opn(roots[h.root].operand) + " without comparing them", wl); }
        continue;
      }
      std::set<std::string> gs; bool unknown = false;
      for (auto &c : cs) { if (c.second.k == Val::Unknown) unknown = true; }
      if (unknown) continue;
      { // positions that cannot be related to each other
        std::map<std::string, std::pair<int, bool>> n; for (auto &c : cs) { auto &q = n[box && isSup(constOf(c.first)) ? "sup" : ""]; q.first++; if (c.first.find("#?") != std::string::npos) q.second = true; }
        bool skip = false; for (auto &q : n) if (q.second.first > 1 && q.second.second) skip = true; if (skip) continue; }
      for (auto &c : cs) {
        const std::string &p = c.first; const Val &v = c.second;
        std::string g; if (box) g = isSup(constOf(p)) ? "sup" : "inf"; else g = f.first == "closed" ? "m" : f.first;
        gs.insert(g); checked++;
        std::string what = g; coverage(p, wl);
        std::vector<int> os; for (int o : ops) if (!(box && intervalEmpty(S, o, p))) os.push_back(o);
        if (op == MEET && os.size() != ops.size()) continue;
        if ((op == WIDEN || op == THRESH) && box && intervalEmpty(S, 0, p)) continue;
        if (os.empty()) continue;
        if (v.k == Val::Undef) { fail("unset", "a " + g + " bound of the result is not set", wl); continue; }
        if (v.k == Val::Label && (v.pos != p || v.group != g)) { fail("position", "the " + g + " bound of the result is " + show(v) + (v.group == g ? " at another position" : ""), wl); continue; }
        if (v.k == Val::Computed) { fail("value", "the " + g + " bound of the result is computed", wl); continue; }
        if (op == JOIN || op == MEET) {
          int badDir = op == JOIN ? LT : GT;
          if (v.k == Val::Thr) { fail("value", "the bound of the result is a threshold", wl); continue; }
          if (v.k == Val::Inf) { bool fine = false; for (int o : os) { auto fi = S.inf.find(lab(o, g, p)); if (fi != S.inf.end() && fi->second) fine = true; } if (!fine) fail("direction", "the " + g + " bound of the result is +oo whatever the arguments", wl); else okKeys.insert("direction"); continue; }
          if (std::find(os.begin(), os.end(), v.op) == os.end()) { fail("direction", "the " + g + " bound of the result is " + show(v) + ", which is empty", wl); continue; }
          bool b = false; for (int o : os) if (o != v.op && lexBad(S, v.op, o, g, p, badDir)) { b = true; fail("direction", "the " + g + " bound of the result is that of " + opn(v.op) + " on a path where that of " + opn(o) + " may be " + (op == JOIN ? "larger" : "smaller"), wl); }
          okKeys.insert("direction");
        } else {
          if (v.k == Val::Inf) { okKeys.insert("kept"); continue; }
          if (v.k == Val::Thr) { if (op == WIDEN) fail("kept", "the bound of the result is a constant", wl); if (g != "nsc" && std::find(os.begin(), os.end(), 1) != os.end() && (rel(S, lab(1, g, p), "thr") & GT)) fail("kept", "the " + g + " bound of the result is a threshold on a path where that of the second argument may be larger", wl); okKeys.insert("kept"); continue; }
          if (v.op != 0) {
            if (g == "nsc") { if (rel(S, lab(0, "m", p), lab(1, "m", p)) == E_ && !lexBad(S, v.op, 0, g, p, LT)) { okKeys.insert("kept"); continue; } }
            fail("kept", "the " + g + " bound of the result is that of the second argument", wl); continue;
          }
          if (f.first != "closed" && em[1] != 1 && roots[v.root].field == "closed") { int sr = opStruct(S, 0); Sym m = initField(S, sr, fieldOff["m"]); if (m.k != Sym::Null) { fail("kept", "the bound is taken from the closed form of the first argument: the sequence need not stabilise", wl); continue; } }
          for (int o : os) if (o != 0 && lexBad(S, 0, o, g, p, LT)) fail("kept", "the " + g + " bound of the first argument is kept on a path where that of the second may be larger", wl);
          okKeys.insert("kept");
        }
      }
      for (auto &g : groups) if ((box || g == (f.first == "closed" ? "m" : f.first)) && !gs.count(g)) fail("unset", "no " + g + " bound of the result is set", wl);
    }
    if (fieldSeen && fieldOff.count("nsc")) { // the strictness of the bounds goes with the bounds
      auto it = S.mem.find({ret.root, Poly::c(fieldOff["nsc"]).str()}); Sym h = it != S.mem.end() ? it->second : roots[ret.root].operand >= 0 ? initField(S, ret.root, fieldOff["nsc"]) : Sym();
      bool given = false; for (auto &x : S.nonnull) if (!x.second && roots[x.first].field == "nsc") given = true; // an argument has none
      okKeys.insert("unset"); if (h.k == Sym::Null && !given) fail("unset", "the result has bounds but no strictness matrix", loc);
    }
  }

  bool analyse(Function &Fn) {
    F = &Fn; DT = std::make_unique<DominatorTree>(Fn); LI = std::make_unique<LoopInfo>(*DT); live.clear(); liveness();
    roots.clear(); rootIx.clear(); seen.clear(); steps = 0; gaveUp = false; writes.clear();
    run(nullptr, &Fn.getEntryBlock(), State());
    return !gaveUp;
  }
};
}
int runCells(std::vector<std::string> args) {
  LLVMContext Ctx; auto M = loadModule(args[0], Ctx); promote(*M);
  bool widen = args.size() > 1 && args[1] == "widening";
  Types T(*M); Slots SL(*M, T);
  std::map<std::string, std::pair<Op, std::vector<unsigned>>> want;
  if (widen) want = {{"WIDENING", {WIDEN, {1, 2}}}};
  else want = {{"JOIN", {JOIN, {2, 3}}}, {"MEET", {MEET, {2, 3}}}, {"JOIN_ARRAY", {JOIN, {}}}, {"MEET_ARRAY", {MEET, {}}}, {"IS_LEQ", {LEQ, {1, 2}}}, {"IS_EQ", {EQ, {1, 2}}}};
  struct Tgt { Function *F; std::string slot; Op op; std::vector<unsigned> ops; int tab = -1, size = -1, nb = -1; };
  std::vector<Tgt> ts; std::set<std::string> seenLow;
  for (auto &x : SL.functions()) for (int k : x.second) { auto w = want.find(SL.op(k)); if (w == want.end() || x.first->isDeclaration()) continue; Tgt t{const_cast<Function *>(x.first), SL.op(k), w->second.first, w->second.second}; if (t.ops.empty()) { t.tab = 1; t.size = 2; } ts.push_back(t); }
  if (widen) for (Function &F : *M) if (!F.isDeclaration() && F.getName().ends_with("_widening_thresholds") && !F.getName().starts_with("ap_")) { Tgt t{&F, "WIDENING_THRESHOLDS", THRESH, {1, 2}}; t.nb = 4; ts.push_back(t); }
  if (!widen) for (Function &Fn : *M) { // the choice of the larger and of the smaller of two numbers
    if (Fn.isDeclaration() || !Fn.getReturnType()->isVoidTy() || Fn.arg_size() != 3) continue; std::string n = Cells::base(Fn.getName()), t = Cells::tail(n);
    if (n != "bound_max" && n != "bound_min" && n != "num_max" && n != "num_min" && n != "numrat_max" && n != "numrat_min" && n != "numint_max" && n != "numint_min" && n != "numflt_max" && n != "numflt_min") continue;
    if (seenLow.count(n)) continue; seenLow.insert(n); // the same source in every file
    ValueToValueMapTy VM; Function *G = CloneFunction(&Fn, VM);
    inlineInto(*G, [&](const Function &H) { return !Cells::lowPrim(Cells::base(H.getName())); }); cleanup(*G, false);
    Cells C(*M, T); C.low = true; C.op = t == "max" ? JOIN : MEET; C.operandArgs = {1, 2}; C.size = 0;
    if (!C.analyse(*G) || !C.checked) { tally("given_up"); continue; }
    tally("operations"); tally("paths", C.ends); tally("cells_judged", C.checked);
    std::set<std::string> all = C.okKeys; for (auto &b : C.bad) all.insert(b.first);
    for (auto &k : all) { bool b = C.bad.count(k); emitObligation("larger-or-smaller", n, k, !b); if (b) emitFinding("larger-or-smaller", n, C.bad[k].loc, k, n + ": " + C.bad[k].msg); }
  }
  for (auto &t : ts) {
    auto sg = signatureOf(*t.F); unsigned pi = t.tab >= 0 ? t.tab + 1 : t.ops[0] + 1; if (sg.size() <= pi || !sg[pi]) continue;
    const DIType *ty = stripType(sg[pi]); while (auto *D = dyn_cast_or_null<DIDerivedType>(ty)) { if (D->getTag() != dwarf::DW_TAG_pointer_type) break; ty = stripType(D->getBaseType()); }
    auto *CT = dyn_cast_or_null<DICompositeType>(ty); if (!CT) continue;
    Cells base(*M, T); base.ST = CT;
    for (auto *E : CT->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) if (D->getTag() == dwarf::DW_TAG_member) { base.fieldName[D->getOffsetInBits() / 8] = D->getName().str(); base.fieldOff[D->getName().str()] = D->getOffsetInBits() / 8; }
    if (!base.fieldOff.count("m") && !base.fieldOff.count("p")) continue;
    if (base.fieldOff.count("p") && !base.fieldOff.count("intdim")) continue;
    { // size of a bound
      const DIType *b = nullptr; for (auto *E : CT->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) if (D->getName() == "m") b = D->getBaseType();
      const DIType *bp = nullptr; for (auto *E : CT->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) if (D->getName() == "p") bp = D->getBaseType();
      if (bp) { auto *P = dyn_cast_or_null<DIDerivedType>(stripType(bp)); const DIType *e = P ? stripType(P->getBaseType()) : nullptr; if (e) base.itvSize = e->getSizeInBits() / 8; }
      if (b) { auto *P = dyn_cast_or_null<DIDerivedType>(stripType(b)); const DIType *e = P ? P->getBaseType() : nullptr; while (auto *D = dyn_cast_or_null<DIDerivedType>(e)) e = D->getBaseType(); if (e) base.cellSize = e->getSizeInBits() / 8; } }
    bool hasDestr = t.op <= MEET && t.tab < 0;
    for (int d = 0; d < (hasDestr || t.tab >= 0 ? 2 : 1); d++) {
      ValueToValueMapTy VM; Function *G;
      if (hasDestr) G = specialise(*t.F, 1, d); else G = CloneFunction(t.F, VM);
      inlineInto(*G, [&](const Function &H) { std::string n = Cells::base(H.getName()); return !Cells::prim(n) && !Cells::reduction(n) && n.find("init_from_manager") == std::string::npos && n.find("raise_exception") == std::string::npos && n.find("_of_scalar") == std::string::npos; });
      cleanup(*G, false); debugDump(*G);
      Cells C(*M, T); C.ST = base.ST; C.fieldName = base.fieldName; C.fieldOff = base.fieldOff; C.cellSize = base.cellSize; C.itvSize = base.itvSize; C.op = t.op; C.operandArgs = t.ops; C.tabArg = t.tab; C.sizeArg = t.size; C.nbArg = t.nb; C.destructive = d; C.size = 2 + (t.tab >= 0 ? d : 0);
      std::string fn = fnName(*t.F), mode = hasDestr ? (d ? ".destructive" : ".copying") : t.tab >= 0 ? "." + std::to_string(C.size) : "";
      bool ok = C.analyse(*G);
      if (getenv("APA_CELLS")) errs() << fn << mode << " steps " << C.steps << " ends " << C.ends << " checked " << C.checked << (ok ? "" : " GAVE UP") << "\n";
      if (!ok) { tally("given_up"); continue; }
      tally("operations"); tally("paths", C.ends); tally("cells_judged", C.checked);
      std::set<std::string> all = C.okKeys; for (auto &b : C.bad) all.insert(b.first);
      for (auto &k : all) {
        bool b = C.bad.count(k); std::string rule = k == "coverage" ? "positions-covered" : k == "position" ? "same-position" : k == "unset" ? "bound-set" : k == "kept" ? "bound-kept" : k == "value" ? "bound-copied" : k == "empty" ? "empty-argument" : "bound-direction";
        emitObligation(rule, fn, k + mode, !b);
        if (b) emitFinding(rule, fn, C.bad[k].loc, k, fn + " (" + opName[t.op] + "): " + C.bad[k].msg);
      }
    }
  }
  return 0;
}
