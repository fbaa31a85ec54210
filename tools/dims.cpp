// P22: the value an operation returns has the numbers of integer and real dimensions the
// operation's interface promises; what it is only given keeps its own.
#include "apa.h"
#include "slots.h"
namespace {
struct Lin { // linear expression over the stable quantities of a call
  std::map<std::string, int64_t> t; int64_t c = 0;
  Lin(int64_t c = 0) : c(c) {}
  static Lin atom(const std::string &a) { Lin l; l.t[a] = 1; return l; }
  Lin add(const Lin &o, int64_t k = 1) const { Lin r = *this; r.c += k * o.c; for (auto &p : o.t) { auto &x = r.t[p.first]; x += k * p.second; if (!x) r.t.erase(p.first); } return r; }
  bool operator<(const Lin &o) const { return c != o.c ? c < o.c : t < o.t; }
  bool operator==(const Lin &o) const { return c == o.c && t == o.t; }
  std::string str() const { std::string r; for (auto &p : t) r += (p.second < 0 ? "-" : r.empty() ? "" : "+") + (std::abs(p.second) == 1 ? "" : std::to_string(std::abs(p.second)) + "*") + p.first; if (c || r.empty()) r += (c >= 0 && !r.empty() ? "+" : "") + std::to_string(c); return r; }
};
struct Val {
  enum K { Unk, Num, Ptr, Agg } k = Unk; Lin l; std::string obj; int64_t off = 0; std::vector<Val> sub; // Ptr with obj "" = null
  static Val num(const Lin &l) { Val v; v.k = Num; v.l = l; return v; }
  static Val ptr(const std::string &o, int64_t f = 0) { Val v; v.k = Ptr; v.obj = o; v.off = f; return v; }
  bool null() const { return k == Ptr && obj.empty(); }
  auto tie() const { return std::tie(k, l, obj, off, sub); }
  bool operator<(const Val &o) const { return tie() < o.tie(); }
  bool operator==(const Val &o) const { return tie() == o.tie(); }
};
typedef std::set<Lin> Facts; // each >= 0
// e >= 0 follows from the sum of at most `depth` facts (atoms are not negative): what lacks in e must come from some fact
bool implied(const Facts &fs, const Lin &e, int depth = 3) {
  const std::string *lack = nullptr; for (auto &p : e.t) if (p.second < 0) { lack = &p.first; break; }
  if (!lack && e.c >= 0) return true;
  if (!depth) return false;
  for (auto &f : fs) { bool helps; if (lack) { auto it = f.t.find(*lack); helps = it != f.t.end() && it->second < 0; } else helps = f.c < 0; if (helps && implied(fs, e.add(f, -1), depth - 1)) return true; }
  return false;
}
bool consistent(const Facts &fs) { return !implied(fs, Lin(-1), 4); }
bool same(const Facts &fs, const Lin &a, const Lin &b) { Lin d = a.add(b, -1), e = b.add(a, -1); return implied(fs, d) && implied(fs, e); }
struct Alt { Facts facts; Lin i, r; };
const std::set<std::string> SAME = {"COPY", "MEET", "MEET_ARRAY", "MEET_LINCONS_ARRAY", "MEET_TCONS_ARRAY", "JOIN", "JOIN_ARRAY", "ADD_RAY_ARRAY", "ASSIGN_LINEXPR_ARRAY", "SUBSTITUTE_LINEXPR_ARRAY", "ASSIGN_TEXPR_ARRAY", "SUBSTITUTE_TEXPR_ARRAY", "PERMUTE_DIMENSIONS", "FORGET_ARRAY", "WIDENING", "CLOSURE"};
const std::set<std::string> CTOR = {"BOTTOM", "TOP", "OF_BOX"};
const std::set<std::string> KEEP = {"MINIMIZE", "CANONICALIZE", "APPROXIMATE"};
bool promised(const std::string &op) { return SAME.count(op) || CTOR.count(op) || op == "ADD_DIMENSIONS" || op == "REMOVE_DIMENSIONS" || op == "EXPAND" || op == "FOLD"; }
struct State {
  std::map<const Value *, Val> env; std::map<std::pair<std::string, int64_t>, Val> mem; std::map<std::string, std::string> dflt; Facts facts;
  bool operator<(const State &o) const { return std::tie(env, mem, dflt, facts) < std::tie(o.env, o.mem, o.dflt, o.facts); }
};
std::string bare(std::string n) { size_t i = n.find_first_not_of('_'); return i == std::string::npos ? n : n.substr(i); }
struct Dims {
  Module &M; std::unique_ptr<Types> T; std::unique_ptr<Slots> S; std::set<const Function *> touch;
  struct Lay { int64_t i = -1, r = -1, d = -1; uint64_t size = 0; };
  std::map<std::string, Lay> lay; int64_t valueOff = 0; int64_t chI = 8, chR = 16;
  Dims(Module &M) : M(M) { refresh();
    for (auto *n : {"box_t", "oct_t", "avo_t", "pk_t"}) { const DICompositeType *C = T->composite(n); if (!C) C = T->composite((std::string("_") + n).c_str()); if (!C) continue;
      Lay L; L.size = C->getSizeInBits() / 8; for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) { int64_t o = D->getOffsetInBits() / 8; if (D->getName() == "intdim") L.i = o; else if (D->getName() == "realdim") L.r = o; else if (D->getName() == "dim") L.d = o; }
      if (L.i >= 0 && (L.r >= 0 || L.d >= 0)) lay[n] = L; }
    if (auto *C = T->composite("ap_abstract0_t")) for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) if (D->getName() == "value") valueOff = D->getOffsetInBits() / 8;
    if (auto *C = T->composite("ap_dimchange_t")) for (auto *E : C->getElements()) if (auto *D = dyn_cast<DIDerivedType>(E)) { if (D->getName() == "intdim") chI = D->getOffsetInBits() / 8; if (D->getName() == "realdim") chR = D->getOffsetInBits() / 8; }
  }
  void refresh() { T = std::make_unique<Types>(M); S = std::make_unique<Slots>(M, *T); }
  static const Function *callee(const CallBase *CB) { return dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); }
  std::string cls(const std::string &tn) { std::string n = bare(tn); return lay.count(n) ? n : n == "ap_abstract0_t" ? "A" : ""; }
  void reach() {
    std::set<const Function *> numeric, now;
    for (Function &F : M) { if (F.isDeclaration()) continue; bool t = false;
      auto sg = signatureOf(F); if (!sg.empty() && sg[0]) { std::string n = typeName(sg[0]); if (!n.empty() && n.back() == '*' && !cls(n.substr(0, n.size() - 1)).empty()) t = true; if (bare(n) == "ap_dimension_t") t = true; }
      if (sg.size() > 1 && typeName(sg[0]) == "void*" && (typeName(sg[1]) == "ap_manager_t*" || (sg.size() > 2 && typeName(sg[2]) == "ap_manager_t*"))) t = true;
      for (Instruction &I : instructions(F)) if (auto *St = dyn_cast<StoreInst>(&I)) { const Value *b; std::string n; if (T->fieldOf(St->getPointerOperand(), b, n)) { StringRef s = n; size_t d = s.rfind('.'); std::string st = bare(s.substr(0, d).str()); StringRef f = s.substr(d + 1); if ((lay.count(st) || st == "ap_dimension_t" || st == "ap_dimchange_t" || st == "ap_abstract0_t") && (f == "intdim" || f == "realdim" || f == "dim" || f == "value")) t = true; } }
        else if (auto *MC = dyn_cast<MemTransferInst>(&I)) { std::string n = bare(typeName(T->pointee(MC->getDest()->stripPointerCasts()))); if (lay.count(n)) t = true; }
      if (!t && F.hasLocalLinkage() && F.getSubprogram() && F.getSubprogram()->getFilename().ends_with(".c") && F.getInstructionCount() < 60) {
        // small helpers of one file that compute numbers for their caller
        bool ints = F.arg_size() > 0, out = false, call = false, read = false;
        for (auto &A : F.args()) { if (!A.getType()->isIntegerTy() || A.getType()->getIntegerBitWidth() < 32) ints = false; if (A.getType()->isPointerTy() && A.getArgNo() + 1 < sg.size()) { std::string n = typeName(sg[A.getArgNo() + 1]); if (n == "size_t*" || n == "ap_dim_t*" || n == "unsigned long*" || n == "unsigned int*") out = true; } }
        for (Instruction &I : instructions(F)) { if (isa<CallBase>(I) && !isa<DbgInfoIntrinsic>(I)) call = true; if (auto *L = dyn_cast<LoadInst>(&I)) { const Value *b; std::string n; if (T->fieldOf(L->getPointerOperand(), b, n)) { StringRef q = n; size_t d = q.rfind('.'); std::string st = bare(q.substr(0, d).str()); StringRef f = q.substr(d + 1); if ((lay.count(st) || st == "ap_dimension_t" || st == "ap_dimchange_t") && (f == "intdim" || f == "realdim" || f == "dim")) read = true; } } }
        bool num = F.getReturnType()->isIntegerTy() && F.getReturnType()->getIntegerBitWidth() >= 32;
        if (!call && ((num && read) || (out && read))) t = true; else if (!call && num && ints) numeric.insert(&F); }
      if (t) touch.insert(&F); }
    // functions of numbers, where a function that sets dimensions calls them
    for (auto *F : numeric) for (auto *U : F->users()) if (auto *CB = dyn_cast<CallBase>(U)) if (touch.count(CB->getFunction()) && !numeric.count(CB->getFunction())) { now.insert(F); break; }
    touch.insert(now.begin(), now.end());
    bool ch = true;
    while (ch) { ch = false; for (Function &F : M) if (!F.isDeclaration() && !touch.count(&F)) for (Instruction &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = callee(CB)) if (touch.count(G)) { touch.insert(&F); ch = true; break; } }
  }
};
struct Walk {
  Dims &D; Function &F; std::string op; bool generic; int destr; // destr: -1 no flag
  std::map<std::string, std::string> clsOf; std::set<std::pair<const BasicBlock *, State>> seen; std::vector<std::pair<const BasicBlock *, State>> work; bool over = false;
  std::map<std::string, std::pair<const Instruction *, std::string>> bad; std::map<std::string, long> okc; std::map<const Value *, std::string> names; DominatorTree DT; long returns = 0, steps = 0;
  std::vector<std::string> valueArgs;
  Walk(Dims &D, Function &F, std::string op, bool g, int destr) : D(D), F(F), op(op), generic(g), destr(destr), DT(F) {}
  std::string name(const Value *V) { auto it = names.find(V); if (it != names.end()) return it->second; std::string n = "n" + std::to_string(names.size()); return names[V] = n; }
  Val eval(const Value *V, const State &s) {
    if (auto *c = dyn_cast<ConstantInt>(V)) return c->getBitWidth() <= 64 ? Val::num(Lin(c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : c->getSExtValue())) : Val();
    if (isa<ConstantPointerNull>(V)) return Val::ptr("");
    auto it = s.env.find(V); if (it != s.env.end()) return it->second;
    if (isa<GlobalValue>(V)) return Val::ptr("@" + V->getName().str());
    if (auto *A = dyn_cast<Argument>(V)) {
      if (A->getType()->isIntegerTy()) return Val::num(Lin::atom("arg" + std::to_string(A->getArgNo())));
      if (A->getType()->isPointerTy()) return Val::ptr("arg" + std::to_string(A->getArgNo()));
      return Val();
    }
    if (auto *CE = dyn_cast<ConstantExpr>(V)) { int64_t o; auto *b = stripOffset(CE, D.M.getDataLayout(), o); if (isa<GlobalValue>(b)) return Val::ptr("@" + b->getName().str(), o); }
    return Val();
  }
  bool known(const State &s, const Lin &e, bool &val) { // is e >= 0 ?
    if (implied(s.facts, e)) { val = true; return true; }
    if (implied(s.facts, Lin(-1).add(e, -1))) { val = false; return true; }
    return false;
  }
  // truth of a comparison: facts that make it true / false
  bool compare(ICmpInst::Predicate p, const Lin &a, const Lin &b, std::vector<Lin> &t, std::vector<std::vector<Lin>> &f) {
    Lin d = a.add(b, -1), e = b.add(a, -1);
    switch (p) {
    case ICmpInst::ICMP_EQ: t = {d, e}; f = {{d.add(Lin(-1))}, {e.add(Lin(-1))}}; return true;
    case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: t = {d}; f = {{e.add(Lin(-1))}}; return true;
    case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: t = {d.add(Lin(-1))}; f = {{e}}; return true;
    case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: t = {e}; f = {{d.add(Lin(-1))}}; return true;
    case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: t = {e.add(Lin(-1))}; f = {{d}}; return true;
    default: return false;
    }
  }
  // states in which V is (not) zero
  void assume(const Value *V, bool want, State s, std::vector<State> &out, int d = 0) {
    Val v = eval(V, s);
    if (v.k == Val::Num && v.l.t.empty()) { if ((v.l.c != 0) == want) out.push_back(s); return; }
    if (d > 12) { out.push_back(s); return; }
    if (isa<CastInst>(V) && !isa<PtrToIntInst>(V)) { assume(cast<Instruction>(V)->getOperand(0), want, s, out, d + 1); return; }
    if (auto *Fz = dyn_cast<FreezeInst>(V)) { assume(Fz->getOperand(0), want, s, out, d + 1); return; }
    if (auto *C = dyn_cast<ICmpInst>(V)) {
      auto pr = C->getPredicate(); const Value *A = C->getOperand(0), *B = C->getOperand(1);
      if (A->getType()->isPointerTy()) {
        Val a = eval(A, s), b = eval(B, s);
        if (C->isEquality() && a.k == Val::Ptr && b.k == Val::Ptr && (a.null() || b.null())) { bool eq = a.null() && b.null(); const std::string &o = a.null() ? b.obj : a.obj;
          if (!eq && o.rfind("arg", 0) == 0 && o.find('@') != std::string::npos) { out.push_back(s); return; } // what an argument points to may be absent
          bool truth = eq == (pr == ICmpInst::ICMP_EQ); if (truth == want) out.push_back(s); return; }
        if (C->isEquality() && a.k == Val::Ptr && b.k == Val::Ptr && a == b) { if ((pr == ICmpInst::ICMP_EQ) == want) out.push_back(s); return; }
        out.push_back(s); return;
      }
      if (C->isEquality()) if (auto *z = dyn_cast<ConstantInt>(B)) if (z->isZero() || (z->isOne() && A->getType()->isIntegerTy(1))) { Val a = eval(A, s); if (a.k != Val::Num) { assume(A, want == ((pr == ICmpInst::ICMP_NE) == z->isZero()), s, out, d + 1); return; } }
      Val a = eval(A, s), b = eval(B, s);
      if (a.k == Val::Num && b.k == Val::Num) {
        bool w = want; if (pr == ICmpInst::ICMP_NE) { pr = ICmpInst::ICMP_EQ; w = !w; }
        std::vector<Lin> t; std::vector<std::vector<Lin>> f;
        if (compare(pr, a.l, b.l, t, f)) {
          if (w) f = {t};
          for (auto &alt : f) { State n = s; bool dead = false, skip = false;
            for (auto &x : alt) { bool val; if (known(n, x, val)) { if (!val) dead = true; } else n.facts.insert(x); }
            (void)skip; if (!dead && consistent(n.facts)) out.push_back(n); }
          return;
        }
      }
      out.push_back(s); return;
    }
    if (auto *B = dyn_cast<BinaryOperator>(V)) if (V->getType()->isIntegerTy(1)) {
      if (B->getOpcode() == Instruction::Xor) if (auto *z = dyn_cast<ConstantInt>(B->getOperand(1))) { assume(B->getOperand(0), want != z->isOne(), s, out, d + 1); return; }
      bool isAnd = B->getOpcode() == Instruction::And;
      if (isAnd || B->getOpcode() == Instruction::Or) {
        if (isAnd == want) { std::vector<State> m; assume(B->getOperand(0), want, s, m, d + 1); for (auto &x : m) assume(B->getOperand(1), want, x, out, d + 1); }
        else { assume(B->getOperand(0), want, s, out, d + 1); std::vector<State> m; assume(B->getOperand(0), !want, s, m, d + 1); for (auto &x : m) assume(B->getOperand(1), want, x, out, d + 1); }
        return;
      } }
    if (auto *Se = dyn_cast<SelectInst>(V)) {
      for (int k = 0; k < 2; k++) { std::vector<State> m; assume(Se->getCondition(), k == 0, s, m, d + 1); for (auto &x : m) assume(k == 0 ? Se->getTrueValue() : Se->getFalseValue(), want, x, out, d + 1); }
      return;
    }
    if (v.k == Val::Num) { // an argument used as a truth value
      Lin one = v.l.add(Lin(-1)); State n = s; if (want) n.facts.insert(one); else n.facts.insert(Lin(0).add(v.l, -1)); if (consistent(n.facts)) out.push_back(n); return; }
    if (V->getType()->isIntegerTy() && V->hasNUsesOrMore(2) && isa<Instruction>(V)) { s.env[V] = Val::num(Lin(want)); }
    out.push_back(s);
  }
  const Type *ptrTy() { return PointerType::get(D.M.getContext(), 0); }
  Val initial(const std::string &o, int64_t off, const Type *L) {
    bool fresh = o.rfind("new", 0) == 0 || o.rfind("loc", 0) == 0 || o.empty();
    auto c = clsOf.find(o);
    if (c != clsOf.end() && D.lay.count(c->second)) { auto &y = D.lay[c->second]; if (off == y.i) return Val::num(Lin::atom("intdim")); if (off == y.r) return Val::num(Lin::atom("realdim")); if (off == y.d) return Val::num(Lin::atom("intdim").add(Lin::atom("realdim"))); }
    if (fresh) return Val();
    if (c != clsOf.end() && c->second == "A" && off == D.valueOff) return Val::ptr(o + ".value");
    std::string p = o + "@" + std::to_string(off);
    if (L->isPointerTy()) return !generic && c != clsOf.end() ? Val() : Val::ptr(p); // what a value is made of is not followed
    if (L->isIntegerTy()) return o.rfind("arg", 0) == 0 && c == clsOf.end() ? Val::num(Lin::atom(p)) : Val();
    return Val();
  }
  Val read(const State &s, std::string o, int64_t off, const Type *L) {
    for (int d = 0; d < 8; d++) { auto it = s.mem.find({o, off}); if (it != s.mem.end()) return it->second; auto f = s.dflt.find(o); if (f == s.dflt.end()) break; o = f->second; }
    return initial(o, off, L);
  }
  bool dimsOf(const State &s, const Val &v, Lin &i, Lin &r) {
    if (v.k != Val::Ptr || v.null() || v.off) return false;
    auto a = s.mem.find({v.obj, -1}), b = s.mem.find({v.obj, -2});
    if (a != s.mem.end() && b != s.mem.end()) { if (a->second.k != Val::Num || b->second.k != Val::Num) return false; i = a->second.l; r = b->second.l; return true; }
    auto c = clsOf.find(v.obj); std::string cl = c == clsOf.end() ? "" : c->second;
    if (!D.lay.count(cl)) {
      // a block allocated here and returned as a value: its layout is the one of the domain
      if (D.lay.size() == 1 && (v.obj.rfind("new", 0) == 0)) cl = D.lay.begin()->first;
      else if (opaque(v.obj)) { std::string q = other(v.obj); i = Lin::atom("intdim" + q); r = Lin::atom("realdim" + q); return true; }
      else return false;
    }
    auto &y = D.lay[cl]; Val I = rd(s, v.obj, y.i); if (I.k != Val::Num) return false; i = I.l;
    if (y.r >= 0) { Val R = rd(s, v.obj, y.r); if (R.k != Val::Num) return false; r = R.l; } else { Val R = rd(s, v.obj, y.d); if (R.k != Val::Num) return false; r = R.l.add(i, -1); }
    return true;
  }
  Val rd(const State &s, std::string o, int64_t off) {
    for (int d = 0; d < 8; d++) { auto it = s.mem.find({o, off}); if (it != s.mem.end()) return it->second; auto f = s.dflt.find(o); if (f == s.dflt.end()) break; o = f->second; }
    auto c = clsOf.find(o); if (c != clsOf.end() && D.lay.count(c->second)) { auto &y = D.lay[c->second]; if (off == y.i) return Val::num(Lin::atom("intdim")); if (off == y.r) return Val::num(Lin::atom("realdim")); if (off == y.d) return Val::num(Lin::atom("intdim").add(Lin::atom("realdim"))); }
    return Val();
  }
  // in the generic layer nothing is known yet of the second value's dimensions
  std::string other(const std::string &o) { if (!generic || valueArgs.empty()) return ""; std::string r = o.substr(0, o.find('.')); return r != valueArgs[0] && std::find(valueArgs.begin(), valueArgs.end(), r) != valueArgs.end() ? "#" + r : ""; }
  // a value this layer does not look into
  bool opaque(const std::string &o) { auto e = [&](const char *x) { std::string t = x; return o.size() > t.size() && o.compare(o.size() - t.size(), t.size(), t) == 0; }; return e(".value") || o == "value" || clsOf[o] == "V"; }
  // what the interface promises, given the arguments of the call (numbered from the manager)
  std::vector<Alt> promise(const std::string &op, const std::vector<Val> &a, const State &s, bool pre) {
    Lin I = Lin::atom("intdim"), R = Lin::atom("realdim"); std::vector<Alt> out;
    auto num = [&](unsigned k, Lin &l) { if (k < a.size() && a[k].k == Val::Num) { l = a[k].l; return true; } return false; };
    if (CTOR.count(op)) { Lin i, r; if (num(1, i) && num(2, r)) out.push_back({{}, i, r}); return out; }
    // the value operated on
    unsigned vi = (op == "COPY" || op == "MEET_ARRAY" || op == "JOIN_ARRAY" || op == "WIDENING" || op == "DIMENSION") ? 1 : 2;
    if (op != "MEET_ARRAY" && op != "JOIN_ARRAY") { if (vi >= a.size()) return out; Val v = a[vi];
      if (v.k == Val::Ptr && clsOf.count(v.obj) && clsOf[v.obj] == "A") v = read(s, v.obj, D.valueOff, ptrTy());
      if (!dimsOf(s, v, I, R)) return out; }
    if (op == "MEET_ARRAY" || op == "JOIN_ARRAY") { Lin n; if (num(2, n)) out.push_back({{n.add(Lin(-1))}, I, R}); return out; } // of no value at all nothing is promised
    if (SAME.count(op) || op == "DIMENSION") { out.push_back({{}, I, R}); return out; }
    Lin one(1);
    if (op == "ADD_DIMENSIONS" || op == "REMOVE_DIMENSIONS") {
      if (a.size() < 4 || a[3].k != Val::Ptr || a[3].null()) return out; Val ci = field(s, a[3], D.chI), cr = field(s, a[3], D.chR); if (ci.k != Val::Num || cr.k != Val::Num) return out;
      if (op[0] == 'A') { out.push_back({{}, I.add(ci.l), R.add(cr.l)}); return out; }
      Lin di = I.add(ci.l, -1), dr = R.add(cr.l, -1), ni = Lin(-1).add(di, -1), nr = Lin(-1).add(dr, -1);
      out.push_back({{di, dr}, di, dr}); if (pre) return out;
      out.push_back({{di, nr}, di, Lin(0)}); out.push_back({{ni, dr}, Lin(0), dr}); out.push_back({{ni, nr}, Lin(0), Lin(0)}); return out;
    }
    if (op == "EXPAND") { Lin d, n; if (!num(3, d) || !num(4, n)) return out; Lin lt = I.add(d, -1).add(Lin(-1)), ge = d.add(I, -1); out.push_back({{lt}, I.add(n), R}); out.push_back({{ge}, I, R.add(n)}); return out; }
    if (op == "FOLD") { Lin n; if (!num(4, n) || a[3].k != Val::Ptr || a[3].null()) return out; Val t0 = field(s, a[3], 0); if (t0.k != Val::Num) return out; Lin d = t0.l;
      Lin lt = I.add(d, -1).add(Lin(-1)), ge = d.add(I, -1), n1 = n.add(Lin(-1)), di = I.add(n1, -1), dr = R.add(n1, -1);
      out.push_back({{lt, n1, di}, di, R}); out.push_back({{ge, n1, dr}, I, dr}); if (pre) return out;
      out.push_back({{lt, n1, Lin(-1).add(di, -1)}, Lin(0), R}); out.push_back({{ge, n1, Lin(-1).add(dr, -1)}, I, Lin(0)}); out.push_back({{Lin(0).add(n, -1)}, I, R}); return out; }
    return out;
  }
  Val field(const State &s, const Val &p, int64_t off) {
    std::string o = p.obj; int64_t q = p.off + off;
    for (int d = 0; d < 8; d++) { auto it = s.mem.find({o, q}); if (it != s.mem.end()) return it->second; auto f = s.dflt.find(o); if (f == s.dflt.end()) break; o = f->second; }
    if (o.rfind("arg", 0) == 0) return Val::num(Lin::atom(o + "@" + std::to_string(q)));
    return Val();
  }
  std::map<const Value *, std::set<const BasicBlock *>> liveIn;
  const std::set<const BasicBlock *> &live(const Value *V) {
    auto it = liveIn.find(V); if (it != liveIn.end()) return it->second;
    auto &r = liveIn[V]; auto *Df = dyn_cast<Instruction>(V); if (!Df) return r; std::vector<const BasicBlock *> bs; std::vector<const Value *> w{V}; std::set<const Value *> sn;
    while (!w.empty()) { auto *X = w.back(); w.pop_back(); if (!sn.insert(X).second) continue;
      for (auto &U : X->uses()) { auto *I = dyn_cast<Instruction>(U.getUser()); if (!I) continue; if (auto *P = dyn_cast<PHINode>(I)) bs.push_back(P->getIncomingBlock(U)); else { bs.push_back(I->getParent()); if (isa<ICmpInst>(I) || isa<CastInst>(I) || isa<FreezeInst>(I) || (isa<BinaryOperator>(I) && I->getType()->isIntegerTy(1)) || (isa<SelectInst>(I) && I->getType()->isIntegerTy(1))) w.push_back(I); } } }
    while (!bs.empty()) { auto *B = bs.back(); bs.pop_back(); if (B == Df->getParent() && !isa<PHINode>(Df)) continue; if (!r.insert(B).second || B == Df->getParent()) continue; for (auto *P : predecessors(B)) bs.push_back(P); }
    return r;
  }
  void enter(const BasicBlock *from, const BasicBlock *to, State s) {
    bool back = DT.dominates(to, from);
    std::vector<std::pair<const Value *, Val>> nv; std::set<std::string> redefined; Facts positive;
    for (auto &P : to->phis()) {
      Val v = eval(P.getIncomingValueForBlock(from), s);
      if (back && !(v == eval(&P, s))) { if (P.getType()->isIntegerTy() && !P.getType()->isIntegerTy(1)) { std::string a = "var" + name(&P); redefined.insert(a); if (v.k == Val::Num && implied(s.facts, v.l.add(Lin(-1)))) positive.insert(Lin::atom(a).add(Lin(-1))); v = Val::num(Lin::atom(a)); } else v = Val(); } // some value, the same until the next turn
      nv.push_back({&P, v}); }
    if (!redefined.empty()) {
      auto old = [&](const Val &v) { if (v.k == Val::Num) for (auto &a : v.l.t) if (redefined.count(a.first)) return true; return false; };
      for (auto it = s.env.begin(); it != s.env.end();) if (old(it->second)) it = s.env.erase(it); else ++it;
      for (auto &m : s.mem) { if (old(m.second)) m.second = Val(); for (auto &x : m.second.sub) if (old(x)) x = Val(); }
      for (auto it = s.facts.begin(); it != s.facts.end();) if (old(Val::num(*it))) it = s.facts.erase(it); else ++it;
    }
    s.facts.insert(positive.begin(), positive.end());
    for (auto &p : nv) if (p.second.k == Val::Unk) s.env.erase(p.first); else s.env[p.first] = p.second;
    for (auto it = s.env.begin(); it != s.env.end();) { if (!live(it->first).count(to)) it = s.env.erase(it); else ++it; }
    if (seen.size() > 200000) { over = true; return; }
    if (seen.insert({to, s}).second) work.push_back({to, s});
  }
  std::string factStr(const State &s) { std::string r; for (auto &f : s.facts) r += " [" + f.str() + ">=0]"; return r; }
  void fail(const std::string &rule, const Instruction *I, const std::string &m) { if (getenv("APA_DIMS") && getenv("APA_DIMS")[0] == 'v') fprintf(stderr, "FAIL %s\n", m.c_str()); bad.emplace(rule, std::make_pair(I, m)); }
  void atReturn(const ReturnInst *R, const State &s) {
    returns++;
    std::vector<Val> args; for (unsigned k = 0; k < F.arg_size(); k++) args.push_back(eval(F.getArg(k), s));
    State s0; s0.facts = s.facts; if (getenv("APA_DIMS") && getenv("APA_DIMS")[0] == 'v') { Val v = R->getReturnValue() ? eval(R->getReturnValue(), s) : Val(); fprintf(stderr, "ret %s%s\n", v.obj.c_str(), factStr(s).c_str()); for (auto &m : s.mem) fprintf(stderr, "   %s %ld = %d %s%s\n", m.first.first.c_str(), m.first.second, m.second.k, m.second.k == Val::Num ? m.second.l.str().c_str() : "", m.second.obj.c_str()); }
    if (destr != 1) for (auto &o : valueArgs) { // what is only given keeps its dimensions
      Lin i, r; Val v = Val::ptr(o); if (clsOf[o] == "A") v = read(s, o, D.valueOff, ptrTy());
      bool ok = dimsOf(s, v, i, r) && same(s.facts, i, Lin::atom("intdim" + other(o))) && same(s.facts, r, Lin::atom("realdim" + other(o)));
      if (!ok) fail("argument-dimensions-kept", R, "the argument's dimensions are not those it came with"); else okc["argument-dimensions-kept"]++;
    }
    if (!promised(op) && op != "DIMENSION") return;
    Val v = R->getReturnValue() ? eval(R->getReturnValue(), s) : Val();
    Lin i, r; bool have;
    if (op == "DIMENSION") { have = v.k == Val::Agg && v.sub.size() == 2 && v.sub[0].k == Val::Num && v.sub[1].k == Val::Num; if (have) { i = v.sub[0].l; r = v.sub[1].l; } }
    else {
      if (v.null()) { if (!generic) return; fail("dimensions-promised", R, "no value is returned"); return; }
      if (generic && v.k == Val::Ptr) v = rd2(s, v.obj);
      have = dimsOf(s, v, i, r);
    }
    if (!have) { fail("dimensions-promised", R, "the dimensions of the result are not determined by the arguments"); return; }
    auto alts = promise(op, args, s0, !generic);
    if (alts.empty()) { fail("dimensions-promised", R, "the promise is not expressible"); return; }
    for (auto &a : alts) { Facts f = s.facts; f.insert(a.facts.begin(), a.facts.end()); if (!consistent(f)) continue;
      if (same(f, i, a.i) && same(f, r, a.r)) { okc["dimensions-promised"]++; continue; }
      fail("dimensions-promised", R, "the result has " + i.str() + " integer and " + r.str() + " real dimensions, promised are " + a.i.str() + " and " + a.r.str()); }
  }
  Val rd2(const State &s, const std::string &o) { auto it = s.mem.find({o, D.valueOff}); if (it != s.mem.end()) return it->second; if (clsOf.count(o) && clsOf[o] == "A") return Val::ptr(o + ".value"); return Val(); }
  void classify(const Instruction *L, const Val &v) { // by declared type
    if (v.k != Val::Ptr || v.null() || clsOf.count(v.obj) || v.off) return;
    std::string c = D.cls(typeName(D.T->pointee(L))); if (!c.empty() && (v.obj.rfind("new", 0) || c == "A")) clsOf[v.obj] = c;
  }
  void from(const BasicBlock *B, BasicBlock::const_iterator it, State s) {
    const DataLayout &DL = D.M.getDataLayout();
    for (; it != B->end(); ++it) {
      const Instruction &I = *it; if (++steps > 12000000) { over = true; return; }
      auto set = [&](const Val &v) { if (v.k == Val::Unk || I.use_empty()) s.env.erase(&I); else s.env[&I] = v; };
      if (isa<PHINode>(I)) continue;
      if (isa<AllocaInst>(I)) { std::string tn = bare(typeName(D.T->pointee(&I))); if (tn == "ap_dimchange_t" || tn == "ap_dimension_t" || D.lay.count(tn)) ownLocals.insert("loc" + name(&I)); set(Val::ptr("loc" + name(&I))); continue; }
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        Val b = eval(G->getPointerOperand(), s); APInt o(64, 0); if (b.k == Val::Ptr && !b.null() && G->accumulateConstantOffset(DL, o)) set(Val::ptr(b.obj, b.off + o.getSExtValue()));
        else { // an index that is a known constant on this path
          MapVector<Value *, APInt> vo; APInt co(64, 0); bool ok = b.k == Val::Ptr && !b.null() && G->collectOffset(DL, 64, vo, co); int64_t off = co.getSExtValue();
          if (ok) for (auto &p : vo) { Val x = eval(p.first, s); if (x.k == Val::Num && x.l.t.empty()) off += x.l.c * p.second.getSExtValue(); else ok = false; }
          set(ok ? Val::ptr(b.obj, b.off + off) : Val()); }
        continue; }
      if (auto *L = dyn_cast<LoadInst>(&I)) {
        Val p = eval(L->getPointerOperand(), s); Val v;
        if (p.k == Val::Ptr && !p.null()) { if (L->getType()->isStructTy()) { v.k = Val::Agg; for (unsigned q = 0; q < L->getType()->getStructNumElements() && q < 2; q++) v.sub.push_back(read(s, p.obj, p.off + 8 * q, L->getType()->getStructElementType(q))); } else v = read(s, p.obj, p.off, L->getType()); }
        if (v.k == Val::Unk && L->getType()->isPointerTy()) { std::string c = D.cls(typeName(D.T->pointee(L))); if (!c.empty()) { v = Val::ptr("elem" + name(L)); clsOf[v.obj] = c; } }
        if (v.k == Val::Ptr) classify(L, v);
        set(v); continue; }
      if (auto *St = dyn_cast<StoreInst>(&I)) {
        Val p = eval(St->getPointerOperand(), s), v = eval(St->getValueOperand(), s);
        if (p.k == Val::Ptr && !p.null()) {
          auto c = clsOf.find(p.obj); bool keep = p.obj.rfind("new", 0) == 0 || p.obj.rfind("loc", 0) == 0 || c != clsOf.end();
          if (keep) { // only what may matter later: numbers and pointers
            bool rel = (St->getValueOperand()->getType()->isPointerTy() && (generic || p.obj.rfind("loc", 0) == 0)) || (St->getValueOperand()->getType()->isIntegerTy() && (DL.getTypeStoreSize(St->getValueOperand()->getType()) == 8));
            if (v.k == Val::Agg) { for (unsigned q = 0; q < v.sub.size(); q++) s.mem[{p.obj, p.off + 8 * q}] = v.sub[q]; }
            else if (rel) s.mem[{p.obj, p.off}] = v; }
          else if (p.obj.rfind("arg", 0) == 0) s.mem[{p.obj, p.off}] = v;
        } else { std::string n; const Value *b; if (D.T->fieldOf(St->getPointerOperand(), b, n)) { StringRef q = n; size_t d = q.rfind('.'); std::string stn = bare(q.substr(0, d).str()); StringRef f = q.substr(d + 1); if (D.lay.count(stn) && (f == "intdim" || f == "realdim" || f == "dim")) for (auto &o : valueArgs) s.mem[{o, D.lay[stn].i}] = Val(); } }
        continue; }
      if (auto *Se = dyn_cast<SelectInst>(&I)) {
        Val a = eval(Se->getTrueValue(), s), b = eval(Se->getFalseValue(), s);
        if (a.k == Val::Unk && b.k == Val::Unk) { s.env.erase(&I); continue; }
        if (a == b) { set(a); continue; }
        if (I.getType()->isIntegerTy(1)) { s.env.erase(&I); continue; }
        for (int k = 0; k < 2; k++) { std::vector<State> m; assume(Se->getCondition(), k == 0, s, m); for (auto &x : m) { Val v = k == 0 ? a : b; if (v.k == Val::Unk) x.env.erase(&I); else x.env[&I] = v; from(B, std::next(it), x); } }
        return; }
      if (auto *Bo = dyn_cast<BinaryOperator>(&I)) {
        Val a = eval(Bo->getOperand(0), s), b = eval(Bo->getOperand(1), s), v;
        if (a.k == Val::Num && b.k == Val::Num && !I.getType()->isIntegerTy(1)) switch (Bo->getOpcode()) {
          case Instruction::Add: v = Val::num(a.l.add(b.l)); break; case Instruction::Sub: v = Val::num(a.l.add(b.l, -1)); break;
          case Instruction::Mul: if (b.l.t.empty()) v = Val::num(Lin(0).add(a.l, b.l.c)); else if (a.l.t.empty()) v = Val::num(Lin(0).add(b.l, a.l.c)); break;
          case Instruction::Shl: if (b.l.t.empty() && b.l.c < 32) v = Val::num(Lin(0).add(a.l, 1LL << b.l.c)); break;
          default: break; }
        set(v); continue; }
      if (isa<ZExtInst>(I) || isa<SExtInst>(I) || isa<TruncInst>(I) || isa<FreezeInst>(I)) { if (isa<TruncInst>(I) && I.getType()->isIntegerTy(1)) { Val a = eval(I.getOperand(0), s); set(a.k == Val::Num && a.l.t.empty() ? Val::num(Lin(a.l.c & 1)) : Val()); } else set(eval(I.getOperand(0), s)); continue; }
      if (auto *C = dyn_cast<ICmpInst>(&I)) { std::vector<State> t, f; Val a = eval(C->getOperand(0), s), b = eval(C->getOperand(1), s);
        if (a.k != Val::Unk && b.k != Val::Unk) { assume(C, true, s, t); assume(C, false, s, f); if (t.empty() != f.empty()) set(Val::num(Lin(f.empty()))); else s.env.erase(&I); } else s.env.erase(&I); continue; }
      if (auto *X = dyn_cast<ExtractValueInst>(&I)) { Val a = eval(X->getAggregateOperand(), s); set(a.k == Val::Agg && X->getNumIndices() == 1 && X->getIndices()[0] < a.sub.size() ? a.sub[X->getIndices()[0]] : Val()); continue; }
      if (auto *N = dyn_cast<InsertValueInst>(&I)) { Val a = eval(N->getAggregateOperand(), s); if (a.k != Val::Agg) { a = Val(); a.k = Val::Agg; a.sub.resize(2); } if (N->getNumIndices() == 1 && N->getIndices()[0] < a.sub.size()) a.sub[N->getIndices()[0]] = eval(N->getInsertedValueOperand(), s); set(a); continue; }
      if (auto *MC = dyn_cast<MemTransferInst>(&I)) {
        Val d = eval(MC->getDest(), s), q = eval(MC->getSource(), s); auto *len = dyn_cast<ConstantInt>(MC->getLength());
        if (d.k == Val::Ptr && q.k == Val::Ptr && !d.null() && !q.null() && d.off == 0 && q.off == 0 && len && d.obj != q.obj) {
          for (auto m = s.mem.lower_bound({d.obj, INT64_MIN}); m != s.mem.end() && m->first.first == d.obj;) m = s.mem.erase(m);
          s.dflt.erase(d.obj); std::vector<std::pair<int64_t, Val>> cp; for (auto m = s.mem.lower_bound({q.obj, INT64_MIN}); m != s.mem.end() && m->first.first == q.obj; ++m) cp.push_back({m->first.second, m->second});
          for (auto &p : cp) s.mem[{d.obj, p.first}] = p.second; std::string src = q.obj; auto f = s.dflt.find(src); if (f != s.dflt.end()) src = f->second; s.dflt[d.obj] = src;
        }
        continue; }
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(CB)) continue;
        auto *G = Dims::callee(CB);
        const Value *base; int k = G ? -1 : D.S->calledSlot(CB, base);
        if (k >= 0) {
          std::string o = D.S->op(k); std::vector<Val> a; for (auto &x : CB->args()) a.push_back(eval(x, s));
          if (o == "DIMENSION") { Lin i, r; Val v; if (a.size() > 1) mark(a[1]); if (a.size() > 1 && dimsOf(s, a[1], i, r)) { v.k = Val::Agg; v.sub = {Val::num(i), Val::num(r)}; } set(v); continue; }
          if (promised(o)) {
            for (unsigned q = 0; q < a.size(); q++) if (!((o == "FOLD" || o == "ADD_DIMENSIONS" || o == "REMOVE_DIMENSIONS") && q == 3)) mark(a[q]); // what such an argument points to is not looked at
            auto alts = promise(o, a, s, false);
            for (auto &al : alts) { State n = s; bool dead = false; for (auto &f : al.facts) { bool val; if (known(n, f, val)) { if (!val) dead = true; } else n.facts.insert(f); } if (dead || !consistent(n.facts)) continue;
              std::string ob = "new" + name(CB); n.env[CB] = Val::ptr(ob); for (auto m = n.mem.lower_bound({ob, INT64_MIN}); m != n.mem.end() && m->first.first == ob;) m = n.mem.erase(m); n.mem[{ob, -1}] = Val::num(al.i); n.mem[{ob, -2}] = Val::num(al.r); from(B, std::next(it), n); }
            if (!alts.empty()) return;
          }
          if (I.getType()->isPointerTy()) { Val v = Val::ptr("new" + name(CB)); set(v); } else s.env.erase(&I);
          continue;
        }
        if (CB->doesNotReturn()) return;
        if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
          auto id = II->getIntrinsicID(); bool mn = id == Intrinsic::umin || id == Intrinsic::smin, mx = id == Intrinsic::umax || id == Intrinsic::smax, us = id == Intrinsic::usub_sat;
          if (mn || mx || us) { Val a = eval(II->getArgOperand(0), s), b = eval(II->getArgOperand(1), s); if (a.k == Val::Num && b.k == Val::Num) { Lin d = a.l.add(b.l, -1), e = Lin(-1).add(d, -1); for (int q = 0; q < 2; q++) { State n = s; n.facts.insert(q ? d : e); bool val; if (known(s, q ? d : e, val) && !val) continue; if (!consistent(n.facts)) continue; n.env[CB] = us ? Val::num(q ? d : Lin(0)) : (mx == (q == 1)) ? a : b; from(B, std::next(it), n); } return; } }
          s.env.erase(&I); continue; }
        // locals handed to functions that are not followed
        for (auto &x : CB->args()) if (x->getType()->isPointerTy()) { Val p = eval(x, s); if (p.k == Val::Ptr && p.obj.rfind("loc", 0) == 0 && !own(p.obj)) { s.dflt.erase(p.obj); std::vector<std::pair<std::string, int64_t>> ks; for (auto m = s.mem.lower_bound({p.obj, INT64_MIN}); m != s.mem.end() && m->first.first == p.obj; ++m) ks.push_back(m->first); if (G && !G->onlyReadsMemory() && !(G->getName() == "free")) for (auto &q : ks) s.mem[q] = Val(); } }
        if (I.getType()->isPointerTy()) { std::string ob = "new" + name(CB); for (auto m = s.mem.lower_bound({ob, INT64_MIN}); m != s.mem.end() && m->first.first == ob;) m = s.mem.erase(m); s.dflt.erase(ob); set(Val::ptr(ob)); } else s.env.erase(&I);
        continue; }
      if (I.isTerminator()) break;
      s.env.erase(&I);
    }
    const Instruction *t = B->getTerminator();
    if (auto *R = dyn_cast<ReturnInst>(t)) { atReturn(R, s); return; }
    if (auto *Br = dyn_cast<BranchInst>(t)) if (Br->isConditional()) { for (unsigned k = 0; k < 2; k++) { std::vector<State> m; assume(Br->getCondition(), k == 0, s, m); for (auto &x : m) enter(B, Br->getSuccessor(k), x); } return; }
    if (auto *Sw = dyn_cast<SwitchInst>(t)) { Val v = eval(Sw->getCondition(), s); if (v.k == Val::Num && v.l.t.empty()) { for (auto &c : Sw->cases()) if (c.getCaseValue()->getSExtValue() == v.l.c) { enter(B, c.getCaseSuccessor(), s); return; } enter(B, Sw->getDefaultDest(), s); return; }
      if (v.k == Val::Num) { // facts in each case, and for what is left when the first values have cases
        std::set<int64_t> vs; for (auto &c : Sw->cases()) { int64_t q = c.getCaseValue()->getSExtValue(); vs.insert(q); State n = s; Lin d = v.l.add(Lin(-q)), e = Lin(q).add(v.l, -1); bool dead = false; for (auto &x : {d, e}) { bool val; if (known(n, x, val)) { if (!val) dead = true; } else n.facts.insert(x); } if (!dead && consistent(n.facts)) enter(B, c.getCaseSuccessor(), n); }
        int64_t m = 0; while (vs.count(m)) m++; State n = s; if (m) n.facts.insert(v.l.add(Lin(-m))); if (consistent(n.facts)) enter(B, Sw->getDefaultDest(), n); return; } }
    for (unsigned k = 0; k < t->getNumSuccessors(); k++) enter(B, t->getSuccessor(k), s);
  }
  // locals whose counts only functions that are followed write
  std::set<std::string> ownLocals;
  bool own(const std::string &o) { return ownLocals.count(o) > 0; }
  void mark(const Val &v) { if (v.k == Val::Ptr && !v.null() && !clsOf.count(v.obj) && v.obj.rfind("arg", 0) == 0 && v.off == 0) clsOf[v.obj] = "V"; }
  void run() {
    auto sg = signatureOf(F);
    for (unsigned k = 0; k < F.arg_size() && k + 1 < sg.size(); k++) { std::string n = typeName(sg[k + 1]); if (n.empty() || n.back() != '*') continue; std::string c = D.cls(n.substr(0, n.size() - 1)); if (c.empty() && n == "void*" && !generic && D.lay.size() == 1) c = D.lay.begin()->first; if (!c.empty()) { std::string o = "arg" + std::to_string(k); clsOf[o] = c; valueArgs.push_back(o); } }
    State s; // what the generic layer has checked before a domain is called
    if (!generic) { Lin n = Lin::atom("intdim").add(Lin::atom("realdim")).add(Lin(-1));
      if (op == "EXPAND") s.facts.insert(n.add(Lin::atom("arg3"), -1));
      else if (op == "FOLD" || op == "FORGET_ARRAY" || op.rfind("ASSIGN", 0) == 0 || op.rfind("SUBSTITUTE", 0) == 0) s.facts.insert(n.add(Lin::atom("arg3@0"), -1)); }
    work.push_back({&F.getEntryBlock(), s});
    while (!work.empty() && !over) { auto [B, st] = work.back(); work.pop_back(); from(B, B->begin(), st); }
  }
};
} // namespace
int runDims(std::vector<std::string> args) {
  LLVMContext Ctx; auto M = loadModule(args[0], Ctx); if (!M) return 3;
  bool generic = args.size() > 1 && args[1] == "generic";
  promote(*M);
  Dims D(*M); if (generic) D.lay.clear(); D.reach();
  struct Job { Function *F; std::string op; int destr; std::string label; };
  std::vector<Job> jobs;
  auto addJob = [&](Function *F, const std::string &op) {
    auto sg = signatureOf(*F); bool flag = sg.size() > 2 && F->arg_size() >= 2 && F->getArg(1)->getType()->isIntegerTy(8);
    if (!flag) { jobs.push_back({F, op, -1, fnName(*F)}); return; }
    for (int v = 0; v < 2; v++) jobs.push_back({specialise(*F, 1, v), op, v, fnName(*F) + (v ? " (destructive)" : " (not destructive)")});
  };
  if (!generic) {
    for (auto &p : D.S->functions()) { if (p.first->isDeclaration() || !p.first->getSubprogram()) continue;
      { StringRef f = p.first->getSubprogram()->getFilename(); bool dom = false; for (auto *d : {"/box/", "/octagons/", "/avoct/", "/newpolka/"}) dom |= f.contains(d); if (!dom) continue; }
      for (int k : p.second) { std::string o = D.S->op(k); if (promised(o) || KEEP.count(o) || o == "DIMENSION") { addJob(const_cast<Function *>(p.first), o); break; } } }
  } else {
    std::map<std::string, std::string> byName; for (auto &p : D.S->ids) { std::string o = D.S->op(p.first), n = o; for (auto &c : n) c = tolower(c); byName["ap_abstract0_" + n] = o; }
    byName["ap_abstract0_of_lincons_array"] = byName["ap_abstract0_of_tcons_array"] = "TOP"; byName["ap_abstract0_widening_threshold"] = "WIDENING";
    for (auto *n : {"assign_linexpr", "substitute_linexpr", "assign_texpr", "substitute_texpr"}) byName[std::string("ap_abstract0_") + n] = "ASSIGN_LINEXPR_ARRAY";
    std::vector<std::pair<Function *, std::string>> fs; for (Function &F : *M) if (!F.isDeclaration()) { auto it = byName.find(F.getName().str()); if (it != byName.end() && (promised(it->second) || KEEP.count(it->second) || it->second == "DIMENSION")) fs.push_back({&F, it->second}); }
    for (auto &p : fs) addJob(p.first, p.second);
  }
  auto touch = D.touch;
  for (auto &j : jobs) { inlineInto(*j.F, [&](const Function &G) { return touch.count(&G) > 0; }); cleanup(*j.F); }
  D.refresh();
  for (auto &j : jobs) {
    Walk W(D, *j.F, j.op, generic, j.destr); W.run();
    if (getenv("APA_DIMS")) fprintf(stderr, "%s states %zu returns %ld%s\n", j.label.c_str(), W.seen.size(), W.returns, W.over ? " OVER" : "");
    if (W.over) { emitError(j.label + ": too many states"); continue; }
    tally("operations"); tally("returns", W.returns); tally("states", W.seen.size());
    std::set<std::string> rules; for (auto &p : W.okc) rules.insert(p.first); for (auto &p : W.bad) rules.insert(p.first);
    for (auto &r : rules) { auto b = W.bad.find(r); emitObligation(r, fnName(*j.F), j.label, b == W.bad.end());
      if (b != W.bad.end()) { std::string f; unsigned l; locOf(b->second.first, f, l); emitFindingAt(r, fnName(*j.F), f, l, j.destr == 1 ? "destructive" : "value", j.label + ": " + b->second.second); } }
  }
  return 0;
}
