#include "apa.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/DIBuilder.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/JumpThreading.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/LoopPeel.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include <iostream>

// ---------------------------------------------------------------- output
static std::string esc(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r + "\"";
}
void locOf(const Instruction *I, std::string &file, unsigned &line) {
  file = ""; line = 0;
  if (!I) return;
  if (const DebugLoc &d = I->getDebugLoc()) {
    const DILocation *L = d.get();
    file = L->getFilename().str(); line = L->getLine();
  } else if (I->getFunction())
    if (auto *S = I->getFunction()->getSubprogram()) { file = S->getFilename().str(); line = S->getLine(); }
}
std::string locStr(const DebugLoc &d) {
  if (!d) return "?";
  return d.get()->getFilename().str() + ":" + std::to_string(d.getLine());
}
std::string funcLoc(const Function &F) {
  if (auto *S = F.getSubprogram()) return S->getFilename().str() + ":" + std::to_string(S->getLine());
  return "?";
}
void emitFindingAt(const std::string &rule, const std::string &func, const std::string &file, unsigned line,
                   const std::string &key, const std::string &msg) {
  static std::set<std::string> seen;
  if (!seen.insert(rule + "|" + func + "|" + key).second) return;
  std::cout << "{\"kind\":\"finding\",\"rule\":" << esc(rule) << ",\"func\":" << esc(func) << ",\"file\":" << esc(file)
            << ",\"line\":" << line << ",\"key\":" << esc(key) << ",\"msg\":" << esc(msg) << "}\n";
}
void emitFinding(const std::string &rule, const std::string &func, const DebugLoc &loc, const std::string &key,
                 const std::string &msg) {
  std::string f; unsigned l = 0;
  if (loc) { f = loc.get()->getFilename().str(); l = loc.getLine(); }
  emitFindingAt(rule, func, f, l, key, msg);
}
void emitObligation(const std::string &rule, const std::string &func, const std::string &what, bool ok) {
  std::cout << "{\"kind\":\"ob\",\"rule\":" << esc(rule) << ",\"func\":" << esc(func) << ",\"what\":" << esc(what)
            << ",\"ok\":" << (ok ? "true" : "false") << "}\n";
}
static std::map<std::string, long> counters;
void tally(const std::string &n, long k) { counters[n] += k; }
void emitCounters() {
  for (auto &p : counters)
    std::cout << "{\"kind\":\"stat\",\"name\":" << esc(p.first) << ",\"value\":" << p.second << "}\n";
}
void emitError(const std::string &m) { std::cout << "{\"kind\":\"error\",\"msg\":" << esc(m) << "}\n"; }

// ---------------------------------------------------------------- modules
std::unique_ptr<Module> loadModule(const std::string &path, LLVMContext &C) {
  SMDiagnostic E;
  auto M = parseIRFile(path, E, C);
  if (!M) { emitError("cannot read " + path + ": " + E.getMessage().str()); exit(3); }
  return M;
}

namespace {
struct PM {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PM() {
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM);
    PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  }
};
}
static PM &pm() { static PM *p = new PM(); return *p; }

void promoteFunction(Function &F) { PM &P = pm(); FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); P.FAM.invalidate(F, PreservedAnalyses::none()); FPM.run(F, P.FAM); P.FAM.invalidate(F, PreservedAnalyses::none()); }
void promote(Module &M) {
  PM &P = pm();
  FunctionPassManager FPM;
  FPM.addPass(PromotePass());
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  for (Function &F : M)
    if (!F.isDeclaration()) { P.FAM.invalidate(F, PreservedAnalyses::none()); FPM.run(F, P.FAM); P.FAM.invalidate(F, PreservedAnalyses::none()); }
}
void cleanup(Function &F, bool thread) {
  PM &P = pm();
  FunctionPassManager FPM;
  SimplifyCFGOptions O; // no hoisting/sinking, keep the shape
  O.HoistCommonInsts = false; O.SinkCommonInsts = false; O.SpeculateBlocks = false; O.BonusInstThreshold = 0;
  O.ConvertSwitchToLookupTable = false; O.ConvertSwitchRangeToICmp = false;
  O.NeedCanonicalLoop = true;
  FPM.addPass(PromotePass());
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(SCCPPass());
  FPM.addPass(SimplifyCFGPass(O));
  FPM.addPass(EarlyCSEPass(true));
  if (thread) FPM.addPass(JumpThreadingPass());
  FPM.addPass(SimplifyCFGPass(O));
  FPM.addPass(ADCEPass());
  P.FAM.invalidate(F, PreservedAnalyses::none());
  FPM.run(F, P.FAM);
  P.FAM.invalidate(F, PreservedAnalyses::none());
}

bool isRecursive(const Function &F) {
  std::set<const Function *> seen; std::vector<const Function *> w{&F};
  while (!w.empty()) {
    const Function *G = w.back(); w.pop_back();
    for (const Instruction &I : instructions(*G))
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (const Function *H = CB->getCalledFunction()) {
          if (H == &F) return true;
          if (!H->isDeclaration() && seen.insert(H).second) w.push_back(H);
        }
  }
  return false;
}

void inlineInto(Function &F, const std::function<bool(const Function &)> &want, unsigned maxInsts) {
  std::map<const Function *, bool> rec;
  auto recursive = [&](const Function *G) {
    auto it = rec.find(G);
    if (it != rec.end()) return it->second;
    return rec[G] = isRecursive(*G);
  };
  bool changed = true; int rounds = 0;
  while (changed && rounds++ < 12) {
    changed = false;
    std::vector<CallBase *> cs;
    unsigned n = 0;
    for (Instruction &I : instructions(F)) {
      n++;
      if (auto *CB = dyn_cast<CallBase>(&I))
        if (Function *G = CB->getCalledFunction())
          if (!G->isDeclaration() && G != &F && want(*G) && !recursive(G)) cs.push_back(CB);
    }
    if (n > maxInsts) break;
    for (CallBase *CB : cs) {
      if (CB->getFunctionType() != CB->getCalledFunction()->getFunctionType()) continue;
      InlineFunctionInfo IFI;
      if (InlineFunction(*CB, IFI).isSuccess()) changed = true;
    }
  }
}

Function *specialise(Function &F, unsigned argno, uint64_t v) {
  ValueToValueMapTy VM;
  Function *G = CloneFunction(&F, VM);
  G->setName(F.getName() + ".spec" + std::to_string(v));
  Argument *A = G->getArg(argno);
  A->replaceAllUsesWith(ConstantInt::get(A->getType(), v));
  return G;
}

// ---------------------------------------------------------------- debug types
const DIType *stripType(const DIType *T) {
  while (T) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) break;
    switch (D->getTag()) {
    case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type:
    case dwarf::DW_TAG_restrict_type: T = D->getBaseType(); continue;
    default: return T;
    }
  }
  return T;
}
std::string typeName(const DIType *T0) {
  if (!T0) return "void";
  // prefer the typedef name of the type below pointers
  if (auto *D = dyn_cast<DIDerivedType>(T0)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_typedef: {
      const DIType *B = stripType(T0);
      if (B && (isa<DICompositeType>(B) || isa<DIBasicType>(B))) {
        if (auto *C = dyn_cast<DICompositeType>(B)) if (!C->getName().empty() && C->getTag() != dwarf::DW_TAG_array_type) return C->getName().str();
        if (isa<DIBasicType>(B)) return B->getName().str();
        return D->getName().str();
      }
      return typeName(D->getBaseType());
    }
    case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type:
      return typeName(D->getBaseType());
    case dwarf::DW_TAG_pointer_type: case dwarf::DW_TAG_reference_type: return typeName(D->getBaseType()) + "*";
    default: return D->getName().str();
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T0)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return typeName(C->getBaseType()) + "[]";
    return C->getName().str();
  }
  if (auto *B = dyn_cast<DIBasicType>(T0)) return B->getName().str();
  if (isa<DISubroutineType>(T0)) return "function";
  return "?";
}
const DISubroutineType *subroutineOf(const DIType *T) {
  T = stripType(T);
  while (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    if (D->getTag() != dwarf::DW_TAG_pointer_type) return nullptr;
    T = stripType(D->getBaseType());
  }
  return dyn_cast_or_null<DISubroutineType>(T);
}
std::vector<const DIType *> signatureOf(const Function &F) {
  std::vector<const DIType *> r;
  if (auto *S = F.getSubprogram())
    if (auto *T = S->getType())
      for (auto *x : T->getTypeArray()) r.push_back(x);
  return r;
}

const Value *stripOffset(const Value *V, const DataLayout &DL, int64_t &off) {
  off = 0;
  while (auto *G = dyn_cast<GEPOperator>(V)) {
    APInt A(DL.getIndexTypeSizeInBits(G->getType()), 0);
    if (!G->accumulateConstantOffset(DL, A)) break;
    off += A.getSExtValue();
    V = G->getPointerOperand();
  }
  return V;
}

static std::string stripStructName(StringRef n) {
  for (StringRef p : {"struct.", "union.", "class."}) if (n.starts_with(p)) { n = n.drop_front(p.size()); break; }
  // numeric suffix added by the linker
  size_t d = n.rfind('.');
  if (d != StringRef::npos && d + 1 < n.size() && llvm::all_of(n.substr(d + 1), [](char c) { return isdigit(c); })) n = n.substr(0, d);
  if (!n.contains('<')) { size_t q = n.rfind("::"); if (q != StringRef::npos) n = n.substr(q + 2); }
  return n.str();
}

Types::Types(Module &M) : DL(M.getDataLayout()), M(M) {
  DebugInfoFinder DF; DF.processModule(M);
  for (DIType *T : DF.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (!C->getName().empty() && !C->isForwardDecl() && C->getTag() != dwarf::DW_TAG_array_type) byName[C->getName().str()] = C;
    } else if (auto *D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *C = dyn_cast_or_null<DICompositeType>(stripType(D)))
          if (!C->isForwardDecl() && C->getTag() != dwarf::DW_TAG_array_type) byName.insert({D->getName().str(), C});
    }
  }
  for (Function &F : M) {
    if (auto *S = F.getSubprogram()) (void)S;
    for (Instruction &I : instructions(F)) {
      if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
        if (D->getExpression() && D->getExpression()->getNumElements() != 0) continue;
        for (Value *V : D->location_ops()) {
          if (isa<DbgDeclareInst>(D)) declType[V] = D->getVariable()->getType();
          else if (!isa<Constant>(V) && !valType.count(V)) valType[V] = D->getVariable()->getType();
        }
      }
    }
  }
}
const DICompositeType *Types::compositeFor(const StructType *ST) {
  if (!ST->hasName()) return nullptr;
  auto it = byName.find(stripStructName(ST->getName()));
  return it == byName.end() ? nullptr : it->second;
}
const DICompositeType *Types::composite(StringRef n) { auto it = byName.find(n.str()); return it == byName.end() ? nullptr : it->second; }

static const DIType *ptrBase(const DIType *T) {
  T = stripType(T);
  if (auto *D = dyn_cast_or_null<DIDerivedType>(T))
    if (D->getTag() == dwarf::DW_TAG_pointer_type || D->getTag() == dwarf::DW_TAG_reference_type) return D->getBaseType();
  if (auto *C = dyn_cast_or_null<DICompositeType>(T))
    if (C->getTag() == dwarf::DW_TAG_array_type) return C->getBaseType();
  return nullptr;
}

std::string Types::field(const DIType *T, uint64_t off, const DIType **ft, bool descend) {
  T = stripType(T);
  auto *C = dyn_cast_or_null<DICompositeType>(T);
  if (!C) { if (ft) *ft = nullptr; return ""; }
  if (C->getTag() == dwarf::DW_TAG_array_type) {
    const DIType *E = C->getBaseType();
    uint64_t sz = stripType(E) ? stripType(E)->getSizeInBits() / 8 : 0;
    if (sz == 0) { if (ft) *ft = E; return "[]"; }
    uint64_t r = off % sz;
    auto *EC = dyn_cast_or_null<DICompositeType>(stripType(E));
    if (EC && descend) { std::string s = field(E, r, ft, descend); return s.empty() ? "[]" : "[]." + s; }
    if (ft) *ft = E;
    return "[]";
  }
  for (auto *El : C->getElements()) {
    auto *D = dyn_cast<DIDerivedType>(El);
    if (!D || (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance)) continue;
    if (D->isStaticMember()) continue;
    uint64_t o = D->getOffsetInBits() / 8, sz = D->getSizeInBits() / 8;
    if (D->getTag() == dwarf::DW_TAG_inheritance) {
      auto *BT = dyn_cast_or_null<DICompositeType>(stripType(D->getBaseType()));
      if (!BT || off < o || off >= o + BT->getSizeInBits() / 8) continue;
      const DIType *sub = nullptr; std::string s = field(BT, off - o, &sub, descend);
      if (s.empty()) continue; // an empty base
      if (ft) *ft = sub;
      return s;
    }
    if (off < o || (off >= o + (sz ? sz : 1))) { if (!(sz == 0 && off >= o)) continue; }
    std::string n = D->getName().str();
    const DIType *FT = D->getBaseType();
    auto *FC = dyn_cast_or_null<DICompositeType>(stripType(FT));
    if (FC && descend && FC->getTag() != dwarf::DW_TAG_enumeration_type) {
      const DIType *sub = nullptr;
      std::string s = field(FT, off - o, &sub, descend);
      if (!s.empty()) { if (ft) *ft = sub; return n.empty() ? s : (s[0] == '[' ? n + s : n + "." + s); }
    }
    if (ft) *ft = FT;
    return n;
  }
  if (ft) *ft = nullptr;
  return "";
}

const DIType *Types::typeOfValue(const Value *V, int depth) {
  // the C type of the value V itself
  if (depth > 12 || !V) return nullptr;
  if (auto *A = dyn_cast<Argument>(V)) {
    auto it = valType.find(V);
    if (it != valType.end()) return it->second;
    auto s = signatureOf(*A->getParent());
    if (s.size() == A->getParent()->arg_size() + 1) return s[A->getArgNo() + 1];
    return nullptr;
  }
  if (auto *L = dyn_cast<LoadInst>(V)) {
    const Value *b; std::string n; const DIType *ft = nullptr;
    if (fieldOf(L->getPointerOperand(), b, n, &ft) && ft) return ft;
    const DIType *P = pointee(L->getPointerOperand());
    if (P) return P;
  }
  if (auto *CB = dyn_cast<CallBase>(V)) {
    if (const Function *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
      auto s = signatureOf(*F);
      if (!s.empty() && s[0] && !(stripType(s[0]) && ptrBase(s[0]) == nullptr && isa<DIDerivedType>(stripType(s[0])))) return s[0];
    }
  }
  if (auto *X = dyn_cast<ExtractValueInst>(V)) if (auto *CB = dyn_cast<CallBase>(X->getAggregateOperand())) if (X->getNumIndices() == 1) {
    auto *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); auto *ST = dyn_cast<StructType>(CB->getType());
    if (F && ST) { auto s = signatureOf(*F);
      if (!s.empty() && isa_and_nonnull<DICompositeType>(stripType(s[0]))) { const DIType *ft = nullptr; field(s[0], DL.getStructLayout(ST)->getElementOffset(X->getIndices()[0]), &ft, true); if (ft) return ft; } }
  }
  if (auto *P = dyn_cast<PHINode>(V)) {
    for (const Value *I : P->incoming_values()) {
      if (I == P || isa<Constant>(I)) continue;
      if (const DIType *T = typeOfValue(I, depth + 4)) if (ptrBase(T)) return T;
    }
  }
  if (auto *S = dyn_cast<SelectInst>(V)) {
    if (const DIType *T = typeOfValue(S->getTrueValue(), depth + 4)) return T;
    return typeOfValue(S->getFalseValue(), depth + 4);
  }
  auto it = valType.find(V);
  if (it != valType.end()) return it->second;
  return nullptr;
}
const DIType *Types::pointee(const Value *V) {
  auto it = cache.find(V);
  if (it != cache.end()) return it->second;
  cache[V] = nullptr;
  const DIType *R = nullptr;
  if (isa<AllocaInst>(V)) {
    auto d = declType.find(V);
    if (d != declType.end()) R = d->second;
    else if (auto *ST = dyn_cast<StructType>(cast<AllocaInst>(V)->getAllocatedType())) R = compositeFor(ST);
  } else if (auto *GV = dyn_cast<GlobalVariable>(V)) {
    SmallVector<DIGlobalVariableExpression *, 1> E; GV->getDebugInfo(E);
    if (!E.empty()) R = E[0]->getVariable()->getType();
  } else if (auto *G = dyn_cast<GEPOperator>(V)) {
    int64_t off; const Value *B = stripOffset(G, DL, off);
    if (B == G) { // variable index
      B = G->getPointerOperand();
      // array indexing of the pointee: same element type when the only variable index is the first
      if (G->getNumIndices() == 1) R = pointee(B);
      else if (auto *ST = dyn_cast<StructType>(G->getSourceElementType())) {
        const DIType *T = compositeFor(ST); if (!T) T = pointee(B);
        // walk indices
        const DIType *cur = T; Type *LT = ST;
        auto ii = G->idx_begin(); ++ii;
        for (; ii != G->idx_end() && cur; ++ii) {
          if (auto *S = dyn_cast<StructType>(LT)) {
            unsigned k = cast<ConstantInt>(*ii)->getZExtValue();
            const DIType *ft = nullptr;
            field(cur, DL.getStructLayout(S)->getElementOffset(k), &ft, false);
            cur = ft; LT = S->getElementType(k);
          } else if (auto *AT = dyn_cast<ArrayType>(LT)) {
            if (auto *C = dyn_cast_or_null<DICompositeType>(stripType(cur))) cur = C->getBaseType(); else cur = nullptr;
            LT = AT->getElementType();
          }
        }
        R = cur;
      } else if (isa<ArrayType>(G->getSourceElementType())) {
        const DIType *T = stripType(pointee(B));
        if (auto *C = dyn_cast_or_null<DICompositeType>(T)) if (C->getTag() == dwarf::DW_TAG_array_type) R = C->getBaseType();
        if (!R) R = T;
      }
    } else {
      const DIType *T = pointee(B);
      if (off == 0) {
        // p+0: keep the struct view unless the GEP names a field
        if (G->getNumIndices() > 1) { const DIType *ft = nullptr; if (isa_and_nonnull<DICompositeType>(stripType(T))) { field(T, 0, &ft, false); R = ft ? ft : T; } }
        else R = T;
      } else if (T) {
        auto *C = dyn_cast_or_null<DICompositeType>(stripType(T));
        uint64_t sz = stripType(T) ? stripType(T)->getSizeInBits() / 8 : 0;
        if (G->getNumIndices() == 1 && sz && off % (int64_t)sz == 0) R = T;
        else if (C) { const DIType *ft = nullptr; uint64_t o = sz && off >= 0 ? (uint64_t)off % sz : (uint64_t)off; field(T, o, &ft, false); R = ft; 
          // descend into the exact sub-object
        }
      }
      if (!R) if (auto *ST = dyn_cast<StructType>(G->getSourceElementType())) if (auto *C = compositeFor(ST)) {
        APInt A(DL.getIndexTypeSizeInBits(G->getType()), 0);
        if (G->accumulateConstantOffset(DL, A)) { uint64_t sz = DL.getTypeAllocSize(const_cast<StructType *>(ST)); const DIType *ft = nullptr; field(C, A.getZExtValue() % sz, &ft, false); R = ft; }
      }
    }
  } else {
    R = nullptr;
    if (const DIType *T = typeOfValue(V, 0)) R = ptrBase(T);
  }
  // a pointer to an array of T is used as pointer to T
  cache[V] = R;
  return R;
}

bool Types::fieldOf(const Value *V, const Value *&base, std::string &name, const DIType **ft) {
  int64_t off; const Value *B = stripOffset(V, DL, off);
  if (isa<GEPOperator>(B)) { // variable index below: element of an array of structs
    const DIType *T = pointee(B);
    auto *C = dyn_cast_or_null<DICompositeType>(stripType(T));
    if (C && C->getTag() == dwarf::DW_TAG_structure_type) {
      std::string f = field(T, off, ft);
      if (!f.empty()) { base = B; name = typeName(T) + "." + f; return true; }
    }
    return false;
  }
  const DIType *T = pointee(B);
  auto *C = dyn_cast_or_null<DICompositeType>(stripType(T));
  if (!C) {
    // fall back on the struct type of the GEP
    if (auto *G = dyn_cast<GEPOperator>(V))
      if (auto *ST = dyn_cast<StructType>(G->getSourceElementType()))
        if (auto *CC = compositeFor(ST)) {
          APInt A(DL.getIndexTypeSizeInBits(G->getType()), 0);
          if (G->accumulateConstantOffset(DL, A)) {
            std::string f = field(CC, A.getZExtValue(), ft);
            if (!f.empty()) { base = G->getPointerOperand(); name = CC->getName().str() + "." + f; if (CC->getName().empty()) name = stripStructName(ST->getName()) + "." + f; return true; }
          }
        }
    return false;
  }
  if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type && C->getTag() != dwarf::DW_TAG_class_type) return false;
  uint64_t sz = C->getSizeInBits() / 8;
  uint64_t o = off < 0 ? 0 : (sz && (uint64_t)off >= sz ? (uint64_t)off % sz : (uint64_t)off);
  std::string f = field(T, o, ft);
  if (f.empty()) return false;
  base = B; name = typeName(T) + "." + f;
  return true;
}

std::map<int64_t, std::string> enumerators(Module &M, StringRef n) {
  std::map<int64_t, std::string> r;
  DebugInfoFinder DF; DF.processModule(M);
  auto take = [&](const DICompositeType *C) {
    for (auto *E : C->getElements())
      if (auto *e = dyn_cast<DIEnumerator>(E)) r[e->getValue().getSExtValue()] = e->getName().str();
  };
  for (DIType *T : DF.types()) {
    if (auto *C = dyn_cast<DICompositeType>(T)) { if (C->getTag() == dwarf::DW_TAG_enumeration_type && C->getName() == n) { take(C); return r; } }
    else if (auto *D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_typedef && D->getName() == n)
        if (auto *C = dyn_cast_or_null<DICompositeType>(stripType(D))) if (C->getTag() == dwarf::DW_TAG_enumeration_type) { take(C); return r; }
  }
  for (auto *CU : M.debug_compile_units())
    for (auto *C : CU->getEnumTypes()) if (C->getName() == n) { take(C); return r; }
  return r;
}
std::string fnName(const Function &F) { StringRef n = F.getName(); size_t p = n.find(".spec"); return n.substr(0, p).str(); }
const DILocalVariable *variableOf(const Value *V) {
  SmallVector<DbgValueInst *, 4> d;
  findDbgValues(d, const_cast<Value *>(V));
  if (auto *A = dyn_cast<Argument>(V)) for (auto *x : d) if (x->getVariable()->isParameter() && !x->getDebugLoc()->getInlinedAt() && x->getExpression()->getNumElements() == 0 && x->getVariable()->getScope()->getSubprogram() == A->getParent()->getSubprogram()) return x->getVariable();
  for (auto *x : d) return x->getVariable();
  return nullptr;
}

void debugDump(const Function &F) { // APA_DUMP=<name>: print a function as the analysis sees it
  const char *e = getenv("APA_DUMP");
  if (e && F.getName().contains(e)) { F.print(errs()); }
}

// copy the body of every loop n times (the loops remain)
// the first n iterations of every loop are taken out of it
void peelLoops(Function &F, unsigned n) {
  PM &P = pm();
  P.FAM.invalidate(F, PreservedAnalyses::none());
  auto &LI = P.FAM.getResult<LoopAnalysis>(F); auto &DT = P.FAM.getResult<DominatorTreeAnalysis>(F); auto &SE = P.FAM.getResult<ScalarEvolutionAnalysis>(F);
  auto &AC = P.FAM.getResult<AssumptionAnalysis>(F);
  for (Loop *L : SmallVector<Loop *, 8>(LI.begin(), LI.end())) simplifyLoop(L, &DT, &LI, &SE, &AC, nullptr, false);
  for (Loop *L : SmallVector<Loop *, 8>(LI.begin(), LI.end())) formLCSSARecursively(*L, DT, &LI, &SE);
  SmallVector<Loop *, 16> order = LI.getLoopsInPreorder(); std::reverse(order.begin(), order.end());
  for (Loop *L : order) {
    ValueToValueMapTy VM; bool ok = canPeel(L) && peelLoop(L, n, &LI, &SE, DT, &AC, true, VM);
    tally(ok ? "loops_peeled" : "loops_kept");
  }
  P.FAM.invalidate(F, PreservedAnalyses::none());
}
