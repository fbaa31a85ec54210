// apa: analyses of apron's LLVM bitcode.  Common infrastructure.
#pragma once
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SetVector.h"
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

// ---------------------------------------------------------------- output
// One JSON object per line on stdout: findings, obligations, counters, errors.
void emitFinding(const std::string &rule, const std::string &func, const DebugLoc &loc,
                 const std::string &key, const std::string &msg);
void emitFindingAt(const std::string &rule, const std::string &func, const std::string &file,
                   unsigned line, const std::string &key, const std::string &msg);
void emitObligation(const std::string &rule, const std::string &func, const std::string &what, bool ok);
void tally(const std::string &name, long n = 1);
void emitCounters();
void debugDump(const Function &F);
void emitError(const std::string &msg);
std::string locStr(const DebugLoc &loc);
std::string funcLoc(const Function &F);
void locOf(const Instruction *I, std::string &file, unsigned &line);

// ---------------------------------------------------------------- modules
std::unique_ptr<Module> loadModule(const std::string &path, LLVMContext &C);
// mem2reg + sroa on every function.
void promote(Module &M);
void promoteFunction(Function &F);
// Inline every direct call to a defined function for which want() holds (recursively,
// not across recursion), then promote, thread jumps and clean the CFG.
void inlineInto(Function &F, const std::function<bool(const Function &)> &want, unsigned maxInsts = 200000);
void cleanup(Function &F, bool thread = true);
// clone F with integer/bool argument n fixed to v
Function *specialise(Function &F, unsigned argno, uint64_t v);
bool isRecursive(const Function &F);

// ---------------------------------------------------------------- debug types
const DIType *stripType(const DIType *T); // typedefs and qualifiers
std::string typeName(const DIType *T);    // readable: "ap_linexpr0_t*"
const DISubroutineType *subroutineOf(const DIType *T); // T = (pointer to) function type
// C-level parameter types of a defined function (index 0 = return type)
std::vector<const DIType *> signatureOf(const Function &F);
// source-level parameter -> LLVM argument (nullptr when split/coerced)
const DILocalVariable *variableOf(const Value *V);

class Types {
public:
  explicit Types(Module &M);
  // what pointer V points to, if the debug info tells
  const DIType *pointee(const Value *V);
  // name of the field at constant byte offset off in struct type T (descends in nested structs
  // and arrays); sets *ft to the field's type
  std::string field(const DIType *T, uint64_t off, const DIType **ft, bool descend = true);
  // If V is a pointer to a field of a struct: base pointer, and "struct.field"
  bool fieldOf(const Value *V, const Value *&base, std::string &name, const DIType **ft = nullptr);
  const DICompositeType *compositeFor(const StructType *ST);
  const DICompositeType *composite(StringRef name);
  const DataLayout &DL;
  Module &M;
private:
  std::map<std::string, const DICompositeType *> byName;
  std::map<const Value *, const DIType *> cache;
  std::map<const Value *, const DIType *> declType;
  const DIType *typeOfValue(const Value *V, int depth);
  std::map<const Value *, const DIType *> valType;
};

// constant-offset decomposition: V = base + off
const Value *stripOffset(const Value *V, const DataLayout &DL, int64_t &off);

// Enumerators of a C enum type: value -> name
std::map<int64_t, std::string> enumerators(Module &M, StringRef enumName);

std::string fnName(const Function &F); // without clone suffixes
inline bool startsWith(StringRef a, StringRef b) { return a.starts_with(b); }

int runTables(std::vector<std::string> args);
int runGlobals(std::vector<std::string> args);
int runFormat(std::vector<std::string> args);
int runFlags(std::vector<std::string> args);
int runExc(std::vector<std::string> args);
int runWrap(std::vector<std::string> args);
int runProduct(std::vector<std::string> args);
int runTexpr(std::vector<std::string> args);
int runKinds(std::vector<std::string> args);
int runArgs(std::vector<std::string> args);
int runEnvs(std::vector<std::string> args);
int runJargs(std::vector<std::string> args);
int runOwn(std::vector<std::string> args);
int runJexc(std::vector<std::string> args);
int runCells(std::vector<std::string> args);
int runConv(std::vector<std::string> args);
int runDims(std::vector<std::string> args);
void peelLoops(Function &F, unsigned n);
int runRounding(std::vector<std::string> args);
