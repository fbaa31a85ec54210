// Calls through the Java environment table, by name.
#pragma once
#include "apa.h"
struct Jni {
  Types &T; Jni(Types &T) : T(T) {}
  std::map<const Value *, std::string> memo;
  // "GetLongField", or "" when CB is no call through the table
  std::string slot(const CallBase *CB) {
    auto it = memo.find(CB); if (it != memo.end()) return it->second;
    std::string r; auto *L = dyn_cast<LoadInst>(CB->getCalledOperand()->stripPointerCasts());
    if (L) { const Value *b; std::string n; if (T.fieldOf(L->getPointerOperand(), b, n) && StringRef(n).starts_with("JNINativeInterface_.")) r = n.substr(strlen("JNINativeInterface_.")); }
    return memo[CB] = r;
  }
  // operands that must not be null
  static std::vector<unsigned> derefs(StringRef s) {
    if (s.ends_with("Field") && (s.starts_with("Get") || s.starts_with("Set")) && !s.contains("Static")) return {1};
    if (s.ends_with("FieldID") || s.ends_with("MethodID")) return {1};
    if (s == "GetArrayLength" || s == "GetObjectClass" || s == "GetObjectArrayElement" || s == "SetObjectArrayElement" || s == "AllocObject" || s == "Throw" || s == "ThrowNew") return {1};
    if (s.contains("ArrayElements") || s.contains("ArrayRegion") || s.contains("ArrayCritical") || s.contains("String")) { if (s.starts_with("Get")) return {1}; if (s.starts_with("Release")) return {1}; if (s.starts_with("Set")) return {1}; }
    if (s.starts_with("Call") || s == "NewObject" || s == "NewObjectA" || s == "NewObjectV") return {1};
    if (s == "NewObjectArray") return {2};
    if (s == "MonitorEnter" || s == "MonitorExit") return {1};
    return {};
  }
  static bool isObject(const DIType *t) {
    for (int i = 0; t && i < 6; i++) { auto *D = dyn_cast<DIDerivedType>(t); if (!D) return false; if (D->getName() == "jobject") return true; if (D->getTag() != dwarf::DW_TAG_typedef && D->getTag() != dwarf::DW_TAG_pointer_type) return false; if (D->getTag() == dwarf::DW_TAG_pointer_type) return D->getBaseType() && D->getBaseType()->getName() == "_jobject"; t = D->getBaseType(); }
    return false;
  }
};
