// irx: dump the LLVM IR of the analysed program as JSON for the Python analyses.
//
//   irx IN.bc OUT.json --repo DIR [--keep FILE] [--only FILE]
//
// --repo DIR   functions whose debug-info file lies under DIR are "repo" functions
// --keep FILE  mangled names (one per line) that stay as calls; every other repo function is
//              inlined into its callers before the dump (extracted helpers disappear)
// --only FILE  dump bodies of these mangled names only (declarations of the rest are listed)
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <vector>
#include <set>
#include <string>
using namespace llvm;

static const DataLayout *DL;
static std::string RepoDir;
static std::map<const Value *, int> Ids;

static std::string tyname(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) {
    if (S->hasName()) return S->getName().str();
  }
  std::string s;
  raw_string_ostream os(s);
  T->print(os, false, true);
  return os.str();
}

static json::Value op(const Value *V);

static bool gepParts(const GEPOperator *G, const Value *&Base, int64_t &Off,
                     json::Array &Terms) {
  unsigned W = DL->getIndexSizeInBits(0);
  MapVector<Value *, APInt> Var;
  APInt C(W, 0);
  if (!G->collectOffset(*DL, W, Var, C)) return false;
  Base = G->getPointerOperand();
  Off = C.getSExtValue();
  for (auto &KV : Var)
    Terms.push_back(json::Array{op(KV.first), KV.second.getSExtValue()});
  return true;
}

// constant offset and number of variable terms up to and including the last member selected by a GEP; -1: none
static bool gepField(const GEPOperator *G, int64_t &Off, json::Array &Terms) {
  std::vector<Value *> Idx;
  int last = -1, n = 0;
  for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it, ++n) {
    Idx.push_back(it.getOperand());
    if (it.isStruct()) last = n;
  }
  if (last < 0) return false;
  Off = 0;
  n = 0;
  for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e && n <= last; ++it, ++n) {
    if (auto *ST = it.getStructTypeOrNull()) {
      Off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
    } else {
      int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
      if (auto *C = dyn_cast<ConstantInt>(it.getOperand())) Off += C->getSExtValue() * sz;
      else Terms.push_back(json::Array{op(it.getOperand()), sz});
    }
  }
  return true;
}

static json::Value op(const Value *V) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    SmallString<32> s;
    CI->getValue().toStringSigned(s);
    return json::Array{"i", s.str().str(), (int64_t)CI->getBitWidth()};
  }
  if (auto *CF = dyn_cast<ConstantFP>(V)) {
    bool lose;
    APFloat f = CF->getValueAPF();
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    double d = f.convertToDouble();
    char buf[64];
    snprintf(buf, sizeof buf, "%a", d);
    return json::Array{"f", std::string(buf)};
  }
  if (isa<ConstantPointerNull>(V)) return json::Array{"n"};
  if (isa<UndefValue>(V)) return json::Array{"u"};
  if (auto *F = dyn_cast<Function>(V)) return json::Array{"fn", F->getName().str()};
  if (auto *G = dyn_cast<GlobalVariable>(V)) return json::Array{"g", G->getName().str()};
  if (auto *G = dyn_cast<GEPOperator>(V)) {
    if (isa<ConstantExpr>(V)) {
      const Value *B; int64_t O; json::Array T;
      if (gepParts(G, B, O, T) && T.empty())
        return json::Array{"cg", op(B), O};
    }
  }
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    json::Array A{"ce", CE->getOpcodeName()};
    for (auto &o : CE->operands()) A.push_back(op(o.get()));
    return A;
  }
  if (isa<ConstantAggregateZero>(V)) return json::Array{"z"};
  auto it = Ids.find(V);
  if (it != Ids.end()) return json::Array{"v", it->second};
  if (isa<BasicBlock>(V)) return json::Array{"b", Ids[V]};
  return json::Array{"?"};
}

static json::Value constInit(const Constant *C, int depth = 0) {
  if (depth > 4) return nullptr;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    if (D->isString()) {
      std::string s = D->getAsString().str();
      std::string o;
      for (unsigned char c : s) { if (c == 0) break; if (c < 0x80) o += c; else o += '?'; }
      return json::Object{{"s", o}};
    }
    json::Array A;
    if (D->getNumElements() > 4096) return nullptr;
    for (unsigned i = 0; i < D->getNumElements(); i++) A.push_back(constInit(D->getElementAsConstant(i), depth + 1));
    return A;
  }
  if (isa<ConstantInt>(C) || isa<ConstantFP>(C) || isa<ConstantPointerNull>(C)) return op(C);
  if (isa<ConstantAggregateZero>(C)) return json::Array{"z"};
  if (auto *A = dyn_cast<ConstantAggregate>(C)) {
    json::Array R;
    if (A->getNumOperands() > 4096) return nullptr;
    for (auto &o : A->operands()) R.push_back(constInit(cast<Constant>(o.get()), depth + 1));
    return R;
  }
  return op(C);
}

static std::string diTy(DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 6) return "?";
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diTy(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_reference_type: return diTy(D->getBaseType(), depth + 1) + "&";
    case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type:
    case dwarf::DW_TAG_member:
      return diTy(D->getBaseType(), depth + 1);
    default: return diTy(D->getBaseType(), depth + 1);
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diTy(C->getBaseType(), depth + 1);
      for (auto *E : C->getElements())
        if (auto *R = dyn_cast<DISubrange>(E)) {
          int64_t n = -1;
          if (auto *CI = dyn_cast_if_present<ConstantInt *>(R->getCount())) n = CI->getSExtValue();
          s += "[" + std::to_string(n) + "]";
        }
      return s;
    }
    if (C->getTag() == dwarf::DW_TAG_enumeration_type) return "int";
    return C->getName().str();
  }
  return "?";
}

static bool inRepo(const DISubprogram *S) {
  if (!S) return false;
  std::string f = S->getFilename().str();
  if (!f.empty() && f[0] != '/') f = (S->getDirectory() + "/" + f).str();
  return f.rfind(RepoDir, 0) == 0;
}
static std::string fpath(const DIFile *F) {
  if (!F) return "";
  std::string f = F->getFilename().str();
  if (!f.empty() && f[0] != '/') f = (F->getDirectory() + "/" + f).str();
  if (f.rfind(RepoDir, 0) == 0) f = f.substr(RepoDir.size() + (RepoDir.back() == '/' ? 0 : 1));
  return f;
}

// records of two ints are moved as one 64-bit word by the calling convention: split such loads and stores again
static bool isTruncI32(const User *U) { auto *T = dyn_cast<TruncInst>(U); return T && T->getType()->isIntegerTy(32); }
static Value *zextFrom32(Value *V) {
  if (auto *Z = dyn_cast<ZExtInst>(V)) if (Z->getSrcTy()->isIntegerTy(32)) return Z->getOperand(0);
  if (auto *C = dyn_cast<ConstantInt>(V)) if (C->getValue().isIntN(32)) return ConstantInt::get(Type::getInt32Ty(V->getContext()), C->getZExtValue());
  return nullptr;
}
static void splitWords(Function &F) {
  std::vector<LoadInst *> Ls; std::vector<StoreInst *> Ss; std::vector<BinaryOperator *> Dead;
  for (auto &I : instructions(F)) {
    if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->getType()->isIntegerTy(64) && !L->isVolatile()) Ls.push_back(L); }
    if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->getValueOperand()->getType()->isIntegerTy(64) && !S->isVolatile()) Ss.push_back(S); }
  }
  Type *I32 = Type::getInt32Ty(F.getContext()), *I8 = Type::getInt8Ty(F.getContext());
  for (auto *L : Ls) {
    bool ok = !L->use_empty();
    auto isHi = [](const User *U) {
      auto *B = dyn_cast<BinaryOperator>(U);
      if (!B || B->getOpcode() != Instruction::LShr) return false;
      auto *C = dyn_cast<ConstantInt>(B->getOperand(1));
      if (!C || C->getZExtValue() != 32) return false;
      for (auto *V : B->users()) if (!isTruncI32(V)) return false;
      return true;
    };
    for (auto *U : L->users()) if (!isTruncI32(U) && !isHi(U)) ok = false;
    if (!ok) continue;
    IRBuilder<> B(L);
    B.SetCurrentDebugLocation(L->getDebugLoc());
    Value *P = L->getPointerOperand();
    Value *Lo = B.CreateLoad(I32, P), *Hi = B.CreateLoad(I32, B.CreateConstInBoundsGEP1_64(I8, P, 4));
    std::vector<Instruction *> Del;
    for (auto *U : L->users()) {
      auto *I = cast<Instruction>(U);
      if (isTruncI32(I)) { I->replaceAllUsesWith(Lo); Del.push_back(I); }
      else { for (auto *V : I->users()) { auto *T = cast<Instruction>(V); T->replaceAllUsesWith(Hi); Del.push_back(T); } Del.push_back(I); }
    }
    // truncs of a shift come before the shift in Del
    for (auto *I : Del) I->eraseFromParent();
    L->eraseFromParent();
  }
  for (auto *S : Ss) {
    auto *O = dyn_cast<BinaryOperator>(S->getValueOperand());
    if (!O || O->getOpcode() != Instruction::Or) continue;
    for (int k = 0; k < 2; k++) {
      auto *Sh = dyn_cast<BinaryOperator>(O->getOperand(k));
      Value *Lo = zextFrom32(O->getOperand(1 - k)), *Hi = nullptr;
      if (Sh && Sh->getOpcode() == Instruction::Shl) {
        auto *C = dyn_cast<ConstantInt>(Sh->getOperand(1));
        if (C && C->getZExtValue() == 32) Hi = zextFrom32(Sh->getOperand(0));
      } else if (auto *C = dyn_cast<ConstantInt>(O->getOperand(k))) {
        if ((C->getZExtValue() & 0xffffffffULL) == 0) Hi = ConstantInt::get(I32, C->getZExtValue() >> 32);
      }
      if (!Lo || !Hi) continue;
      IRBuilder<> B(S);
      B.SetCurrentDebugLocation(S->getDebugLoc());
      Value *P = S->getPointerOperand();
      B.CreateStore(Lo, P);
      B.CreateStore(Hi, B.CreateConstInBoundsGEP1_64(I8, P, 4));
      S->eraseFromParent();
      break;
    }
  }
}

// Reads of a local variable that certainly see it unassigned: before the first execution of the read no store to the
// variable (nor anything that takes its address) can have been executed.  Runs on the module as compiled.
static void unassigned(Function &F, json::Array &Out) {
  std::set<const BasicBlock *> Live;
  std::vector<const BasicBlock *> W{&F.getEntryBlock()};
  while (!W.empty()) { auto *B = W.back(); W.pop_back(); if (Live.insert(B).second) for (auto *S : successors(B)) W.push_back(S); }
  std::map<const Instruction *, unsigned> Pos;
  for (auto &B : F) { unsigned k = 0; for (auto &I : B) Pos[&I] = k++; }
  for (auto &I : F.getEntryBlock()) {
    auto *A = dyn_cast<AllocaInst>(&I);
    if (!A) continue;
    std::string nm;
    for (auto *D : findDbgDeclares(A)) nm = D->getVariable()->getName().str();
    if (nm.empty()) continue;
    std::vector<const LoadInst *> Ld; std::vector<const Instruction *> St;
    std::vector<const Value *> Q{A};
    std::set<const Value *> Seen;
    while (!Q.empty()) {
      auto *V = Q.back(); Q.pop_back();
      if (!Seen.insert(V).second) continue;
      for (auto *U : V->users()) {
        auto *X = dyn_cast<Instruction>(U);
        if (!X || isa<DbgInfoIntrinsic>(X)) continue;
        if (auto *L = dyn_cast<LoadInst>(X)) Ld.push_back(L);
        else if (isa<GetElementPtrInst>(X) || isa<BitCastInst>(X)) Q.push_back(X);
        else if (X->isLifetimeStartOrEnd()) continue;
        else St.push_back(X);
      }
    }
    for (auto *L : Ld) {
      if (!Live.count(L->getParent()) || L->use_empty()) continue;
      auto *B = L->getParent();
      // blocks reachable without executing L; blocks from which L is reachable
      std::set<const BasicBlock *> R, Bk;
      W = {&F.getEntryBlock()};
      while (!W.empty()) { auto *X = W.back(); W.pop_back(); if (R.insert(X).second && X != B) for (auto *S : successors(X)) W.push_back(S); }
      for (auto *P : predecessors(B)) W.push_back(P);
      while (!W.empty()) { auto *X = W.back(); W.pop_back(); if (Bk.insert(X).second) for (auto *P : predecessors(X)) W.push_back(P); }
      bool some = false;
      for (auto *S : St) {
        auto *C = S->getParent();
        if (C == B ? Pos[S] < Pos[L] : R.count(C) && Bk.count(C)) { some = true; break; }
      }
      if (!some) Out.push_back(json::Array{nm, (int64_t)(L->getDebugLoc() ? L->getDebugLoc().getLine() : 0)});
    }
  }
}

int main(int argc, char **argv) {
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irx", errs()); return 2; }
  DL = &M->getDataLayout();
  std::set<std::string> Keep, Only;
  bool doInline = false, haveOnly = false, unroll = true;
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--repo") RepoDir = argv[++i];
    else if (a == "--no-unroll") unroll = false;
    else if (a == "--keep") { doInline = true; std::ifstream f(argv[++i]); std::string l; while (std::getline(f, l)) if (!l.empty()) Keep.insert(l); }
    else if (a == "--only") { haveOnly = true; std::ifstream f(argv[++i]); std::string l; while (std::getline(f, l)) if (!l.empty()) Only.insert(l); }
  }
  auto pureStd = [](const std::string &d) {
    static const char *pre[] = {"std::max<", "std::min<", "double const& std::max<", "int const& std::max<", "double const& std::min<", "int const& std::min<",
      "std::abs(", "std::fabs(", "__gnu_cxx::__promote", "std::swap<", "std::move<", "std::forward<", "std::isnan", "std::isfinite",
      "std::enable_if<", "void std::swap<", "std::sqrt(", "std::pow(", "std::exp(", "std::log("};
    if (d.find("std::basic_") != std::string::npos) return false;
    for (auto p : pre) if (d.find(p) == 0) return true;
    if (d.find("std::max<") != std::string::npos || d.find("std::min<") != std::string::npos) return true;
    if (d.find("std::fill_n<") != std::string::npos || d.find("std::__fill_n") != std::string::npos || d.find("std::__fill_a") != std::string::npos || d.find("std::__size_to_integer") != std::string::npos || d.find("std::__iterator_category") != std::string::npos) return true;
    if (d.find("__gnu_cxx::__enable_if<") == 0) return true;
    return false;
  };
  {
    // constructors and destructors are called through aliases (C1 -> C2): resolve them
    std::vector<GlobalAlias *> As;
    for (auto &A : M->aliases()) As.push_back(&A);
    for (auto *A : As)
      if (auto *F = dyn_cast<Function>(A->getAliasee()->stripPointerCasts())) A->replaceAllUsesWith(F);
  }
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::AlwaysInline);
    bool repo = inRepo(F.getSubprogram());
    std::string d = demangle(F.getName().str());
    if (doInline && ((repo && !Keep.count(F.getName().str())) || (!repo && pureStd(d)))) {
      if (F.getName() != "main") { F.addFnAttr(Attribute::AlwaysInline); continue; }
    }
    F.addFnAttr(Attribute::NoInline);
  }
  std::map<std::string, json::Array> Unassigned;
  if (!doInline)
    for (auto &F : *M) if (!F.isDeclaration() && inRepo(F.getSubprogram())) unassigned(F, Unassigned[F.getName().str()]);
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    std::string P = "function(lower-invoke,simplifycfg)";
    P = "function(lowerinvoke,lower-expect),";
    if (doInline) P += "always-inline,";
    std::string SC = "simplifycfg<no-sink-common-insts;no-hoist-common-insts;no-switch-to-lookup;keep-loops;no-switch-range-to-icmp;no-simplify-cond-branch;no-speculate-blocks;bonus-inst-threshold=0>";
    P += "function(sroa,early-cse," + SC + ",loop-simplify";
    if (doInline && unroll) P += ",loop-unroll<O2;no-partial;no-runtime;no-peeling;no-profile-peeling;no-upperbound;full-unroll-max=40>,sroa,early-cse," + SC + ",loop-simplify";
    P += ")";
    if (auto E = PB.parsePassPipeline(MPM, P)) { errs() << "pipeline: " << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  for (auto &F : *M) if (!F.isDeclaration()) splitWords(F);
  std::error_code EC;
  raw_fd_ostream OS(argv[2], EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  json::OStream J(OS);
  J.objectBegin();
  // ---- struct layouts
  J.attributeBegin("structs"); J.objectBegin();
  for (auto *S : M->getIdentifiedStructTypes()) {
    if (!S->isSized()) continue;
    J.attributeBegin(S->getName()); J.objectBegin();
    auto *L = DL->getStructLayout(S);
    J.attribute("size", (int64_t)L->getSizeInBytes());
    J.attributeBegin("elems"); J.arrayBegin();
    for (unsigned i = 0; i < S->getNumElements(); i++)
      J.value(json::Array{(int64_t)L->getElementOffset(i), tyname(S->getElementType(i))});
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  // ---- debug-info record types declared in repo headers
  DebugInfoFinder DIF;
  DIF.processModule(*M);
  J.attributeBegin("records"); J.objectBegin();
  std::set<std::string> seenRec;
  for (auto *T : DIF.types()) {
    auto *C = dyn_cast<DICompositeType>(T);
    if (!C || C->isForwardDecl()) continue;
    if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_class_type) continue;
    std::string fp = fpath(C->getFile());
    if (fp.empty() || fp[0] == '/') continue;
    std::string n = C->getName().str();
    if (n.empty() || !seenRec.insert(n).second) continue;
    J.attributeBegin(n); J.objectBegin();
    J.attribute("size", (int64_t)C->getSizeInBits() / 8);
    J.attribute("file", fp);
    J.attributeBegin("members"); J.arrayBegin();
    for (auto *E : C->getElements()) {
      auto *D = dyn_cast<DIDerivedType>(E);
      if (!D || D->isStaticMember()) continue;
      if (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance) continue;
      uint64_t sz = 0;
      if (auto *BT = D->getBaseType()) sz = BT->getSizeInBits() / 8;
      if (D->getTag() == dwarf::DW_TAG_member && D->getSizeInBits()) sz = D->getSizeInBits() / 8;
      J.value(json::Object{{"name", D->getTag() == dwarf::DW_TAG_inheritance ? std::string("<base>") : D->getName().str()},
                           {"off", (int64_t)D->getOffsetInBits() / 8},
                           {"size", (int64_t)sz},
                           {"type", diTy(D->getBaseType())}});
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  // ---- globals
  J.attributeBegin("globals"); J.objectBegin();
  for (auto &G : M->globals()) {
    J.attributeBegin(G.getName()); J.objectBegin();
    J.attribute("type", tyname(G.getValueType()));
    J.attribute("size", (int64_t)(G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 0));
    J.attribute("const", G.isConstant());
    J.attribute("decl", G.isDeclaration());
    J.attribute("internal", G.hasLocalLinkage());
    J.attribute("dem", demangle(G.getName().str()));
    SmallVector<DIGlobalVariableExpression *, 1> GVs;
    G.getDebugInfo(GVs);
    if (!GVs.empty()) {
      auto *V = GVs[0]->getVariable();
      J.attribute("name", V->getName());
      J.attribute("file", fpath(V->getFile()));
      J.attribute("line", (int64_t)V->getLine());
      J.attribute("ditype", diTy(V->getType()));
      if (auto *SP = dyn_cast_or_null<DISubprogram>(V->getScope())) J.attribute("infn", SP->getName());
    }
    if (G.hasInitializer()) { J.attributeBegin("init"); J.value(constInit(G.getInitializer())); J.attributeEnd(); }
    J.objectEnd(); J.attributeEnd();
  }
  J.objectEnd(); J.attributeEnd();
  // ---- functions
  J.attributeBegin("functions"); J.arrayBegin();
  for (auto &F : *M) {
    J.objectBegin();
    J.attribute("name", F.getName());
    J.attribute("dem", demangle(F.getName().str()));
    J.attribute("decl", F.isDeclaration());
    J.attribute("noreturn", F.doesNotReturn());
    auto *SP = F.getSubprogram();
    bool repo = inRepo(SP);
    J.attribute("repo", repo);
    if (SP) { J.attribute("file", fpath(SP->getFile())); J.attribute("line", (int64_t)SP->getLine()); J.attribute("short", SP->getName()); }
    J.attribute("ret", tyname(F.getReturnType()));
    if (F.isDeclaration()) { J.objectEnd(); continue; }
    bool body = repo && (!haveOnly || Only.count(F.getName().str()));
    if (!body) {
      // callees only
      std::set<std::string> cs;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (auto *CF = CB->getCalledFunction()) if (!CF->isIntrinsic()) cs.insert(CF->getName().str());
      std::set<std::string> refs;
      for (auto &I : instructions(F)) for (auto &o : I.operands()) if (auto *RF = dyn_cast<Function>(o.get())) refs.insert(RF->getName().str());
      J.attributeBegin("callees"); J.arrayBegin(); for (auto &c : cs) J.value(c); J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("fnrefs"); J.arrayBegin(); for (auto &c : refs) J.value(c); J.arrayEnd(); J.attributeEnd();
      J.objectEnd();
      continue;
    }
    { auto u = Unassigned.find(F.getName().str());
      if (u != Unassigned.end() && !u->second.empty()) J.attribute("unassigned", json::Value(std::move(u->second))); }
    Ids.clear();
    int n = 0;
    J.attributeBegin("args"); J.arrayBegin();
    for (auto &A : F.args()) {
      Ids[&A] = n;
      std::string dity, nm;
      if (SP) {
        for (auto *RN : SP->getRetainedNodes()) (void)RN;
      }
      J.value(json::Object{{"id", n}, {"ty", tyname(A.getType())}, {"name", A.getName().str()}});
      n++;
    }
    J.arrayEnd(); J.attributeEnd();
    if (SP && SP->getType()) {
      J.attributeBegin("argtypes"); J.arrayBegin();
      for (auto *T : SP->getType()->getTypeArray()) J.value(diTy(T));
      J.arrayEnd(); J.attributeEnd();
    }
    for (auto &B : F) { Ids[&B] = n++; for (auto &I : B) Ids[&I] = n++; }
    // variable names from debug intrinsics
    std::map<int, std::string> vn;
    std::map<int, std::string> vt;
    for (auto &I : instructions(F))
      if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
        for (auto *L : D->location_ops())
          if (Ids.count(L)) { vn.emplace(Ids[L], D->getVariable()->getName().str()); vt.emplace(Ids[L], diTy(D->getVariable()->getType())); }
      }
    J.attributeBegin("vars"); J.objectBegin();
    for (auto &k : vn) J.attribute(std::to_string(k.first), json::Array{k.second, vt[k.first]});
    J.objectEnd(); J.attributeEnd();
    J.attributeBegin("blocks"); J.arrayBegin();
    for (auto &B : F) {
      J.objectBegin();
      J.attribute("id", Ids[&B]);
      J.attributeBegin("insts"); J.arrayBegin();
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        J.objectBegin();
        J.attribute("id", Ids[&I]);
        J.attribute("op", I.getOpcodeName());
        J.attribute("ty", tyname(I.getType()));
        if (auto &L = I.getDebugLoc()) {
          J.attribute("line", (int64_t)L.getLine());
          if (auto *Sc = dyn_cast<DIScope>(L.getScope())) J.attribute("file", fpath(Sc->getFile()));
        }
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          const Value *Bs; int64_t O; json::Array T;
          if (gepParts(cast<GEPOperator>(G), Bs, O, T)) {
            J.attributeBegin("base"); J.value(op(Bs)); J.attributeEnd();
            J.attribute("off", O);
            J.attributeBegin("terms"); J.value(std::move(T)); J.attributeEnd();
            J.attribute("src", tyname(G->getSourceElementType()));
            int64_t FO; json::Array FT;
            if (gepField(cast<GEPOperator>(G), FO, FT)) {
              J.attribute("foff", FO);
              J.attributeBegin("fterms"); J.value(std::move(FT)); J.attributeEnd();
            }
          }
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (auto *CF = CB->getCalledFunction()) J.attribute("callee", CF->getName());
          else { J.attributeBegin("calleev"); J.value(op(CB->getCalledOperand())); J.attributeEnd(); }
          J.attribute("noreturn", CB->doesNotReturn());
          J.attributeBegin("ops"); J.arrayBegin();
          for (auto &A : CB->args()) J.value(op(A.get()));
          J.arrayEnd(); J.attributeEnd();
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          J.attributeBegin("ops"); J.arrayBegin();
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
            J.value(json::Array{op(P->getIncomingValue(i)), Ids[P->getIncomingBlock(i)]});
          J.arrayEnd(); J.attributeEnd();
        } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
          J.attributeBegin("ops"); J.arrayBegin(); J.value(op(SW->getCondition())); J.arrayEnd(); J.attributeEnd();
          J.attribute("default", Ids[SW->getDefaultDest()]);
          J.attributeBegin("cases"); J.arrayBegin();
          for (auto &C : SW->cases()) J.value(json::Array{op(C.getCaseValue()), Ids[C.getCaseSuccessor()]});
          J.arrayEnd(); J.attributeEnd();
        } else {
          if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
          if (auto *A = dyn_cast<AllocaInst>(&I)) { J.attribute("aty", tyname(A->getAllocatedType())); J.attribute("asz", (int64_t)DL->getTypeAllocSize(A->getAllocatedType())); }
          if (auto *S = dyn_cast<StoreInst>(&I)) J.attribute("sty", tyname(S->getValueOperand()->getType()));
          if (isa<ExtractValueInst>(&I) || isa<InsertValueInst>(&I)) {
            json::Array X;
            if (auto *E = dyn_cast<ExtractValueInst>(&I)) for (unsigned k : E->indices()) X.push_back((int64_t)k);
            if (auto *E = dyn_cast<InsertValueInst>(&I)) for (unsigned k : E->indices()) X.push_back((int64_t)k);
            J.attributeBegin("idx"); J.value(std::move(X)); J.attributeEnd();
          }
          J.attributeBegin("ops"); J.arrayBegin();
          for (auto &O : I.operands()) { if (isa<BasicBlock>(O.get())) J.value(json::Array{"b", Ids[O.get()]}); else J.value(op(O.get())); }
          J.arrayEnd(); J.attributeEnd();
        }
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
  J.arrayEnd(); J.attributeEnd();
  J.objectEnd();
  OS << "\n";
  return 0;
}
