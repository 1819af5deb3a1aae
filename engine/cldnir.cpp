// cldnir: reads LLVM bitcode of the project, normalises selected functions (inlining the
// project's own helpers and trivial library accessors, promoting locals to SSA) and dumps
// a compact JSON form for the Python analyses.  It never executes any project code.
#include <fstream>
#include <functional>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
using namespace llvm;

static std::string g_repo = "/repo/";
static const DataLayout* DL = nullptr;
static std::vector<std::regex> g_inline;    // std functions to inline (qualified name)
static std::vector<std::regex> g_noinline;  // repo functions to keep

static std::map<std::string, std::string> qnCache;
static std::string qualName(StringRef mangled) {
  auto it = qnCache.find(mangled.str());
  if (it != qnCache.end()) return it->second;
  std::string r;
  ItaniumPartialDemangler D;
  std::string ms = mangled.str();
  if (!D.partialDemangle(ms.c_str())) {
    size_t n = 0;
    char* c = D.getFunctionDeclContextName(nullptr, &n);
    std::string ctx = c ? std::string(c, strnlen(c, n)) : "";
    free(c);
    n = 0;
    char* b = D.getFunctionBaseName(nullptr, &n);
    std::string base = b ? std::string(b, strnlen(b, n)) : "";
    free(b);
    if (base.empty()) {
      n = 0;
      char* f = D.finishDemangle(nullptr, &n);
      base = f ? f : mangled.str();
      free(f);
      r = base;
    } else
      r = ctx.empty() ? base : ctx + "::" + base;
  } else
    r = mangled.str();
  r = json::fixUTF8(r);
  qnCache[mangled.str()] = r;
  return r;
}
static std::string fullName(StringRef m) { return demangle(m.str()); }

static std::string filePath(const DIFile* f) {
  if (!f) return "";
  std::string n = f->getFilename().str();
  if (!n.empty() && n[0] == '/') return n;
  return f->getDirectory().str() + "/" + n;
}
static bool isRepo(const Function& F) {
  if (auto* sp = F.getSubprogram()) {
    std::string p = filePath(sp->getFile());
    if (p.find("/third_party/") != std::string::npos || p.find("/ankerl/") != std::string::npos) return false;
    return p.rfind(g_repo, 0) == 0;
  }
  return false;
}
static bool wantInline(Function& F) {
  if (F.isDeclaration() || F.isVarArg()) return false;
  std::string q = qualName(F.getName());
  std::string full = q;
  for (auto& r : g_noinline) if (std::regex_search(full, r)) return false;
  if (isRepo(F)) return true;
  for (auto& r : g_inline) if (std::regex_search(full, r)) return true;
  return false;
}

struct Pipeline {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  Pipeline() {
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  }
  void clean(Function& F, bool final) {
    FAM.invalidate(F, PreservedAnalyses::none());
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(EarlyCSEPass(true));
    FPM.addPass(InstSimplifyPass());
    if (final) {
      FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
      FPM.addPass(ADCEPass());
    }
    FPM.run(F, FAM);
    FAM.invalidate(F, PreservedAnalyses::none());
    removeUnreachableBlocks(F);
    FAM.invalidate(F, PreservedAnalyses::none());
    if (final) {
      FunctionPassManager F2;
      F2.addPass(LoopSimplifyPass());
      F2.run(F, FAM);
      FAM.invalidate(F, PreservedAnalyses::none());
    }
  }
};

static int g_maxinl = 20000;
static void inlineAll(Function& F, Pipeline& P) {
  int budget = g_maxinl;
  for (int round = 0; round < 12; ++round) {
    bool any = false;
    bool again = true;
    while (again && budget > 0) {
      again = false;
      std::vector<CallBase*> work;
      for (auto& I : instructions(F))
        if (auto* cb = dyn_cast<CallBase>(&I)) {
          Function* callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
          if (!callee || callee == &F || callee->isIntrinsic()) continue;
          if (callee->getFunctionType() != cb->getFunctionType()) continue;
          if (wantInline(*callee)) work.push_back(cb);
        }
      for (auto* cb : work) {
        if (--budget <= 0) break;
        Function* callee = cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        // direct recursion guard: do not inline a function into itself through the inlined-at chain
        int depth = 0; bool rec = false;
        for (const DILocation* l = cb->getDebugLoc().get(); l; l = l->getInlinedAt()) {
          ++depth;
          if (auto* sp = l->getScope()->getSubprogram())
            if (callee->getSubprogram() == sp && l->getInlinedAt()) rec = true;
        }
        if (rec || depth > 60) continue;
        InlineFunctionInfo IFI;
        auto r = InlineFunction(*cb, IFI, false, nullptr, false);
        if (r.isSuccess()) { any = true; again = true; }
      }
    }
    P.clean(F, false);
    if (!any) break;
  }
  P.clean(F, true);
}

// ---------------------------------------------------------------- dump
struct Dumper {
  std::map<std::string, int> strs; json::Array strList;
  int S(const std::string& s) {
    auto it = strs.find(s);
    if (it != strs.end()) return it->second;
    int n = strs.size(); strs[s] = n; strList.push_back(s); return n;
  }
  std::set<const GlobalVariable*> usedG;
  std::map<const Value*, int> ids; int next = 0;
  std::map<const BasicBlock*, int> bbs;
  int id(const Value* v) { auto it = ids.find(v); if (it != ids.end()) return it->second; int n = next++; ids[v] = n; return n; }
  std::string ty(Type* t) { std::string s; raw_string_ostream o(s); if (auto* st = dyn_cast<StructType>(t)) { if (st->hasName()) { o << "%" << st->getName(); return o.str(); } } t->print(o, false, true); return o.str(); }
  json::Value op(const Value* v) {
    if (isa<Argument>(v) || isa<Instruction>(v)) return (int64_t)id(v);
    if (auto* c = dyn_cast<ConstantInt>(v)) return json::Array{"c", toString(c->getValue(), 10, false), (int64_t)c->getBitWidth()};
    if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
    if (isa<UndefValue>(v)) return json::Array{"u"};
    if (auto* f = dyn_cast<ConstantFP>(v)) { SmallString<32> s; APFloat a = f->getValueAPF(); bool li; a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); a.toString(s, 17); return json::Array{"f", s.str().str(), ty(v->getType())}; }
    if (auto* F = dyn_cast<Function>(v)) return json::Array{"F", F->getName().str()};
    if (auto* G = dyn_cast<GlobalVariable>(v)) { usedG.insert(G); return json::Array{"g", G->getName().str(), 0}; }
    if (auto* CE = dyn_cast<ConstantExpr>(v)) {
      if (auto* g = dyn_cast<GEPOperator>(CE)) {
        APInt off(64, 0);
        const Value* b = g->stripAndAccumulateConstantOffsets(*DL, off, true);
        if (auto* G = dyn_cast<GlobalVariable>(b)) { usedG.insert(G); return json::Array{"g", G->getName().str(), off.getSExtValue()}; }
      }
      if (CE->isCast()) return op(CE->getOperand(0));
      return json::Array{"x"};
    }
    if (isa<ConstantAggregateZero>(v)) return json::Array{"z"};
    if (auto* cv = dyn_cast<ConstantDataVector>(v)) { json::Array a{"V"}; for (unsigned i = 0; i < cv->getNumElements(); ++i) a.push_back(op(cv->getElementAsConstant(i))); return a; }
    return json::Array{"x"};
  }
  json::Value dbg(const Instruction& I) {
    json::Array a;
    for (const DILocation* l = I.getDebugLoc().get(); l; l = l->getInlinedAt()) {
      auto* sp = l->getScope()->getSubprogram();
      a.push_back((int64_t)l->getLine());
      a.push_back((int64_t)S(filePath(l->getFile())));
      a.push_back((int64_t)S(sp ? qualName(sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()) : ""));
    }
    return a;
  }
  json::Object inst(const Instruction& I) {
    json::Object o;
    if (!I.getType()->isVoidTy()) o["i"] = id(&I);
    o["o"] = I.getOpcodeName();
    o["t"] = ty(I.getType());
    if (I.getType()->isIntegerTy()) o["w"] = (int64_t)I.getType()->getIntegerBitWidth();
    if (I.getDebugLoc()) o["d"] = dbg(I);
    auto tb = [&](const Instruction& I) {
      if (auto* m = I.getMetadata(LLVMContext::MD_tbaa)) {
        if (m->getNumOperands() >= 3)
          if (auto* base = dyn_cast<MDNode>(m->getOperand(0))) {
            auto nm = [](const MDNode* n) { return n->getNumOperands() && isa<MDString>(n->getOperand(0)) ? cast<MDString>(n->getOperand(0))->getString().str() : std::string(); };
            auto* acc = cast<MDNode>(m->getOperand(1));
            auto off = mdconst::extract<ConstantInt>(m->getOperand(2))->getZExtValue();
            o["tb"] = json::Array{nm(base), (int64_t)off, nm(acc)};
          }
      }
    };
    if (auto* A = dyn_cast<AllocaInst>(&I)) {
      o["at"] = ty(A->getAllocatedType());
      auto sz = A->getAllocationSize(*DL);
      o["sz"] = sz ? (int64_t)sz->getFixedValue() : (int64_t)-1;
      o["name"] = A->getName().str();
    } else if (auto* L = dyn_cast<LoadInst>(&I)) {
      o["a"] = json::Array{op(L->getPointerOperand())};
      o["sz"] = (int64_t)DL->getTypeStoreSize(L->getType()).getFixedValue(); tb(I);
      if (L->isAtomic()) o["atomic"] = true;
    } else if (auto* St = dyn_cast<StoreInst>(&I)) {
      o["a"] = json::Array{op(St->getValueOperand()), op(St->getPointerOperand())};
      o["sz"] = (int64_t)DL->getTypeStoreSize(St->getValueOperand()->getType()).getFixedValue(); tb(I);
      o["vt"] = ty(St->getValueOperand()->getType());
      if (St->isAtomic()) o["atomic"] = true;
    } else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
      o["a"] = json::Array{op(G->getPointerOperand())};
      o["st"] = ty(G->getSourceElementType());
      MapVector<Value*, APInt> vars; APInt off(64, 0);
      if (G->collectOffset(*DL, 64, vars, off)) {
        o["off"] = off.getSExtValue();
        json::Array va;
        for (auto& kv : vars) va.push_back(json::Array{op(kv.first), kv.second.getSExtValue()});
        o["vars"] = std::move(va);
      } else o["off"] = nullptr;
      o["ib"] = G->isInBounds();
    } else if (auto* C = dyn_cast<CallBase>(&I)) {
      json::Array a; json::Array pa;
      for (unsigned k = 0; k < C->arg_size(); ++k) {
        a.push_back(isa<MetadataAsValue>(C->getArgOperand(k)) ? json::Value(json::Array{"m"}) : op(C->getArgOperand(k)));
        if (C->paramHasAttr(k, Attribute::StructRet)) o["sret"] = (int64_t)k;
        if (C->isByValArgument(k)) o["byval"] = json::Array{(int64_t)k, (int64_t)DL->getTypeAllocSize(C->getParamByValType(k)).getFixedValue()};
      }
      o["a"] = std::move(a);
      if (C->arg_size() && isa<MetadataAsValue>(C->getArgOperand(C->arg_size() - 1)))
        if (auto* ms = dyn_cast<MDString>(cast<MetadataAsValue>(C->getArgOperand(C->arg_size() - 1))->getMetadata())) o["md"] = ms->getString().str();
      if (auto* F = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) {
        o["f"] = F->getName().str(); o["q"] = qualName(F->getName());
        if (F->doesNotReturn() || C->doesNotReturn()) o["nr"] = true;
      } else { o["ind"] = op(C->getCalledOperand()); if (C->doesNotReturn()) o["nr"] = true; }
      if (C->doesNotThrow()) o["nt"] = true;
      if (auto* IV = dyn_cast<InvokeInst>(&I)) { o["n"] = bbs[IV->getNormalDest()]; o["u"] = bbs[IV->getUnwindDest()]; }
    } else if (auto* B = dyn_cast<BranchInst>(&I)) {
      if (B->isConditional()) { o["a"] = json::Array{op(B->getCondition())}; o["s"] = json::Array{bbs[B->getSuccessor(0)], bbs[B->getSuccessor(1)]}; }
      else o["s"] = json::Array{bbs[B->getSuccessor(0)]};
    } else if (auto* Sw = dyn_cast<SwitchInst>(&I)) {
      o["a"] = json::Array{op(Sw->getCondition())};
      json::Array cs; for (auto& c : Sw->cases()) cs.push_back(json::Array{toString(c.getCaseValue()->getValue(), 10, false), bbs[c.getCaseSuccessor()]});
      o["cases"] = std::move(cs); o["def"] = bbs[Sw->getDefaultDest()];
      o["cw"] = (int64_t)Sw->getCondition()->getType()->getIntegerBitWidth();
    } else if (auto* Ph = dyn_cast<PHINode>(&I)) {
      json::Array a; for (unsigned k = 0; k < Ph->getNumIncomingValues(); ++k) a.push_back(json::Array{op(Ph->getIncomingValue(k)), bbs[Ph->getIncomingBlock(k)]});
      o["in"] = std::move(a);
    } else if (auto* Cm = dyn_cast<CmpInst>(&I)) {
      o["p"] = CmpInst::getPredicateName(Cm->getPredicate()).str();
      o["a"] = json::Array{op(Cm->getOperand(0)), op(Cm->getOperand(1))};
      Type* t = Cm->getOperand(0)->getType(); o["cw"] = t->isIntegerTy() ? (int64_t)t->getIntegerBitWidth() : (t->isPointerTy() ? 64 : 0);
    } else if (auto* LP = dyn_cast<LandingPadInst>(&I)) {
      json::Array c; for (unsigned k = 0; k < LP->getNumClauses(); ++k) c.push_back(LP->isCatch(k) ? op(LP->getClause(k)) : json::Value(json::Array{"filter"}));
      o["clauses"] = std::move(c); o["cleanup"] = LP->isCleanup();
    } else {
      json::Array a; for (auto& u : I.operands()) { if (isa<BasicBlock>(u)) continue; a.push_back(op(u)); }
      o["a"] = std::move(a);
      if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) o["nsw"] = true; if (ob->hasNoUnsignedWrap()) o["nuw"] = true; }
      if (isa<CastInst>(I)) { o["ft"] = ty(I.getOperand(0)->getType()); if (I.getOperand(0)->getType()->isIntegerTy()) o["fw"] = (int64_t)I.getOperand(0)->getType()->getIntegerBitWidth(); }
      if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto x : ev->indices()) ix.push_back((int64_t)x); o["ix"] = std::move(ix); }
      if (auto* iv = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto x : iv->indices()) ix.push_back((int64_t)x); o["ix"] = std::move(ix); }
    }
    return o;
  }
  json::Object func(const Function& F) {
    ids.clear(); bbs.clear(); next = 0;
    json::Object o;
    o["name"] = F.getName().str(); o["q"] = qualName(F.getName()); o["full"] = fullName(F.getName()); o["repo"] = isRepo(F);
    if (auto* sp = F.getSubprogram()) { o["file"] = filePath(sp->getFile()); o["line"] = (int64_t)sp->getLine(); o["di"] = S(sp->getName().str());
      json::Array ts; if (sp->getType()) for (auto* t : sp->getType()->getTypeArray()) ts.push_back(t ? typeName(t) : "void"); o["dtypes"] = std::move(ts); }
    json::Array args; for (auto& A : F.args()) { json::Object ao; ao["i"] = id(&A); ao["t"] = ty(A.getType()); ao["name"] = A.getName().str(); if (A.getType()->isIntegerTy()) ao["w"] = (int64_t)A.getType()->getIntegerBitWidth(); if (A.hasStructRetAttr()) ao["sret"] = true; if (A.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(A.getParamByValType()).getFixedValue(); uint64_t db = A.getDereferenceableBytes(); if (db) ao["deref"] = (int64_t)db; args.push_back(std::move(ao)); }
    o["args"] = std::move(args);
    int n = 0; for (auto& B : F) bbs[&B] = n++;
    json::Array blocks;
    for (auto& B : F) {
      json::Array is;
      for (auto& I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto k = ii->getIntrinsicID(); if (k == Intrinsic::lifetime_start || k == Intrinsic::lifetime_end || k == Intrinsic::experimental_noalias_scope_decl) continue; } is.push_back(inst(I)); }
      blocks.push_back(std::move(is));
    }
    o["blocks"] = std::move(blocks);
    return o;
  }
  std::string scopeName(const DIScope* s) {
    if (!s || isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
    std::string p = scopeName(s->getScope()); std::string n = s->getName().str();
    if (auto* ns = dyn_cast<DINamespace>(s)) { if (n.empty()) n = "(anonymous namespace)"; else if (ns->getExportSymbols()) return p; }
    return p.empty() ? n : p + "::" + n;
  }
  std::string typeName(const DIType* t) {
    if (!t) return "void";
    if (auto* d = dyn_cast<DIDerivedType>(t)) {
      switch (d->getTag()) {
        case dwarf::DW_TAG_pointer_type: return typeName(d->getBaseType()) + "*";
        case dwarf::DW_TAG_reference_type: return typeName(d->getBaseType()) + "&";
        case dwarf::DW_TAG_rvalue_reference_type: return typeName(d->getBaseType()) + "&&";
        case dwarf::DW_TAG_const_type: return "const " + typeName(d->getBaseType());
        case dwarf::DW_TAG_volatile_type: return typeName(d->getBaseType());
        case dwarf::DW_TAG_typedef: return typeName(d->getBaseType());
        default: return d->getName().str();
      }
    }
    if (auto* c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() == dwarf::DW_TAG_array_type) { std::string s = typeName(c->getBaseType()); for (auto* e : c->getElements()) if (auto* r = dyn_cast<DISubrange>(e)) if (auto* ci = r->getCount().dyn_cast<ConstantInt*>()) s += "[" + std::to_string(ci->getSExtValue()) + "]"; return s; }
      return scopeName(c);
    }
    return t->getName().str();
  }
};

int main(int argc, char** argv) {
  if (argc < 4) { errs() << "usage: cldnir in.bc config.json out.json\n"; return 2; }
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("cldnir", errs()); return 2; }
  // out-of-line constructors: the complete-object constructor is an alias of the base-object one
  for (auto& GA : M->aliases()) if (auto* F = dyn_cast<Function>(GA.getAliasee()->stripPointerCasts())) GA.replaceAllUsesWith(F);
  DL = &M->getDataLayout();
  auto buf = MemoryBuffer::getFile(argv[2]);
  auto cfgE = json::parse((*buf)->getBuffer());
  if (!cfgE) { errs() << "bad config\n"; return 2; }
  auto& cfg = *cfgE->getAsObject();
  if (auto r = cfg.getString("repo")) g_repo = r->str();
  auto regs = [&](const char* k, std::vector<std::regex>& v) { if (auto* a = cfg.getArray(k)) for (auto& x : *a) v.emplace_back(x.getAsString()->str(), std::regex::ECMAScript | std::regex::optimize); };
  regs("inline", g_inline); regs("noinline", g_noinline);
  std::vector<std::regex> roots, raw; regs("roots", roots); regs("raw", raw);
  Dumper D; json::Object out; json::Array fs, rawfs;
  // vtables
  json::Object vts;
  for (auto& G : M->globals())
    if (G.getName().starts_with("_ZTV") && G.hasInitializer()) {
      json::Array a;
      std::function<void(Constant*)> walk = [&](Constant* c) {
        if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { for (auto& u : c->operands()) walk(cast<Constant>(u)); return; }
        c = c->stripPointerCasts();
        if (auto* F = dyn_cast<Function>(c)) a.push_back(F->getName().str()); else if (auto* GV = dyn_cast<GlobalValue>(c)) a.push_back("@" + GV->getName().str()); else a.push_back(nullptr);
      };
      walk(G.getInitializer());
      vts[G.getName().str()] = std::move(a);
    }
  out["vtables"] = std::move(vts);
  // RTTI bases: _ZTI -> base infos
  json::Object tis;
  for (auto& G : M->globals())
    if (G.getName().starts_with("_ZTI") && G.hasInitializer()) {
      json::Array a; for (auto& u : G.getInitializer()->operands()) if (auto* GV = dyn_cast<GlobalVariable>(u->stripPointerCasts())) if (GV->getName().starts_with("_ZTI")) a.push_back(GV->getName().str());
      tis[G.getName().str()] = std::move(a);
    }
  out["typeinfo"] = std::move(tis);
  // debug types
  DebugInfoFinder DIF; DIF.processModule(*M);
  json::Object types, enums;
  for (auto* t : DIF.types())
    if (auto* c = dyn_cast<DICompositeType>(t)) {
      if (c->isForwardDecl()) continue;
      std::string n = D.scopeName(c);
      if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
        json::Object e; for (auto* x : c->getElements()) if (auto* en = dyn_cast<DIEnumerator>(x)) e[en->getName()] = toString(en->getValue(), 10, !en->isUnsigned());
        e["@file"] = filePath(c->getFile()); e["@line"] = (int64_t)c->getLine(); e["@size"] = (int64_t)(c->getSizeInBits() / 8);
        enums[n.empty() ? c->getIdentifier().str() : n] = std::move(e);
      } else if (c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) {
        json::Object s; json::Array ms; json::Array bases;
        for (auto* x : c->getElements())
          if (auto* d = dyn_cast<DIDerivedType>(x)) {
            if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) ms.push_back(json::Array{d->getName().str(), (int64_t)(d->getOffsetInBits() / 8), (int64_t)(d->getBaseType() ? d->getBaseType()->getSizeInBits() / 8 : 0), D.typeName(d->getBaseType())});
            else if (d->getTag() == dwarf::DW_TAG_inheritance) bases.push_back(json::Array{D.typeName(d->getBaseType()), (int64_t)(d->getOffsetInBits() / 8)});
          }
        s["members"] = std::move(ms); s["bases"] = std::move(bases); s["size"] = (int64_t)(c->getSizeInBits() / 8); s["file"] = filePath(c->getFile()); s["line"] = (int64_t)c->getLine(); s["id"] = c->getIdentifier().str();
        types[n + (n.empty() ? c->getIdentifier().str() : "")] = std::move(s);
      }
    }
  out["types"] = std::move(types); out["enums"] = std::move(enums);
  // index of all functions
  json::Array idx;
  for (auto& F : *M) { if (F.isIntrinsic()) continue; idx.push_back(json::Array{F.getName().str(), qualName(F.getName()), fullName(F.getName()), isRepo(F), F.isDeclaration(), F.getSubprogram() ? filePath(F.getSubprogram()->getFile()) : "", F.getSubprogram() ? (int64_t)F.getSubprogram()->getLine() : 0}); }
  out["index"] = std::move(idx);
  // gather
  std::vector<Function*> rootF, rawF;
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    std::string q = qualName(F.getName()), fn = fullName(F.getName());
    for (auto& r : roots) if (std::regex_search(fn, r) || std::regex_search(q, r)) { rootF.push_back(&F); break; }
    if (!raw.empty() && isRepo(F)) for (auto& r : raw) if (std::regex_search(q, r) || std::regex_search(fn, r)) { rawF.push_back(&F); break; }
  }
  for (auto& F : *M) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); }
  // raw: SROA in a clone so that roots are inlined from untouched bodies
  auto cloneOf = [&](Function* F, const char* suf) { ValueToValueMapTy vm; Function* C = CloneFunction(F, vm); return C; };
  std::vector<std::pair<Function*, Function*>> rc, rr;
  for (auto* F : rootF) rc.push_back({F, cloneOf(F, "")});
  for (auto* F : rawF) rr.push_back({F, cloneOf(F, "")});
  Pipeline P;
  for (auto& [F, C] : rr) { P.clean(*C, true); auto o = D.func(*C); o["name"] = F->getName().str(); o["q"] = qualName(F->getName()); o["full"] = fullName(F->getName()); rawfs.push_back(std::move(o)); }
  for (auto& [F, C] : rc) { inlineAll(*C, P); auto o = D.func(*C); o["name"] = F->getName().str(); o["q"] = qualName(F->getName()); o["full"] = fullName(F->getName()); fs.push_back(std::move(o)); }
  out["raw"] = std::move(rawfs); out["roots"] = std::move(fs);
  json::Object gl;
  for (auto& G0 : M->globals()) {
    const GlobalVariable* G = &G0;
    json::Object g; g["const"] = G->isConstant(); g["sz"] = (int64_t)DL->getTypeAllocSize(G->getValueType()).getFixedValue();
    if (G->hasInitializer()) {
      if (auto* c = dyn_cast<ConstantDataArray>(G->getInitializer())) { if (c->isString()) { std::string s = c->getAsString().str(); g["strhex"] = toHex(s); } else { json::Array a; for (unsigned i = 0; i < c->getNumElements(); ++i) a.push_back(D.op(c->getElementAsConstant(i))); g["arr"] = std::move(a); g["esz"] = (int64_t)c->getElementByteSize(); } }
      else if (auto* ci = dyn_cast<ConstantInt>(G->getInitializer())) g["int"] = toString(ci->getValue(), 10, false);
      else if (isa<ConstantAggregateZero>(G->getInitializer())) g["zero"] = true;
      else if (isa<ConstantStruct>(G->getInitializer()) && g["sz"].getAsInteger().value_or(0) <= 256) {
        json::Array a;       // [offset, width, value] of the integers in it
        std::function<void(Constant*, uint64_t)> walk = [&](Constant* c, uint64_t off) {
          if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) a.push_back(json::Array{(int64_t)off, (int64_t)ci->getBitWidth(), toString(ci->getValue(), 10, false)}); return; }
          if (auto* st = dyn_cast<StructType>(c->getType())) { auto* SL = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) if (auto* e = c->getAggregateElement(i)) walk(e, off + SL->getElementOffset(i).getFixedValue()); return; }
          if (auto* at = dyn_cast<ArrayType>(c->getType())) { uint64_t z = DL->getTypeAllocSize(at->getElementType()).getFixedValue(); for (unsigned i = 0; i < at->getNumElements(); ++i) if (auto* e = c->getAggregateElement(i)) walk(e, off + i * z); return; }
        };
        walk(const_cast<Constant*>(G->getInitializer()), 0); g["ints"] = std::move(a);
      }
    }
    gl[G->getName().str()] = std::move(g);
  }
  out["globals"] = std::move(gl);
  out["strs"] = std::move(D.strList);
  std::error_code ec; raw_fd_ostream os(argv[3], ec); os << json::Value(std::move(out));
  return 0;
}
