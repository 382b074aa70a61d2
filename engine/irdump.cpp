// irdump: loads LLVM bitcode produced from /repo's current sources, promotes
// scalars to SSA (SROA) and prints the program as JSON: functions reachable from
// the requested roots, their blocks and instructions with byte-offset addressing,
// atomic orderings and source positions, plus record layouts and virtual tables
// taken from the debug info.  It executes nothing.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include <fstream>
#include <map>
#include <set>
#include <deque>
using namespace llvm;
using json::Array; using json::Object; using JV = json::Value;

static const DataLayout *DL;
static std::map<const Value*, int> ids;
static std::map<const Metadata*, int> tyIds;
static std::deque<const DIType*> tyWork;
static std::set<const Function*> wanted;
static std::deque<const Function*> work;
static std::set<const GlobalVariable*> gwanted;
static std::deque<const GlobalVariable*> gwork;
static std::vector<std::unique_ptr<Regex>> stops;
static std::map<std::string,int> strIdx; static std::vector<std::string> strs;

static int S(const std::string &s) {
  auto it = strIdx.find(s);
  if (it != strIdx.end()) return it->second;
  int n = strs.size(); strs.push_back(s); strIdx[s] = n; return n;
}
static std::string tyStr(const Type *t) {
  std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
}
static int tyId(const DIType *t) {
  while (t) {
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      switch (d->getTag()) {
        case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type:
        case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type:
        case dwarf::DW_TAG_atomic_type:
          t = d->getBaseType(); continue;
        default: break;
      }
    }
    break;
  }
  if (!t) return -1;
  auto it = tyIds.find(t);
  if (it != tyIds.end()) return it->second;
  int n = tyIds.size(); tyIds[t] = n; tyWork.push_back(t); return n;
}
static void need(const Function *f) {
  if (wanted.insert(f).second) work.push_back(f);
}
static void needG(const GlobalVariable *g) {
  if (gwanted.insert(g).second) gwork.push_back(g);
}
static JV val(const Value *v);
static JV constant(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) {
      if (ci->getBitWidth() == 64 && ci->getZExtValue() > (uint64_t)INT64_MAX)
        return Array{"c", ci->getSExtValue(), (int)ci->getBitWidth()};
      return Array{"c", (int64_t)ci->getZExtValue(), (int)ci->getBitWidth()};
    }
    return Array{"u"};
  }
  if (isa<ConstantPointerNull>(c)) return Array{"c", 0, 64};
  if (auto *f = dyn_cast<Function>(c)) { need(f); return Array{"f", f->getName()}; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) { needG(g); return Array{"g", g->getName(), 0}; }
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constant(a->getAliasee());
  if (isa<UndefValue>(c)) return Array{"u"};
  if (isa<ConstantAggregateZero>(c)) return Array{"z", tyStr(c->getType())};
  if (auto *a = dyn_cast<ConstantAggregate>(c)) {
    Array r{"agg"}; for (auto &o : a->operands()) r.push_back(val(o.get())); return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off)) {
        JV b = constant(cast<Constant>(gep->getPointerOperand()));
        Array *ba = b.getAsArray();
        if (ba && (*ba)[0].getAsString() && *(*ba)[0].getAsString() == "g")
          return Array{"g", *(*ba)[1].getAsString(), *(*ba)[2].getAsInteger() + off.getSExtValue()};
      }
    }
    if (ce->isCast()) return constant(ce->getOperand(0));
  }
  return Array{"u"};
}
static JV val(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(c);
  auto it = ids.find(v);
  if (it != ids.end()) return Array{"v", it->second};
  if (isa<BasicBlock>(v)) return Array{"b", ids[v]};
  return Array{"u"};
}
static void loc(Object &o, const Instruction &I) {
  if (const DebugLoc &d = I.getDebugLoc()) {
    o["l"] = (int64_t)d.getLine();
    std::string f = d->getFilename().str();
    if (!d->getDirectory().empty() && !f.empty() && f[0] != '/') f = d->getDirectory().str() + "/" + f;
    o["F"] = S(f);
  }
}
static const char *ord(AtomicOrdering o) {
  switch (o) {
    case AtomicOrdering::NotAtomic: return "na";
    case AtomicOrdering::Unordered: return "unordered";
    case AtomicOrdering::Monotonic: return "relaxed";
    case AtomicOrdering::Acquire: return "acquire";
    case AtomicOrdering::Release: return "release";
    case AtomicOrdering::AcquireRelease: return "acq_rel";
    case AtomicOrdering::SequentiallyConsistent: return "seq_cst";
  }
  return "?";
}
static JV dumpInst(const Instruction &I) {
  Object o;
  o["o"] = I.getOpcodeName();
  if (!I.getType()->isVoidTy()) { o["i"] = ids[&I]; o["t"] = S(tyStr(I.getType())); }
  loc(o, I);
  if (auto *x = dyn_cast<AllocaInst>(&I)) {
    o["at"] = S(tyStr(x->getAllocatedType()));
    auto sz = x->getAllocationSize(*DL); o["sz"] = sz ? (int64_t)sz->getFixedValue() : -1;
  } else if (auto *x = dyn_cast<LoadInst>(&I)) {
    o["p"] = val(x->getPointerOperand()); o["ord"] = ord(x->getOrdering());
    o["sz"] = (int64_t)DL->getTypeStoreSize(x->getType()).getFixedValue();
  } else if (auto *x = dyn_cast<StoreInst>(&I)) {
    o["p"] = val(x->getPointerOperand()); o["x"] = val(x->getValueOperand()); o["ord"] = ord(x->getOrdering());
    o["sz"] = (int64_t)DL->getTypeStoreSize(x->getValueOperand()->getType()).getFixedValue();
    o["xt"] = S(tyStr(x->getValueOperand()->getType()));
  } else if (auto *x = dyn_cast<AtomicRMWInst>(&I)) {
    o["p"] = val(x->getPointerOperand()); o["x"] = val(x->getValOperand());
    o["rmw"] = AtomicRMWInst::getOperationName(x->getOperation()).str(); o["ord"] = ord(x->getOrdering());
    o["sz"] = (int64_t)DL->getTypeStoreSize(x->getType()).getFixedValue();
  } else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&I)) {
    o["p"] = val(x->getPointerOperand()); o["x"] = val(x->getCompareOperand()); o["y"] = val(x->getNewValOperand());
    o["ord"] = ord(x->getSuccessOrdering()); o["ford"] = ord(x->getFailureOrdering());
    o["weak"] = x->isWeak();
    o["sz"] = (int64_t)DL->getTypeStoreSize(x->getNewValOperand()->getType()).getFixedValue();
  } else if (auto *x = dyn_cast<FenceInst>(&I)) {
    o["ord"] = ord(x->getOrdering());
    o["single"] = x->getSyncScopeID() == SyncScope::SingleThread;
  } else if (auto *x = dyn_cast<GetElementPtrInst>(&I)) {
    o["p"] = val(x->getPointerOperand());
    unsigned bw = DL->getIndexSizeInBits(0);
    MapVector<Value*, APInt> var; APInt c(bw, 0);
    if (x->collectOffset(*DL, bw, var, c)) {
      o["c"] = c.getSExtValue();
      Array vs; for (auto &kv : var) vs.push_back(Array{val(kv.first), kv.second.getSExtValue()});
      if (!vs.empty()) o["vi"] = std::move(vs);
    } else o["bad"] = true;
    if (auto *st = dyn_cast<StructType>(x->getSourceElementType())) if (st->hasName()) o["st"] = S(st->getName().str());
  } else if (auto *x = dyn_cast<CmpInst>(&I)) {
    o["pr"] = CmpInst::getPredicateName(x->getPredicate());
    o["a"] = val(x->getOperand(0)); o["b"] = val(x->getOperand(1));
    o["w"] = (int64_t)(x->getOperand(0)->getType()->isIntegerTy() ? x->getOperand(0)->getType()->getIntegerBitWidth() : 64);
  } else if (auto *x = dyn_cast<PHINode>(&I)) {
    Array in; for (unsigned k = 0; k < x->getNumIncomingValues(); ++k)
      in.push_back(Array{ids[x->getIncomingBlock(k)], val(x->getIncomingValue(k))});
    o["in"] = std::move(in);
  } else if (auto *x = dyn_cast<BranchInst>(&I)) {
    if (x->isConditional()) { o["c"] = val(x->getCondition()); o["T"] = ids[x->getSuccessor(0)]; o["E"] = ids[x->getSuccessor(1)]; }
    else o["T"] = ids[x->getSuccessor(0)];
  } else if (auto *x = dyn_cast<SwitchInst>(&I)) {
    o["c"] = val(x->getCondition()); o["E"] = ids[x->getDefaultDest()];
    Array cs; for (auto &c : x->cases()) cs.push_back(Array{c.getCaseValue()->getSExtValue(), ids[c.getCaseSuccessor()]});
    o["cs"] = std::move(cs);
    o["w"] = (int64_t)x->getCondition()->getType()->getIntegerBitWidth();
  } else if (auto *x = dyn_cast<ExtractValueInst>(&I)) {
    o["a"] = val(x->getAggregateOperand()); Array ix; for (auto k : x->indices()) ix.push_back((int64_t)k); o["ix"] = std::move(ix);
  } else if (auto *x = dyn_cast<InsertValueInst>(&I)) {
    o["a"] = val(x->getAggregateOperand()); o["x"] = val(x->getInsertedValueOperand());
    Array ix; for (auto k : x->indices()) ix.push_back((int64_t)k); o["ix"] = std::move(ix);
  } else if (auto *x = dyn_cast<LandingPadInst>(&I)) {
    o["cl"] = x->isCleanup(); Array cs;
    for (unsigned k = 0; k < x->getNumClauses(); ++k)
      cs.push_back(Array{x->isCatch(k) ? "catch" : "filter", val(x->getClause(k))});
    o["cs"] = std::move(cs);
  } else if (auto *cb = dyn_cast<CallBase>(&I)) {
    o["o"] = isa<InvokeInst>(cb) ? "invoke" : "call";
    o["f"] = val(cb->getCalledOperand()->stripPointerCasts());
    if (cb->isInlineAsm()) {
      auto *ia = cast<InlineAsm>(cb->getCalledOperand()); o["asm"] = std::string(ia->getAsmString());
    }
    Array as; for (auto &a : cb->args()) {
      if (a->getType()->isMetadataTy()) as.push_back(Array{"m"}); else as.push_back(val(a.get()));
    }
    o["as"] = std::move(as);
    if (cb->doesNotThrow()) o["nt"] = true;
    if (cb->hasStructRetAttr()) o["sret"] = true;
    if (auto *x = dyn_cast<InvokeInst>(cb)) { o["T"] = ids[x->getNormalDest()]; o["E"] = ids[x->getUnwindDest()]; }
  } else {
    Array as; for (auto &a : I.operands()) as.push_back(val(a.get())); o["as"] = std::move(as);
    if (I.getNumOperands() && I.getOperand(0)->getType()->isIntegerTy()) o["w"] = (int64_t)I.getOperand(0)->getType()->getIntegerBitWidth();
  }
  return o;
}
static JV dumpFn(const Function &F, bool body) {
  ids.clear(); Object o;
  o["dem"] = demangle(F.getName().str());
  o["nu"] = F.doesNotThrow(); o["nr"] = F.doesNotReturn(); o["def"] = body;
  int n = 0; Array args;
  for (auto &A : F.args()) { ids[&A] = n++; args.push_back(Array{S(tyStr(A.getType())), A.hasStructRetAttr()}); }
  o["args"] = std::move(args); o["rt"] = S(tyStr(F.getReturnType()));
  if (auto *sp = F.getSubprogram()) {
    o["l"] = (int64_t)sp->getLine();
    std::string f = sp->getFilename().str();
    if (!sp->getDirectory().empty() && !f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f;
    o["F"] = S(f); o["nm"] = sp->getName();
    Array ts; if (auto *st = sp->getType()) for (auto t : st->getTypeArray()) ts.push_back(t ? tyId(t) : -1);
    o["dt"] = std::move(ts);
    if (auto *sc = dyn_cast_or_null<DIType>(sp->getScope())) o["cls"] = tyId(sc);
    else if (auto *d = sp->getDeclaration()) if (auto *sc2 = dyn_cast_or_null<DIType>(d->getScope())) o["cls"] = tyId(sc2);
  }
  if (body) {
    for (auto &B : F) ids[&B] = n++;
    for (auto &B : F) for (auto &I : B) ids[&I] = n++;
    Array bs; Object lt;
    for (auto &B : F) {
      Array is;
      for (auto &I : B) {
        if (auto *d = dyn_cast<DbgVariableIntrinsic>(&I)) {
          if (d->getNumVariableLocationOps() == 1) {
            const Value *v = d->getVariableLocationOp(0);
            bool deref = isa<DbgDeclareInst>(d);
            if (v && ids.count(v) && d->getVariable() && d->getVariable()->getType()) {
              auto *ex = d->getExpression();
              bool byref = isa<Argument>(v) && ex->getNumElements() == 1 && ex->getElement(0) == dwarf::DW_OP_deref;
              // an argument keeps its own name, whatever local variables are copies of it
              bool own = d->getVariable()->getArg() != 0 && !(d->getDebugLoc() && d->getDebugLoc()->getInlinedAt());
              std::string key = std::to_string(ids[v]) + (deref ? "a" : "v");
              if ((deref || byref || ex->getNumElements() == 0) && (own || !isa<Argument>(v) || !lt.get(key)))
                lt[std::to_string(ids[v]) + (deref ? "a" : "v")] =
                    Array{tyId(d->getVariable()->getType()), S(d->getVariable()->getName().str()), (int64_t)d->getVariable()->getArg()};
            }
          }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(I)) continue;
        is.push_back(dumpInst(I));
      }
      bs.push_back(Array{ids[&B], std::move(is)});
    }
    o["bs"] = std::move(bs); o["vars"] = std::move(lt);
  }
  return o;
}
int main(int argc, char **argv) {
  // irdump OUT ROOTS_FILE STOPS_FILE bitcode...
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (int k = 4; k < argc; ++k) {
    auto m = parseIRFile(argv[k], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 2; }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed " << argv[k] << "\n"; return 2; }
  }
  DL = &M->getDataLayout();
  {
    LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    PassBuilder pb; pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam);
    pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
    FunctionPassManager fpm; fpm.addPass(SROAPass(SROAOptions::ModifyCFG));
    ModulePassManager mpm; mpm.addPass(createModuleToFunctionPassAdaptor(std::move(fpm))); mpm.run(*M, mam);
  }
  auto readRe = [](const char *p, std::vector<std::unique_ptr<Regex>> &v) {
    std::ifstream f(p); std::string s; while (std::getline(f, s)) if (!s.empty() && s[0] != '#') {
      auto r = std::make_unique<Regex>(s); std::string e; if (!r->isValid(e)) { errs() << "bad regex " << s << "\n"; exit(2); }
      v.push_back(std::move(r)); } };
  std::vector<std::unique_ptr<Regex>> roots; readRe(argv[2], roots); readRe(argv[3], stops);
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    std::string d = demangle(F.getName().str());
    for (auto &r : roots) if (r->match(d)) { need(&F); break; }
  }
  Object fns, gl, tys; unsigned nfn = 0, nin = 0;
  auto pump = [&] {
    while (!work.empty() || !gwork.empty()) {
      while (!work.empty()) {
        const Function *F = work.front(); work.pop_front();
        bool body = !F->isDeclaration();
        if (body) { std::string d = demangle(F->getName().str());
          for (auto &r : stops) if (r->match(d)) { body = false; break; } }
        fns[F->getName()] = dumpFn(*F, body); ++nfn;
        if (body) for (auto &I : instructions(*F)) { (void)I; ++nin; }
      }
      while (!gwork.empty()) {
        const GlobalVariable *G = gwork.front(); gwork.pop_front(); ids.clear();
        Object o; o["dem"] = demangle(G->getName().str()); o["const"] = G->isConstant(); o["tls"] = G->isThreadLocal();
        if (G->hasInitializer() && (G->getName().starts_with("_ZTV") || G->getName().starts_with("_ZTI")))
          o["init"] = val(G->getInitializer());
        else if (G->hasInitializer() && G->isConstant() && isa<ConstantInt>(G->getInitializer()))
          o["init"] = val(G->getInitializer());
        else if (G->hasInitializer() && G->isConstant())
          if (auto *cd = dyn_cast<ConstantDataSequential>(G->getInitializer())) if (cd->isCString()) o["str"] = json::fixUTF8(cd->getAsCString());
        SmallVector<DIGlobalVariableExpression*> ge; G->getDebugInfo(ge);
        for (auto *e : ge) if (e->getVariable() && e->getVariable()->getType()) o["ty"] = tyId(e->getVariable()->getType());
        gl[G->getName()] = std::move(o);
      }
    }
  };
  pump();
  while (!tyWork.empty()) {
    const DIType *t = tyWork.front(); tyWork.pop_front();
    Object o; o["n"] = t->getName(); o["sz"] = (int64_t)(t->getSizeInBits() / 8); o["k"] = dwarf::TagString(t->getTag());
    if (auto *d = dyn_cast<DIDerivedType>(t)) { o["b"] = tyId(d->getBaseType()); }
    else if (auto *c = dyn_cast<DICompositeType>(t)) {
      std::string q; for (const DIScope *s = c->getScope(); s; s = s->getScope()) { if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break; if (!s->getName().empty() && !(isa<DINamespace>(s) && cast<DINamespace>(s)->getExportSymbols())) q = s->getName().str() + "::" + q; }
      o["q"] = q; o["id"] = c->getIdentifier();
      if (c->getTag() == dwarf::DW_TAG_array_type) o["b"] = tyId(c->getBaseType());
      Array els, vf; Array en;
      for (auto *e : c->getElements()) {
        if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) {
          if (d->isStaticMember()) continue;
          if (d->getTag() == dwarf::DW_TAG_member || d->getTag() == dwarf::DW_TAG_inheritance)
            els.push_back(Array{(int64_t)(d->getOffsetInBits() / 8), d->getTag() == dwarf::DW_TAG_inheritance ? std::string("") : d->getName().str(), tyId(d->getBaseType())});
        } else if (auto *sp = dyn_cast_or_null<DISubprogram>(e)) {
          if (sp->getVirtuality() != 0) vf.push_back(Array{(int64_t)sp->getVirtualIndex(), sp->getName(), sp->getLinkageName()});
        } else if (auto *en1 = dyn_cast_or_null<DIEnumerator>(e)) {
          en.push_back(Array{en1->getName(), en1->getValue().getSExtValue()});
        }
      }
      o["els"] = std::move(els); if (!vf.empty()) o["vf"] = std::move(vf); if (!en.empty()) o["en"] = std::move(en);
    }
    tys[std::to_string(tyIds[t])] = std::move(o);
  }
  pump();
  Array ss; for (auto &s : strs) ss.push_back(json::fixUTF8(s));
  std::error_code ec; raw_fd_ostream out(argv[1], ec);
  out << JV(Object{{"fns", std::move(fns)}, {"globals", std::move(gl)}, {"types", std::move(tys)}, {"strs", std::move(ss)}, {"nfn", nfn}, {"nin", nin}});
  return 0;
}
