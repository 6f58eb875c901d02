// irdump: LLVM IR (bitcode or text) -> one JSON document for the Python engine.
// Runs the SROA/mem2reg function passes first so that non-address-taken locals become SSA values.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/TailRecursionElimination.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
using namespace llvm;

static std::map<const Value*, int> ids;
static std::map<const BasicBlock*, int> bids;
static const DataLayout *DL;
static std::set<StructType*> structs;

static std::string tystr(Type *t) {
  std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
}
static void noteStruct(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    if (structs.insert(st).second) for (auto *e : st->elements()) noteStruct(e);
  } else if (auto *at = dyn_cast<ArrayType>(t)) noteStruct(at->getElementType());
}
static json::Value operand(const Value *v);

static json::Array gepInfo(const GEPOperator *g, int64_t &coff, json::Array &var) {
  json::Array path; coff = 0;
  Type *cur = g->getSourceElementType();
  noteStruct(cur);
  bool first = true;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    Value *idx = it.getOperand();
    if (StructType *st = it.getStructTypeOrNull()) {
      noteStruct(st);
      unsigned f = cast<ConstantInt>(idx)->getZExtValue();
      coff += DL->getStructLayout(st)->getElementOffset(f);
      path.push_back(json::Array{st->hasName() ? st->getName().str() : std::string("anon"), (int64_t)f, (int64_t)DL->getStructLayout(st)->getElementOffset(f)});
    } else {
      uint64_t stride = DL->getTypeAllocSize(it.getIndexedType());
      if (auto *c = dyn_cast<ConstantInt>(idx)) coff += (int64_t)stride * c->getSExtValue();
      else var.push_back(json::Array{operand(idx), (int64_t)stride});
    }
    first = false;
  }
  (void)first;
  return path;
}

static json::Value operand(const Value *v) {
  if (auto *c = dyn_cast<ConstantInt>(v)) {
    if (c->getBitWidth() > 64) return json::Array{"u"};
    return json::Array{"c", c->getSExtValue(), (int64_t)c->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
  if (isa<ConstantAggregateZero>(v)) return json::Array{"z"};
  if (isa<UndefValue>(v)) return json::Array{"u"};
  if (auto *f = dyn_cast<Function>(v)) return json::Array{"f", f->getName().str()};
  if (auto *g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName().str()};
  if (auto *ga = dyn_cast<GlobalAlias>(v)) return operand(ga->getAliasee());
  if (auto *g = dyn_cast<GEPOperator>(v); g && isa<Constant>(v)) {
    int64_t off; json::Array var; auto path = gepInfo(g, off, var);
    return json::Array{"gep", operand(g->getPointerOperand()), off, std::move(path)};
  }
  if (auto *ce = dyn_cast<ConstantExpr>(v)) {
    json::Array a{"ce", ce->getOpcodeName()};
    for (auto &o : ce->operands()) a.push_back(operand(o));
    return a;
  }
  if (auto *cf = dyn_cast<ConstantFP>(v)) { return json::Array{"fp", cf->getValueAPF().convertToDouble()}; }
  if (auto *ia = dyn_cast<InlineAsm>(v)) return json::Array{"asm", ia->getAsmString(), ia->getConstraintString()};
  if (isa<Argument>(v)) return json::Array{"a", (int64_t)cast<Argument>(v)->getArgNo()};
  auto it = ids.find(v);
  if (it != ids.end()) return json::Array{"i", (int64_t)it->second};
  if (isa<BasicBlock>(v)) return json::Array{"b", (int64_t)bids[cast<BasicBlock>(v)]};
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  if (auto *cs = dyn_cast<ConstantStruct>(v)) {
    json::Array a{"agg"}; for (auto &o : cs->operands()) a.push_back(operand(o)); return a;
  }
  if (auto *cs = dyn_cast<ConstantArray>(v)) {
    json::Array a{"agg"}; for (auto &o : cs->operands()) a.push_back(operand(o)); return a;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(v)) {
    if (cd->isCString()) return json::Array{"str", json::fixUTF8(cd->getAsCString())};
    json::Array a{"agg"};
    for (unsigned i = 0; i < cd->getNumElements() && i < 64; i++) a.push_back(operand(cd->getElementAsConstant(i)));
    return a;
  }
  return json::Array{"?", tystr(v->getType())};
}

static void flat(const Constant *c, int64_t off, json::Array &out, unsigned &budget) {
  if (!budget) return;
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c)) { out.push_back(json::Array{off, (int64_t)DL->getTypeAllocSize(t), json::Array{"z"}}); budget--; return; }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) if (auto *e = c->getAggregateElement(i)) flat(e, off + (int64_t)sl->getElementOffset(i), out, budget);
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    int64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements() && budget; i++) if (auto *e = c->getAggregateElement(i)) flat(e, off + es * i, out, budget);
    return;
  }
  out.push_back(json::Array{off, (int64_t)DL->getTypeAllocSize(t), operand(c)}); budget--;
}

static std::string fileOf(const DIScope *s) { return s ? s->getFilename().str() : ""; }

static json::Value locOf(const Instruction &I) {
  const DebugLoc &dl = I.getDebugLoc();
  if (!dl) return nullptr;
  std::string f = fileOf(dl->getScope());
  size_t p = f.find_last_of('/'); if (p != std::string::npos) f = f.substr(p + 1);
  return json::Array{f, (int64_t)dl.getLine()};
}

int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print(argv[0], errs()); return 2; }
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG)); FPM.addPass(PromotePass());
    for (auto &F : *M) if (!F.isDeclaration()) {
      // scalar locals start with an explicitly undefined value, which would otherwise be folded away
      std::vector<AllocaInst*> as; Instruction *at = nullptr;
      for (auto &I : F.getEntryBlock()) {
        auto *a = dyn_cast<AllocaInst>(&I);
        if (!a) { at = &I; break; }
        if (!a->isArrayAllocation() && (a->getAllocatedType()->isIntegerTy() || a->getAllocatedType()->isPointerTy())) as.push_back(a);
      }
      if (at) for (auto *a : as) {
        auto *u = new FreezeInst(UndefValue::get(a->getAllocatedType()), "undef", at);
        new StoreInst(u, a, at);
      }
      FPM.run(F, FAM);
      // a call of itself as the last thing a function does is a loop
      bool self = false;
      for (auto &B : F) for (auto &I : B) if (auto *c = dyn_cast<CallInst>(&I)) if (c->getCalledFunction() == &F) self = true;
      if (self) { FunctionPassManager T; T.addPass(TailCallElimPass()); FAM.invalidate(F, PreservedAnalyses::none()); T.run(F, FAM); }
    }
  }
  DL = &M->getDataLayout();
  json::Object root; json::Object funcs;
  // debug-info struct fields
  DebugInfoFinder dif; dif.processModule(*M);
  std::map<std::string, const DICompositeType*> comps;
  auto noteComp = [&](StringRef n, const DICompositeType *ct) { if (n.size() && ct->getElements().size()) comps.insert({n.str(), ct}); };
  for (auto *t : dif.types()) {
    if (auto *ct = dyn_cast<DICompositeType>(t)) noteComp(ct->getName(), ct);
    if (auto *dt = dyn_cast<DIDerivedType>(t)) if (dt->getTag() == dwarf::DW_TAG_typedef)
      if (auto *ct = dyn_cast_or_null<DICompositeType>(dt->getBaseType())) noteComp(dt->getName(), ct);
  }
  json::Object globals;
  for (auto &g : M->globals()) {
    json::Object o;
    o["decl"] = g.isDeclaration(); o["const"] = g.isConstant(); o["internal"] = g.hasLocalLinkage();
    if (g.hasSection()) o["section"] = g.getSection().str(); o["ty"] = tystr(g.getValueType()); o["tls"] = g.isThreadLocal();
    o["size"] = g.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g.getValueType()) : 0;
    noteStruct(g.getValueType());
    if (g.hasInitializer()) {
      o["init"] = operand(g.getInitializer());
      json::Array fl; unsigned budget = 300; flat(g.getInitializer(), 0, fl, budget); o["cells"] = std::move(fl);
    }
    SmallVector<DIGlobalVariableExpression*, 1> gv; g.getDebugInfo(gv);
    if (!gv.empty()) { auto *v = gv[0]->getVariable(); o["name"] = v->getName().str(); o["line"] = (int64_t)v->getLine(); o["file"] = v->getFilename().str();
      std::string tn; if (auto *t = v->getType()) tn = t->getName().str(); o["dtype"] = tn; }
    globals[g.getName().str()] = std::move(o);
  }
  for (auto &F : *M) {
    json::Object o;
    o["decl"] = F.isDeclaration(); o["internal"] = F.hasLocalLinkage();
    o["ret"] = tystr(F.getReturnType()); o["noreturn"] = F.doesNotReturn(); o["vararg"] = F.isVarArg();
    o["nounwind"] = F.doesNotThrow();
    std::string nm = F.getName().str();
    if (auto *sp = F.getSubprogram()) {
      nm = sp->getName().str(); o["line"] = (int64_t)sp->getLine();
      std::string f = sp->getFilename().str(); size_t p = f.find_last_of('/'); if (p != std::string::npos) f = f.substr(p + 1);
      o["file"] = f;
      if (auto *sc = sp->getScope()) if (auto *ct = dyn_cast<DICompositeType>(sc)) nm = ct->getName().str() + "::" + nm;
    } else if (nm.size() > 2 && nm[0] == '_' && nm[1] == 'Z') {
      std::string d = demangle(nm); size_t p = d.find('('); if (p != std::string::npos) d = d.substr(0, p); nm = d;
    }
    o["name"] = nm;
    json::Array args; for (auto &a : F.args()) { args.push_back(json::Array{a.getName().str(), tystr(a.getType())}); }
    o["args"] = std::move(args);
    if (!F.isDeclaration()) {
      ids.clear(); bids.clear(); int n = 0, b = 0;
      for (auto &BB : F) { bids[&BB] = b++; for (auto &I : BB) ids[&I] = n++; }
      json::Array blocks;
      for (auto &BB : F) {
        json::Array insts;
        for (auto &I : BB) {
          json::Object io; io["id"] = ids[&I]; io["op"] = I.getOpcodeName(); io["ty"] = tystr(I.getType());
          auto l = locOf(I); if (l.kind() != json::Value::Null) io["loc"] = std::move(l);
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            io["aty"] = tystr(A->getAllocatedType()); noteStruct(A->getAllocatedType());
            io["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()); io["name"] = A->getName().str();
            io["ops"] = json::Array{operand(A->getArraySize())};
          } else if (auto *L = dyn_cast<LoadInst>(&I)) {
            io["ops"] = json::Array{operand(L->getPointerOperand())}; if (L->isVolatile()) io["vol"] = true; if (L->isAtomic()) io["atomic"] = true;
            io["size"] = (int64_t)DL->getTypeStoreSize(L->getType());
          } else if (auto *S = dyn_cast<StoreInst>(&I)) {
            io["ops"] = json::Array{operand(S->getValueOperand()), operand(S->getPointerOperand())}; if (S->isVolatile()) io["vol"] = true; if (S->isAtomic()) io["atomic"] = true;
            io["size"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType());
          } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            int64_t off; json::Array var; auto path = gepInfo(cast<GEPOperator>(G), off, var);
            io["ops"] = json::Array{operand(G->getPointerOperand())}; io["off"] = off; io["path"] = std::move(path);
            if (!var.empty()) io["var"] = std::move(var);
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            if (auto *II = dyn_cast<DbgInfoIntrinsic>(&I)) { (void)II; continue; }
            io["op"] = isa<InvokeInst>(CB) ? "invoke" : "call";
            io["callee"] = operand(CB->getCalledOperand());
            json::Array a; for (auto &x : CB->args()) a.push_back(operand(x)); io["ops"] = std::move(a);
            if (CB->doesNotReturn()) io["noreturn"] = true;
            if (auto *IV = dyn_cast<InvokeInst>(CB)) { io["normal"] = bids[IV->getNormalDest()]; io["unwind"] = bids[IV->getUnwindDest()]; }
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            json::Array a; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) a.push_back(json::Array{operand(P->getIncomingValue(i)), (int64_t)bids[P->getIncomingBlock(i)]});
            io["inc"] = std::move(a);
          } else if (auto *B = dyn_cast<BranchInst>(&I)) {
            json::Array s; for (unsigned q = 0; q < B->getNumSuccessors(); q++) s.push_back(bids[B->getSuccessor(q)]); io["succ"] = std::move(s);
            if (B->isConditional()) io["ops"] = json::Array{operand(B->getCondition())};
          } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
            io["ops"] = json::Array{operand(SW->getCondition())}; io["default"] = bids[SW->getDefaultDest()];
            json::Array cs; for (auto &c : SW->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), (int64_t)bids[c.getCaseSuccessor()]});
            io["cases"] = std::move(cs);
          } else {
            json::Array a; for (auto &x : I.operands()) a.push_back(operand(x)); io["ops"] = std::move(a);
            if (auto *CI = dyn_cast<CmpInst>(&I)) { io["pred"] = CmpInst::getPredicateName(CI->getPredicate()).str(); io["oty"] = tystr(I.getOperand(0)->getType()); }
            if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { if (OB->hasNoSignedWrap()) io["nsw"] = true; }
            if (auto *CA = dyn_cast<CastInst>(&I)) io["sty"] = tystr(CA->getSrcTy());
            if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : EV->indices()) ix.push_back((int64_t)i); io["idx"] = std::move(ix); }
            if (auto *IV = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : IV->indices()) ix.push_back((int64_t)i); io["idx"] = std::move(ix); }
            if (auto *AR = dyn_cast<AtomicRMWInst>(&I)) io["rmw"] = AtomicRMWInst::getOperationName(AR->getOperation()).str();
            if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
              io["cleanup"] = LP->isCleanup(); json::Array cl;
              for (unsigned i = 0; i < LP->getNumClauses(); i++) cl.push_back(json::Array{LP->isCatch(i) ? "catch" : "filter", operand(LP->getClause(i))});
              io["clauses"] = std::move(cl);
            }
          }
          insts.push_back(std::move(io));
        }
        blocks.push_back(std::move(insts));
      }
      o["blocks"] = std::move(blocks);
    }
    funcs[F.getName().str()] = std::move(o);
  }
  json::Object sts;
  for (auto *st : structs) {
    if (!st->hasName() || st->isOpaque()) continue;
    json::Object so; auto *SL = DL->getStructLayout(st); so["size"] = (int64_t)SL->getSizeInBytes();
    std::string base = st->getName().str(); size_t p = base.find('.'); if (p != std::string::npos) base = base.substr(p + 1);
    auto it = comps.find(base);
    if (it == comps.end()) { size_t q = base.find_last_of('.'); if (q != std::string::npos) it = comps.find(base.substr(0, q)); }
    json::Array fs;
    for (unsigned i = 0; i < st->getNumElements(); i++) {
      std::string fn = "f" + std::to_string(i);
      if (it != comps.end()) for (auto *el : it->second->getElements()) if (auto *m = dyn_cast<DIDerivedType>(el))
        if (m->getTag() == dwarf::DW_TAG_member && m->getOffsetInBits() / 8 == SL->getElementOffset(i)) { fn = m->getName().str(); break; }
      fs.push_back(json::Array{fn, (int64_t)SL->getElementOffset(i), (int64_t)DL->getTypeAllocSize(st->getElementType(i)), tystr(st->getElementType(i))});
    }
    so["fields"] = std::move(fs); sts[st->getName().str()] = std::move(so);
  }
  // enumerators and macros are not in IR; enumerators come from debug info
  json::Object enums;
  for (auto *t : dif.types()) if (auto *ct = dyn_cast<DICompositeType>(t)) if (ct->getTag() == dwarf::DW_TAG_enumeration_type)
    for (auto *el : ct->getElements()) if (auto *e = dyn_cast<DIEnumerator>(el)) enums[e->getName().str()] = e->isUnsigned() ? (int64_t)e->getValue().getZExtValue() : e->getValue().getSExtValue();
  root["functions"] = std::move(funcs); root["globals"] = std::move(globals); root["structs"] = std::move(sts); root["enums"] = std::move(enums);
  outs() << json::Value(std::move(root)) << "\n";
  return 0;
}
