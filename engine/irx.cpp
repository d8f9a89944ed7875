// irx: export the LLVM IR of a translation unit (already type-checked C++ of /repo plus a driver)
// as JSON for the abstract interpreter.  Usage: irx in.bc > out.json
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include "llvm/Transforms/Utils/Local.h"
#include <map>
using namespace llvm;
typedef json::Value V; typedef json::Array A; typedef json::Object O;

static std::map<const Value*, int> ids;
static const DataLayout* DL;

static V typ(Type* t) {
  if (t->isVoidTy()) return "void";
  if (auto* it = dyn_cast<IntegerType>(t)) return std::string("i") + std::to_string(it->getBitWidth());
  if (t->isPointerTy()) return "p";
  if (t->isFloatTy()) return "f32"; if (t->isDoubleTy()) return "f64"; if (t->isFloatingPointTy()) return "f80";
  if (auto* st = dyn_cast<StructType>(t)) {
    if (!st->isSized()) return A{"opq"};
    A a{"s"}; const StructLayout* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) { A e; e.push_back((int64_t)sl->getElementOffset(i)); e.push_back(typ(st->getElementType(i))); a.push_back(std::move(e)); }
    return a;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) { A a{"a"}; a.push_back((int64_t)at->getNumElements()); a.push_back((int64_t)DL->getTypeAllocSize(at->getElementType())); a.push_back(typ(at->getElementType())); return a; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { A a{"v"}; a.push_back((int64_t)vt->getNumElements()); a.push_back((int64_t)DL->getTypeAllocSize(vt->getElementType())); a.push_back(typ(vt->getElementType())); return a; }
  return "other";
}
static int64_t sz(Type* t) { return t->isSized() ? (int64_t)DL->getTypeAllocSize(t) : 0; }

static V cval(const Constant* c);
static V gepc(const GEPOperator* g);

static V val(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return cval(c);
  if (isa<InlineAsm>(v)) return A{"asm", cast<InlineAsm>(v)->getAsmString(), cast<InlineAsm>(v)->getConstraintString()};
  if (isa<MetadataAsValue>(v)) return A{"md"};
  if (isa<BasicBlock>(v)) return A{"bb", ids.at(v)};
  auto it = ids.find(v);
  if (it == ids.end()) return A{"unk"};
  return A{"l", it->second};
}
static V cval(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return A{"i", ci->getSExtValue(), (int64_t)ci->getBitWidth()};
    SmallString<40> s; ci->getValue().toStringSigned(s); return A{"I", std::string(s), (int64_t)ci->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(c)) return A{"null"};
  if (isa<PoisonValue>(c) || isa<UndefValue>(c)) return A{"undef", typ(c->getType())};
  if (auto* a = dyn_cast<GlobalAlias>(c)) return cval(a->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) return A{"g", g->getName().str()};
  if (isa<ConstantAggregateZero>(c)) return A{"zero", typ(c->getType()), sz(c->getType())};
  if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
    A el; for (unsigned i = 0; i < ca->getNumElements(); ++i) el.push_back(cval(ca->getElementAsConstant(i)));
    return A{"agg", typ(c->getType()), std::move(el)};
  }
  if (isa<ConstantAggregate>(c)) {
    A el; for (unsigned i = 0; i < c->getNumOperands(); ++i) el.push_back(cval(cast<Constant>(c->getOperand(i))));
    return A{"agg", typ(c->getType()), std::move(el)};
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (&cf->getValueAPF().getSemantics() == &APFloat::IEEEdouble()) return A{"f", cf->getValueAPF().convertToDouble()}; return A{"f", 0}; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) return gepc(g);
    if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast)
      return A{"cast", val(ce->getOperand(0)), typ(ce->getType())};
    A ops; for (auto& o : ce->operands()) ops.push_back(val(o.get()));
    return A{"ce", ce->getOpcodeName(), std::move(ops), typ(ce->getType())};
  }
  return A{"unkc"};
}
static void gepParts(const GEPOperator* g, int64_t& off, A& idx) {
  off = 0;
  for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    const Value* op = it.getOperand();
    if (StructType* st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
    else {
      int64_t s = DL->getTypeAllocSize(it.getIndexedType());
      if (auto* ci = dyn_cast<ConstantInt>(op)) off += s * ci->getSExtValue();
      else { A p; p.push_back(val(op)); p.push_back(s); idx.push_back(std::move(p)); }
    }
  }
}
static V gepc(const GEPOperator* g) { int64_t off; A idx; gepParts(g, off, idx); return A{"gep", val(g->getPointerOperand()), off, std::move(idx)}; }

static std::string ord(AtomicOrdering o) { return toIRString(o); }

int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irx", errs()); return 2; }
  DL = &M->getDataLayout();
  O root, funcs, globals;
  for (GlobalVariable& g : M->globals()) {
    O o; o["dem"] = demangle(g.getName().str()); o["size"] = sz(g.getValueType()); o["const"] = g.isConstant(); o["tls"] = g.isThreadLocal();
    if (g.hasInitializer()) o["init"] = cval(g.getInitializer());
    o["ty"] = typ(g.getValueType());
    globals[g.getName()] = std::move(o);
  }
  A ctors; if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) (void)gc;
  for (Function& F : *M) {
    O fo; fo["dem"] = demangle(F.getName().str()); fo["nounwind"] = F.doesNotThrow(); fo["ret"] = typ(F.getReturnType());
    if (F.isDeclaration()) { fo["decl"] = true; if (F.isIntrinsic()) fo["intr"] = true; funcs[F.getName()] = std::move(fo); continue; }
    // promote memory to registers (pure representation change; keeps every call, atomic and escaping access)
    removeUnreachableBlocks(F);
    for (;;) {
      DominatorTree DT(F); std::vector<AllocaInst*> al;
      for (Instruction& I : F.getEntryBlock()) if (auto* a = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(a)) al.push_back(a);
      if (al.empty()) break; PromoteMemToReg(al, DT);
    }
    ids.clear(); int n = 0;
    A args; for (Argument& a : F.args()) { ids[&a] = n++; O ao; ao["ty"] = typ(a.getType()); if (a.hasByValAttr()) { ao["byval"] = sz(a.getParamByValType()); } if (a.hasStructRetAttr()) ao["sret"] = true; args.push_back(std::move(ao)); }
    int bn = 0; for (BasicBlock& B : F) ids[&B] = bn++;
    for (BasicBlock& B : F) for (Instruction& I : B) ids[&I] = n++;
    if (DISubprogram* sp = F.getSubprogram()) { fo["file"] = (sp->getFilename().str()); fo["line"] = (int64_t)sp->getLine(); }
    fo["args"] = std::move(args); fo["vararg"] = F.isVarArg();
    DominatorTree DT(F); LoopInfo LI(DT); A heads; for (BasicBlock& B : F) if (LI.isLoopHeader(&B)) heads.push_back(ids[&B]);
    // irreducible-safe: also any target of a DFS back edge
    fo["heads"] = std::move(heads);
    A blocks;
    for (BasicBlock& B : F) {
      A ins;
      for (Instruction& I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        O o; o["op"] = I.getOpcodeName(); o["id"] = ids[&I]; o["ty"] = typ(I.getType());
        if (const DILocation* dl = I.getDebugLoc().get()) {
          // code inlined from system headers is attributed to the library line it was inlined into
          const DILocation* best = dl;
          for (const DILocation* x = dl; x; x = x->getInlinedAt())
            if (x->getFilename().contains("/boost/sync/")) { best = x; break; }
          o["ln"] = (int64_t)best->getLine(); o["fl"] = best->getFilename().str();
        }
        if (auto* p = dyn_cast<PHINode>(&I)) { A in; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) { A e; e.push_back(ids[p->getIncomingBlock(i)]); e.push_back(val(p->getIncomingValue(i))); in.push_back(std::move(e)); } o["in"] = std::move(in); }
        else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { int64_t off; A idx; gepParts(cast<GEPOperator>(g), off, idx); o["base"] = val(g->getPointerOperand()); o["off"] = off; o["idx"] = std::move(idx); }
        else if (auto* cb = dyn_cast<CallBase>(&I)) {
          A as; A bv; for (unsigned i = 0; i < cb->arg_size(); ++i) { as.push_back(val(cb->getArgOperand(i))); bv.push_back(cb->isByValArgument(i) ? sz(cb->getParamByValType(i)) : (int64_t)0); }
          o["args"] = std::move(as); o["byval"] = std::move(bv); o["fn"] = val(cb->getCalledOperand()); o["nounwind"] = cb->doesNotThrow();
          if (auto* iv = dyn_cast<InvokeInst>(cb)) { o["to"] = ids[iv->getNormalDest()]; o["unw"] = ids[iv->getUnwindDest()]; }
        } else {
          A ops;
          if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { ops.push_back(val(br->getCondition())); ops.push_back(ids[br->getSuccessor(0)]); ops.push_back(ids[br->getSuccessor(1)]); } else ops.push_back(ids[br->getSuccessor(0)]); }
          else if (auto* sw = dyn_cast<SwitchInst>(&I)) { ops.push_back(val(sw->getCondition())); o["def"] = ids[sw->getDefaultDest()]; A cs; for (auto& c : sw->cases()) { A e; e.push_back(c.getCaseValue()->getSExtValue()); e.push_back(ids[c.getCaseSuccessor()]); cs.push_back(std::move(e)); } o["cases"] = std::move(cs); }
          else for (auto& u : I.operands()) ops.push_back(val(u.get()));
          o["ops"] = std::move(ops);
        }
        if (auto* l = dyn_cast<LoadInst>(&I)) { o["sz"] = (int64_t)DL->getTypeStoreSize(l->getType()); if (l->isAtomic()) o["ord"] = ord(l->getOrdering()); if (l->isVolatile()) o["vol"] = true; }
        if (auto* s = dyn_cast<StoreInst>(&I)) { o["sz"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()); o["vty"] = typ(s->getValueOperand()->getType()); if (s->isAtomic()) o["ord"] = ord(s->getOrdering()); }
        if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) { o["ord"] = ord(x->getSuccessOrdering()); o["ordf"] = ord(x->getFailureOrdering()); o["weak"] = x->isWeak(); o["sz"] = (int64_t)DL->getTypeStoreSize(x->getNewValOperand()->getType()); o["vty"] = typ(x->getNewValOperand()->getType()); }
        if (auto* r = dyn_cast<AtomicRMWInst>(&I)) { o["ord"] = ord(r->getOrdering()); o["rmw"] = AtomicRMWInst::getOperationName(r->getOperation()).str(); o["sz"] = (int64_t)DL->getTypeStoreSize(r->getType()); }
        if (auto* f = dyn_cast<FenceInst>(&I)) { o["ord"] = ord(f->getOrdering()); o["ss"] = (int64_t)f->getSyncScopeID(); }
        if (auto* a = dyn_cast<AllocaInst>(&I)) { o["size"] = sz(a->getAllocatedType()); o["aty"] = typ(a->getAllocatedType()); o["name"] = a->getName().str(); }
        if (auto* c = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["cty"] = typ(c->getOperand(0)->getType()); }
        if (auto* b = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = b->hasNoSignedWrap(); o["nuw"] = b->hasNoUnsignedWrap(); }
        if (auto* c = dyn_cast<CastInst>(&I)) { o["from"] = typ(c->getSrcTy()); }
        if (auto* ev = dyn_cast<ExtractValueInst>(&I)) { A ix; for (unsigned i : ev->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
        if (auto* iv = dyn_cast<InsertValueInst>(&I)) { A ix; for (unsigned i : iv->indices()) ix.push_back((int64_t)i); o["ix"] = std::move(ix); }
        if (auto* lp = dyn_cast<LandingPadInst>(&I)) { o["cleanup"] = lp->isCleanup(); A cl; for (unsigned i = 0; i < lp->getNumClauses(); ++i) { A e; e.push_back(lp->isCatch(i) ? "catch" : "filter"); e.push_back(cval(lp->getClause(i))); cl.push_back(std::move(e)); } o["clauses"] = std::move(cl); }
        ins.push_back(std::move(o));
      }
      blocks.push_back(std::move(ins));
    }
    fo["blocks"] = std::move(blocks);
    funcs[F.getName()] = std::move(fo);
  }
  root["funcs"] = std::move(funcs); root["globals"] = std::move(globals);
  outs() << V(std::move(root)) << "\n";
  return 0;
}
