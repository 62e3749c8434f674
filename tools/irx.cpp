// irx: exports LLVM IR (after the passes already applied by the driver) plus the
// debug-info type model as one JSON document.  All rule logic is in Python.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include <cstring>
#include <map>
#include <set>
using namespace llvm;
typedef json::OStream J;

static std::string tstr(Type *t){ std::string s; raw_string_ostream o(s); t->print(o,false,true); return s; }
static const DataLayout *DL;

struct FnCtx { DenseMap<const Value*,int> id; DenseMap<const BasicBlock*,int> bb; };

static void emitOp(J &j, const Value *v, FnCtx *c, int depth=0);

static void emitGepPath(J &j, const GEPOperator *g, FnCtx *c, int depth){
  j.attributeArray("path",[&]{
    for (auto it=gep_type_begin(g), e=gep_type_end(g); it!=e; ++it){
      Value *idx=it.getOperand();
      if (StructType *st=it.getStructTypeOrNull()){
        j.array([&]{ j.value("f"); j.value(st->hasName()?st->getName():StringRef("")); j.value((int64_t)cast<ConstantInt>(idx)->getZExtValue());
          j.value((int64_t)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()).getFixedValue()); });
      } else {
        j.array([&]{ j.value("i"); emitOp(j,idx,c,depth+1); j.value((int64_t)DL->getTypeAllocSize(it.getIndexedType()).getFixedValue()); });
      }
    }
  });
}

static void emitOp(J &j, const Value *v, FnCtx *c, int depth){
  if (c){ auto it=c->id.find(v); if (it!=c->id.end()){ j.value(it->second); return; } }
  if (auto *bb=dyn_cast<BasicBlock>(v)){ j.array([&]{ j.value("bb"); j.value(c?c->bb.lookup(bb):-1);}); return; }
  if (auto *ci=dyn_cast<ConstantInt>(v)){ SmallString<40> s; ci->getValue().toStringSigned(s); j.array([&]{ j.value("c"); j.value(tstr(ci->getType())); j.value(StringRef(s)); }); return; }
  if (auto *cf=dyn_cast<ConstantFP>(v)){
    std::string s; APFloat f=cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li);
    char buf[64]; snprintf(buf,sizeof buf,"%.17g",f.convertToDouble()); s=buf;
    j.array([&]{ j.value("cf"); j.value(tstr(cf->getType())); j.value(s); }); return; }
  if (isa<ConstantPointerNull>(v)){ j.array([&]{ j.value("null"); }); return; }
  if (isa<UndefValue>(v)){ j.array([&]{ j.value("undef"); }); return; }
  if (auto *g=dyn_cast<GlobalValue>(v)){ j.array([&]{ j.value("g"); j.value(g->getName()); }); return; }
  if (auto *ia=dyn_cast<InlineAsm>(v)){ j.array([&]{ j.value("asm"); j.value(json::fixUTF8(ia->getAsmString())); }); return; }
  if (auto *ce=dyn_cast<ConstantExpr>(v)){
    j.object([&]{
      j.attribute("ce",ce->getOpcodeName());
      if (auto *g=dyn_cast<GEPOperator>(ce)){ j.attribute("src",tstr(g->getSourceElementType())); emitGepPath(j,g,c,depth); }
      j.attributeArray("ops",[&]{ for (auto &o: ce->operands()) emitOp(j,o.get(),c,depth+1); });
    }); return; }
  if (auto *ds=dyn_cast<ConstantDataSequential>(v)){
    if (ds->isString() || (ds->getElementType()->isIntegerTy(8))){ j.array([&]{ j.value("s"); j.value(json::fixUTF8(ds->getRawDataValues())); }); return; }
    j.array([&]{ j.value("agg"); j.value(tstr(ds->getType())); for (unsigned i=0;i<ds->getNumElements() && i<4096;i++) emitOp(j,ds->getElementAsConstant(i),c,depth+1); }); return; }
  if (isa<ConstantAggregateZero>(v)){ j.array([&]{ j.value("zero"); j.value(tstr(v->getType())); }); return; }
  if (auto *ca=dyn_cast<ConstantAggregate>(v)){ j.array([&]{ j.value("agg"); j.value(tstr(ca->getType())); for (auto &o: ca->operands()) emitOp(j,o.get(),c,depth+1); }); return; }
  if (isa<MetadataAsValue>(v)){ j.array([&]{ j.value("md"); }); return; }
  j.array([&]{ j.value("?"); });
}

// debug-info types ---------------------------------------------------------
static std::map<const DIType*,int> tid; static std::vector<const DIType*> tlist;
static int typeId(const DIType *t){ if(!t) return -1; auto it=tid.find(t); if(it!=tid.end()) return it->second; int n=tlist.size(); tid[t]=n; tlist.push_back(t); return n; }

static void emitTypes(J &j){
  j.attributeArray("ditypes",[&]{
    for (size_t i=0;i<tlist.size();i++){
      const DIType *t=tlist[i];
      j.object([&]{
        j.attribute("id",(int64_t)i);
        j.attribute("tag",dwarf::TagString(t->getTag()));
        if(!t->getName().empty()) j.attribute("name",t->getName());
        j.attribute("size",(int64_t)t->getSizeInBits());
        if (auto *d=dyn_cast<DIDerivedType>(t)){ j.attribute("base",typeId(d->getBaseType())); j.attribute("off",(int64_t)d->getOffsetInBits()); }
        else if (auto *b=dyn_cast<DIBasicType>(t)) j.attribute("enc",dwarf::AttributeEncodingString(b->getEncoding()));
        else if (auto *s=dyn_cast<DISubroutineType>(t)){ j.attributeArray("types",[&]{ for (auto *x: s->getTypeArray()) j.value(typeId(x)); }); }
        else if (auto *k=dyn_cast<DICompositeType>(t)){
          j.attribute("base",typeId(k->getBaseType()));
          if (k->getFile()) j.attribute("file",k->getFile()->getFilename());
          j.attribute("line",(int64_t)k->getLine());
          j.attributeArray("elements",[&]{ for (auto *e: k->getElements()){
            if (auto *m=dyn_cast_or_null<DIDerivedType>(e)) j.object([&]{ j.attribute("name",m->getName()); j.attribute("off",(int64_t)m->getOffsetInBits()); j.attribute("size",(int64_t)m->getSizeInBits()); j.attribute("type",typeId(m->getBaseType())); });
            else if (auto *en=dyn_cast_or_null<DIEnumerator>(e)){ SmallString<32> s; en->getValue().toStringSigned(s); j.object([&]{ j.attribute("name",en->getName()); j.attribute("val",StringRef(s)); }); }
            else if (auto *sr=dyn_cast_or_null<DISubrange>(e)){ j.object([&]{ if (auto ci=dyn_cast_if_present<ConstantInt*>(sr->getCount())) j.attribute("count",ci->getSExtValue()); }); }
          }});
        }
      });
    }
  });
}

static void prep(Module &M, bool doInline, const std::set<std::string> &keep){
  // drop lifetime markers; optionally inline every internal, non-recursive function
  for (auto &F: M) for (auto &B: F) for (auto it=B.begin(); it!=B.end();){ Instruction &I=*it++; if (auto *ii=dyn_cast<IntrinsicInst>(&I)) if (ii->isLifetimeStartOrEnd() || ii->getIntrinsicID()==Intrinsic::assume) I.eraseFromParent(); }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
  ModulePassManager MPM;
  auto parse=[&](const char *p){ if (auto e=PB.parsePassPipeline(MPM,p)){ errs()<<toString(std::move(e))<<"\n"; exit(2); } };
  parse("function(sroa,mem2reg,instsimplify)");
  if (doInline){
    for (auto &F: M){ if (F.isDeclaration()) continue; F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::AlwaysInline);
      bool rec=false; for (auto &B: F) for (auto &I: B) if (auto *cb=dyn_cast<CallBase>(&I)) if (cb->getCalledFunction()==&F) rec=true;
      bool kept=F.getSubprogram() && keep.count(F.getSubprogram()->getName().str());
      if (F.hasLocalLinkage() && !rec && !F.isVarArg() && !kept) F.addFnAttr(Attribute::AlwaysInline); else F.addFnAttr(Attribute::NoInline); }
    parse("always-inline,function(sroa,mem2reg,instsimplify)");
  }
  MPM.run(M,MAM);
}

int main(int argc,char**argv){
  LLVMContext ctx; SMDiagnostic err; bool inl=false; int k=1;
  if (argc>k && !strcmp(argv[k],"-inline")){ inl=true; k++; }
  std::set<std::string> keep; if (argc>k && !strncmp(argv[k],"-keep=",6)){ SmallVector<StringRef,32> ks; StringRef(argv[k]+6).split(ks,','); for (auto x: ks) keep.insert(x.str()); k++; }
  if (argc<k+2){ errs()<<"usage: irx [-inline] out.json in.bc...\n"; return 2; }
  const char *outp=argv[k++];
  auto M=parseIRFile(argv[k++],err,ctx); if(!M){ err.print("irx",errs()); return 2; }
  for (;k<argc;k++){ auto N=parseIRFile(argv[k],err,ctx); if(!N){ err.print("irx",errs()); return 2; } if (StringRef(argv[k]).contains("headers")) for (auto &F: *N) if (!F.isDeclaration() && F.hasLocalLinkage()){ F.setName("hdr$"+F.getName().str()); F.setLinkage(GlobalValue::ExternalLinkage); F.setVisibility(GlobalValue::HiddenVisibility); }
    if (Linker::linkModules(*M,std::move(N))){ errs()<<"link failed\n"; return 2; } }
  prep(*M,inl,keep);
  DL=&M->getDataLayout();
  std::error_code ec; raw_fd_ostream out(outp,ec); if(ec){ errs()<<ec.message()<<"\n"; return 2; }
  J j(out,0);
  j.object([&]{
    j.attribute("source",M->getSourceFileName());
    j.attributeArray("structs",[&]{ for (StructType *st: M->getIdentifiedStructTypes()) if(!st->isOpaque()) j.object([&]{
        j.attribute("name",st->getName()); j.attribute("size",(int64_t)DL->getTypeAllocSize(st).getFixedValue());
        j.attributeArray("fields",[&]{ auto *L=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) j.object([&]{ j.attribute("off",(int64_t)L->getElementOffset(i).getFixedValue()); j.attribute("type",tstr(st->getElementType(i))); j.attribute("size",(int64_t)DL->getTypeAllocSize(st->getElementType(i)).getFixedValue()); }); });
      }); });
    j.attributeArray("globals",[&]{ for (auto &g: M->globals()) j.object([&]{
        j.attribute("name",g.getName()); j.attribute("type",tstr(g.getValueType())); j.attribute("size",(int64_t)(g.getValueType()->isSized()?DL->getTypeAllocSize(g.getValueType()).getFixedValue():0));
        j.attribute("internal",g.hasLocalLinkage()); j.attribute("const",g.isConstant()); j.attribute("decl",g.isDeclaration()); j.attribute("tls",g.isThreadLocal());
        SmallVector<DIGlobalVariableExpression*,1> dv; g.getDebugInfo(dv);
        if(!dv.empty()){ auto *v=dv[0]->getVariable(); j.attribute("dname",v->getName()); if(v->getFile()) j.attribute("file",v->getFile()->getFilename()); j.attribute("line",(int64_t)v->getLine()); j.attribute("ditype",typeId(v->getType())); if (auto *sp=dyn_cast_or_null<DISubprogram>(v->getScope())) j.attribute("infunc",sp->getName()); }
        if(g.hasInitializer()){ j.attributeBegin("init"); emitOp(j,g.getInitializer(),nullptr); j.attributeEnd(); }
      }); });
    j.attributeArray("functions",[&]{ for (auto &F: *M){
      if (F.isIntrinsic() && F.isDeclaration()) continue;
      j.object([&]{
      j.attribute("name",F.getName()); j.attribute("decl",F.isDeclaration()); j.attribute("internal",F.hasLocalLinkage()); j.attribute("noreturn",F.doesNotReturn());
      j.attribute("hidden",F.hasHiddenVisibility());
      j.attribute("vararg",F.isVarArg()); j.attribute("ret",tstr(F.getReturnType()));
      if(F.hasFnAttribute("target-features")) j.attribute("feat",F.getFnAttribute("target-features").getValueAsString());
      if (auto *sp=F.getSubprogram()){ j.attribute("dname",sp->getName()); if(sp->getFile()) j.attribute("file",sp->getFile()->getFilename()); j.attribute("line",(int64_t)sp->getLine());
        if(sp->getType()) j.attributeArray("ditypes",[&]{ for(auto *x: sp->getType()->getTypeArray()) j.value(typeId(x)); }); }
      FnCtx c; int n=0; for(auto &a: F.args()) c.id[&a]=n++; int b=0; for(auto &B: F){ c.bb[&B]=b++; }
      for(auto &B: F) for(auto &I: B) if(!isa<DbgInfoIntrinsic>(I)) c.id[&I]=n++;
      std::map<int,std::string> vname; std::map<int,int> dino;
      for(auto &B: F) for(auto &I: B) if(auto *dv=dyn_cast<DbgVariableIntrinsic>(&I)) for(auto *v: dv->location_ops()){ auto it=c.id.find(v); if(it!=c.id.end() && dv->getExpression()->getNumElements()==0) { vname.emplace(it->second,dv->getVariable()->getName().str()); if(it->second<(int)F.arg_size() && dv->getVariable()->getArg()) dino.emplace(it->second,dv->getVariable()->getArg()); } }
      j.attributeArray("args",[&]{ int i=0; for(auto &a: F.args()) j.object([&]{ j.attribute("type",tstr(a.getType())); auto it=vname.find(i); if(it!=vname.end()) j.attribute("name",it->second); auto id=dino.find(i); if(id!=dino.end()) j.attribute("dino",id->second); if(a.hasStructRetAttr()) j.attribute("sret",true); if(a.hasByValAttr()) j.attribute("byval",tstr(a.getParamByValType())); i++; }); });
      j.attributeObject("vnames",[&]{ for(auto &p: vname) j.attribute(std::to_string(p.first),p.second); });
      if(F.isDeclaration()) return;
      j.attributeArray("blocks",[&]{ for(auto &B: F){ j.array([&]{ for(auto &I: B){
        if(isa<DbgInfoIntrinsic>(I)) continue;
        j.object([&]{
          j.attribute("id",c.id.lookup(&I)); j.attribute("op",I.getOpcodeName()); if(!I.getType()->isVoidTy()) j.attribute("ty",tstr(I.getType()));
          if(auto &dl=I.getDebugLoc()){ j.attribute("ln",(int64_t)dl.getLine()); auto *sc=cast<DIScope>(dl.getScope()); 
             if(F.getSubprogram() && sc->getFilename()!=F.getSubprogram()->getFilename()) j.attribute("fl",sc->getFilename()); 
             if(dl.getInlinedAt()){ if(auto *sp=cast<DILocalScope>(dl.getScope())->getSubprogram()) j.attribute("inl",sp->getName()); } }
          if(auto *x=dyn_cast<CmpInst>(&I)) j.attribute("pred",CmpInst::getPredicateName(x->getPredicate()));
          if(auto *x=dyn_cast<AllocaInst>(&I)){ j.attribute("aty",tstr(x->getAllocatedType())); j.attribute("asz",(int64_t)DL->getTypeAllocSize(x->getAllocatedType()).getFixedValue()); }
          if(auto *x=dyn_cast<CastInst>(&I)) j.attribute("from",tstr(x->getSrcTy()));
          if(auto *x=dyn_cast<LoadInst>(&I)) j.attribute("al",(int64_t)x->getAlign().value());
          if(auto *x=dyn_cast<StoreInst>(&I)) j.attribute("al",(int64_t)x->getAlign().value());
          if(auto *x=dyn_cast<StoreInst>(&I)) j.attribute("sty",tstr(x->getValueOperand()->getType()));
          if(auto *x=dyn_cast<GetElementPtrInst>(&I)){ j.attribute("src",tstr(x->getSourceElementType())); j.attribute("ssz",(int64_t)DL->getTypeAllocSize(x->getSourceElementType()).getFixedValue()); emitGepPath(j,cast<GEPOperator>(x),&c,0); }
          if(auto *x=dyn_cast<PHINode>(&I)){ j.attributeArray("inc",[&]{ for(unsigned i=0;i<x->getNumIncomingValues();i++) j.array([&]{ emitOp(j,x->getIncomingValue(i),&c); j.value(c.bb.lookup(x->getIncomingBlock(i))); }); }); }
          else if(auto *x=dyn_cast<SwitchInst>(&I)){ j.attributeBegin("cond"); emitOp(j,x->getCondition(),&c); j.attributeEnd(); j.attribute("default",c.bb.lookup(x->getDefaultDest()));
             j.attributeArray("cases",[&]{ for(auto &k: x->cases()) j.array([&]{ SmallString<32> s; k.getCaseValue()->getValue().toStringSigned(s); j.value(StringRef(s)); j.value(c.bb.lookup(k.getCaseSuccessor())); }); }); }
          else if(auto *x=dyn_cast<BranchInst>(&I)){ if(x->isConditional()){ j.attributeBegin("cond"); emitOp(j,x->getCondition(),&c); j.attributeEnd(); } j.attributeArray("succ",[&]{ for(unsigned k=0;k<x->getNumSuccessors();k++) j.value(c.bb.lookup(x->getSuccessor(k))); }); }
          else if(auto *x=dyn_cast<CallBase>(&I)){ j.attributeBegin("callee"); emitOp(j,x->getCalledOperand(),&c); j.attributeEnd(); j.attributeArray("ops",[&]{ for(auto &o: x->args()) emitOp(j,o.get(),&c); }); if(x->doesNotReturn()) j.attribute("noreturn",true);
             j.attributeArray("aty",[&]{ for(auto &o: x->args()) j.value(tstr(o->getType())); }); }
          else { j.attributeArray("ops",[&]{ for(auto &o: I.operands()) emitOp(j,o.get(),&c); }); }
          if(auto *x=dyn_cast<ShuffleVectorInst>(&I)) j.attributeArray("mask",[&]{ for(int m: x->getShuffleMask()) j.value(m); });
          if(auto *x=dyn_cast<ExtractValueInst>(&I)) j.attributeArray("xi",[&]{ for(unsigned m: x->getIndices()) j.value((int64_t)m); });
          if(auto *x=dyn_cast<InsertValueInst>(&I)) j.attributeArray("xi",[&]{ for(unsigned m: x->getIndices()) j.value((int64_t)m); });
        });
      }}); }});
    }); }});
    // composite types reachable from retained types too
    DebugInfoFinder fnd; fnd.processModule(*M); for(auto *t: fnd.types()) typeId(t);
    emitTypes(j);
  });
  out<<"\n"; return 0;
}
