// nsqx: lowers one translation unit's LLVM bitcode to a normalised, inlined,
// SSA-form JSON description of selected root functions, for the Python
// dataflow rules in /verif/lib.  It never executes any of the analysed code.
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <unordered_map>
using namespace llvm;

static cl::opt<std::string> Input(cl::Positional, cl::Required);
static cl::opt<std::string> Output("o", cl::Required);
static cl::list<std::string> Roots("root");
static cl::list<std::string> NoInline("noinline");
static cl::list<std::string> NoInlineFile("noinline-file");
static cl::list<std::string> ForceInline("inline");
static cl::opt<int> Rounds("rounds", cl::init(14));
static cl::opt<int> RecDepth("recdepth", cl::init(2));
static cl::opt<int> MaxInsts("maxinsts", cl::init(60000));
static cl::opt<std::string> Passes("passes",
  cl::init("sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,correlated-propagation,simplifycfg,sroa,instsimplify,adce"));
static cl::opt<std::string> FinalPasses("final",
  cl::init("loop-simplify,lcssa,loop-mssa(licm),loop(loop-unroll-full),sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,correlated-propagation,simplifycfg,loop-simplify,loop-mssa(licm),loop(loop-unroll-full),sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,gvn<no-load-pre;no-pre>,instcombine<no-verify-fixpoint>,adce,simplifycfg"));
static cl::opt<bool> KeepRec("keep-rec", cl::desc("do not inline directly recursive functions; export them"));
static cl::opt<bool> ListOnly("list", cl::desc("only list functions"));
static cl::opt<bool> Layouts("layouts");
static cl::opt<std::string> DumpIR("dump-ir");

static std::string dem(StringRef s){ return demangle(s.str()); }

struct RX{
  std::vector<std::regex> v;
  void add(const std::string& s){ v.emplace_back(s, std::regex::ECMAScript|std::regex::optimize); }
  bool match(const std::string& s) const{
    for(auto& r:v) if(std::regex_search(s,r)) return true;
    return false;
  }
};
static RX rootRX,noRX,yesRX;
static std::unordered_map<const Function*,int> inlCache;

static std::unordered_map<const Function*,int> recCache;
static bool selfRec(Function* F){
  if(!F || F->isDeclaration()) return false;
  auto it=recCache.find(F); if(it!=recCache.end()) return it->second;
  bool r=false;
  for(auto& b:*F) for(auto& i:b) if(auto* c=dyn_cast<CallBase>(&i)) if(c->getCalledFunction()==F) r=true;
  recCache[F]=r; return r;
}
static bool mayInline(Function* F){
  if(!F || F->isDeclaration() || F->isVarArg()) return false;
  if(KeepRec && selfRec(F)) return false;
  auto it=inlCache.find(F);
  if(it!=inlCache.end()) return it->second;
  std::string d=dem(F->getName());
  bool r;
  if(yesRX.match(d)) r=true;
  else r=!noRX.match(d);
  inlCache[F]=r;
  return r;
}

// ---- JSON export ----------------------------------------------------------
struct Exp{
  json::OStream& J;
  std::unordered_map<const Value*,int> ids;
  std::map<const DILocation*,int> dummy;
  const Function* F=nullptr;
  const DataLayout* DL=nullptr;
  Exp(json::OStream& j):J(j){}
  std::string ty(Type* t){
    std::string s; raw_string_ostream os(s); t->print(os,false,true); return os.str();
  }
  void val(const Value* v){
    // encoding: ["i",n] instr/arg ; ["c",int-string,bits]; ["f",hex double repr]; ["g",name]; ["n"]; ["u"]; ["e",...] const expr
    if(auto it=ids.find(v); it!=ids.end()){ J.array([&]{J.value("i");J.value(it->second);}); return; }
    if(auto* c=dyn_cast<ConstantInt>(v)){
      SmallString<40> s; c->getValue().toStringSigned(s);
      J.array([&]{J.value("c");J.value(s.str());J.value((int64_t)c->getBitWidth());}); return; }
    if(auto* c=dyn_cast<ConstantFP>(v)){
      SmallString<40> s;
      APFloat f=c->getValueAPF(); bool li;
      double dv; 
      if(&f.getSemantics()==&APFloat::x87DoubleExtended()||&f.getSemantics()==&APFloat::IEEEsingle()){ f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li);} 
      dv=f.convertToDouble();
      char buf[64]; snprintf(buf,64,"%a",dv);
      J.array([&]{J.value("f");J.value(buf);}); return; }
    if(isa<ConstantPointerNull>(v)){ J.array([&]{J.value("n");}); return; }
    if(isa<UndefValue>(v)){ J.array([&]{J.value("u");}); return; }
    if(auto* g=dyn_cast<GlobalValue>(v)){ J.array([&]{J.value("g");J.value(g->getName());J.value(dem(g->getName()));}); return; }
    if(isa<ConstantAggregateZero>(v)){ J.array([&]{J.value("z");}); return; }
    if(auto* ce=dyn_cast<ConstantExpr>(v)){
      if(auto* gep=dyn_cast<GEPOperator>(ce)){
        APInt off(DL->getIndexTypeSizeInBits(gep->getType()),0);
        if(gep->accumulateConstantOffset(*DL,off)){
          J.array([&]{J.value("e");J.value("gep");val(gep->getPointerOperand());J.value(off.getSExtValue());}); return; }
      }
      J.array([&]{J.value("e");J.value(ce->getOpcodeName());
        for(auto& o:ce->operands()) val(o.get());}); return;
    }
    if(auto* ca=dyn_cast<ConstantAggregate>(v)){
      J.array([&]{J.value("a"); for(auto& o:ca->operands()) val(o.get());}); return; }
    if(auto* cd=dyn_cast<ConstantDataSequential>(v)){
      J.array([&]{J.value("a"); for(unsigned i=0;i<cd->getNumElements();i++) val(cd->getElementAsConstant(i));}); return; }
    if(auto* md=dyn_cast<MetadataAsValue>(v)){ J.array([&]{J.value("m");}); return; }
    std::string s; raw_string_ostream os(s); v->printAsOperand(os,true);
    J.array([&]{J.value("x");J.value(os.str());});
  }
  void loc(const Instruction& I){
    const DILocation* L=I.getDebugLoc();
    if(!L) return;
    J.attributeArray("loc",[&]{
      int n=0;
      while(L && n<12){
        std::string f=L->getFilename().str();
        J.array([&]{ J.value(f); J.value((int64_t)L->getLine()); 
          auto* sp=L->getScope()->getSubprogram();
          J.value(sp? sp->getName():""); });
        L=L->getInlinedAt(); n++;
      }
    });
  }
  void inst(const Instruction& I){
    J.object([&]{
      J.attribute("id",ids[&I]);
      J.attribute("op",I.getOpcodeName());
      J.attribute("ty",ty(I.getType()));
      if(auto* g=dyn_cast<GetElementPtrInst>(&I)){
        MapVector<Value*,APInt> vo; APInt co(64,0);
        if(g->collectOffset(*DL,64,vo,co)){
          J.attributeBegin("base"); val(g->getPointerOperand()); J.attributeEnd();
          J.attribute("off",co.getSExtValue());
          J.attributeArray("idx",[&]{ for(auto& p:vo) J.array([&]{ val(p.first); J.value(p.second.getSExtValue()); J.value(ty(p.first->getType())); }); });
          J.attribute("inb",g->isInBounds());
          J.attribute("sty",ty(g->getSourceElementType()));
        }
        loc(I); return;
      }
      if(auto* p=dyn_cast<PHINode>(&I)){
        J.attributeArray("inc",[&]{ for(unsigned k=0;k<p->getNumIncomingValues();k++) J.array([&]{ J.value(ids[p->getIncomingBlock(k)]); val(p->getIncomingValue(k)); }); });
        loc(I); return;
      }
      if(auto* c=dyn_cast<CmpInst>(&I)) J.attribute("pred",CmpInst::getPredicateName(c->getPredicate()));
      if(auto* a=dyn_cast<AllocaInst>(&I)){ J.attribute("aty",ty(a->getAllocatedType())); 
         J.attribute("asz",(int64_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue());
         J.attribute("name",a->getName()); }
      if(auto* l=dyn_cast<LoadInst>(&I)){ if(l->isVolatile()) J.attribute("vol",true); if(l->isAtomic()) J.attribute("atomic",true); tbaa(I);
         J.attribute("sz",(int64_t)DL->getTypeStoreSize(l->getType()).getFixedValue()); }
      if(auto* s=dyn_cast<StoreInst>(&I)){ if(s->isVolatile()) J.attribute("vol",true); if(s->isAtomic()) J.attribute("atomic",true); tbaa(I);
         J.attribute("vty",ty(s->getValueOperand()->getType()));
         J.attribute("sz",(int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue()); }
      if(auto* c=dyn_cast<CastInst>(&I)) J.attribute("sty",ty(c->getSrcTy()));
      if(auto* e=dyn_cast<ExtractValueInst>(&I)) J.attributeArray("ix",[&]{ for(auto k:e->indices()) J.value((int64_t)k); });
      if(auto* e=dyn_cast<InsertValueInst>(&I)) J.attributeArray("ix",[&]{ for(auto k:e->indices()) J.value((int64_t)k); });
      if(auto* c=dyn_cast<CallBase>(&I)){
        Function* cf=c->getCalledFunction();
        if(!cf) cf=dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
        if(cf){ J.attribute("callee",cf->getName()); J.attribute("dem",dem(cf->getName())); 
           if(cf->doesNotThrow()) J.attribute("nounwind",true);
           J.attribute("defd",!cf->isDeclaration()); }
        else { J.attributeBegin("fp"); val(c->getCalledOperand()); J.attributeEnd(); }
        if(c->doesNotThrow()) J.attribute("nounwind",true);
        if(c->doesNotReturn()) J.attribute("noreturn",true);
        if(c->onlyReadsMemory()) J.attribute("readonly",true);
        if(c->doesNotAccessMemory()) J.attribute("readnone",true);
        if(c->hasRetAttr(Attribute::NoAlias)) J.attribute("noalias",true);
        J.attributeArray("args",[&]{ for(auto& a:c->args()) val(a.get()); });
        J.attributeArray("atys",[&]{ for(auto& a:c->args()) J.value(ty(a->getType())); });
        J.attributeArray("sret",[&]{ for(unsigned k=0;k<c->arg_size();k++) if(c->paramHasAttr(k,Attribute::StructRet)) J.value((int64_t)k); });
        J.attributeArray("byval",[&]{ for(unsigned k=0;k<c->arg_size();k++) if(c->isByValArgument(k)) J.value((int64_t)k); });
        if(auto* iv=dyn_cast<InvokeInst>(&I)){ J.attribute("normal",ids[iv->getNormalDest()]); J.attribute("unwind",ids[iv->getUnwindDest()]); }
        loc(I); return;
      }
      if(auto* lp=dyn_cast<LandingPadInst>(&I)){
        J.attribute("cleanup",lp->isCleanup());
        J.attributeArray("clauses",[&]{ for(unsigned k=0;k<lp->getNumClauses();k++) J.array([&]{ J.value(lp->isCatch(k)?"catch":"filter"); val(lp->getClause(k)); }); });
        loc(I); return;
      }
      if(auto* b=dyn_cast<BranchInst>(&I)){
        if(b->isConditional()){ J.attributeBegin("cond"); val(b->getCondition()); J.attributeEnd(); }
        J.attributeArray("succ",[&]{ for(unsigned k=0;k<b->getNumSuccessors();k++) J.value(ids[b->getSuccessor(k)]); });
        loc(I); return;
      }
      if(auto* s=dyn_cast<SwitchInst>(&I)){
        J.attributeBegin("cond"); val(s->getCondition()); J.attributeEnd();
        J.attribute("default",ids[s->getDefaultDest()]);
        J.attributeArray("cases",[&]{ for(auto& c:s->cases()) J.array([&]{ J.value(c.getCaseValue()->getSExtValue()); J.value(ids[c.getCaseSuccessor()]); }); });
        loc(I); return;
      }
      J.attributeArray("ops",[&]{ for(auto& o:I.operands()) if(!isa<BasicBlock>(o.get())) val(o.get()); });
      loc(I);
    });
  }
  void tbaa(const Instruction& I){
    if(MDNode* n=I.getMetadata(LLVMContext::MD_tbaa)){
      // struct-path: (base, access, offset)
      if(n->getNumOperands()>=3){
        auto* acc=dyn_cast_or_null<MDNode>(n->getOperand(1).get());
        auto* base=dyn_cast_or_null<MDNode>(n->getOperand(0).get());
        auto nm=[](MDNode* m)->StringRef{ if(m&&m->getNumOperands()) if(auto* s=dyn_cast<MDString>(m->getOperand(0).get())) return s->getString(); return ""; };
        J.attribute("tb",nm(acc));
        if(base!=acc) J.attribute("tbb",nm(base));
      }
    }
  }
  void func(Function& Fn){
    F=&Fn; DL=&Fn.getParent()->getDataLayout(); ids.clear();
    int n=0;
    for(auto& a:Fn.args()) ids[&a]=n++;
    for(auto& b:Fn) ids[&b]=n++;
    for(auto& b:Fn) for(auto& i:b) ids[&i]=n++;
    J.object([&]{
      J.attribute("name",Fn.getName());
      J.attribute("dem",dem(Fn.getName()));
      if(auto* sp=Fn.getSubprogram()){ J.attribute("file",sp->getFilename()); J.attribute("line",(int64_t)sp->getLine()); 
        J.attributeArray("ptypes",[&]{ if(auto* t=sp->getType()) for(auto* x:t->getTypeArray()) J.value(ditype(x)); });
      }
      J.attribute("ret",ty(Fn.getReturnType()));
      J.attributeArray("args",[&]{ for(auto& a:Fn.args()) J.object([&]{ J.attribute("id",ids[&a]); J.attribute("name",a.getName()); J.attribute("ty",ty(a.getType())); if(a.hasStructRetAttr()) J.attribute("sret",true); if(a.hasByValAttr()) J.attribute("byval",true);}); });
      J.attributeArray("blocks",[&]{ for(auto& b:Fn) J.object([&]{
        J.attribute("id",ids[&b]);
        J.attributeArray("insts",[&]{ for(auto& i:b) inst(i); });
      });});
    });
  }
  static std::string ditype(const Metadata* m,int depth=0){
    if(!m) return "void"; if(depth>8) return "...";
    if(auto* b=dyn_cast<DIBasicType>(m)) return b->getName().str();
    if(auto* d=dyn_cast<DIDerivedType>(m)){
      std::string i=ditype(d->getBaseType(),depth+1);
      switch(d->getTag()){
        case dwarf::DW_TAG_pointer_type: return i+"*";
        case dwarf::DW_TAG_reference_type: return i+"&";
        case dwarf::DW_TAG_rvalue_reference_type: return i+"&&";
        case dwarf::DW_TAG_const_type: return "const "+i;
        case dwarf::DW_TAG_typedef: return i;
        default: return i;
      }
    }
    if(auto* c=dyn_cast<DICompositeType>(m)){
      std::string q=c->getIdentifier().str();
      if(!q.empty()){ std::string dd=dem(q); if(StringRef(dd).starts_with("typeinfo name for ")) return dd.substr(18); return dd; }
      if(c->getTag()==dwarf::DW_TAG_array_type) return ditype(c->getBaseType(),depth+1)+"[]";
      std::string nm=c->getName().str();
      for(const DIScope* sc=c->getScope();sc && !nm.empty();sc=sc->getScope()){
        if(auto* ns=dyn_cast<DINamespace>(sc)) nm=(ns->getName().empty()?std::string("(anonymous namespace)"):ns->getName().str())+"::"+nm;
        else if(auto* ct=dyn_cast<DICompositeType>(sc)) nm=ct->getName().str()+"::"+nm;
        else break;
      }
      return nm;
    }
    if(isa<DISubroutineType>(m)) return "fn";
    return "?";
  }
};

static void layouts(Module& M, json::OStream& J){
  DebugInfoFinder f; f.processModule(M);
  J.attributeArray("layouts",[&]{
    for(auto* t:f.types()){
      auto* c=dyn_cast<DICompositeType>(t);
      if(!c) continue;
      if(c->getTag()!=dwarf::DW_TAG_structure_type && c->getTag()!=dwarf::DW_TAG_class_type) continue;
      if(c->isForwardDecl()) continue;
      std::string nm=Exp::ditype(c);
      J.object([&]{
        J.attribute("name",nm); J.attribute("size",(int64_t)c->getSizeInBits()/8);
        J.attribute("file",c->getFilename()); J.attribute("line",(int64_t)c->getLine());
        J.attributeArray("members",[&]{
          for(auto* e:c->getElements()){
            auto* d=dyn_cast_or_null<DIDerivedType>(e);
            if(!d || d->isStaticMember()) continue;
            if(d->getTag()!=dwarf::DW_TAG_member && d->getTag()!=dwarf::DW_TAG_inheritance) continue;
            J.object([&]{
              J.attribute("name",d->getName()); J.attribute("off",(int64_t)d->getOffsetInBits()/8);
              J.attribute("size",(int64_t)d->getSizeInBits()/8);
              J.attribute("inh",d->getTag()==dwarf::DW_TAG_inheritance);
              J.attribute("type",Exp::ditype(d->getBaseType()));
              J.attribute("line",(int64_t)d->getLine());
            });
          }
        });
      });
    }
  });
}

int main(int argc,char** argv){
  cl::ParseCommandLineOptions(argc,argv);
  LLVMContext C; SMDiagnostic E;
  auto M=parseIRFile(Input,E,C);
  if(!M){ E.print(argv[0],errs()); return 3; }
  // constructors emitted as aliases of their base-object variant: calls go to the definition
  for(auto& A:M->aliases()) if(auto* f=dyn_cast<Function>(A.getAliasee()->stripPointerCasts())) A.replaceAllUsesWith(f);
  for(auto& r:Roots) rootRX.add(r);
  for(auto& r:NoInline) noRX.add(r);
  for(auto& r:ForceInline) yesRX.add(r);
  for(auto& f:NoInlineFile){ std::ifstream is(f); std::string l; while(std::getline(is,l)){ if(l.empty()||l[0]=='#') continue; noRX.add(l);} }
  std::error_code EC; raw_fd_ostream OS(Output,EC);
  json::OStream J(OS);
  if(ListOnly){
    J.array([&]{ for(auto& F:*M){ if(F.isIntrinsic()) continue; J.object([&]{ J.attribute("name",F.getName()); J.attribute("dem",dem(F.getName())); J.attribute("decl",F.isDeclaration());
      if(auto* sp=F.getSubprogram()){ J.attribute("file",sp->getFilename()); J.attribute("line",(int64_t)sp->getLine()); } 
      J.attributeArray("calls",[&]{ std::set<std::string> s; for(auto& b:F) for(auto& i:b) if(auto* c=dyn_cast<CallBase>(&i)) if(auto* cf=c->getCalledFunction()) if(!cf->isIntrinsic()) s.insert(cf->getName().str()); for(auto& x:s) J.value(x); });
      }); } });
    return 0;
  }
  // drop debug/lifetime intrinsics and optnone
  for(auto& F:*M){
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::MinSize);
    for(auto& b:F) if(auto* t=b.getTerminator()) t->setMetadata(LLVMContext::MD_loop,nullptr);
    for(auto& b:F) for(auto it=b.begin();it!=b.end();){ Instruction& I=*it++; 
      if(auto* ii=dyn_cast<IntrinsicInst>(&I)) if(isa<DbgInfoIntrinsic>(ii)||ii->isLifetimeStartOrEnd()||ii->getIntrinsicID()==Intrinsic::experimental_noalias_scope_decl) ii->eraseFromParent(); }
  }
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  auto mk=[&](const std::string& s){ FunctionPassManager FPM; if(auto e=PB.parsePassPipeline(FPM,s)){ errs()<<toString(std::move(e))<<" in "<<s<<"\n"; exit(3);} return FPM; };
  FunctionPassManager pre=mk("sroa,early-cse,simplifycfg");
  FunctionPassManager mid=mk(Passes);
  FunctionPassManager fin=mk(FinalPasses);
  auto run=[&](FunctionPassManager& P,Function& F){ FAM.invalidate(F,PreservedAnalyses::none()); P.run(F,FAM); FAM.invalidate(F,PreservedAnalyses::none()); };
  std::vector<Function*> roots;
  for(auto& F:*M) if(!F.isDeclaration() && rootRX.match(dem(F.getName()))) roots.push_back(&F);
  // prepare callees lazily
  std::set<Function*> prepped;
  auto prep=[&](Function* f){ if(prepped.insert(f).second) run(pre,*f); };
  J.objectBegin();
  J.attributeArray("functions",[&]{
    for(size_t ri=0;ri<roots.size();ri++){
      Function* R0=roots[ri];
      // work on a clone so that other roots inline the pristine body
      ValueToValueMapTy VM;
      Function* R=CloneFunction(R0,VM);
      run(pre,*R);
      std::vector<std::pair<Function*,int>> hist; // inline history
      std::map<CallBase*,int> hid;
      bool trunc=false;
      // history must survive passes: store via metadata id
      unsigned K=C.getMDKindID("nsq.hist");
      auto getH=[&](CallBase* c)->int{ if(auto* n=c->getMetadata(K)) return (int)mdconst::extract<ConstantInt>(n->getOperand(0))->getZExtValue(); return -1; };
      auto setH=[&](CallBase* c,int h){ c->setMetadata(K,MDNode::get(C,ConstantAsMetadata::get(ConstantInt::get(Type::getInt32Ty(C),h)))); };
      for(int r=0;r<Rounds;r++){
        std::vector<CallBase*> work;
        for(auto& b:*R) for(auto& i:b) if(auto* c=dyn_cast<CallBase>(&i)){
          Function* cf=c->getCalledFunction();
          if(cf && cf!=R && mayInline(cf) && !cf->isIntrinsic()) work.push_back(c);
        }
        bool any=false;
        for(auto* c:work){
          Function* cf=c->getCalledFunction();
          int h=getH(c),cnt=0;
          if(cf==R0) cnt++;
          for(int x=h;x>=0;x=hist[x].second) if(hist[x].first==cf) cnt++;
          if(cnt>=RecDepth+0 && cnt>0){ continue; }
          if((int)R->getInstructionCount()>MaxInsts){ trunc=true; break; }
          prep(cf);
          InlineFunctionInfo IFI;
          auto res=InlineFunction(*c,IFI,/*MergeAttributes=*/true);
          if(!res.isSuccess()) continue;
          any=true;
          hist.push_back({cf,h}); int nh=hist.size()-1;
          for(auto* ic:IFI.InlinedCallSites) setH(ic,nh);
        }
        if(!any) break;
        // remove lifetime markers introduced by inlining
        for(auto& b:*R) for(auto it=b.begin();it!=b.end();){ Instruction& I=*it++; if(auto* ii=dyn_cast<IntrinsicInst>(&I)) if(ii->isLifetimeStartOrEnd()||isa<DbgInfoIntrinsic>(ii)||ii->getIntrinsicID()==Intrinsic::experimental_noalias_scope_decl) ii->eraseFromParent(); }
        run(mid,*R);
      }
      run(mid,*R);
      run(fin,*R);
      if(KeepRec) for(auto& b:*R) for(auto& i:b) if(auto* c=dyn_cast<CallBase>(&i)){
        Function* cf=c->getCalledFunction();
        if(cf && selfRec(cf) && std::find(roots.begin(),roots.end(),cf)==roots.end()) roots.push_back(cf);
      }
      std::string err; raw_string_ostream es(err);
      if(verifyFunction(*R,&es)){ errs()<<"verify failed for "<<dem(R0->getName())<<": "<<es.str()<<"\n"; exit(3); }
      std::string nm=R0->getName().str();
      R->setName(nm+".nsqx");
      if(!DumpIR.empty()){ std::error_code e2; raw_fd_ostream o2(DumpIR,e2,sys::fs::CreationDisposition::CD_OpenAlways,sys::fs::FileAccess::FA_Write,sys::fs::OF_Append); R->print(o2); }
      // export under the original name
      Exp X(J);
      R0->setName(nm+".orig"); R->setName(nm);
      X.func(*R);
      R->setName(nm+".nsqx"); R0->setName(nm);
    }
  });
  // global constants used by exported functions: string and numeric initialisers
  J.attributeObject("globals",[&]{
    for(auto& G:M->globals()) if(G.hasInitializer()){
      J.attributeObject(G.getName(),[&]{
        J.attribute("const",G.isConstant());
        J.attribute("dem",dem(G.getName()));
        if(auto* cd=dyn_cast<ConstantDataArray>(G.getInitializer())){
          if(cd->isString()||cd->getElementType()->isIntegerTy(8)){ std::string s=cd->getRawDataValues().str(); if(!s.empty()&&s.back()==0) s.pop_back(); bool ok=json::isUTF8(s); J.attribute("str",ok?s:std::string("<bin>")); }
        }
        Exp X(J); X.DL=&M->getDataLayout();
        if(G.isConstant()||G.getInitializer()->getType()->isDoubleTy()) { J.attributeBegin("init"); X.val(G.getInitializer()); J.attributeEnd(); J.attribute("ity",X.ty(G.getInitializer()->getType())); }
      });
    }
  });
  if(Layouts) layouts(*M,J);
  J.objectEnd();
  return 0;
}
