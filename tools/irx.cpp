// irx: loads LLVM bitcode compiled from /repo's headers, rewrites it as asked
// (opaque / redirect / bind), runs a pass pipeline and dumps the residual SSA
// as JSON.  Nothing is executed: this is a compiler front-end plus a printer.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <regex>
#include <map>
#include <set>
#include <fstream>

using namespace llvm;
static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::list<std::string> Opaque("opaque", cl::desc("delete bodies: regex on demangled name"));
static cl::list<std::string> NoInline("noinline-re", cl::desc("keep as call (body kept): regex on demangled name"));
static cl::list<std::string> Redirect("redirect", cl::desc("REGEX=>SYMBOL"));
static cl::list<std::string> Bind("bind", cl::desc("SYM=INT : calls of SYM() become the constant"));
static cl::opt<std::string> Spec("spec", cl::desc("SYM=K1,K2,... : one dump per value"));
static cl::list<std::string> Entry("entry", cl::desc("regex on demangled/mangled name: function kept external"));
static cl::list<std::string> Dump("dump", cl::desc("regex: functions to print (default: entries)"));
static cl::list<std::string> Layout("layout", cl::desc("regex: DI composite type layouts to print"));
static cl::opt<std::string> Pipe("pipe", cl::init(""), cl::desc("pass pipeline"));
static cl::opt<bool> Unroll("unroll",cl::desc("fully unroll loops with a constant trip count"));
static cl::opt<bool> KeepInvoke("keep-invoke", cl::init(false));
static cl::opt<bool> NoInternalize("no-internalize", cl::init(false));
static cl::opt<bool> DumpAll("dump-all", cl::init(false));
static cl::opt<bool> Globals("globals", cl::init(false));
static cl::opt<bool> Names("names", cl::init(false), cl::desc("only list function names"));
static cl::opt<std::string> Out("out", cl::init("-"));

static std::map<std::string,std::string> demc;
static const std::string& dem(StringRef n){
  auto s=n.str(); auto it=demc.find(s); if(it!=demc.end()) return it->second;
  return demc[s]=demangle(s);
}
// qualified name without return type and parameters
static std::map<std::string,std::string> qnc;
static const std::string& qn(StringRef n){
  auto s=n.str(); auto it=qnc.find(s); if(it!=qnc.end()) return it->second;
  ItaniumPartialDemangler D; std::string r=s;
  if(!D.partialDemangle(s.c_str()) && D.isFunction()){ size_t N=0; char* b=D.getFunctionName(nullptr,&N); if(b){ r=b; free(b);} }
  return qnc[s]=r;
}
static bool matchAny(const std::vector<std::regex>& v, const std::string& m, const std::string& d){
  for(auto& r: v) if(std::regex_search(m,r)||std::regex_search(d,r)) return true; return false;
}
static std::vector<std::regex> comp(const cl::list<std::string>& l){
  std::vector<std::regex> v; for(auto& s: l) v.emplace_back(s, std::regex::ECMAScript|std::regex::optimize); return v;
}

static void lowerInvokes(Module& M){
  for(auto& F: M) for(auto& B: F) if(auto* II=dyn_cast<InvokeInst>(B.getTerminator())){
    SmallVector<Value*,8> args(II->args());
    SmallVector<OperandBundleDef,1> ob; II->getOperandBundlesAsDefs(ob);
    CallInst* C=CallInst::Create(II->getFunctionType(), II->getCalledOperand(), args, ob, "", II);
    C->setCallingConv(II->getCallingConv()); C->setAttributes(II->getAttributes());
    C->setDebugLoc(II->getDebugLoc()); C->copyMetadata(*II);
    II->replaceAllUsesWith(C);
    BranchInst* BI=BranchInst::Create(II->getNormalDest(), II); BI->setDebugLoc(II->getDebugLoc());
    II->getUnwindDest()->removePredecessor(&B);
    II->eraseFromParent();
  }
  for(auto& F: M) if(!F.isDeclaration()) removeUnreachableBlocks(F);
}

struct Printer {
  json::OStream& J; Module& M; const DataLayout& DL;
  std::map<const Value*,int> id; std::map<const BasicBlock*,int> bid;
  Printer(json::OStream& j, Module& m):J(j),M(m),DL(m.getDataLayout()){}
  static std::string ty(Type* t){ std::string s; raw_string_ostream o(s); t->print(o,false,true); return o.str(); }
  std::string constStr(const Constant* c){
    if(auto* ci=dyn_cast<ConstantInt>(c)){ SmallString<32> s; ci->getValue().toStringSigned(s); return "c"+s.str().str(); }
    if(isa<ConstantPointerNull>(c)) return "null";
    if(isa<PoisonValue>(c)||isa<UndefValue>(c)) return "undef";
    if(auto* cf=dyn_cast<ConstantFP>(c)){ SmallString<32> s; cf->getValueAPF().toString(s); return "f"+s.str().str(); }
    if(auto* f=dyn_cast<Function>(c)) return "F:"+f->getName().str();
    if(auto* g=dyn_cast<GlobalValue>(c)) return "g:"+g->getName().str();
    if(isa<ConstantAggregateZero>(c)) return "zero";
    if(auto* ce=dyn_cast<ConstantExpr>(c)){
      if(auto* gep=dyn_cast<GEPOperator>(ce)){
        APInt off(DL.getIndexTypeSizeInBits(gep->getType()),0);
        if(gep->accumulateConstantOffset(DL,off)){
          SmallString<32> s; off.toStringSigned(s);
          return "G:"+std::string(s.str())+":"+constStr(cast<Constant>(gep->getPointerOperand()));
        }
      }
      if(ce->isCast()) return "C:"+std::string(ce->getOpcodeName())+":"+constStr(ce->getOperand(0));
    }
    return "k:"+ty(c->getType());
  }
  std::string opnd(const Value* v){
    if(auto* c=dyn_cast<Constant>(v)) return constStr(c);
    if(auto* a=dyn_cast<Argument>(v)) return "a"+std::to_string(a->getArgNo());
    if(auto* b=dyn_cast<BasicBlock>(v)) return "b"+std::to_string(bid[b]);
    auto it=id.find(v); if(it!=id.end()) return "%"+std::to_string(it->second);
    if(isa<MetadataAsValue>(v)) return "md";
    if(isa<InlineAsm>(v)) return "asm";
    return "?";
  }
  void loc(const Instruction& I){
    const DILocation* L=I.getDebugLoc().get();
    if(!L) return;
    J.attributeBegin("l"); J.arrayBegin();
    for(; L; L=L->getInlinedAt()){
      auto* sp=L->getScope()->getSubprogram();
      std::string nm = sp ? sp->getName().str():"";
      J.value(L->getFilename().str()+":"+std::to_string(L->getLine())+":"+nm);
    }
    J.arrayEnd(); J.attributeEnd();
  }
  void instr(const Instruction& I){
    if(isa<DbgInfoIntrinsic>(I)) return;
    if(auto* ii=dyn_cast<IntrinsicInst>(&I)){
      auto k=ii->getIntrinsicID();
      if(k==Intrinsic::lifetime_start||k==Intrinsic::lifetime_end||k==Intrinsic::experimental_noalias_scope_decl||k==Intrinsic::assume) return;
    }
    J.object([&]{
      J.attribute("i", id[&I]);
      if(auto *pd = dyn_cast<PossiblyDisjointInst>(&I); pd && pd->isDisjoint() && !I.getType()->isIntegerTy(1)) J.attribute("op", "add"); else J.attribute("op", I.getOpcodeName());
      if(!I.getType()->isVoidTy()) J.attribute("t", ty(I.getType()));
      if(auto* S=dyn_cast<StoreInst>(&I)) J.attribute("st", ty(S->getValueOperand()->getType()));
      if(auto* g=dyn_cast<GetElementPtrInst>(&I)){
        auto* gep=cast<GEPOperator>(g);
        MapVector<Value*,APInt> vo; unsigned bw=DL.getIndexTypeSizeInBits(g->getType()); APInt co(bw,0);
        J.attribute("src", ty(g->getSourceElementType()));
        if(gep->collectOffset(DL,bw,vo,co)){
          J.attribute("base",opnd(g->getPointerOperand()));
          J.attribute("off",co.getSExtValue());
          J.attributeArray("idx",[&]{ for(auto& p: vo) J.array([&]{J.value(opnd(p.first)); J.value(p.second.getSExtValue());}); });
        }
      } else if(auto* cb=dyn_cast<CallBase>(&I)){
        const Value* cv=cb->getCalledOperand()->stripPointerCasts();
        if(auto* f=dyn_cast<Function>(cv)) J.attribute("fn", f->getName());
        else J.attribute("fv", opnd(cb->getCalledOperand()));
        J.attributeArray("o",[&]{ for(auto& a: cb->args()) J.value(opnd(a.get())); });
        for(unsigned a=0;a<cb->arg_size();a++) if(cb->paramHasAttr(a,Attribute::StructRet)) J.attribute("sret",a);
        if(cb->doesNotAccessMemory()) J.attribute("pure",true);
      } else if(auto* p=dyn_cast<PHINode>(&I)){
        J.attributeArray("o",[&]{ for(unsigned k=0;k<p->getNumIncomingValues();k++){ J.array([&]{J.value(opnd(p->getIncomingValue(k))); J.value(opnd(p->getIncomingBlock(k)));}); } });
      } else if(auto* c=dyn_cast<CmpInst>(&I)){
        J.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
        J.attributeArray("o",[&]{ for(auto& o: I.operands()) J.value(opnd(o.get())); });
      } else if(auto* s=dyn_cast<SwitchInst>(&I)){
        J.attributeArray("o",[&]{ J.value(opnd(s->getCondition())); });
        J.attribute("dflt", opnd(s->getDefaultDest()));
        J.attributeArray("cases",[&]{ for(auto& c: s->cases()) J.array([&]{ J.value(c.getCaseValue()->getSExtValue()); J.value(opnd(c.getCaseSuccessor())); }); });
      } else {
        if(auto* a=dyn_cast<AllocaInst>(&I)) J.attribute("at", ty(a->getAllocatedType()));
        if(auto* ev=dyn_cast<ExtractValueInst>(&I)) J.attributeArray("ix",[&]{for(unsigned x: ev->indices()) J.value(x);});
        if(auto* ev=dyn_cast<InsertValueInst>(&I)) J.attributeArray("ix",[&]{for(unsigned x: ev->indices()) J.value(x);});
        J.attributeArray("o",[&]{
          if(auto* br=dyn_cast<BranchInst>(&I)){
            if(br->isConditional()) J.value(opnd(br->getCondition()));
            for(unsigned k=0;k<br->getNumSuccessors();k++) J.value(opnd(br->getSuccessor(k)));
          } else for(auto& o: I.operands()) J.value(opnd(o.get())); });
        if(auto* st=dyn_cast<StoreInst>(&I)) J.attribute("vt", ty(st->getValueOperand()->getType()));
      }
      loc(I);
    });
  }
  void function(Function& F){
    id.clear(); bid.clear(); int n=0,b=0;
    for(auto& B: F){ bid[&B]=b++; for(auto& I: B) id[&I]=n++; }
    J.attributeBegin(F.getName()); J.objectBegin();
    J.attribute("dem", dem(F.getName())); J.attribute("qn", qn(F.getName()));
    if(auto* sp=F.getSubprogram()){ J.attribute("file", sp->getFilename()); J.attribute("line",(int64_t)sp->getLine()); }
    J.attributeArray("args",[&]{ for(auto& a: F.args()) J.object([&]{ J.attribute("t",ty(a.getType())); J.attribute("n",a.getName()); if(a.hasStructRetAttr()) J.attribute("sret",true);}); });
    J.attribute("ret", ty(F.getReturnType()));
    J.attributeArray("blocks",[&]{ for(auto& B: F) J.array([&]{ for(auto& I: B) instr(I); }); });
    J.objectEnd(); J.attributeEnd();
  }
};

static void bindSym(Module& M, const std::string& sym, int64_t k){
  bool any=false;
  for(auto& F: M){ if(F.getName()!=sym && dem(F.getName()).rfind(sym+"(",0)!=0) continue; any=true;
    SmallVector<CallBase*,16> calls; for(auto* U: F.users()) if(auto* c=dyn_cast<CallBase>(U)) calls.push_back(c);
    for(auto* c: calls){ c->replaceAllUsesWith(ConstantInt::getSigned(c->getType(), k)); if(!c->isTerminator()) c->eraseFromParent(); } }
  if(!any) { errs()<<"irx: bind: no symbol "<<sym<<"\n"; exit(3);} 
}
static void optimise(Module& M, const std::string& pipe){
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
  ModulePassManager MPM;
  if(auto e=PB.parsePassPipeline(MPM,pipe)){ errs()<<"irx: bad pipeline: "<<toString(std::move(e))<<"\n"; exit(3);} 
  MPM.run(M,MAM);
}
static std::string normPipe(){
  if(!Pipe.empty()) return Pipe;
  std::string f="sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,sccp,simplifycfg,gvn<no-pre;no-load-pre>,adce,simplifycfg";
  return "globaldce,always-inline,function(sroa,early-cse,simplifycfg,sccp,simplifycfg),globaldce,cgscc(inline),function("+f+"),ipsccp,cgscc(inline),function("+f+","+f+"),globaldce,cgscc(inline),function("+f+"),deadargelim?";
}

static void dumpModule(json::OStream& J, Module& M, const std::vector<std::regex>& ent, const std::vector<std::regex>& dmp){
  J.objectBegin();
  J.attributeObject("functions",[&]{
    Printer P(J,M);
    for(auto& F: M) if(!F.isDeclaration()){
      auto& d=qn(F.getName()); auto m=F.getName().str();
      bool want = DumpAll || (dmp.empty()? matchAny(ent,m,d) : matchAny(dmp,m,d));
      if(want) P.function(F);
    }
  });
  J.attributeObject("names",[&]{ for(auto& F: M) { if(F.isIntrinsic()) continue; J.attributeBegin(F.getName()); J.array([&]{ J.value(dem(F.getName())); J.value(F.isDeclaration()?0:1); J.value(qn(F.getName()));}); J.attributeEnd(); } });
  if(Globals){
    J.attributeObject("globals",[&]{
      Printer P(J,M);
      for(auto& G: M.globals()){
        J.attributeBegin(G.getName()); J.object([&]{
          J.attribute("dem", dem(G.getName()));
          J.attribute("t", Printer::ty(G.getValueType()));
          J.attribute("const", G.isConstant());
          J.attribute("decl", G.isDeclaration());
          J.attribute("tls", G.isThreadLocal());
          SmallVector<DIGlobalVariableExpression*,1> gv; G.getDebugInfo(gv);
          for(auto* e: gv){ auto* v=e->getVariable(); J.attribute("file", v->getFilename().str()); J.attribute("line",(int64_t)v->getLine()); J.attribute("name", v->getName());
             if(auto* sc=v->getScope()) { J.attribute("scope", sc->getName()); }
             break; }
          if(G.hasInitializer() && G.isConstant()){
            auto* I=G.getInitializer();
            if(auto* cda=dyn_cast<ConstantDataArray>(I)){
              if(cda->isString()) J.attribute("str", json::fixUTF8(cda->getAsString()));
              else if(cda->getElementType()->isIntegerTy()) J.attributeArray("ints",[&]{ for(unsigned k=0;k<cda->getNumElements();k++) J.value((int64_t)cda->getElementAsInteger(k)); });
            } else if(I->getNumOperands()){
              J.attributeArray("elts",[&]{ std::function<void(Constant*)> rec=[&](Constant* c){ if(isa<ConstantStruct>(c)||isa<ConstantArray>(c)){ J.array([&]{ for(auto& o: c->operands()) rec(cast<Constant>(o.get())); }); } else J.value(P.constStr(c)); }; for(auto& o: I->operands()) rec(cast<Constant>(o.get())); });
            }
          }
        }); J.attributeEnd();
      }
    });
  }
  J.objectEnd();
}

static void dumpLayouts(json::OStream& J, Module& M){
  auto re=comp(Layout); DebugInfoFinder fi; fi.processModule(M);
  J.attributeObject("layouts",[&]{
    std::set<std::string> seen;
    for(auto* T: fi.types()) if(auto* C=dyn_cast<DICompositeType>(T)){
      if(C->getTag()!=dwarf::DW_TAG_structure_type && C->getTag()!=dwarf::DW_TAG_class_type && C->getTag()!=dwarf::DW_TAG_enumeration_type) continue;
      std::string q; for(DIScope* s=C->getScope(); s; s=s->getScope()) if(!s->getName().empty() && !isa<DIFile>(s)&&!isa<DICompileUnit>(s)) q=s->getName().str()+"::"+q;
      q+=C->getName().str();
      bool ok=false; for(auto& r: re) if(std::regex_search(q,r)) ok=true;
      if(!ok||C->isForwardDecl()||!seen.insert(q).second) continue;
      J.attributeBegin(q); J.object([&]{
        J.attribute("size",(int64_t)C->getSizeInBits()/8);
        J.attribute("kind", C->getTag()==dwarf::DW_TAG_enumeration_type?"enum":"class");
        J.attributeArray("members",[&]{
          for(auto* e: C->getElements()){
            if(auto* en=dyn_cast<DIEnumerator>(e)) J.array([&]{ J.value(en->getName()); J.value(en->getValue().getSExtValue()); });
            else if(auto* d=dyn_cast<DIDerivedType>(e)){
              if(d->isStaticMember()) continue;
              if(d->getTag()!=dwarf::DW_TAG_member && d->getTag()!=dwarf::DW_TAG_inheritance) continue;
              J.array([&]{ J.value(d->getTag()==dwarf::DW_TAG_inheritance?"<base>":d->getName()); J.value((int64_t)d->getOffsetInBits()/8); J.value((int64_t)d->getSizeInBits()/8); 
                 std::string tn; if(auto* bt=d->getBaseType()) tn=bt->getName().str(); J.value(tn);});
            }
          }
        });
      }); J.attributeEnd();
    }
  });
}

int main(int argc, char** argv){
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext C; SMDiagnostic err; std::unique_ptr<Module> M;
  for(auto& in: Inputs){
    auto m=parseIRFile(in,err,C); if(!m){ err.print("irx",errs()); return 3; }
    if(!M) M=std::move(m); else if(Linker::linkModules(*M,std::move(m))) return 3;
  }
  std::error_code ec; raw_fd_ostream os(Out,ec); if(ec){ errs()<<ec.message(); return 3; }
  json::OStream J(os);
  if(Names){ J.object([&]{ for(auto& F:*M) if(!F.isIntrinsic()){ J.attributeBegin(F.getName()); J.array([&]{J.value(dem(F.getName())); J.value(F.isDeclaration()?0:1); J.value(qn(F.getName()));}); J.attributeEnd(); } }); return 0; }
  auto ent=comp(Entry), opq=comp(Opaque), noi=comp(NoInline), dmp=comp(Dump);
  // redirect
  for(auto& r: Redirect){
    auto p=r.find("=>"); std::regex re(r.substr(0,p)); std::string sym=r.substr(p+2);
    Function* T=nullptr; for(auto& F:*M) if(F.getName()==sym || dem(F.getName()).rfind(sym+"(",0)==0) T=&F;
    if(!T){ errs()<<"irx: redirect: no target "<<sym<<"\n"; return 3; }
    int n=0;
    for(auto& F: *M) if(&F!=T && !F.isIntrinsic() && std::regex_search(r.find('(')<p&&r.find("\\(")<p?dem(F.getName()):qn(F.getName()),re)){ F.replaceAllUsesWith(T); n++; }
    if(!n){ errs()<<"irx: redirect: nothing matches "<<r<<"\n"; return 3; }
  }
  for(auto& F: *M) if(!F.isDeclaration()){
    auto& d=qn(F.getName()); auto m=F.getName().str();
    if(matchAny(opq,m,d) && !matchAny(ent,m,d)) { F.deleteBody(); F.setComdat(nullptr); }
  }
  for(auto& b: Bind){ auto p=b.rfind('='); bindSym(*M,b.substr(0,p),std::stoll(b.substr(p+1))); }
  if(!KeepInvoke) lowerInvokes(*M);
  if(!NoInternalize) for(auto& F: *M) if(!F.isDeclaration()){
    auto& d=qn(F.getName()); auto m=F.getName().str();
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline);
    if(matchAny(ent,m,d)) { F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr); F.addFnAttr(Attribute::NoInline);}
    else { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); if(matchAny(noi,m,d)) F.addFnAttr(Attribute::NoInline); }
  }
  if(auto* used=M->getGlobalVariable("llvm.used")) used->eraseFromParent();
  if(auto* used=M->getGlobalVariable("llvm.compiler.used")) used->eraseFromParent();
  std::string pipe=Pipe.empty()? std::string(
    "globaldce,function(sroa,early-cse,simplifycfg,sccp,simplifycfg),globaldce,"
    "always-inline,cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,sccp,simplifycfg,gvn<no-pre;no-load-pre>,adce,simplifycfg),"
    "ipsccp,cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,sccp,jump-threading,simplifycfg,gvn<no-pre;no-load-pre>,adce,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),globaldce,"
    "cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,gvn<no-pre;no-load-pre>,adce,simplifycfg)")
    : (Pipe=="none"? std::string("globaldce"): std::string(Pipe));
  if(Unroll) pipe+=",function(loop-simplify,lcssa,loop(loop-unroll-full),sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,sccp,simplifycfg,gvn<no-pre;no-load-pre>,adce,simplifycfg)";
  J.objectBegin();
  if(!Layout.empty()) dumpLayouts(J,*M);
  if(Spec.empty()){ optimise(*M,pipe); if(verifyModule(*M,&errs())) return 3; J.attributeBegin("module"); dumpModule(J,*M,ent,dmp); J.attributeEnd(); }
  else {
    auto p=Spec.find('='); std::string sym=Spec.substr(0,p); std::stringstream ss(Spec.substr(p+1)); std::string k;
    J.attributeObject("spec",[&]{
      while(std::getline(ss,k,',')){
        auto N=CloneModule(*M); bindSym(*N,sym,std::stoll(k)); optimise(*N,pipe); if(verifyModule(*N,&errs())) exit(3);
        J.attributeBegin(k); dumpModule(J,*N,ent,dmp); J.attributeEnd();
      }
    });
  }
  J.objectEnd();
  return 0;
}
