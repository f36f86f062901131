// Dumps an LLVM bitcode/IR module as JSON for the deductive verifier.
// Nothing is interpreted here: every instruction of every defined function is
// emitted with its operands; address computations are resolved with the
// module's own data layout.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/MapVector.h>
#include <map>
#include <cstring>
using namespace llvm;
static const DataLayout *DL;
static std::string hexd(uint64_t b){ char t[32]; snprintf(t,32,"%016llx",(unsigned long long)b); return t; }

static json::Value tyj(Type *T){
  if(T->isVoidTy()) return "void";
  if(T->isIntegerTy()) return "i"+std::to_string(T->getIntegerBitWidth());
  if(T->isDoubleTy()) return "double";
  if(T->isFloatTy()) return "float";
  if(T->isX86_FP80Ty()) return "x86_fp80";
  if(T->isPointerTy()) return "ptr";
  if(T->isStructTy()){
    auto *S=cast<StructType>(T); json::Array a; a.push_back("struct");
    if(!S->isSized()) { return json::Array{"opaque"}; }
    a.push_back((int64_t)DL->getTypeAllocSize(S));
    auto *L=DL->getStructLayout(S);
    json::Array el;
    for(unsigned i=0;i<S->getNumElements();++i)
      el.push_back(json::Array{(int64_t)L->getElementOffset(i), tyj(S->getElementType(i))});
    a.push_back(std::move(el)); return std::move(a);
  }
  if(T->isArrayTy()){
    return json::Array{"array",(int64_t)T->getArrayNumElements(),tyj(T->getArrayElementType()),(int64_t)DL->getTypeAllocSize(T->getArrayElementType())};
  }
  if(T->isVectorTy()) return "vector";
  if(T->isLabelTy()) return "label";
  if(T->isMetadataTy()) return "metadata";
  return "other";
}
static std::map<const Value*,int> ids; static int nid=0;
static int vid(const Value*v){ auto it=ids.find(v); if(it!=ids.end()) return it->second; return ids[v]=nid++; }

static json::Value opj(const Value *V);
static json::Value constj(const Constant *C){
  if(auto *ci=dyn_cast<ConstantInt>(C)){
    SmallString<40> s; ci->getValue().toString(s,10,false);
    return json::Array{"i",std::string(s),(int64_t)ci->getBitWidth()};
  }
  if(auto *cf=dyn_cast<ConstantFP>(C)){
    if(cf->getType()->isDoubleTy()) return json::Array{"f",hexd(cf->getValueAPF().bitcastToAPInt().getZExtValue())};
    if(cf->getType()->isFloatTy()){ bool li; APFloat f=cf->getValueAPF(); f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li);
      return json::Array{"f",hexd(f.bitcastToAPInt().getZExtValue())}; }
    return json::Array{"other"};
  }
  if(isa<ConstantPointerNull>(C)) return json::Array{"n"};
  if(isa<UndefValue>(C)) return json::Array{"u"};
  if(auto *F=dyn_cast<Function>(C)) return json::Array{"g",F->getName().str(),0};
  if(auto *GA=dyn_cast<GlobalAlias>(C)) return opj(GA->getAliasee());
  if(auto *G=dyn_cast<GlobalValue>(C)) return json::Array{"g",G->getName().str(),0};
  if(isa<ConstantAggregateZero>(C)) return json::Array{"z",tyj(C->getType())};
  if(auto *CE=dyn_cast<ConstantExpr>(C)){
    APInt off(64,0);
    const Value *b=CE->stripAndAccumulateConstantOffsets(*DL,off,true);
    if(b!=CE){
      auto bj=opj(b);
      if(auto *arr=bj.getAsArray()) if(!arr->empty() && (*arr)[0].getAsString() && *(*arr)[0].getAsString()=="g"){
        int64_t o=*(*arr)[2].getAsInteger();
        return json::Array{"g",(*arr)[1].getAsString()->str(),o+off.getSExtValue()};
      }
    }
    if(CE->getOpcode()==Instruction::PtrToInt||CE->getOpcode()==Instruction::IntToPtr) return json::Array{"cast",opj(CE->getOperand(0))};
    std::string s; raw_string_ostream os(s); CE->print(os); return json::Array{"other",os.str()};
  }
  if(auto *CDA=dyn_cast<ConstantDataSequential>(C)){
    if(CDA->isString() || CDA->isCString()) { 
      std::string raw=CDA->getRawDataValues().str(); json::Array b; for(unsigned char c:raw) b.push_back((int)c);
      return json::Array{"str",std::move(b)}; }
    json::Array a; 
    if(CDA->getNumElements()<=256) for(unsigned i=0;i<CDA->getNumElements();++i) a.push_back(constj(CDA->getElementAsConstant(i)));
    else return json::Array{"bigtable",(int64_t)CDA->getNumElements()};
    return json::Array{"agg",std::move(a),tyj(C->getType())};
  }
  if(isa<ConstantArray>(C)||isa<ConstantStruct>(C)){
    unsigned n=C->getNumOperands();
    if(n>256) return json::Array{"bigtable",(int64_t)n};
    json::Array a; for(unsigned i=0;i<n;++i) a.push_back(constj(cast<Constant>(C->getOperand(i))));
    return json::Array{"agg",std::move(a),tyj(C->getType())};
  }
  return json::Array{"other"};
}
static json::Value opj(const Value *V){
  if(auto *C=dyn_cast<Constant>(V)) return constj(C);
  if(isa<MetadataAsValue>(V)) return json::Array{"m"};
  return json::Array{"r",vid(V)};
}
static void emitInst(json::OStream &J,const Instruction &I){
  J.object([&]{
    J.attribute("op", std::string(I.getOpcodeName()));
    if(!I.getType()->isVoidTy()){ J.attribute("id",vid(&I)); }
    J.attribute("ty",tyj(I.getType()));
    if(auto &DLc=I.getDebugLoc()){ J.attribute("line",(int64_t)DLc.getLine());
      if(auto*sc=dyn_cast_or_null<DIScope>(DLc.getScope())) { (void)sc; } }
    json::Array ops;
    switch(I.getOpcode()){
    case Instruction::Alloca: { auto &A=cast<AllocaInst>(I);
      J.attribute("aty",tyj(A.getAllocatedType())); J.attribute("size",(int64_t)DL->getTypeAllocSize(A.getAllocatedType()));
      J.attribute("n",opj(A.getArraySize())); J.attribute("name",A.getName().str()); break; }
    case Instruction::GetElementPtr: { auto &G=cast<GEPOperator>(I);
      unsigned bw=64; MapVector<Value*,APInt> vo; APInt co(bw,0);
      if(G.collectOffset(*DL,bw,vo,co)){
        J.attribute("const",co.getSExtValue());
        json::Array v; for(auto &p:vo) v.push_back(json::Array{opj(p.first),p.second.getSExtValue()});
        J.attribute("var",std::move(v));
      } else J.attribute("bad",true);
      J.attribute("sty",(int64_t)(G.getSourceElementType()->isSized()?(int64_t)DL->getTypeAllocSize(G.getSourceElementType()):0));
      J.attribute("inbounds",G.isInBounds());
      ops.push_back(opj(G.getPointerOperand())); break; }
    case Instruction::ICmp: case Instruction::FCmp:
      J.attribute("pred",CmpInst::getPredicateName(cast<CmpInst>(I).getPredicate()).str());
      J.attribute("opty",tyj(I.getOperand(0)->getType()));
      for(auto &o:I.operands()) ops.push_back(opj(o)); break;
    case Instruction::PHI: { auto &P=cast<PHINode>(I); json::Array in;
      for(unsigned i=0;i<P.getNumIncomingValues();++i) in.push_back(json::Array{opj(P.getIncomingValue(i)),vid(P.getIncomingBlock(i))});
      J.attribute("in",std::move(in)); break; }
    case Instruction::Br: { auto &B=cast<BranchInst>(I); json::Array s; for(unsigned i=0;i<B.getNumSuccessors();++i) s.push_back(vid(B.getSuccessor(i)));
      J.attribute("succ",std::move(s)); if(B.isConditional()) ops.push_back(opj(B.getCondition())); break; }
    case Instruction::Switch: { auto &S=cast<SwitchInst>(I); json::Array c; for(auto &k:S.cases()) c.push_back(json::Array{constj(k.getCaseValue()),vid(k.getCaseSuccessor())});
      J.attribute("cases",std::move(c)); J.attribute("default",vid(S.getDefaultDest())); ops.push_back(opj(S.getCondition())); break; }
    case Instruction::Call: case Instruction::Invoke: { auto &C=cast<CallBase>(I);
      J.attribute("callee",opj(C.getCalledOperand()));
      for(auto &a:C.args()) ops.push_back(opj(a));
      json::Array bv; for(unsigned i=0;i<C.arg_size();++i) if(C.isByValArgument(i)) bv.push_back(json::Array{(int)i,(int64_t)DL->getTypeAllocSize(C.getParamByValType(i))});
      J.attribute("byval",std::move(bv));
      json::Array at; for(unsigned i=0;i<C.arg_size();++i) at.push_back(tyj(C.getArgOperand(i)->getType()));
      J.attribute("argty",std::move(at));
      if(auto *Iv=dyn_cast<InvokeInst>(&I)){ J.attribute("normal",vid(Iv->getNormalDest())); J.attribute("unwind",vid(Iv->getUnwindDest())); }
      break; }
    case Instruction::ExtractValue: { json::Array ix; for(auto i:cast<ExtractValueInst>(I).indices()) ix.push_back((int64_t)i); J.attribute("ix",std::move(ix)); ops.push_back(opj(I.getOperand(0))); break; }
    case Instruction::InsertValue: { json::Array ix; for(auto i:cast<InsertValueInst>(I).indices()) ix.push_back((int64_t)i); J.attribute("ix",std::move(ix)); ops.push_back(opj(I.getOperand(0))); ops.push_back(opj(I.getOperand(1))); J.attribute("vty",tyj(I.getOperand(1)->getType())); break; }
    case Instruction::LandingPad: { auto &L=cast<LandingPadInst>(I); J.attribute("cleanup",L.isCleanup()); json::Array c; for(unsigned i=0;i<L.getNumClauses();++i) c.push_back(json::Array{L.isCatch(i)?"catch":"filter",constj(L.getClause(i))}); J.attribute("clauses",std::move(c)); break; }
    default:
      for(auto &o:I.operands()) ops.push_back(opj(o));
      if(I.getOpcode()==Instruction::Store) J.attribute("vty",tyj(I.getOperand(0)->getType()));
      if(I.isCast()) J.attribute("fty",tyj(I.getOperand(0)->getType()));
      if(auto*OB=dyn_cast<OverflowingBinaryOperator>(&I)){ J.attribute("nuw",OB->hasNoUnsignedWrap()); J.attribute("nsw",OB->hasNoSignedWrap()); }
    }
    J.attribute("ops",std::move(ops));
  });
}
int main(int argc,char**argv){
  LLVMContext ctx; SMDiagnostic err; auto M=parseIRFile(argv[1],err,ctx); if(!M){ err.print("irdump",errs()); return 2; }
  DL=&M->getDataLayout();
  json::OStream J(outs());
  J.object([&]{
    J.attributeObject("globals",[&]{ for(auto &G:M->globals()){ J.attributeObject(G.getName().str(),[&]{
      J.attribute("const",G.isConstant()); J.attribute("size",G.getValueType()->isSized()?(int64_t)DL->getTypeAllocSize(G.getValueType()):0);
      J.attribute("dem",demangle(G.getName().str()));
      if(G.hasInitializer()) J.attribute("init",constj(G.getInitializer()));
      J.attribute("ty",tyj(G.getValueType())); }); } });
    J.attributeObject("structs",[&]{ for(auto *S:M->getIdentifiedStructTypes()){ if(!S->isSized()) continue; auto *L=DL->getStructLayout(S);
      json::Array el; for(unsigned i=0;i<S->getNumElements();++i){ Type*E=S->getElementType(i); auto *N=dyn_cast<StructType>(E);
        if(N&&N->hasName()) el.push_back(json::Array{(int64_t)L->getElementOffset(i),"%"+N->getName().str()}); else el.push_back(json::Array{(int64_t)L->getElementOffset(i),tyj(E)}); }
      J.attribute(S->getName().str(),json::Array{(int64_t)DL->getTypeAllocSize(S),std::move(el)}); } });
    J.attributeObject("functions",[&]{ for(auto &F:*M){ J.attributeObject(F.getName().str(),[&]{
      J.attribute("dem",demangle(F.getName().str())); J.attribute("ret",tyj(F.getReturnType()));
      J.attribute("nounwind",F.doesNotThrow());
      J.attribute("decl",F.isDeclaration());
      if(auto*SP=F.getSubprogram()){ J.attribute("file",SP->getFilename().str()); J.attribute("fline",(int64_t)SP->getLine()); }
      J.attributeArray("args",[&]{ for(auto &A:F.args()) J.object([&]{ J.attribute("id",vid(&A)); J.attribute("ty",tyj(A.getType())); J.attribute("name",A.getName().str());
         if(A.hasStructRetAttr()) J.attribute("sret",(int64_t)DL->getTypeAllocSize(A.getParamStructRetType()));
         if(A.hasByValAttr()) J.attribute("byval",(int64_t)DL->getTypeAllocSize(A.getParamByValType())); 
         if(A.getDereferenceableBytes()) J.attribute("deref",(int64_t)A.getDereferenceableBytes()); }); });
      if(!F.isDeclaration()){
        DominatorTree DT(F); LoopInfo LI(DT);
        J.attributeArray("blocks",[&]{ for(auto &B:F) J.object([&]{ J.attribute("id",vid(&B)); J.attribute("name",B.getName().str());
          if(auto*L=LI.getLoopFor(&B)){ json::Array hs; for(auto*l=L;l;l=l->getParentLoop()) hs.push_back(vid(l->getHeader())); J.attribute("loops",std::move(hs)); }
          J.attributeArray("ins",[&]{ for(auto &I:B){ if(isa<DbgInfoIntrinsic>(&I)) continue; emitInst(J,I);} }); }); });
      }
    }); } });
  });
  outs()<<"\n"; return 0;
}
