// irexport: dumps an LLVM module as JSON for the analyses in /verif/engine (no code is run).
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/CFG.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;
static const DataLayout *DL;
static std::map<const Metadata*, int> diIds; static std::vector<json::Value> diTypes;

static json::Value ty(Type *T) {
  if (T->isVoidTy()) return "void";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isPointerTy()) return "ptr";
  if (T->isFloatTy()) return "float";
  if (T->isDoubleTy()) return "double";
  if (auto *S = dyn_cast<StructType>(T)) {
    json::Array fs; auto *L = S->isSized()? DL->getStructLayout(S):nullptr;
    for (unsigned i=0;i<S->getNumElements();i++)
      fs.push_back(json::Array{(int64_t)(L?(uint64_t)L->getElementOffset(i):0), ty(S->getElementType(i))});
    return json::Object{{"k","struct"},{"name",S->hasName()?S->getName().str():""},{"fields",std::move(fs)},{"size",S->isSized()?(int64_t)(uint64_t)DL->getTypeAllocSize(S):0}};
  }
  if (auto *A = dyn_cast<ArrayType>(T))
    return json::Object{{"k","array"},{"n",(int64_t)A->getNumElements()},{"elem",ty(A->getElementType())},{"size",(int64_t)(uint64_t)DL->getTypeAllocSize(A)}};
  std::string s; raw_string_ostream o(s); T->print(o); return s;
}
static int di(const DIType *T) {
  if (!T) return -1;
  auto it = diIds.find(T); if (it!=diIds.end()) return it->second;
  int id = diTypes.size(); diIds[T]=id; diTypes.push_back(nullptr);
  json::Object o; o["name"]=T->getName().str(); o["size"]=(int64_t)(T->getSizeInBits()/8);
  if (auto *B=dyn_cast<DIBasicType>(T)) { o["k"]="base"; o["enc"]=(int64_t)B->getEncoding(); }
  else if (auto *D=dyn_cast<DIDerivedType>(T)) {
    unsigned t=D->getTag();
    o["k"]= t==dwarf::DW_TAG_pointer_type?"ptr": t==dwarf::DW_TAG_typedef?"typedef": t==dwarf::DW_TAG_member?"member": t==dwarf::DW_TAG_const_type?"const":"derived";
    o["off"]=(int64_t)(D->getOffsetInBits()/8);
    o["base"]=di(D->getBaseType());
  } else if (auto *Cc=dyn_cast<DICompositeType>(T)) {
    unsigned t=Cc->getTag();
    o["k"]= t==dwarf::DW_TAG_structure_type?"struct": t==dwarf::DW_TAG_union_type?"union": t==dwarf::DW_TAG_enumeration_type?"enum": t==dwarf::DW_TAG_array_type?"array": t==dwarf::DW_TAG_class_type?"struct":"composite";
    o["base"]=di(Cc->getBaseType());
    json::Array els;
    for (auto *E: Cc->getElements()) {
      if (auto *M=dyn_cast_or_null<DIDerivedType>(E)) { if(M->getTag()==dwarf::DW_TAG_member) els.push_back(json::Array{M->getName().str(),(int64_t)(M->getOffsetInBits()/8),di(M->getBaseType()),(int64_t)(M->getSizeInBits()/8)}); }
      else if (auto *En=dyn_cast_or_null<DIEnumerator>(E)) els.push_back(json::Array{En->getName().str(),(int64_t)En->getValue().getSExtValue()});
    }
    o["els"]=std::move(els);
  } else if (auto *F=dyn_cast<DISubroutineType>(T)) {
    o["k"]="func"; json::Array a; for (auto *x: F->getTypeArray()) a.push_back(di(x)); o["types"]=std::move(a);
  } else o["k"]="other";
  diTypes[id]=std::move(o); return id;
}
static json::Value op(const Value *V, std::map<const Value*,int>&num);
static json::Value gep(const GEPOperator *G, std::map<const Value*,int>&num) {
  json::Object o; o["base"]=op(G->getPointerOperand(),num);
  unsigned bw=DL->getIndexTypeSizeInBits(G->getType()); APInt c(bw,0);
  MapVector<Value*,APInt> var;
  if(!G->collectOffset(*DL,bw,var,c)) o["bad"]=true;
  o["off"]=c.getSExtValue(); json::Array vs;
  for(auto&p:var) vs.push_back(json::Array{op(p.first,num),p.second.getSExtValue()});
  o["var"]=std::move(vs); o["inb"]=G->isInBounds();
  if (auto*S=dyn_cast<StructType>(G->getSourceElementType())) if(S->hasName()) o["sty"]=S->getName().str();
  return o;
}
static json::Value op(const Value *V, std::map<const Value*,int>&num) {
  auto it=num.find(V); if(it!=num.end()) return json::Array{"r",it->second};
  if (auto*C=dyn_cast<ConstantInt>(V)) { SmallString<40> s; C->getValue().toString(s,10,false); return json::Array{"c",(int64_t)C->getBitWidth(),s.str().str()}; }
  if (isa<ConstantPointerNull>(V)) return json::Array{"null"};
  if (isa<UndefValue>(V)) return json::Array{"undef",ty(V->getType())};
  if (auto*F=dyn_cast<ConstantFP>(V)) { SmallString<40> s; auto b=F->getValueAPF().bitcastToAPInt(); b.toString(s,10,false); return json::Array{"f",(int64_t)b.getBitWidth(),s.str().str()}; }
  if (auto*F=dyn_cast<Function>(V)) return json::Array{"fn",F->getName().str()};
  if (auto*G=dyn_cast<GlobalVariable>(V)) return json::Array{"g",G->getName().str()};
  if (auto*A=dyn_cast<GlobalAlias>(V)) return json::Array{"g",A->getName().str()};
  if (auto*CE=dyn_cast<ConstantExpr>(V)) {
    if (auto*G=dyn_cast<GEPOperator>(CE)) return json::Array{"cgep",gep(G,num)};
    return json::Array{"ce",CE->getOpcodeName(),op(CE->getOperand(0),num),ty(CE->getType())};
  }
  if (isa<ConstantAggregateZero>(V)) return json::Array{"zero",ty(V->getType())};
  if (auto*CA=dyn_cast<ConstantAggregate>(V)) { json::Array a; for(auto&u:CA->operands()) a.push_back(op(u,num)); return json::Array{"agg",std::move(a)}; }
  if (auto*CD=dyn_cast<ConstantDataSequential>(V)) { json::Array a; for(unsigned i=0;i<CD->getNumElements();i++) a.push_back(op(CD->getElementAsConstant(i),num)); return json::Array{"agg",std::move(a)}; }
  std::string s; raw_string_ostream o(s); V->print(o); return json::Array{"unk",s};
}
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C);
  if(!M){E.print(argv[0],errs());return 2;}
  DL=&M->getDataLayout();
  json::Object root; root["ptrbits"]=(int64_t)DL->getPointerSizeInBits(); root["triple"]=M->getTargetTriple();
  json::Array gs; std::map<const Value*,int> none;
  for(auto&G:M->globals()){ json::Object o; o["name"]=G.getName().str(); o["const"]=G.isConstant(); o["local"]=G.hasLocalLinkage(); o["ty"]=ty(G.getValueType()); o["decl"]=G.isDeclaration();
    SmallVector<DIGlobalVariableExpression*,1> ge; G.getDebugInfo(ge); if(!ge.empty()){o["di"]=di(ge[0]->getVariable()->getType()); o["line"]=(int64_t)ge[0]->getVariable()->getLine(); o["file"]=ge[0]->getVariable()->getFilename().str();}
    if(G.hasInitializer()){ if(auto*cd=dyn_cast<ConstantDataArray>(G.getInitializer())) if(cd->isString()) {std::string h; static const char*x="0123456789abcdef"; for(unsigned char c:cd->getAsString()){h+=x[c>>4];h+=x[c&15];} o["str"]=h;}
      if(!o.get("str")) o["init"]=op(G.getInitializer(),none);}
    gs.push_back(std::move(o)); }
  root["globals"]=std::move(gs);
  json::Array fs;
  for(auto&F:*M){
    json::Object fo; fo["name"]=F.getName().str(); fo["decl"]=F.isDeclaration(); fo["local"]=F.hasLocalLinkage(); fo["ret"]=ty(F.getReturnType()); fo["vararg"]=F.isVarArg();
    fo["noreturn"]=F.doesNotReturn(); fo["addr_taken"]=F.hasAddressTaken(); fo["inlinehint"]=F.hasFnAttribute(Attribute::InlineHint)||F.hasLinkOnceLinkage()||F.hasAvailableExternallyLinkage();
    std::map<const Value*,int> num; int n=0; json::Array as; const DISubprogram*SP=F.getSubprogram();
    if(SP){fo["file"]=SP->getFilename().str();fo["line"]=(int64_t)SP->getLine();fo["srcname"]=SP->getName().str(); json::Array tt; if(SP->getType()) for(auto*x:SP->getType()->getTypeArray()) tt.push_back(di(x)); fo["ditypes"]=std::move(tt);
      json::Array pn; std::map<int,std::pair<std::string,int>> pm; for(auto*N:SP->getRetainedNodes()) if(auto*LV=dyn_cast<DILocalVariable>(N)) if(LV->getArg()) pm[LV->getArg()]={LV->getName().str(),di(LV->getType())};
      (void)pn; }
    for(auto&A:F.args()){ num[&A]=n++; json::Object o; o["name"]=A.getName().str(); o["ty"]=ty(A.getType()); if(A.hasByValAttr()) {o["byval"]=ty(A.getParamByValType());} if(A.hasStructRetAttr()) o["sret"]=ty(A.getParamStructRetType()); as.push_back(std::move(o)); }
    fo["args"]=std::move(as);
    std::map<const BasicBlock*,int> bn; int b=0; for(auto&B:F){bn[&B]=b++; for(auto&I:B) num[&I]=n++;}
    json::Array bs;
    for(auto&B:F){ json::Array is; 
      for(auto&I:B){ json::Object o; 
        if(auto*DV=dyn_cast<DbgVariableIntrinsic>(&I)) { auto*LV=DV->getVariable();
          if(!LV) continue; o["op"]="dbg"; o["name"]=LV->getName().str(); o["arg"]=(int64_t)LV->getArg(); o["di"]=di(LV->getType()); o["decl"]=isa<DbgDeclareInst>(DV); if(DV->getNumVariableLocationOps()==1&&DV->getVariableLocationOp(0)) o["v"]=op(DV->getVariableLocationOp(0),num); is.push_back(std::move(o)); continue; }
        if(isa<DbgInfoIntrinsic>(&I)) continue;
        o["op"]=I.getOpcodeName(); o["id"]=num[&I]; o["ty"]=ty(I.getType());
        if(auto&L=I.getDebugLoc()){o["line"]=(int64_t)L.getLine();o["col"]=(int64_t)L.getCol(); if(auto*sc=dyn_cast_or_null<DIScope>(L.getScope())) if(!SP||sc->getFilename()!=SP->getFilename()) o["file"]=sc->getFilename().str();}
        if(auto*G=dyn_cast<GetElementPtrInst>(&I)) o["gep"]=gep(cast<GEPOperator>(G),num);
        else if(auto*P=dyn_cast<PHINode>(&I)){ json::Array a; for(unsigned i=0;i<P->getNumIncomingValues();i++) a.push_back(json::Array{bn[P->getIncomingBlock(i)],op(P->getIncomingValue(i),num)}); o["in"]=std::move(a);}
        else if(auto*Br=dyn_cast<BranchInst>(&I)){ if(Br->isConditional()){o["cond"]=op(Br->getCondition(),num);o["t"]=bn[Br->getSuccessor(0)];o["f"]=bn[Br->getSuccessor(1)];} else o["t"]=bn[Br->getSuccessor(0)];}
        else if(auto*Sw=dyn_cast<SwitchInst>(&I)){ o["cond"]=op(Sw->getCondition(),num); o["def"]=bn[Sw->getDefaultDest()]; json::Array a; for(auto c:Sw->cases()){SmallString<40>s; c.getCaseValue()->getValue().toString(s,10,false); a.push_back(json::Array{s.str().str(),bn[c.getCaseSuccessor()]});} o["cases"]=std::move(a);}
        else if(auto*Ca=dyn_cast<CallBase>(&I)){ o["callee"]=op(Ca->getCalledOperand(),num); json::Array a; json::Array at; for(unsigned i=0;i<Ca->arg_size();i++){a.push_back(op(Ca->getArgOperand(i),num)); json::Object x; if(Ca->isByValArgument(i)) x["byval"]=ty(Ca->getParamByValType(i)); if(Ca->paramHasAttr(i,Attribute::StructRet)) x["sret"]=true; at.push_back(std::move(x));} o["args"]=std::move(a); o["attrs"]=std::move(at);}
        else { json::Array a; for(auto&u:I.operands()) a.push_back(op(u,num)); o["ops"]=std::move(a);
          if(auto*Cm=dyn_cast<CmpInst>(&I)) o["pred"]=CmpInst::getPredicateName(Cm->getPredicate()).str();
          if(auto*Al=dyn_cast<AllocaInst>(&I)){o["aty"]=ty(Al->getAllocatedType());uint64_t z=DL->getTypeAllocSize(Al->getAllocatedType());if(auto*C=dyn_cast<ConstantInt>(Al->getArraySize()))z*=C->getZExtValue();else{z=0;o["dyn"]=1;}o["asize"]=(int64_t)z;}
          if(auto*L=dyn_cast<LoadInst>(&I)){o["size"]=(int64_t)(uint64_t)DL->getTypeStoreSize(L->getType());}
          if(auto*S=dyn_cast<StoreInst>(&I)){o["size"]=(int64_t)(uint64_t)DL->getTypeStoreSize(S->getValueOperand()->getType());o["vty"]=ty(S->getValueOperand()->getType());}
          if(auto*OB=dyn_cast<OverflowingBinaryOperator>(&I)){o["nuw"]=OB->hasNoUnsignedWrap();o["nsw"]=OB->hasNoSignedWrap();}
          if(isa<CastInst>(&I)) o["sty"]=ty(I.getOperand(0)->getType());
          if(isa<ICmpInst>(&I)) o["sty"]=ty(I.getOperand(0)->getType());
          if(auto*X=dyn_cast<ExtractValueInst>(&I)){json::Array z; for(unsigned k:X->indices()) z.push_back((int64_t)k); o["idx"]=std::move(z);}
          if(auto*X=dyn_cast<InsertValueInst>(&I)){json::Array z; for(unsigned k:X->indices()) z.push_back((int64_t)k); o["idx"]=std::move(z);}
        }
        is.push_back(std::move(o)); }
      bs.push_back(std::move(is)); }
    fo["blocks"]=std::move(bs); fs.push_back(std::move(fo)); }
  root["functions"]=std::move(fs);
  // every composite type known to the module
  DebugInfoFinder Fi; Fi.processModule(*M); for(auto*T:Fi.types()) di(T);
  json::Array dt; for(auto&x:diTypes) dt.push_back(std::move(x)); root["ditypes"]=std::move(dt);
  outs()<<json::Value(std::move(root))<<"\n"; return 0; }
