// irdump: reads one LLVM bitcode/IR module, writes a compact JSON description of it.
// Used by the analyses in /verif/engine (they never execute the code).
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/MapVector.h"
#include <map>
#include <set>
using namespace llvm;
typedef json::Value JV; typedef json::Object JO; typedef json::Array JA;
static const DataLayout *DL;
static std::map<const Value*, int> ids; static int nextid;
static std::map<const DIType*, std::string> anonnames;

static int idof(const Value *v){ auto it=ids.find(v); if(it!=ids.end()) return it->second; return ids[v]=nextid++; }

static JV ty(Type *t){
  if(t->isIntegerTy()) return JO{{"k","i"},{"b",(int64_t)t->getIntegerBitWidth()}};
  if(t->isPointerTy()) return JO{{"k","p"}};
  if(t->isVoidTy()) return JO{{"k","v"}};
  if(t->isFloatingPointTy()) return JO{{"k","f"},{"sz",(int64_t)DL->getTypeAllocSize(t).getFixedValue()},{"st",(int64_t)DL->getTypeStoreSize(t).getFixedValue()}};
  if(auto*s=dyn_cast<StructType>(t)){
    JA e; auto*l=DL->getStructLayout(s);
    for(unsigned i=0;i<s->getNumElements();i++) e.push_back(JO{{"o",(int64_t)l->getElementOffset(i).getFixedValue()},{"t",ty(s->getElementType(i))}});
    return JO{{"k","s"},{"sz",(int64_t)DL->getTypeAllocSize(t).getFixedValue()},{"e",std::move(e)}};
  }
  if(auto*a=dyn_cast<ArrayType>(t)){
    return JO{{"k","a"},{"sz",(int64_t)DL->getTypeAllocSize(t).getFixedValue()},{"n",(int64_t)a->getNumElements()},{"t",ty(a->getElementType())}};
  }
  if(t->isVectorTy()) return JO{{"k","x"},{"sz",(int64_t)DL->getTypeAllocSize(t).getFixedValue()}};
  return JO{{"k","?"}};
}
static std::string istr(const APInt&v){ SmallString<32> s; v.toStringUnsigned(s); return std::string(s); }

static JV op(const Value *v);
static JV cst(const Constant *c){
  if(auto*i=dyn_cast<ConstantInt>(c)) return JO{{"k","c"},{"v",istr(i->getValue())},{"b",(int64_t)i->getBitWidth()}};
  if(isa<ConstantPointerNull>(c)) return JO{{"k","n"}};
  if(auto*f=dyn_cast<Function>(c)) return JO{{"k","F"},{"n",f->getName()}};
  if(auto*g=dyn_cast<GlobalVariable>(c)) return JO{{"k","g"},{"n",g->getName()},{"o",0}};
  if(auto*g=dyn_cast<GlobalAlias>(c)) return cst(g->getAliasee());
  if(isa<UndefValue>(c)) return JO{{"k","u"},{"t",ty(c->getType())}};
  if(isa<ConstantAggregateZero>(c)) return JO{{"k","z"},{"t",ty(c->getType())}};
  if(auto*f=dyn_cast<ConstantFP>(c)){ std::string s; raw_string_ostream o(s); SmallString<40> b; f->getValueAPF().toString(b); return JO{{"k","f"},{"v",std::string(b)}}; }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    if(ce->getOpcode()==Instruction::GetElementPtr){
      APInt off(64,0); auto*g=cast<GEPOperator>(ce);
      if(g->accumulateConstantOffset(*DL,off)){
        JV b=op(g->getPointerOperand());
        return JO{{"k","go"},{"b",std::move(b)},{"o",off.getSExtValue()}};
      }
    }
    if(ce->isCast()) return JO{{"k","cast"},{"op",ce->getOpcodeName()},{"a",op(ce->getOperand(0))},{"t",ty(ce->getType())}};
    return JO{{"k","cx"},{"op",ce->getOpcodeName()}};
  }
  if(isa<ConstantStruct>(c)||isa<ConstantArray>(c)||isa<ConstantDataSequential>(c)) return JO{{"k","agg"},{"t",ty(c->getType())}};
  return JO{{"k","?"}};
}
static JV op(const Value *v){
  if(auto*c=dyn_cast<Constant>(v)) return cst(c);
  if(isa<MetadataAsValue>(v)) return JO{{"k","md"}};
  if(auto*bb=dyn_cast<BasicBlock>(v)) return JO{{"k","b"},{"n",idof(bb)}};
  return JO{{"k","v"},{"n",idof(v)}};
}
static void flatten(const Constant*c,uint64_t off,JA&out){
  if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)){ out.push_back(JO{{"o",(int64_t)off},{"s",(int64_t)DL->getTypeAllocSize(c->getType()).getFixedValue()},{"z",1}}); return; }
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){
    unsigned es=d->getElementByteSize();
    if(d->getElementType()->isIntegerTy()){
      JA vals; for(unsigned i=0;i<d->getNumElements();i++) vals.push_back(JV(std::to_string(d->getElementAsInteger(i))));
      out.push_back(JO{{"o",(int64_t)off},{"s",(int64_t)es},{"data",std::move(vals)}});
    } else out.push_back(JO{{"o",(int64_t)off},{"s",(int64_t)(es*d->getNumElements())},{"opq",1}});
    return;
  }
  if(auto*s=dyn_cast<ConstantStruct>(c)){ auto*l=DL->getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();i++) flatten(s->getOperand(i),off+l->getElementOffset(i).getFixedValue(),out); return; }
  if(auto*a=dyn_cast<ConstantArray>(c)){ uint64_t es=DL->getTypeAllocSize(a->getType()->getElementType()).getFixedValue(); for(unsigned i=0;i<a->getNumOperands();i++) flatten(a->getOperand(i),off+es*i,out); return; }
  out.push_back(JO{{"o",(int64_t)off},{"s",(int64_t)DL->getTypeAllocSize(c->getType()).getFixedValue()},{"v",cst(c)}});
}
static std::string tyname(const DIType*t,int d=0);
static const DIType*strip(const DIType*t){
  while(t){ if(auto*d=dyn_cast<DIDerivedType>(t)){ unsigned g=d->getTag(); if(g==dwarf::DW_TAG_typedef||g==dwarf::DW_TAG_const_type||g==dwarf::DW_TAG_volatile_type||g==dwarf::DW_TAG_restrict_type){ t=d->getBaseType(); continue; } } break; }
  return t;
}
static std::string tyname(const DIType*t,int d){
  if(!t) return "void"; if(d>8) return "...";
  if(auto*b=dyn_cast<DIBasicType>(t)) return std::string(b->getName());
  if(auto*c=dyn_cast<DICompositeType>(t)){
    if(c->getTag()==dwarf::DW_TAG_array_type){ std::string s=tyname(c->getBaseType(),d+1); for(auto*e:c->getElements()) if(auto*sr=dyn_cast<DISubrange>(e)){ s+="["; if(auto*ci=dyn_cast_if_present<ConstantInt*>(sr->getCount())) s+=std::to_string(ci->getSExtValue()); s+="]"; } return s; }
    std::string k=c->getTag()==dwarf::DW_TAG_union_type?"union ":c->getTag()==dwarf::DW_TAG_enumeration_type?"enum ":"struct ";
    return k+std::string(c->getName());
  }
  if(isa<DISubroutineType>(t)) return "fn";
  if(auto*dt=dyn_cast<DIDerivedType>(t)){
    switch(dt->getTag()){
      case dwarf::DW_TAG_pointer_type: return tyname(dt->getBaseType(),d+1)+"*";
      case dwarf::DW_TAG_const_type: return tyname(dt->getBaseType(),d+1)+" const";
      case dwarf::DW_TAG_typedef: { std::string n(dt->getName()); auto*s=strip(dt); if(auto*c=dyn_cast_or_null<DICompositeType>(s)){ if(c->getName().empty()) return n; return tyname(s,d+1);} if(n=="bool"||n=="va_list"||n=="FILE") return n; return tyname(dt->getBaseType(),d+1);} 
      default: return tyname(dt->getBaseType(),d+1);
    }
  }
  return "?";
}
static std::string relpath(StringRef s){ return std::string(s); }
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C); if(!M){ E.print("irdump",errs()); return 2; }
  DL=&M->getDataLayout();
  JO root; JO funcs, globs, structs, enums, decls;
  DebugInfoFinder DF; DF.processModule(*M);
  for(auto*t:DF.types()){
    auto*c=dyn_cast<DICompositeType>(t); if(!c) continue;
    if(c->getTag()==dwarf::DW_TAG_enumeration_type){ JO e; for(auto*x:c->getElements()) if(auto*en=dyn_cast<DIEnumerator>(x)) e[en->getName()]=JV(en->getValue().getSExtValue()); std::string n=std::string(c->getName()); if(n.empty()) n="anon@"+std::string(c->getFilename())+":"+std::to_string(c->getLine()); enums[n]=std::move(e); continue; }
    if(c->getTag()!=dwarf::DW_TAG_structure_type&&c->getTag()!=dwarf::DW_TAG_union_type) continue;
    JA fs; for(auto*x:c->getElements()) if(auto*m=dyn_cast<DIDerivedType>(x)) if(m->getTag()==dwarf::DW_TAG_member) fs.push_back(JO{{"n",m->getName()},{"o",(int64_t)(m->getOffsetInBits()/8)},{"s",(int64_t)(m->getSizeInBits()/8)},{"bo",(int64_t)m->getOffsetInBits()},{"bs",(int64_t)m->getSizeInBits()},{"t",tyname(m->getBaseType())}});
    std::string n=std::string(c->getName()); if(n.empty()) n="anon@"+std::string(c->getFilename())+":"+std::to_string(c->getLine());
    structs[n]=JO{{"size",(int64_t)(c->getSizeInBits()/8)},{"union",c->getTag()==dwarf::DW_TAG_union_type},{"f",std::move(fs)}};
  }
  // typedef'd anonymous structs
  for(auto*t:DF.types()) if(auto*d=dyn_cast<DIDerivedType>(t)) if(d->getTag()==dwarf::DW_TAG_typedef) if(auto*c=dyn_cast_or_null<DICompositeType>(d->getBaseType())) if(c->getName().empty()&&(c->getTag()==dwarf::DW_TAG_structure_type||c->getTag()==dwarf::DW_TAG_union_type)){
    JA fs; for(auto*x:c->getElements()) if(auto*m=dyn_cast<DIDerivedType>(x)) if(m->getTag()==dwarf::DW_TAG_member) fs.push_back(JO{{"n",m->getName()},{"o",(int64_t)(m->getOffsetInBits()/8)},{"s",(int64_t)(m->getSizeInBits()/8)},{"t",tyname(m->getBaseType())}});
    structs[d->getName()]=JO{{"size",(int64_t)(c->getSizeInBits()/8)},{"f",std::move(fs)}};
  } else if(auto*c=dyn_cast_or_null<DICompositeType>(d->getBaseType())) if(c->getTag()==dwarf::DW_TAG_enumeration_type&&c->getName().empty()){ JO e; for(auto*x:c->getElements()) if(auto*en=dyn_cast<DIEnumerator>(x)) e[en->getName()]=JV(en->getValue().getSExtValue()); enums[d->getName()]=std::move(e);} 
  for(auto&g:M->globals()){
    JO o{{"const",g.isConstant()},{"size",(int64_t)DL->getTypeAllocSize(g.getValueType()).getFixedValue()},{"ext",g.isDeclaration()},{"local",g.hasLocalLinkage()}};
    if(g.hasInitializer()){ JA cells; flatten(g.getInitializer(),0,cells); o["init"]=std::move(cells); }
    SmallVector<DIGlobalVariableExpression*,1> gv; g.getDebugInfo(gv); if(!gv.empty()){ o["dn"]=gv[0]->getVariable()->getName(); o["dt"]=tyname(gv[0]->getVariable()->getType()); o["file"]=relpath(gv[0]->getVariable()->getFilename()); o["line"]=(int64_t)gv[0]->getVariable()->getLine(); }
    globs[g.getName()]=std::move(o);
  }
  for(auto&F:*M){
    JA args; 
    JO fo{{"ret",ty(F.getReturnType())},{"va",F.isVarArg()},{"local",F.hasLocalLinkage()},{"noret",F.doesNotReturn()}};
    if(F.isDeclaration()){ JA a; for(auto&x:F.args()) a.push_back(JO{{"t",ty(x.getType())}}); fo["args"]=std::move(a); decls[F.getName()]=std::move(fo); continue; }
    ids.clear(); nextid=0;
    for(auto&x:F.args()){ JO a{{"id",idof(&x)},{"t",ty(x.getType())},{"n",x.getName()}}; if(x.hasStructRetAttr()){ a["sret"]=(int64_t)DL->getTypeAllocSize(x.getParamStructRetType()).getFixedValue(); } if(x.hasByValAttr()) a["byval"]=(int64_t)DL->getTypeAllocSize(x.getParamByValType()).getFixedValue(); a["nn"]=x.hasNonNullAttr(); args.push_back(std::move(a)); }
    fo["args"]=std::move(args);
    if(auto*sp=F.getSubprogram()){ fo["file"]=relpath(sp->getFilename()); fo["line"]=(int64_t)sp->getLine(); JA dt; if(auto*st=sp->getType()) for(auto*t:st->getTypeArray()) dt.push_back(JV(tyname(t))); fo["dtypes"]=std::move(dt); JA pn; 
      std::map<unsigned,std::string> pm; for(auto*n:sp->getRetainedNodes()) if(auto*v=dyn_cast<DILocalVariable>(n)) if(v->getArg()) pm[v->getArg()]=std::string(v->getName());
      for(auto&BB:F) for(auto&I:BB) if(auto*d=dyn_cast<DbgVariableIntrinsic>(&I)) if(d->getVariable()->getArg()&&d->getDebugLoc()&&!d->getDebugLoc()->getInlinedAt()) pm[d->getVariable()->getArg()]=std::string(d->getVariable()->getName());
      for(auto&p:pm) pn.push_back(JO{{"i",(int64_t)p.first},{"n",p.second}}); fo["params"]=std::move(pn); }
    DominatorTree DT(F); LoopInfo LI(DT);
    JA blocks;
    for(auto&BB:F){
      JA insts;
      for(auto&I:BB){
        if(isa<DbgInfoIntrinsic>(I)) continue;
        JO o{{"op",I.getOpcodeName()}};
        if(!I.getType()->isVoidTy()){ o["id"]=idof(&I); o["t"]=ty(I.getType()); }
        if(auto d=I.getDebugLoc()){ o["l"]=(int64_t)d.getLine(); o["fl"]=d->getFilename(); }
        if(auto*a=dyn_cast<AllocaInst>(&I)){ o["sz"]=(int64_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue(); o["cnt"]=op(a->getArraySize()); o["n"]=a->getName(); }
        else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){
          o["base"]=op(g->getPointerOperand()); o["inb"]=g->isInBounds(); MapVector<Value*,APInt> vo; APInt co(64,0);
          JA ax; { Type*cur=g->getSourceElementType(); for(unsigned k=1;k<g->getNumIndices();k++){ Value*ix=g->getOperand(k+1);
            if(auto*at=dyn_cast<ArrayType>(cur)){ if(at->getNumElements()>1&&!isa<Constant>(ix)) ax.push_back(JO{{"v",op(ix)},{"t",ty(ix->getType())},{"n",(int64_t)at->getNumElements()}}); cur=at->getElementType(); }
            else if(auto*sy=dyn_cast<StructType>(cur)) cur=sy->getElementType((unsigned)cast<ConstantInt>(ix)->getZExtValue());
            else break; } }
          if(!ax.empty()){ bool d=false; for(auto*u:g->users()){ if(auto*l=dyn_cast<LoadInst>(u)) d=true; else if(auto*st=dyn_cast<StoreInst>(u)) d=d||st->getPointerOperand()==g; } o["ax"]=std::move(ax); o["axd"]=d; }
          if(g->collectOffset(*DL,64,vo,co)){ o["co"]=co.getSExtValue(); JA vs; for(auto&p:vo) vs.push_back(JO{{"v",op(p.first)},{"t",ty(p.first->getType())},{"s",p.second.getSExtValue()}}); o["vo"]=std::move(vs); }
        }
        else if(auto*c=dyn_cast<CallBase>(&I)){
          if(auto*f=c->getCalledFunction()) o["f"]=f->getName(); else o["fp"]=op(c->getCalledOperand());
          JA as; for(auto&a:c->args()) as.push_back(JO{{"v",op(a)},{"t",ty(a->getType())}}); o["a"]=std::move(as); o["nfix"]=(int64_t)c->getFunctionType()->getNumParams();
          JA bv; for(unsigned i=0;i<c->arg_size();i++) if(c->isByValArgument(i)) bv.push_back(JO{{"i",(int64_t)i},{"s",(int64_t)DL->getTypeAllocSize(c->getParamByValType(i)).getFixedValue()}}); o["byval"]=std::move(bv);
        }
        else if(auto*p=dyn_cast<PHINode>(&I)){ JA in; for(unsigned i=0;i<p->getNumIncomingValues();i++) in.push_back(JO{{"b",idof(p->getIncomingBlock(i))},{"v",op(p->getIncomingValue(i))}}); o["in"]=std::move(in); }
        else if(auto*s=dyn_cast<SwitchInst>(&I)){ o["c"]=op(s->getCondition()); o["t"]=ty(s->getCondition()->getType()); o["d"]=idof(s->getDefaultDest()); JA cs; for(auto&k:s->cases()) cs.push_back(JO{{"v",istr(k.getCaseValue()->getValue())},{"b",idof(k.getCaseSuccessor())}}); o["cs"]=std::move(cs); }
        else if(auto*b=dyn_cast<BranchInst>(&I)){ if(b->isConditional()){ o["c"]=op(b->getCondition()); o["T"]=idof(b->getSuccessor(0)); o["E"]=idof(b->getSuccessor(1)); } else o["T"]=idof(b->getSuccessor(0)); }
        else if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ JA x; for(auto i:ev->indices()) x.push_back((int64_t)i); o["ix"]=std::move(x); o["a"]=JA{op(ev->getAggregateOperand())}; }
        else if(auto*iv=dyn_cast<InsertValueInst>(&I)){ JA x; for(auto i:iv->indices()) x.push_back((int64_t)i); o["ix"]=std::move(x); o["a"]=JA{op(iv->getAggregateOperand()),op(iv->getInsertedValueOperand())}; }
        else {
          JA as; for(auto&a:I.operands()) as.push_back(op(a)); o["a"]=std::move(as);
          if(auto*c=dyn_cast<CmpInst>(&I)){ o["p"]=CmpInst::getPredicateName(c->getPredicate()); }
          if(I.getNumOperands()>0) o["ot"]=ty(I.getOperand(0)->getType());
          if(auto*obo=dyn_cast<OverflowingBinaryOperator>(&I)){ o["nsw"]=obo->hasNoSignedWrap(); o["nuw"]=obo->hasNoUnsignedWrap(); }
        }
        insts.push_back(std::move(o));
      }
      JO b{{"id",idof(&BB)},{"n",BB.getName()},{"i",std::move(insts)}};
      blocks.push_back(std::move(b));
    }
    fo["blocks"]=std::move(blocks);
    JA loops;
    for(auto*L:LI.getLoopsInPreorder()){ JA bs; for(auto*b:L->blocks()) bs.push_back(idof(b)); JO lo{{"h",idof(L->getHeader())},{"b",std::move(bs)},{"p",L->getParentLoop()?JV(idof(L->getParentLoop()->getHeader())):JV(nullptr)}}; loops.push_back(std::move(lo)); }
    fo["loops"]=std::move(loops);
    funcs[F.getName()]=std::move(fo);
  }
  root["funcs"]=std::move(funcs); root["globals"]=std::move(globs); root["structs"]=std::move(structs); root["enums"]=std::move(enums); root["decls"]=std::move(decls);
  outs()<<JV(std::move(root))<<"\n"; return 0;
}
