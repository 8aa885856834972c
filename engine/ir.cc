#include <unistd.h>
#include "ir.h"
#include <llvm-c/IRReader.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/BitWriter.h>
#include <llvm-c/Linker.h>
#include <llvm-c/Target.h>
#include <llvm-c/TargetMachine.h>
#include <llvm-c/DebugInfo.h>
#include <llvm-c/Transforms/PassBuilder.h>
#include <llvm-c/Error.h>
#include <cstdio>
#include <cstdlib>
#include <cassert>
std::vector<Func*> g_funcs; std::map<std::string,Func*> g_fbyname; std::vector<Global> g_globals; std::vector<std::string> g_files; LLVMTargetDataRef g_td;
static std::unordered_map<LLVMValueRef,Func*> fmap; static std::unordered_map<LLVMValueRef,int> gmap; static std::map<u64,Func*> faddr;
static LLVMModuleRef M;
static std::map<std::string,u32> fileidx;
Func*func_at(u64 a){ auto it=faddr.find(a); return it==faddr.end()?nullptr:it->second; }
static void die(const std::string&s){ fprintf(stderr,"engine: %s\n",s.c_str()); printf("{\"fatal\":\"%s\"}\n",s.c_str()); exit(3); }
u64 next_objid=16; // object ids: 1.. reserved for functions at id 1
static u64 tsize(LLVMTypeRef t){ return LLVMABISizeOfType(g_td,t); }
static int width_of(LLVMTypeRef t){
  switch(LLVMGetTypeKind(t)){ case LLVMIntegerTypeKind: return (int)LLVMGetIntTypeWidth(t); case LLVMPointerTypeKind: return 64; case LLVMFloatTypeKind: return 32; case LLVMDoubleTypeKind: return 64; case LLVMX86_FP80TypeKind: return 80; default: return -1; } }
static bool flat(LLVMTypeRef t,u32 off,std::vector<u8>&w,std::vector<u32>&o){
  auto k=LLVMGetTypeKind(t);
  if(k==LLVMStructTypeKind){ unsigned n=LLVMCountStructElementTypes(t); for(unsigned i=0;i<n;i++) if(!flat(LLVMStructGetTypeAtIndex(t,i),off+(u32)LLVMOffsetOfElement(g_td,t,i),w,o)) return false; return true; }
  if(k==LLVMArrayTypeKind){ u64 n=LLVMGetArrayLength2(t); LLVMTypeRef e=LLVMGetElementType(t); for(u64 i=0;i<n;i++) if(!flat(e,off+(u32)(i*tsize(e)),w,o)) return false; return n<64; }
  int x=width_of(t); if(x<0) return false; w.push_back((u8)x); o.push_back(off); return true; }
static u64 const_val(LLVMValueRef v){ // scalar constants
  switch(LLVMGetValueKind(v)){
  case LLVMConstantIntValueKind: { unsigned w=LLVMGetIntTypeWidth(LLVMTypeOf(v)); if(w>64) return LLVMConstIntGetZExtValue(v); return LLVMConstIntGetZExtValue(v)&mask((u8)w);} 
  case LLVMConstantPointerNullValueKind: case LLVMUndefValueValueKind: case LLVMPoisonValueValueKind: case LLVMConstantAggregateZeroValueKind: return 0;
  case LLVMConstantFPValueKind: { LLVMBool l; double d=LLVMConstRealGetDouble(v,&l); u64 r=0; if(LLVMGetTypeKind(LLVMTypeOf(v))==LLVMFloatTypeKind){ float f=(float)d; memcpy(&r,&f,4);} else memcpy(&r,&d,8); return r; }
  case LLVMFunctionValueKind: { auto it=fmap.find(v); return it==fmap.end()?0:(it->second->redirect?it->second->redirect->addr:it->second->addr); }
  case LLVMGlobalVariableValueKind: return g_globals[gmap[v]].addr;
  case LLVMGlobalAliasValueKind: return const_val(LLVMAliasGetAliasee(v));
  case LLVMConstantExprValueKind: {
    LLVMOpcode o=LLVMGetConstOpcode(v);
    switch(o){
    case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMAddrSpaceCast: return const_val(LLVMGetOperand(v,0));
    case LLVMTrunc: return const_val(LLVMGetOperand(v,0))&mask((u8)width_of(LLVMTypeOf(v)));
    case LLVMAdd: return const_val(LLVMGetOperand(v,0))+const_val(LLVMGetOperand(v,1));
    case LLVMSub: return const_val(LLVMGetOperand(v,0))-const_val(LLVMGetOperand(v,1));
    case LLVMMul: return const_val(LLVMGetOperand(v,0))*const_val(LLVMGetOperand(v,1));
    case LLVMGetElementPtr: {
      u64 base=const_val(LLVMGetOperand(v,0)); LLVMTypeRef t=LLVMGetGEPSourceElementType(v); int n=LLVMGetNumOperands(v);
      for(int i=1;i<n;i++){ LLVMValueRef iv=LLVMGetOperand(v,(unsigned)i); i64 x=sext(const_val(iv),(u8)width_of(LLVMTypeOf(iv)));
        if(i==1){ base+=(u64)x*tsize(t); continue; }
        if(LLVMGetTypeKind(t)==LLVMStructTypeKind){ base+=LLVMOffsetOfElement(g_td,t,(unsigned)x); t=LLVMStructGetTypeAtIndex(t,(unsigned)x);} else { t=LLVMGetElementType(t); base+=(u64)x*tsize(t);} }
      return base; }
    default: { char*s=LLVMPrintValueToString(v); die(std::string("const expr unsupported: ")+s); } } }
  default: { char*s=LLVMPrintValueToString(v); fprintf(stderr,"const kind %d: %s\n",(int)LLVMGetValueKind(v),s); return 0; } } }
void ir_init_bytes(LLVMValueRef v,u8*out,u64 size){
  LLVMTypeRef t=LLVMTypeOf(v); auto k=LLVMGetTypeKind(t); auto vk=LLVMGetValueKind(v);
  if(vk==LLVMConstantAggregateZeroValueKind||vk==LLVMUndefValueValueKind||vk==LLVMPoisonValueValueKind) return;
  if(k==LLVMStructTypeKind){ unsigned n=LLVMCountStructElementTypes(t); for(unsigned i=0;i<n;i++) ir_init_bytes(LLVMGetOperand(v,i),out+LLVMOffsetOfElement(g_td,t,i),0); return; }
  if(k==LLVMArrayTypeKind){ u64 n=LLVMGetArrayLength2(t); LLVMTypeRef e=LLVMGetElementType(t); u64 es=tsize(e);
    if(vk==LLVMConstantDataArrayValueKind){ 
      if(LLVMIsConstantString(v)){ size_t len; const char*s=LLVMGetAsString(v,&len); memcpy(out,s,len); return; }
      for(u64 i=0;i<n;i++){ u64 c=const_val(LLVMGetAggregateElement(v,(unsigned)i)); memcpy(out+i*es,&c,es); } return; }
    for(u64 i=0;i<n;i++) ir_init_bytes(LLVMGetOperand(v,(unsigned)i),out+i*es,0); return; }
  u64 c=const_val(v); u64 s=(width_of(t)+7)/8; if(s>8) s=8; memcpy(out,&c,s); }
static const char*dupstr(const std::string&s){ return strdup(s.c_str()); }
static u32 file_of(const char*p,unsigned l){ std::string s(p,l); auto it=fileidx.find(s); if(it!=fileidx.end()) return it->second; u32 i=(u32)g_files.size(); g_files.push_back(s); fileidx[s]=i; return i; }
void ir_load(const std::vector<std::string>&files,const std::string&entry,const std::string&passes,const std::string&emit){
  LLVMContextRef C=LLVMGetGlobalContext(); M=nullptr; g_files.push_back("?");
  for(auto&f:files){ LLVMMemoryBufferRef b; char*err=nullptr; if(LLVMCreateMemoryBufferWithContentsOfFile(f.c_str(),&b,&err)) die("read "+f);
    LLVMModuleRef m; if(LLVMParseIRInContext(C,b,&m,&err)) die(std::string("parse ")+f+": "+err);
    if(!M) M=m; else if(LLVMLinkModules2(M,m)) die("link "+f); }
  g_td=LLVMGetModuleDataLayout(M);
  // overrides: vpstub_X replaces X
  for(LLVMValueRef f=LLVMGetFirstFunction(M);f;f=LLVMGetNextFunction(f)){ size_t l; std::string n=LLVMGetValueName2(f,&l); 
    if(n.rfind("vpstub_",0)==0){ std::string o=n.substr(7); LLVMValueRef of=LLVMGetNamedFunction(M,o.c_str()); if(of&&of!=f){ LLVMReplaceAllUsesWith(of,f); if(!LLVMIsDeclaration(of)) LLVMSetLinkage(of,LLVMInternalLinkage);
        // keep the original reachable for stubs that want it: vporig_X
        std::string on="vporig_"+o; LLVMValueRef orf=LLVMGetNamedFunction(M,on.c_str()); if(orf) LLVMReplaceAllUsesWith(orf,of); } } }
  if(!emit.empty()){ LLVMValueRef e=LLVMGetNamedFunction(M,entry.c_str()); if(!e||LLVMIsDeclaration(e)) die("no entry function "+entry); LLVMValueRef ve=LLVMGetNamedFunction(M,"vp_entry"); if(ve) LLVMReplaceAllUsesWith(ve,e);
    for(LLVMValueRef f=LLVMGetFirstFunction(M);f;f=LLVMGetNextFunction(f)){ size_t l; std::string n=LLVMGetValueName2(f,&l); if(!LLVMIsDeclaration(f)&&n!="main") LLVMSetLinkage(f,LLVMInternalLinkage); }
    LLVMPassBuilderOptionsRef o=LLVMCreatePassBuilderOptions(); LLVMRunPasses(M,"globaldce",nullptr,o); if(LLVMWriteBitcodeToFile(M,emit.c_str())) die("write"); fflush(stdout); _exit(0); }
  for(LLVMValueRef f=LLVMGetFirstFunction(M);f;f=LLVMGetNextFunction(f)){ size_t l; std::string n=LLVMGetValueName2(f,&l); if(!LLVMIsDeclaration(f)&&n!=entry) LLVMSetLinkage(f,LLVMInternalLinkage); }
  for(LLVMValueRef g=LLVMGetFirstGlobal(M);g;g=LLVMGetNextGlobal(g)) if(!LLVMIsDeclaration(g)) LLVMSetLinkage(g,LLVMInternalLinkage);
  if(!LLVMGetNamedFunction(M,entry.c_str())) die("no entry function "+entry);
  if(!passes.empty()){ LLVMPassBuilderOptionsRef o=LLVMCreatePassBuilderOptions(); LLVMErrorRef e=LLVMRunPasses(M,passes.c_str(),nullptr,o); if(e){ char*m=LLVMGetErrorMessage(e); die(std::string("passes: ")+m);} LLVMDisposePassBuilderOptions(o); }
  u64 off=0x100;
  for(LLVMValueRef f=LLVMGetFirstFunction(M);f;f=LLVMGetNextFunction(f)){ Func*F=new Func; size_t l; F->name=LLVMGetValueName2(f,&l); F->v=f; F->decl=LLVMIsDeclaration(f); F->addr=(1ull<<32)+off; off+=16; F->vararg=LLVMIsFunctionVarArg(LLVMGlobalGetValueType(f));
    fmap[f]=F; g_funcs.push_back(F); g_fbyname[F->name]=F; faddr[F->addr]=F; }
  for(LLVMValueRef g=LLVMGetFirstGlobal(M);g;g=LLVMGetNextGlobal(g)){ Global G; size_t l; G.name=LLVMGetValueName2(g,&l); G.v=g; G.constant=LLVMIsGlobalConstant(g); G.ext=LLVMIsDeclaration(g); G.size=LLVMABISizeOfType(g_td,LLVMGlobalGetValueType(g)); if(G.ext&&G.size==0) G.size=8; G.addr=(next_objid++)<<32; gmap[g]=(int)g_globals.size(); g_globals.push_back(G); }
}
void ir_convert(Func*F){
  if(F->converted) return; F->converted=true; if(F->decl) return;
  LLVMValueRef f=F->v;
  std::unordered_map<LLVMValueRef,int> reg; std::unordered_map<LLVMValueRef,std::vector<u8>> aggw; int nr=0;
  std::unordered_map<LLVMBasicBlockRef,int> bidx;
  unsigned fl; const char*fp=LLVMGetDebugLocFilename(f,&fl); const char*dp; unsigned dl; dp=LLVMGetDebugLocDirectory(f,&dl); (void)dp; F->file=fp?std::string(fp,fl):"?";
  auto slots=[&](LLVMTypeRef t,std::vector<u8>&w,std::vector<u32>&o)->bool{ return flat(t,0,w,o); };
  for(unsigned i=0;i<LLVMCountParams(f);i++){ LLVMValueRef p=LLVMGetParam(f,i); reg[p]=nr; F->argregs.push_back(nr); int w=width_of(LLVMTypeOf(p)); F->argw.push_back((u8)(w<0?0:w)); std::vector<u8> ws;std::vector<u32> os; if(w<0&&slots(LLVMTypeOf(p),ws,os)) nr+=(int)ws.size(); else nr++; }
  int bn=0; for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b)) { bidx[b]=bn++;
    for(LLVMValueRef i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)){ LLVMTypeRef t=LLVMTypeOf(i); if(LLVMGetTypeKind(t)==LLVMVoidTypeKind) continue; std::vector<u8> w;std::vector<u32> o; slots(t,w,o); reg[i]=nr; nr+=w.empty()?1:(int)w.size(); } }
  F->nregs=nr; F->blockstart.resize(bn);
  auto op=[&](LLVMValueRef v)->Opnd{ Opnd o; auto it=reg.find(v); if(it!=reg.end()){ o.reg=it->second; return o;} 
    if(LLVMIsConstant(v)) o.c=const_val(v); return o; };
  auto opslot=[&](LLVMValueRef v,int s)->Opnd{ Opnd o; auto it=reg.find(v); if(it!=reg.end()){ o.reg=it->second+s; return o;}
    // constant aggregate
    LLVMTypeRef t=LLVMTypeOf(v); std::vector<u8> w;std::vector<u32> of; slots(t,w,of); if(w.size()>1||LLVMGetTypeKind(t)==LLVMStructTypeKind||LLVMGetTypeKind(t)==LLVMArrayTypeKind){ u64 sz=tsize(t); std::vector<u8> buf(sz+8,0); ir_init_bytes(v,buf.data(),sz); u64 c=0; memcpy(&c,buf.data()+of[s],(w[s]+7)/8>8?8:(w[s]+7)/8); o.c=c; } else o.c=const_val(v); return o; };
  struct Fix{ size_t inst; };
  auto mkedge=[&](LLVMBasicBlockRef from,LLVMBasicBlockRef to)->Edge{ Edge e; e.block=bidx[to];
    for(LLVMValueRef i=LLVMGetFirstInstruction(to);i&&LLVMGetInstructionOpcode(i)==LLVMPHI;i=LLVMGetNextInstruction(i)){
      unsigned n=LLVMCountIncoming(i); for(unsigned k=0;k<n;k++) if(LLVMGetIncomingBlock(i,k)==from){ LLVMValueRef v=LLVMGetIncomingValue(i,k); std::vector<u8> w;std::vector<u32> o; slots(LLVMTypeOf(i),w,o); if(w.size()<=1) e.copies.push_back({reg[i],op(v)}); else for(size_t s=0;s<w.size();s++) e.copies.push_back({reg[i]+(int)s,opslot(v,(int)s)}); break; } }
    return e; };
  for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(f);b;b=LLVMGetNextBasicBlock(b)){
    F->blockstart[bidx[b]]=(int)F->code.size();
    for(LLVMValueRef i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)){
      LLVMOpcode o=LLVMGetInstructionOpcode(i); if(o==LLVMPHI) continue;
      Inst I; I.op=I_UNSUP; LLVMTypeRef t=LLVMTypeOf(i); int tw=LLVMGetTypeKind(t)==LLVMVoidTypeKind?0:width_of(t);
      I.line=LLVMGetDebugLocLine(i); unsigned ln; const char*fn=LLVMGetDebugLocFilename(i,&ln); I.file=fn?file_of(fn,ln):0;
      if(tw!=0&&reg.count(i)) I.dst=reg[i]; I.w=(u8)(tw<0?0:tw);
      auto unsup=[&](){ char*s=LLVMPrintValueToString(i); I.op=I_UNSUP; I.text=dupstr(s); LLVMDisposeMessage(s); };
      auto bad=[&](int w){ return w<1||w>64; };
      switch(o){
      case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMAnd: case LLVMOr: case LLVMXor: case LLVMShl: case LLVMLShr: case LLVMAShr: {
        if(bad(tw)){unsup();break;} I.op=I_BIN; I.a=op(LLVMGetOperand(i,0)); I.b=op(LLVMGetOperand(i,1));
        switch(o){case LLVMAdd:I.sub=E_ADD;break;case LLVMSub:I.sub=E_SUB;break;case LLVMMul:I.sub=E_MUL;break;case LLVMUDiv:I.sub=E_UDIV;break;case LLVMSDiv:I.sub=E_SDIV;break;case LLVMURem:I.sub=E_UREM;break;case LLVMSRem:I.sub=E_SREM;break;case LLVMAnd:I.sub=E_AND;break;case LLVMOr:I.sub=E_OR;break;case LLVMXor:I.sub=E_XOR;break;case LLVMShl:I.sub=E_SHL;break;case LLVMLShr:I.sub=E_LSHR;break;default:I.sub=E_ASHR;} break; }
      case LLVMICmp: { int w=width_of(LLVMTypeOf(LLVMGetOperand(i,0))); if(bad(w)){unsup();break;} I.op=I_ICMP; I.w=(u8)w; I.sub=(u8)LLVMGetICmpPredicate(i); I.a=op(LLVMGetOperand(i,0)); I.b=op(LLVMGetOperand(i,1)); break; }
      case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem: if(tw>64){unsup();break;} I.op=I_FBIN; I.sub=(u8)(o-LLVMFAdd); I.sub= o==LLVMFAdd?0:o==LLVMFSub?1:o==LLVMFMul?2:o==LLVMFDiv?3:4; I.a=op(LLVMGetOperand(i,0)); I.b=op(LLVMGetOperand(i,1)); break;
      case LLVMFNeg: if(tw>64){unsup();break;} I.op=I_FNEG; I.a=op(LLVMGetOperand(i,0)); break;
      case LLVMFCmp: { int w=width_of(LLVMTypeOf(LLVMGetOperand(i,0))); if(w>64){unsup();break;} I.op=I_FCMP; I.w=(u8)w; I.sub=(u8)LLVMGetFCmpPredicate(i); I.a=op(LLVMGetOperand(i,0)); I.b=op(LLVMGetOperand(i,1)); break; }
      case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: {
        int w=width_of(LLVMTypeOf(LLVMGetOperand(i,0))); if(bad(w)||bad(tw)){unsup();break;} I.op=I_CAST; I.w2=(u8)w; I.a=op(LLVMGetOperand(i,0)); I.sub= o==LLVMSExt?2:1; break; }
      case LLVMFPToUI: case LLVMFPToSI: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPTrunc: case LLVMFPExt: { int w=width_of(LLVMTypeOf(LLVMGetOperand(i,0))); if(bad(w)||bad(tw)){unsup();break;} I.op=I_FCAST; I.w2=(u8)w; I.sub=o==LLVMFPToUI?0:o==LLVMFPToSI?1:o==LLVMUIToFP?2:o==LLVMSIToFP?3:4; I.a=op(LLVMGetOperand(i,0)); break; }
      case LLVMGetElementPtr: { I.op=I_GEP; I.a=op(LLVMGetOperand(i,0)); LLVMTypeRef et=LLVMGetGEPSourceElementType(i); int n=LLVMGetNumOperands(i); u64 off=0;
        for(int k=1;k<n;k++){ LLVMValueRef iv=LLVMGetOperand(i,(unsigned)k); u64 sc; 
          if(k>1&&LLVMGetTypeKind(et)==LLVMStructTypeKind){ unsigned x=(unsigned)LLVMConstIntGetZExtValue(iv); off+=LLVMOffsetOfElement(g_td,et,x); et=LLVMStructGetTypeAtIndex(et,x); continue; }
          if(k>1) et=LLVMGetElementType(et); sc=tsize(et); int iw=width_of(LLVMTypeOf(iv)); 
          if(LLVMIsConstant(iv)) off+=(u64)sext(const_val(iv),(u8)iw)*sc; else I.idx.push_back({op(iv),(u8)iw,sc}); }
        I.imm=off; break; }
      case LLVMAlloca: { I.op=I_ALLOCA; I.imm=tsize(LLVMGetAllocatedType(i)); I.a=op(LLVMGetOperand(i,0)); break; }
      case LLVMLoad: { std::vector<u8> w;std::vector<u32> of; if(!slots(t,w,of)){unsup();break;} I.op=I_LOAD; I.a=op(LLVMGetOperand(i,0)); I.slotw=w; I.slotoff=of; I.nslots=(int)w.size(); for(auto x:w) if(x>64) {unsup();break;} break; }
      case LLVMStore: { LLVMValueRef v=LLVMGetOperand(i,0); std::vector<u8> w;std::vector<u32> of; if(!slots(LLVMTypeOf(v),w,of)){unsup();break;} I.op=I_STORE; I.b=op(LLVMGetOperand(i,1)); I.slotw=w; I.slotoff=of; I.nslots=(int)w.size(); for(size_t s=0;s<w.size();s++) I.args.push_back(w.size()==1&&width_of(LLVMTypeOf(v))>=0?op(v):opslot(v,(int)s)); for(auto x:w) if(x>64) {unsup();break;} break; }
      case LLVMBr: if(LLVMIsConditional(i)){ I.op=I_CBR; I.a=op(LLVMGetCondition(i)); I.edges.push_back(mkedge(b,LLVMGetSuccessor(i,0))); I.edges.push_back(mkedge(b,LLVMGetSuccessor(i,1))); } else { I.op=I_BR; I.edges.push_back(mkedge(b,LLVMGetSuccessor(i,0))); } break;
      case LLVMSwitch: { I.op=I_SWITCH; LLVMValueRef c=LLVMGetOperand(i,0); I.w=(u8)width_of(LLVMTypeOf(c)); I.a=op(c); unsigned n=LLVMGetNumSuccessors(i); I.edges.push_back(mkedge(b,LLVMGetSwitchDefaultDest(i))); for(unsigned k=1;k<n;k++){ I.cases.push_back(const_val(LLVMGetOperand(i,2*k))); I.edges.push_back(mkedge(b,LLVMGetSuccessor(i,k))); } break; }
      case LLVMRet: { I.op=I_RET; if(LLVMGetNumOperands(i)){ LLVMValueRef v=LLVMGetOperand(i,0); std::vector<u8> w;std::vector<u32> of; slots(LLVMTypeOf(v),w,of); if(w.size()<=1) I.args.push_back(op(v)); else for(size_t s=0;s<w.size();s++) I.args.push_back(opslot(v,(int)s)); } break; }
      case LLVMSelect: { std::vector<u8> w;std::vector<u32> of; slots(t,w,of); if(w.size()!=1||width_of(LLVMTypeOf(LLVMGetOperand(i,0)))!=1){unsup();break;} I.op=I_SELECT; I.a=op(LLVMGetOperand(i,0)); I.b=op(LLVMGetOperand(i,1)); I.c=op(LLVMGetOperand(i,2)); break; }
      case LLVMFreeze: I.op=I_CAST; I.sub=1; I.w2=I.w; I.a=op(LLVMGetOperand(i,0)); break;
      case LLVMExtractValue: { LLVMValueRef a=LLVMGetOperand(i,0); LLVMTypeRef at=LLVMTypeOf(a); unsigned n=LLVMGetNumIndices(i); const unsigned*ix=LLVMGetIndices(i); int s=0; LLVMTypeRef ct=at; bool okk=true; for(unsigned k=0;k<n;k++){ if(LLVMGetTypeKind(ct)==LLVMStructTypeKind){ for(unsigned j=0;j<ix[k];j++){ std::vector<u8> w;std::vector<u32> of; slots(LLVMStructGetTypeAtIndex(ct,j),w,of); s+=(int)w.size(); } ct=LLVMStructGetTypeAtIndex(ct,ix[k]); } else { LLVMTypeRef e=LLVMGetElementType(ct); std::vector<u8> w;std::vector<u32> of; slots(e,w,of); s+=(int)(w.size()*ix[k]); ct=e; } } if(!okk||width_of(t)<0){unsup();break;} I.op=I_COPY; I.nslots=1; I.args.push_back(opslot(a,s)); break; }
      case LLVMInsertValue: { LLVMValueRef a=LLVMGetOperand(i,0),v=LLVMGetOperand(i,1); std::vector<u8> w;std::vector<u32> of; slots(t,w,of); unsigned n=LLVMGetNumIndices(i); const unsigned*ix=LLVMGetIndices(i); int s=0; LLVMTypeRef ct=t; for(unsigned k=0;k<n;k++){ if(LLVMGetTypeKind(ct)==LLVMStructTypeKind){ for(unsigned j=0;j<ix[k];j++){ std::vector<u8> w2;std::vector<u32> o2; slots(LLVMStructGetTypeAtIndex(ct,j),w2,o2); s+=(int)w2.size(); } ct=LLVMStructGetTypeAtIndex(ct,ix[k]); } else { LLVMTypeRef e=LLVMGetElementType(ct); std::vector<u8> w2;std::vector<u32> o2; slots(e,w2,o2); s+=(int)(w2.size()*ix[k]); ct=e; } } I.op=I_COPY; I.nslots=(int)w.size(); for(size_t k=0;k<w.size();k++) I.args.push_back((int)k==s?op(v):opslot(a,(int)k)); break; }
      case LLVMUnreachable: I.op=I_UNREACHABLE; break;
      case LLVMFence: I.op=I_NOP; break;
      case LLVMAtomicRMW: { I.op=I_ATOMICRMW; I.sub=(u8)LLVMGetAtomicRMWBinOp(i); I.a=op(LLVMGetOperand(i,0)); I.b=op(LLVMGetOperand(i,1)); break; }
      case LLVMAtomicCmpXchg: { LLVMValueRef c=LLVMGetOperand(i,1); I.op=I_CMPXCHG; I.w=(u8)width_of(LLVMTypeOf(c)); I.a=op(LLVMGetOperand(i,0)); I.b=op(c); I.c=op(LLVMGetOperand(i,2)); break; }
      case LLVMVAArg: unsup(); break;
      case LLVMCall: {
        LLVMValueRef cv=LLVMGetCalledValue(i); I.op=I_CALL; unsigned n=LLVMGetNumArgOperands(i);
        if(LLVMIsAInlineAsm(cv)){ if(LLVMGetTypeKind(t)==LLVMVoidTypeKind){ I.op=I_NOP; } else unsup(); break; }
        while(LLVMGetValueKind(cv)==LLVMGlobalAliasValueKind) cv=LLVMAliasGetAliasee(cv);
        if(LLVMIsAFunction(cv)){ I.callee=fmap[cv]; 
          const std::string&nm=I.callee->name;
          if(nm.rfind("llvm.lifetime",0)==0||nm.rfind("llvm.dbg",0)==0||nm.rfind("llvm.assume",0)==0||nm.rfind("llvm.va_end",0)==0||nm.rfind("llvm.experimental.noalias",0)==0||nm.rfind("llvm.stackrestore",0)==0||nm.rfind("llvm.prefetch",0)==0||nm.rfind("llvm.donothing",0)==0){ I.op=I_NOP; I.dst=-1; break; }
          size_t p; if((p=nm.find(".with.overflow."))!=std::string::npos){ I.op=I_OVF; std::string k=nm.substr(5,p-5); I.sub=k=="uadd"?0:k=="sadd"?1:k=="usub"?2:k=="ssub"?3:k=="umul"?4:5; I.a=op(LLVMGetOperand(i,0)); I.b=op(LLVMGetOperand(i,1)); I.w=(u8)width_of(LLVMTypeOf(LLVMGetOperand(i,0))); if(bad(I.w)) unsup(); break; }
        } else I.a=op(cv);
        std::vector<u8> rw;std::vector<u32> ro; if(LLVMGetTypeKind(t)!=LLVMVoidTypeKind) slots(t,rw,ro); I.nslots=(int)rw.size(); I.slotw=rw;
        static unsigned bvk=LLVMGetEnumAttributeKindForName("byval",5);
        for(unsigned k=0;k<n;k++){ LLVMValueRef a=LLVMGetOperand(i,k); if(LLVMGetTypeKind(LLVMTypeOf(a))==LLVMMetadataTypeKind){ I.args.push_back(Opnd()); I.argw.push_back(0); I.byval.push_back(0); continue; } int aw=width_of(LLVMTypeOf(a)); I.args.push_back(op(a)); I.argw.push_back((u8)(aw<0?0:aw)); u32 bv=0; LLVMAttributeRef at=LLVMGetCallSiteEnumAttribute(i,k+1,bvk); if(at){ LLVMTypeRef bt=LLVMGetTypeAttributeValue(at); bv=(u32)tsize(bt);} I.byval.push_back(bv); }
        break; }
      default: unsup(); }
      I.pos=(u32)F->code.size(); F->code.push_back(std::move(I)); } }
  for(auto&I:F->code) for(auto&e:I.edges) e.target=F->blockstart[e.block];
  F->ninst=F->code.size(); }
