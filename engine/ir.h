#pragma once
#include "expr.h"
#include <map>
#include <llvm-c/Core.h>
#include <llvm-c/Target.h>

struct Opnd { int reg=-1; u64 c=0; };
enum IOp : u8 { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_CAST, I_FCAST, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_CALL, I_BR, I_CBR, I_SWITCH, I_RET,
  I_SELECT, I_COPY, I_UNREACHABLE, I_ATOMICRMW, I_CMPXCHG, I_FNEG, I_UNSUP, I_OVF, I_NOP };
enum { P_EQ=32, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
struct GepIdx { Opnd o; u8 w; u64 scale; };
struct PhiCopy { int dst; Opnd src; };
struct Edge { int target=-1; std::vector<PhiCopy> copies; int block=-1; };
struct Func;
struct Inst {
  IOp op; u8 sub=0; u8 w=0; u8 w2=0; int dst=-1; Opnd a,b,c; u64 imm=0; u32 line=0; u32 file=0; bool bitsone=false;
  std::vector<GepIdx> idx; std::vector<Opnd> args; std::vector<u8> argw; std::vector<u32> byval; // byval size per arg (0: none)
  std::vector<Edge> edges; std::vector<u64> cases; int nslots=1; std::vector<u8> slotw; std::vector<u32> slotoff;
  Func*callee=nullptr; const char*text=nullptr; u32 pos=0;
};
struct Func {
  std::string name; LLVMValueRef v=nullptr; u64 addr=0; bool converted=false, decl=false, vararg=false; int nregs=0;
  std::vector<int> argregs; std::vector<u8> argw; std::vector<Inst> code; int builtin=-1; bool used=false; Func*redirect=nullptr; int retslots=0;
  std::vector<int> blockstart; u64 ninst=0;
  std::string file;
};
struct Global { std::string name; LLVMValueRef v; u64 addr; u64 size; bool constant; bool ext; };
extern std::vector<Func*> g_funcs; extern std::map<std::string,Func*> g_fbyname; extern std::vector<Global> g_globals;
extern std::vector<std::string> g_files;
extern LLVMTargetDataRef g_td;
void ir_load(const std::vector<std::string>&files, const std::string&entry, const std::string&passes,const std::string&emit);
void ir_convert(Func*f);
void ir_init_bytes(LLVMValueRef init, u8*out, u64 size);
Func*func_at(u64 addr);
