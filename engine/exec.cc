#include <sys/mman.h>
// Path-exhaustive symbolic executor for LLVM IR.
#include "ir.h"
#include "solver.h"
#include <chrono>
#include <cmath>
#include <set>
#include <map>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <pthread.h>
#include <algorithm>
#include <memory>
extern u64 next_objid;
struct Val { u64 c=0; Expr*e=nullptr; };
static inline Expr* ex(const Val&v,u8 w){ return v.e?v.e:mk_const(v.c,w); }
static inline Val mkv(Expr*e){ Val v; if(is_c(e)) v.c=e->val; else v.e=e; return v; }
static inline Val cv(u64 c){ Val v; v.c=c; return v; }

enum { K_GLOBAL=1, K_HEAP, K_STACK, K_CONST, K_EXT };
struct Obj { int ref; u32 size; u8 kind; bool freed; u8*b; Expr**s; u32 cap; u32 site; const char*name; };
static Obj*obj_new(u32 size,u8 kind,u8 fill){ Obj*o=(Obj*)malloc(sizeof(Obj)); o->ref=1;o->size=size;o->kind=kind;o->freed=false;o->cap=size?size:1;o->b=(u8*)malloc(o->cap);memset(o->b,fill,o->cap);o->s=nullptr;o->site=0;o->name=nullptr; return o; }
static void obj_unref(Obj*o){ if(!--o->ref){ free(o->b); free(o->s); free(o);} }
static Obj*obj_clone(Obj*o){ Obj*n=(Obj*)malloc(sizeof(Obj)); *n=*o; n->ref=1; n->b=(u8*)malloc(o->cap); memcpy(n->b,o->b,o->cap); if(o->s){ n->s=(Expr**)malloc(sizeof(Expr*)*o->cap); memcpy(n->s,o->s,sizeof(Expr*)*o->cap);} return n; }
struct Leaf { int ref; Obj*o[64]; };
struct Mid { int ref; Leaf*l[64]; };
static void leaf_unref(Leaf*l){ if(!--l->ref){ for(auto o:l->o) if(o) obj_unref(o); delete l; } }
static void mid_unref(Mid*m){ if(!--m->ref){ for(auto l:m->l) if(l) leaf_unref(l); delete m; } }
struct Space {
  std::vector<Mid*> top;
  Space(){} Space(const Space&o):top(o.top){ for(auto m:top) if(m) m->ref++; } ~Space(){ for(auto m:top) if(m) mid_unref(m); }
  Space&operator=(const Space&)=delete;
  Obj*get(u64 id) const { u64 t=id>>12; if(t>=top.size()||!top[t]) return nullptr; Leaf*l=top[t]->l[id>>6&63]; return l?l->o[id&63]:nullptr; }
  Obj**slot(u64 id){ u64 t=id>>12; if(t>=top.size()) top.resize(t+1,nullptr); Mid*&m=top[t]; if(!m){ m=new Mid(); m->ref=1; memset(m->l,0,sizeof m->l);} else if(m->ref>1){ Mid*n=new Mid(*m); n->ref=1; for(auto l:n->l) if(l) l->ref++; m->ref--; m=n; }
    Leaf*&l=m->l[id>>6&63]; if(!l){ l=new Leaf(); l->ref=1; memset(l->o,0,sizeof l->o);} else if(l->ref>1){ Leaf*n=new Leaf(*l); n->ref=1; for(auto o:n->o) if(o) o->ref++; l->ref--; l=n; }
    return &l->o[id&63]; }
  Obj*wr(u64 id){ Obj**s=slot(id); if((*s)->ref>1){ Obj*n=obj_clone(*s); (*s)->ref--; *s=n; } return *s; }
  void put(u64 id,Obj*o){ Obj**s=slot(id); if(*s) obj_unref(*s); *s=o; }
  void drop(u64 id){ Obj**s=slot(id); if(*s){ obj_unref(*s); *s=nullptr; } }
};
struct Frame { Func*f; int pc; std::vector<Val> r; std::vector<u64> allocas; Inst*call; std::vector<Val> va; std::vector<u8> vaw; };
struct Thread { std::vector<Frame> st; int status=0; u64 wait=0; };
struct Input { u32 sym; u8 w; };
struct State {
  Space mem; std::vector<Thread> th; int cur=0; PathCond pc; u64 nextobj; u64 steps=0; std::vector<Input> in; std::map<std::string,int> names; i64 heap=0; int preempt=0; bool halted=false; std::vector<u32> trace;
  u64 lastid=0; Obj*last=nullptr; int depth=0;
  State():nextobj(0){}
  State(const State&o):mem(o.mem),th(o.th),cur(o.cur),pc(o.pc),nextobj(o.nextobj),steps(o.steps),in(o.in),names(o.names),heap(o.heap),preempt(o.preempt),halted(o.halted),trace(o.trace),depth(o.depth){}
};
static int g_preempt_bound=-1;
struct Err { std::string kind,msg,func,file,stack; u32 line; std::vector<std::pair<std::string,std::pair<int,u64>>> in; };
static std::vector<Err> errors; static std::map<std::string,u64> reached,known,incomplete,notes; static u64 n_paths=0,n_done=0,n_killed=0,n_forks=0,n_insts=0,n_asserts=0,n_assert_q=0,n_assert_const=0; static std::set<std::string> samples; static std::vector<std::string> wits;
static std::vector<State*> work; static u64 max_steps=20000000; static double time_limit=600; static size_t max_errors=1; static std::chrono::steady_clock::time_point T0; static bool stop_all=false; static u64 max_fork_vals=300; static u8 heap_fill=0xCB;
static int concrete_mode=0;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count(); }
static std::string jesc(const std::string&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=(char)c;} else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b;} else o+=(char)c; } return o; }
static const char*fname(u32 f){ return f<g_files.size()?g_files[f].c_str():"?"; }
static Frame&top(State*s){ return s->th[s->cur].st.back(); }
static Inst&curinst(State*s){ Frame&f=top(s); int pc=f.pc-1; if(pc<0)pc=0; return f.f->code[pc]; }
static void report(State*s,const std::string&kind,const std::string&msg){
  Err e; e.kind=kind; e.msg=msg; 
  if(!s->th[s->cur].st.empty()){ Inst&I=curinst(s); e.func=top(s).f->name; e.line=I.line; e.file=fname(I.file); 
    for(size_t i=s->th[s->cur].st.size();i-->0;){ Frame&f=s->th[s->cur].st[i]; int pc=f.pc>0?f.pc-1:0; char b[32]; snprintf(b,32,":%u",f.f->code.empty()?0:f.f->code[pc].line); e.stack+=f.f->name+b+" < "; if(e.stack.size()>1500) break; } } else { e.line=0; e.file="?"; }
  for(auto&i:s->in){ u64 v=i.sym<s->pc.model.size()?s->pc.model[i.sym]:0; e.in.push_back({g_syms[i.sym].name,{i.w,v}}); }
  bool dup=false; for(auto&x:errors) if(x.kind==e.kind&&x.func==e.func&&x.line==e.line&&x.msg==e.msg) dup=true;
  if(!dup) errors.push_back(e);
  if(errors.size()>=max_errors) stop_all=true; }
static void inc(const std::string&why,State*s){ std::string w=why; if(s&&!s->th[s->cur].st.empty()){ Inst&I=curinst(s); w+=" in "+top(s).f->name+":"+std::to_string(I.line); if(getenv("VP_STACK")) for(size_t i=s->th[s->cur].st.size();i-->0;){ Frame&f=s->th[s->cur].st[i]; w+=" < "+f.f->name; } } incomplete[w]++; }
bool sym_bounds(PathCond&pc,u32 s,u64&lo,u64&hi); int order_decided(PathCond&pc,Expr*c);
enum Step { GO, END }; // END: path is over (state finished)
static State*fork_state(State*s){ n_forks++; State*n=new State(*s); return n; }
static void push(State*s){ work.push_back(s); }
// decide branch: returns 0 (only false), 1 (only true), 2 both; fills model for the other side
static bool feasible(State*s,Expr*c,std::vector<u64>&m){ Res r=check(s->pc,c,m); if(r==UNKNOWN){ inc("solver unknown",s); return false;} return r==SAT; }
static inline void assume_m(State*s,Expr*c,const std::vector<u64>&m){ s->pc.model=m; add_constraint(s->pc,c); }
// constrain path to c (known feasible with current model or update)
static bool assume_or_kill(State*s,Expr*c){ std::vector<u64> m; if(!feasible(s,c,m)) return false; assume_m(s,c,m); return true; }
// fork over concrete values of e; on return this state has e==value; others pushed with pc rewound to re-execute the instruction
static bool concretize(State*s,Expr*e,u64&out,const char*why){
  if(is_c(e)){ out=e->val; return true; }
  // rewind pc for the siblings: they re-execute the instruction under e != v
  if(e->op==E_ZEXT) e=e->a;
  u64 lo,hi; if(e->op==E_SYM&&e->w>8&&sym_bounds(s->pc,(u32)e->val,lo,hi)){ // only bounds known: bisect
    while(lo<hi){ u64 mid=lo+(hi-lo)/2; Expr*le=mk_bin(E_ULE,e,mk_const(mid,e->w)); std::vector<u64> m1,m2; bool a=feasible(s,mk_not(le),m1),b=feasible(s,le,m2);
      if(a&&b){ State*o=fork_state(s); assume_m(o,mk_not(le),m1); Frame&f=top(o); f.pc--; push(o); }
      if(b){ assume_m(s,le,m2); hi=mid; } else { assume_m(s,mk_not(le),m1); lo=mid+1; } }
    out=lo; return true; }
  u64 v=eval(e,s->pc.model); Expr*eq=mk_bin(E_EQ,e,mk_const(v,e->w)); Expr*ne=mk_not(eq); std::vector<u64> m;
  int sy; if(s->depth>20000){ inc(std::string("too many values: ")+why,s); return false; } (void)sy;
  if(feasible(s,ne,m)){ State*o=fork_state(s); o->depth++; assume_m(o,ne,m); Frame&f=top(o); f.pc--; push(o); }
  add_constraint(s->pc,eq); s->depth=0; out=v; return true; }
static bool val_conc(State*s,const Val&v,u8 w,u64&out,const char*why){ if(!v.e){ out=v.c&mask(w); return true;} return concretize(s,v.e,out,why); }

static Obj*lookup(State*s,u64 addr){ u64 id=addr>>32; if(id==s->lastid&&s->last) return s->last; Obj*o=s->mem.get(id); return o; }
static std::string objdesc(Obj*o){ std::string k=o->kind==K_HEAP?"heap":o->kind==K_STACK?"stack":"global"; return k+" object of "+std::to_string(o->size)+" bytes"+(o->name?std::string(" '")+o->name+"'":""); }
// check [addr,addr+n) valid; reports otherwise
static bool valid(State*s,u64 addr,u64 n,bool write,Obj*&o){
  o=lookup(s,addr); u64 off=addr&0xffffffffu;
  if(!o){ report(s,"memory",addr<0x100000000ull? (addr<4096?"NULL pointer access":"invalid pointer access"):"access through a dangling or wild pointer"); return false; }
  if(o->freed){ report(s,"memory",std::string(write?"write":"read")+" after free of "+objdesc(o)); return false; }
  if(o->kind==K_EXT){ inc(std::string("external global ")+(o->name?o->name:"?"),s); return false; }
  if(off>o->size||n>o->size-off){ report(s,"memory",std::string("out-of-bounds ")+(write?"write":"read")+" of "+std::to_string(n)+" bytes at offset "+std::to_string((i64)(int32_t)off)+" of "+objdesc(o)); return false; }
  if(write&&o->kind==K_CONST){ report(s,"memory",std::string("write to constant ")+objdesc(o)); return false; }
  return true; }
static Expr*byte_ex(Obj*o,u64 off){ if(o->s&&o->s[off]) return o->s[off]; return mk_const(o->b[off],8); }
static Val read_val(Obj*o,u64 off,u8 w){
  u32 n=(w+7)/8;
  if(o->s){ bool sym=false; for(u32 i=0;i<n;i++) if(o->s[off+i]){ sym=true; break; }
    if(sym){ Expr*e=byte_ex(o,off+n-1); for(u32 i=n-1;i-->0;) e=mk_concat(e,byte_ex(o,off+i)); if(w%8) e=mk_extract(e,0,w); return mkv(e); } }
  u64 v=0; memcpy(&v,o->b+off,n); return cv(v&mask(w)); }
static void write_val(Obj*o,u64 off,const Val&v,u8 w){
  u32 n=(w+7)/8;
  if(!v.e){ u64 c=v.c&mask(w); memcpy(o->b+off,&c,n); if(o->s) for(u32 i=0;i<n;i++) o->s[off+i]=nullptr; return; }
  if(!o->s){ o->s=(Expr**)calloc(o->cap,sizeof(Expr*)); }
  Expr*e=v.e; if(e->w<n*8) e=mk_ext(E_ZEXT,e,(u8)(n*8));
  for(u32 i=0;i<n;i++){ Expr*x=mk_extract(e,(u8)(8*i),8); if(is_c(x)){ o->b[off+i]=(u8)x->val; o->s[off+i]=nullptr; } else o->s[off+i]=x; } }
static Obj*wobj(State*s,u64 addr){ Obj*o=s->mem.wr(addr>>32); s->lastid=addr>>32; s->last=nullptr; return o; }
static bool wcheck(State*s,u64 addr,u64 n,Obj*&o){ if(!valid(s,addr,n,true,o)) return false; o=wobj(s,addr); return true; }
static u32 tz(Expr*e){ switch(e->op){ case E_CONST: return e->val?__builtin_ctzll(e->val):64; case E_SHL: return is_c(e->b)?tz(e->a)+(u32)e->b->val:tz(e->a); case E_ADD: case E_SUB: case E_OR: { u32 a=tz(e->a),b=tz(e->b); return a<b?a:b; } case E_MUL: { u32 x=tz(e->a)+tz(e->b); return x>64?64:x; } case E_ZEXT: case E_SEXT: return tz(e->a)>=e->a->w?64:tz(e->a); case E_CONCAT: return tz(e->b)>=e->b->w? e->b->w+tz(e->a):tz(e->b); case E_AND: { u32 a=tz(e->a),b=tz(e->b); return a>b?a:b; } default: return 0; } }
// multiple of stride analysis: largest k such that e is a multiple of k (small)
static u64 mult_of(Expr*e){ switch(e->op){ case E_CONST: return e->val; case E_MUL: { if(is_c(e->b)) return e->b->val*(mult_of(e->a)?mult_of(e->a):1); return 1ull<<std::min(tz(e),16u); } case E_ADD: { u64 a=mult_of(e->a),b=mult_of(e->b); return std::__gcd(a,b); } case E_ZEXT: case E_SEXT: { u64 k=mult_of(e->a); return k?k:1; } default: { u32 t=tz(e); return 1ull<<std::min(t,16u);} } }
// Resolve a symbolic address: returns true if resolved to object containing it (adds constraint, maybe forks); base address returned
static bool resolve_sym(State*s,Expr*addr,u64 n,bool write,u64&id,Obj*&o){
  u64 v=eval(addr,s->pc.model); id=v>>32; o=s->mem.get(id);
  if(!o||o->freed||(u64)(v&0xffffffffu)+n>o->size){ // this model is already bad: pin and report
    add_constraint(s->pc,mk_bin(E_EQ,addr,mk_const(v,64))); Obj*x; valid(s,v,n,write,x); return false; }
  if(write&&o->kind==K_CONST){ Obj*x; valid(s,v,n,write,x); return false; }
  Expr*base=mk_const(id<<32,64); Expr*off=mk_bin(E_SUB,addr,base); Expr*inb=o->size>=n?mk_bin(E_ULE,off,mk_const(o->size-n,64)):mk_const(0,1);
  Expr*outb=mk_not(inb); std::vector<u64> m;
  if(feasible(s,outb,m)){ State*t=fork_state(s); assume_m(t,outb,m); top(t).pc--; push(t); }
  add_constraint(s->pc,inb); return true; }
static Val load_sym(State*s,Expr*addr,u8 w,bool&ok){
  ok=true; u32 n=(w+7)/8; u64 id; Obj*o; if(!resolve_sym(s,addr,n,false,id,o)){ ok=false; return Val(); }
  Expr*off=mk_bin(E_SUB,addr,mk_const(id<<32,64));
  // stride
  u64 st=mult_of(off); while(st>n&&st%n==0&&st>4096) st/=2; 
  // split constant part: off = k + rest
  u64 k=0; Expr*rest=off; if(off->op==E_ADD&&is_c(off->b)){ rest=off->a; u64 st2=mult_of(rest); if(st2>st){ u64 kk=off->b->val; if((i64)kk>=0&&kk<o->size){ k=kk%st2; st=st2; } else if((i64)kk<0){ k=(u64)((((i64)kk%(i64)st2)+(i64)st2)%(i64)st2); st=st2; } } }
  if(st==0) st=1;
  u64 cnt=o->size>=k+n?(o->size-k-n)/st+1:0; if(cnt>70000){ u64 v; if(!concretize(s,addr,v,"huge symbolic read")) { ok=false; return Val(); } return read_val(o,v&0xffffffffu,w); }
  std::vector<Expr*> el(cnt); for(u64 i=0;i<cnt;i++) el[i]=ex(read_val(o,k+i*st,w),w);
  static std::map<std::pair<Obj*,std::pair<u64,std::pair<u64,u8>>>,Table*> tc; Table*t=intern_table(el,w);
  Expr*idx=mk_bin(E_SUB,off,mk_const(k,64)); if(st!=1){ if(!(st&(st-1))) idx=mk_bin(E_LSHR,idx,mk_const(__builtin_ctzll(st),64)); else if(idx->op==E_MUL&&is_c(idx->b)&&idx->b->val==st){ // index times stride; in range so no wrap issue when the index is in range
        Expr*i2=idx->a; Expr*nw=mk_bin(E_ULT,i2,mk_const(cnt,64)); std::vector<u64> m; if(!feasible(s,mk_not(nw),m)) idx=i2; else idx=mk_bin(E_UDIV,idx,mk_const(st,64)); } else idx=mk_bin(E_UDIV,idx,mk_const(st,64)); }
  u32 bits=1; while((1ull<<bits)<cnt) bits++; idx=mk_extract(idx,0,(u8)bits);
  return mkv(mk_table(t,idx)); }
static bool do_load(State*s,const Val&p,u8 w,Val&out,u32 extra=0){
  if(p.e){ bool ok; Expr*a=extra?mk_bin(E_ADD,p.e,mk_const(extra,64)):p.e; out=load_sym(s,a,w,ok); return ok; }
  Obj*o; u64 a=p.c+extra; if(!valid(s,a,(w+7)/8,false,o)) return false; s->lastid=a>>32; s->last=o; out=read_val(o,a&0xffffffffu,w); return true; }
static bool do_store(State*s,const Val&p,const Val&v,u8 w,u32 extra=0){
  u64 a; if(p.e){ u64 id; Obj*o; if(!resolve_sym(s,p.e,(w+7)/8+extra,true,id,o)) return false; if(!concretize(s,p.e,a,"symbolic store address")) return false; } else a=p.c;
  a+=extra; Obj*o; if(!wcheck(s,a,(w+7)/8,o)) return false; write_val(o,a&0xffffffffu,v,w); return true; }
static u64 alloc_obj(State*s,u64 size,u8 kind,u8 fill){ u64 id=s->nextobj++; s->mem.put(id,obj_new((u32)size,kind,fill)); s->last=nullptr; s->lastid=0; return id<<32; }

// ---------- builtins
enum B { B_NONE=0,B_MALLOC,B_CALLOC,B_REALLOC,B_FREE,B_MEMCPY,B_MEMMOVE,B_MEMSET,B_ABORT,B_SYM,B_SYMBYTES,B_ASSUME,B_ASSERT,B_REACH,B_KNOWN,B_NOTE,B_CONC,B_HEAPLIVE,B_EXIT,B_VASTART,B_VACOPY,B_TRAP,B_STACKSAVE,B_CTPOP,B_CTLZ,B_CTTZ,B_BSWAP,B_ABS,B_SMAX,B_SMIN,B_UMAX,B_UMIN,B_EXPECT,B_FSHL,B_FSHR,B_OBJSIZE,B_SPAWN,B_YIELD,B_BLOCK,B_WAKE,B_SELF,B_SCHEDBOUND,B_FABS,B_FLOOR,B_CEIL,B_POW,B_FMUL,B_TRUNCF,B_ROUNDF,B_SAMPLE,B_ISSYM,B_ERRNO,B_USCALE,B_READABLE,B_ISNAN,B_SQRT,B_FAIL,B_PRINT,B_CHOOSE,B_LOG10,B_ROUNDEVEN,B_MEMEQ,B_FMOD,B_BITREV,B_OBJBYTES,B_ISCONST,B_USUBSAT,B_UADDSAT };
struct BN { const char*n; int b; bool pre; };
static BN bns[]={{"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"memcpy",B_MEMCPY},{"memmove",B_MEMMOVE},{"memset",B_MEMSET},{"abort",B_ABORT},{"exit",B_ABORT},{"_exit",B_ABORT},{"__assert_fail",B_ABORT},
 {"vp_sym",B_SYM},{"vp_sym_bytes",B_SYMBYTES},{"vp_assume",B_ASSUME},{"vp_assert_",B_ASSERT},{"vp_reach",B_REACH},{"vp_known_",B_KNOWN},{"vp_note",B_NOTE},{"vp_conc",B_CONC},{"vp_heap_live",B_HEAPLIVE},{"vp_end",B_EXIT},{"vp_malloc",B_MALLOC},{"vp_free",B_FREE},
 {"llvm.va_start",B_VASTART,true},{"llvm.va_copy",B_VACOPY,true},{"llvm.trap",B_TRAP},{"llvm.ubsantrap",B_TRAP},{"llvm.stacksave",B_STACKSAVE,true},{"llvm.memcpy",B_MEMCPY,true},{"llvm.memmove",B_MEMMOVE,true},{"llvm.memset",B_MEMSET,true},{"llvm.ctpop",B_CTPOP,true},{"llvm.ctlz",B_CTLZ,true},{"llvm.cttz",B_CTTZ,true},{"llvm.bswap",B_BSWAP,true},{"llvm.abs",B_ABS,true},{"llvm.smax",B_SMAX,true},{"llvm.smin",B_SMIN,true},{"llvm.umax",B_UMAX,true},{"llvm.umin",B_UMIN,true},{"llvm.expect",B_EXPECT,true},{"llvm.fshl",B_FSHL,true},{"llvm.fshr",B_FSHR,true},{"llvm.objectsize",B_OBJSIZE,true},{"llvm.usub.sat",B_USUBSAT,true},{"llvm.uadd.sat",B_UADDSAT,true},{"llvm.is.constant",B_ISCONST,true},{"llvm.bitreverse",B_BITREV,true},
 {"vp_thread_spawn",B_SPAWN},{"vp_yield",B_YIELD},{"vp_block",B_BLOCK},{"vp_wake",B_WAKE},{"vp_self",B_SELF},{"vp_sched_bound",B_SCHEDBOUND},{"llvm.fabs",B_FABS,true},{"llvm.floor",B_FLOOR,true},{"llvm.ceil",B_CEIL,true},{"floor",B_FLOOR},{"ceil",B_CEIL},{"fabs",B_FABS},{"pow",B_POW},{"llvm.fmuladd",B_FMUL,true},{"llvm.trunc",B_TRUNCF,true},{"trunc",B_TRUNCF},{"round",B_ROUNDF},{"llvm.round.",B_ROUNDF,true},{"sqrt",B_SQRT},{"log10",B_LOG10},{"fmod",B_FMOD},{"llvm.pow",B_POW,true},
 {"vp_sample_",B_SAMPLE},{"vp_is_sym",B_ISSYM},{"vp_readable",B_READABLE},{"vp_fail_",B_FAIL},{"vp_print",B_PRINT},{"vp_obj_size",B_OBJBYTES}};
static int builtin_of(const std::string&n){ for(auto&b:bns) if(b.pre? n.rfind(b.n,0)==0 : n==b.n) return b.b; return B_NONE; }
static std::string cstr(State*s,u64 a){ std::string r; Obj*o=s->mem.get(a>>32); if(!o) return "?"; for(u64 i=a&0xffffffffu;i<o->size&&o->b[i];i++) r+=(char)o->b[i]; return r; }
static Val new_input(State*s,const std::string&nm,u8 w){ int k=s->names[nm]++; std::string full=k?nm+"~"+std::to_string(k):nm; u32 i=new_sym(full,w); s->in.push_back({i,w}); s->pc.domain(i); if(s->pc.model.size()<=i) s->pc.model.resize(i+1,0); return mkv(mk_sym(i)); }
static bool mem_copy(State*s,u64 d,u64 p,u64 n){
  if(!n) return true; Obj*so,*dd; if(!valid(s,p,n,false,so)) return false; if(!valid(s,d,n,true,dd)) return false;
  dd=wobj(s,d); so=s->mem.get(p>>32); u64 doff=d&0xffffffffu,soff=p&0xffffffffu;
  memmove(dd->b+doff,so->b+soff,n);
  if(so->s){ bool any=false; for(u64 i=0;i<n;i++) if(so->s[soff+i]){any=true;break;} if(any&&!dd->s) dd->s=(Expr**)calloc(dd->cap,sizeof(Expr*)); if(dd->s) memmove(dd->s+doff,so->s+soff,n*sizeof(Expr*)); }
  else if(dd->s) memset(dd->s+doff,0,n*sizeof(Expr*));
  return true; }
static Step run_path(State*s);
static bool switch_thread(State*s,int tid){ if(tid!=s->cur){ s->cur=tid; } return true; }
// choose next runnable thread; self_ok: current may continue. Returns false if path ended
static bool schedule(State*s,bool self_ok,bool rewind_after){
  std::vector<int> run; if(self_ok&&s->th[s->cur].status==0) run.push_back(s->cur); for(int i=0;i<(int)s->th.size();i++) if(s->th[i].status==0&&!(self_ok&&i==s->cur)) run.push_back(i);
  (void)rewind_after;
  if(run.empty()){ bool all=true; std::string d; for(size_t i=0;i<s->th.size();i++) if(s->th[i].status==1){ all=false; d+=" "+std::to_string(i)+"@"+(s->th[i].st.empty()?"?":s->th[i].st.back().f->name); } if(!all){ for(size_t i=0;i<s->th.size();i++) if(s->th[i].status==1&&!s->th[i].st.empty()){ s->cur=(int)i; break; } report(s,"deadlock","no thread can run; blocked:"+d); } return false; }
  bool preempting=self_ok&&s->th[s->cur].status==0&&run[0]==s->cur;
  if(preempting&&g_preempt_bound>=0&&s->preempt>=g_preempt_bound) return true;
  int old=s->cur;
  if(run.size()==1){ return switch_thread(s,run[0]); }
  // symbolic schedule choice, decided by forking on its value
  Val ch=new_input(s,"sched",8); Expr*c=ch.e; std::vector<u64> m;
  for(size_t i=1;i<run.size();i++){ Expr*eq=mk_bin(E_EQ,c,mk_const(i,8)); if(feasible(s,eq,m)){ State*o=fork_state(s); assume_m(o,eq,m); if(preempting) o->preempt++; switch_thread(o,run[i]); push(o); } }
  Expr*eq=mk_bin(E_EQ,c,mk_const(0,8)); feasible(s,eq,m); assume_m(s,eq,m); (void)old; switch_thread(s,run[0]); return true; }

static inline Val& R(Frame&f,int r){ return f.r[r]; }
static inline Val get(Frame&f,const Opnd&o){ if(o.reg>=0) return f.r[o.reg]; return cv(o.c); }
static double asd(u64 b,u8 w){ if(w==32){ float f; u32 x=(u32)b; memcpy(&f,&x,4); return f;} double d; memcpy(&d,&b,8); return d; }
static u64 fromd(double d,u8 w){ u64 r=0; if(w==32){ float f=(float)d; memcpy(&r,&f,4);} else memcpy(&r,&d,8); return r; }
static void enter_edge(Frame&f,Edge&e){ if(e.copies.size()==1){ f.r[e.copies[0].dst]=get(f,e.copies[0].src); } else if(!e.copies.empty()){ static std::vector<Val> tmp; tmp.clear(); for(auto&c:e.copies) tmp.push_back(get(f,c.src)); for(size_t i=0;i<tmp.size();i++) f.r[e.copies[i].dst]=tmp[i]; } f.pc=e.target; }
static bool call_func(State*s,Func*g,std::vector<Val>&args,const std::vector<u8>&aw,Inst*call,std::vector<u32>*byval){
  ir_convert(g); if(g->decl||g->code.empty()){ inc("call to unmodelled function "+g->name,s); return false; }
  g->used=true; auto&st=s->th[s->cur].st; if(st.size()>4000){ report(s,"recursion","unbounded recursion in "+g->name); return false; }
  st.emplace_back(); Frame&f=st.back(); f.f=g; f.pc=0; f.call=call; f.r.resize(g->nregs);
  size_t np=g->argregs.size(); if(args.size()<np){ inc("too few arguments to "+g->name,s); return false; }
  for(size_t i=0;i<np;i++){ f.r[g->argregs[i]]=args[i]; if(byval&&i<byval->size()&&(*byval)[i]){ u64 n=(*byval)[i]; u64 a=alloc_obj(s,n,K_STACK,0); f.allocas.push_back(a); if(args[i].e){ inc("symbolic byval",s); return false;} if(!mem_copy(s,a,args[i].c,n)) return false; f.r[g->argregs[i]]=cv(a); } }
  for(size_t i=np;i<args.size();i++){ f.va.push_back(args[i]); f.vaw.push_back(i<aw.size()?aw[i]:64); }
  return true; }
static bool ret_from(State*s,std::vector<Val>&vals){
  auto&st=s->th[s->cur].st; Frame&f=st.back(); for(u64 a:f.allocas) s->mem.drop(a>>32); s->last=nullptr; s->lastid=0; Inst*call=f.call; st.pop_back();
  if(st.empty()){ // thread finished
    s->th[s->cur].status=2; if(s->cur==0) return false; u64 key=0xfffffff000000000ull+(u64)s->cur; for(auto&t:s->th) if(t.status==1&&t.wait==key) t.status=0; return schedule(s,false,false); }
  if(call&&call->dst>=0) for(size_t i=0;i<vals.size();i++) st.back().r[call->dst+i]=vals[i];
  return true; }
// returns: 1 continue, 0 path over
static int do_builtin(State*s,int b,Inst&I,std::vector<Val>&a,Func*callee){
  Frame&f=top(s); auto setr=[&](const Val&v){ if(I.dst>=0) top(s).r[I.dst]=v; };
  auto A=[&](int i,u64&o,const char*why)->bool{ return val_conc(s,a[i],I.argw[i]?I.argw[i]:64,o,why); };
  switch(b){
  case B_MALLOC: { u64 n; if(!A(0,n,"malloc size")) return 0; if(n>(1u<<26)){ setr(cv(0)); return 1; } u64 p=alloc_obj(s,n,K_HEAP,heap_fill); Obj*o=s->mem.get(p>>32); o->site=I.line; s->heap++; setr(cv(p)); return 1; }
  case B_CALLOC: { u64 n,k; if(!A(0,n,"calloc")||!A(1,k,"calloc")) return 0; u64 t=n*k; if(t>(1u<<26)){ setr(cv(0)); return 1; } u64 p=alloc_obj(s,t,K_HEAP,0); s->heap++; setr(cv(p)); return 1; }
  case B_REALLOC: { u64 p,n; if(!A(0,p,"realloc")||!A(1,n,"realloc")) return 0; u64 q=alloc_obj(s,n,K_HEAP,heap_fill); s->heap++; if(p){ Obj*o=s->mem.get(p>>32); if(!o||o->kind!=K_HEAP||(p&0xffffffffu)||o->freed){ report(s,"memory","realloc of invalid pointer"); return 0; } mem_copy(s,q,p,std::min<u64>(n,o->size)); Obj*w=s->mem.wr(p>>32); w->freed=true; s->heap--; s->last=nullptr; } setr(cv(q)); return 1; }
  case B_FREE: { u64 p; if(!A(0,p,"free")) return 0; if(!p) return 1; Obj*o=s->mem.get(p>>32); if(!o||o->kind!=K_HEAP||(p&0xffffffffu)){ report(s,"memory","free of a pointer that is not a heap block"); return 0; } if(o->freed){ report(s,"memory","double free"); return 0; } Obj*w=s->mem.wr(p>>32); w->freed=true; s->heap--; s->last=nullptr; return 1; }
  case B_MEMCPY: case B_MEMMOVE: { u64 d,p,n; if(!A(0,d,"memcpy dst")||!A(1,p,"memcpy src")||!A(2,n,"memcpy length")) return 0;
      if(b==B_MEMCPY&&n&&d!=p&&(d>>32)==(p>>32)&&((d<p&&d+n>p)||(p<d&&p+n>d))){ report(s,"memory","memcpy of overlapping regions"); return 0; }
      if(!mem_copy(s,d,p,n)) return 0; setr(a[0]); return 1; }
  case B_MEMSET: { u64 d,n; if(!A(0,d,"memset dst")||!A(2,n,"memset length")) return 0; if(n){ Obj*o; if(!wcheck(s,d,n,o)) return 0; u64 off=d&0xffffffffu; Val v=a[1]; if(v.e) v=mkv(mk_extract(v.e,0,8)); else v.c&=0xff; if(!v.e){ memset(o->b+off,(int)v.c,n); if(o->s) memset(o->s+off,0,n*sizeof(Expr*)); } else for(u64 i=0;i<n;i++) write_val(o,off+i,v,8); } setr(a[0]); return 1; }
  case B_ABORT: report(s,"abort",callee->name+"() called"); return 0;
  case B_TRAP: report(s,"trap","undefined behaviour trap"); return 0;
  case B_SYM: { u64 w; if(!A(1,w,"")) return 0; Val v=new_input(s,cstr(s,a[0].c),(u8)w); if(w<64) v=mkv(mk_ext(E_ZEXT,v.e,64)); setr(v); return 1; }
  case B_SYMBYTES: { u64 p,n; if(!A(0,p,"")||!A(1,n,"")) return 0; std::string nm=cstr(s,a[2].c); int k=s->names[nm]++; if(k) nm+="~"+std::to_string(k); Obj*o; if(n&&!wcheck(s,p,n,o)) return 0; for(u64 i=0;i<n;i++){ u32 sy=new_sym(nm+"["+std::to_string(i)+"]",8); s->in.push_back({sy,8}); s->pc.domain(sy); if(s->pc.model.size()<=sy) s->pc.model.resize(sy+1,0); write_val(o,(p&0xffffffffu)+i,mkv(mk_sym(sy)),8); } return 1; }
  case B_ASSUME: { Val c=a[0]; if(!c.e){ if(!(c.c&mask(I.argw[0]))){ n_killed++; return 0; } return 1; } Expr*e=mk_not(mk_bin(E_EQ,c.e,mk_const(0,c.e->w))); if(!assume_or_kill(s,e)){ n_killed++; return 0; } return 1; }
  case B_ASSERT: { n_asserts++; Val c=a[0]; std::string m=cstr(s,a[1].c); if(!c.e){ n_assert_const++; if(!(c.c&mask(I.argw[0]))){ report(s,"assert",m); return 0; } return 1; }
      Expr*bad=mk_bin(E_EQ,c.e,mk_const(0,c.e->w)); n_assert_q++; std::vector<u64> mo; Res r=check(s->pc,bad,mo); if(r==UNKNOWN){ inc("solver unknown on assertion",s); return 0; }
      if(r==UNSAT) confirm_unsat(s->pc,bad);
      if(r==SAT){ std::vector<u64> old=s->pc.model; s->pc.model=mo; report(s,"assert",m); if(stop_all) return 0; s->pc.model=old; }
      if(!assume_or_kill(s,mk_not(bad))) return 0; return 1; }
  case B_FAIL: report(s,"assert",cstr(s,a[0].c)); return 0;
  case B_REACH: reached[cstr(s,a[0].c)]++; return 1;
  case B_KNOWN: known[cstr(s,a[0].c)]++; return 0;
  case B_NOTE: case B_PRINT: return 1;
  case B_SAMPLE: return 1;
  case B_CONC: { u64 v; if(!A(0,v,"vp_conc")) return 0; setr(cv(v)); return 1; }
  case B_ISSYM: setr(cv(a[0].e?1:0)); return 1;
  case B_HEAPLIVE: setr(cv((u64)s->heap)); return 1;
  case B_EXIT: n_done++; return 0;
  case B_READABLE: { u64 p,n; if(!A(0,p,"")||!A(1,n,"")) return 0; Obj*o; if(n&&!valid(s,p,n,false,o)) return 0; return 1; }
  case B_OBJBYTES: { u64 p; if(!A(0,p,"")) return 0; Obj*o=s->mem.get(p>>32); setr(cv(o&&!o->freed?o->size-(p&0xffffffffu):0)); return 1; }
  case B_VASTART: { u64 p=a[0].c; u64 n=f.va.size(); u64 area=alloc_obj(s,n*8+8,K_STACK,0); f.allocas.push_back(area); Obj*o=s->mem.get(area>>32); for(u64 i=0;i<n;i++){ Val v=f.va[i]; u8 w=f.vaw[i]; if(w==0||w>64) w=64; if(v.e&&v.e->w<64) v=mkv(mk_ext(E_ZEXT,v.e,64)); write_val(o,i*8,v,64); } Obj*l; if(!wcheck(s,p,24,l)) return 0; write_val(l,(p&0xffffffffu),cv(48),32); write_val(l,(p&0xffffffffu)+4,cv(304),32); write_val(l,(p&0xffffffffu)+8,cv(area),64); write_val(l,(p&0xffffffffu)+16,cv(0),64); return 1; }
  case B_VACOPY: return mem_copy(s,a[0].c,a[1].c,24)?1:0;
  case B_STACKSAVE: setr(cv(0)); return 1;
  case B_CTPOP: { u8 w=I.argw[0]; if(!a[0].e){ setr(cv((u64)__builtin_popcountll(a[0].c&mask(w)))); return 1; } Expr*r=mk_const(0,w); for(int i=0;i<w;i++) r=mk_bin(E_ADD,r,w==1?mk_extract(a[0].e,(u8)i,1):mk_ext(E_ZEXT,mk_extract(a[0].e,(u8)i,1),w)); setr(mkv(r)); return 1; }
  case B_CTLZ: case B_CTTZ: { u8 w=I.argw[0]; if(!a[0].e){ u64 v=a[0].c&mask(w); u64 r=v? (b==B_CTLZ?__builtin_clzll(v)-(64-w):__builtin_ctzll(v)):w; setr(cv(r)); return 1; } Expr*r=mk_const(w,w); if(b==B_CTLZ) for(int i=0;i<w;i++) r=mk_ite(mk_extract(a[0].e,(u8)i,1),mk_const((u64)(w-1-i),w),r); else for(int i=w;i-->0;) r=mk_ite(mk_extract(a[0].e,(u8)i,1),mk_const((u64)i,w),r); setr(mkv(r)); return 1; }
  case B_BSWAP: { u8 w=I.argw[0]; Expr*e=ex(a[0],w),*r=nullptr; for(int i=0;i<w/8;i++){ Expr*x=mk_extract(e,(u8)(8*i),8); r=r?mk_concat(r,x):x; } setr(mkv(r)); return 1; }
  case B_ABS: { u8 w=I.argw[0]; Expr*e=ex(a[0],w); setr(mkv(mk_ite(mk_bin(E_SLT,e,mk_const(0,w)),mk_bin(E_SUB,mk_const(0,w),e),e))); return 1; }
  case B_SMAX: case B_SMIN: case B_UMAX: case B_UMIN: { u8 w=I.argw[0]; Expr*x=ex(a[0],w),*y=ex(a[1],w); Expr*lt=mk_bin(b==B_SMAX||b==B_SMIN?E_SLT:E_ULT,x,y); setr(mkv(b==B_SMAX||b==B_UMAX?mk_ite(lt,y,x):mk_ite(lt,x,y))); return 1; }
  case B_USUBSAT: { u8 w=I.argw[0]; Expr*x=ex(a[0],w),*y=ex(a[1],w); setr(mkv(mk_ite(mk_bin(E_ULT,x,y),mk_const(0,w),mk_bin(E_SUB,x,y)))); return 1; }
  case B_UADDSAT: { u8 w=I.argw[0]; Expr*x=ex(a[0],w),*y=ex(a[1],w); Expr*su=mk_bin(E_ADD,x,y); setr(mkv(mk_ite(mk_bin(E_ULT,su,x),mk_const(~0ull,w),su))); return 1; }
  case B_EXPECT: setr(a[0]); return 1;
  case B_ISCONST: setr(cv(0)); return 1;
  case B_FSHL: case B_FSHR: { u8 w=I.argw[0]; Expr*x=ex(a[0],w),*y=ex(a[1],w); Expr*sh=mk_bin(E_AND,ex(a[2],w),mk_const(w-1,w)); Expr*inv=mk_bin(E_SUB,mk_const(w,w),sh); Expr*z=mk_bin(E_EQ,sh,mk_const(0,w)); if(b==B_FSHL) setr(mkv(mk_ite(z,x,mk_bin(E_OR,mk_bin(E_SHL,x,sh),mk_bin(E_LSHR,y,inv))))); else setr(mkv(mk_ite(z,y,mk_bin(E_OR,mk_bin(E_SHL,x,inv),mk_bin(E_LSHR,y,sh))))); return 1; }
  case B_OBJSIZE: setr(cv(~0ull)); return 1;
  case B_SPAWN: { u64 fn; if(!A(0,fn,"")) return 0; Func*g=func_at(fn); if(!g){ inc("spawn",s); return 0; } ir_convert(g); g->used=true; Thread t; Frame fr; fr.f=g; fr.pc=0; fr.call=nullptr; fr.r.resize(g->nregs); fr.r[g->argregs[0]]=a[1]; t.st.push_back(fr); s->th.push_back(t); if(I.dst>=0) s->th[s->cur].st.back().r[I.dst]=cv(s->th.size()-1); return 1; }
  case B_SELF: setr(cv((u64)s->cur)); return 1;
  case B_SCHEDBOUND: g_preempt_bound=(int)a[0].c; return 1;
  case B_YIELD: return schedule(s,true,false)?1:0;
  case B_BLOCK: { u64 k=a[0].c; if(k>=0xfffffff000000000ull){ u64 t=k-0xfffffff000000000ull; if(t<s->th.size()&&s->th[t].status==2) return 1; } s->th[s->cur].status=1; s->th[s->cur].wait=k; return schedule(s,false,false)?1:0; }
  case B_WAKE: { u64 k=a[0].c,n=a[1].c; std::vector<int> w; for(int i=0;i<(int)s->th.size();i++) if(s->th[i].status==1&&s->th[i].wait==k) w.push_back(i); if(n>=w.size()){ for(int i:w) s->th[i].status=0; } else if(n==1){ Val ch=new_input(s,"wake",8); std::vector<u64> m; for(size_t i=1;i<w.size();i++){ Expr*eq=mk_bin(E_EQ,ch.e,mk_const(i,8)); if(feasible(s,eq,m)){ State*o=fork_state(s); assume_m(o,eq,m); o->th[w[i]].status=0; if(I.dst>=0) top(o).r[I.dst]=cv(1); push(o);} } Expr*eq=mk_bin(E_EQ,ch.e,mk_const(0,8)); feasible(s,eq,m); assume_m(s,eq,m); s->th[w[0]].status=0; } setr(cv(w.size())); return 1; }
  case B_FABS: case B_FLOOR: case B_CEIL: case B_TRUNCF: case B_ROUNDF: case B_SQRT: case B_LOG10: { u64 v; u8 w=I.argw[0]; if(!A(0,v,"symbolic float")) return 0; double d=asd(v,w); d= b==B_FABS?fabs(d):b==B_FLOOR?floor(d):b==B_CEIL?ceil(d):b==B_TRUNCF?trunc(d):b==B_SQRT?sqrt(d):b==B_LOG10?log10(d):round(d); setr(cv(fromd(d,w))); return 1; }
  case B_POW: case B_FMOD: { u64 v,u; if(!A(0,v,"symbolic float")||!A(1,u,"symbolic float")) return 0; double r= b==B_POW?pow(asd(v,I.argw[0]),asd(u,I.argw[1])):fmod(asd(v,I.argw[0]),asd(u,I.argw[1])); setr(cv(fromd(r,I.argw[0]))); return 1; }
  case B_FMUL: { u64 x,y,z; if(!A(0,x,"float")||!A(1,y,"float")||!A(2,z,"float")) return 0; double r=asd(x,I.argw[0])*asd(y,I.argw[0])+asd(z,I.argw[0]); setr(cv(fromd(r,I.argw[0]))); return 1; }
  default: inc("builtin "+callee->name,s); return 0; } }

static Step run_path(State*s){
  u64 steps0=s->steps; unsigned tick=0; 
  for(;;){
    if(stop_all) return END;
    if((++tick&0xfff)==0&&now()>time_limit){ incomplete["time limit"]++; stop_all=true; return END; }
    Frame&f=s->th[s->cur].st.back(); Inst&I=f.f->code[f.pc++]; n_insts++; 
    if(++s->steps-steps0>max_steps||s->steps>max_steps){ report(s,"hang","more than "+std::to_string(max_steps)+" instructions on one path"); return END; }
    switch(I.op){
    case I_BIN: { Val a=get(f,I.a),b=get(f,I.b); 
      if(I.sub>=E_UDIV&&I.sub<=E_SREM){ 
        if(b.e){ std::vector<u64> m; Expr*z=mk_bin(E_EQ,b.e,mk_const(0,I.w)); if(feasible(s,z,m)){ auto old=s->pc.model; State*t=fork_state(s); assume_m(t,z,m); report(t,"arith","division by zero"); delete t; if(stop_all) return END; if(!assume_or_kill(s,mk_not(z))) return END; } }
        else if(!(b.c&mask(I.w))){ report(s,"arith","division by zero"); return END; }
        if((I.sub==E_SDIV||I.sub==E_SREM)&&I.w>=32&&(b.e||sext(b.c,I.w)==-1)){ Expr*ov=mk_bin(E_AND,mk_bin(E_EQ,ex(b,I.w),mk_const(~0ull,I.w)),mk_bin(E_EQ,ex(a,I.w),mk_const(1ull<<(I.w-1),I.w))); std::vector<u64> m; if(feasible(s,ov,m)){ State*t=fork_state(s); assume_m(t,ov,m); report(t,"arith","signed division overflow"); delete t; if(stop_all) return END; if(!assume_or_kill(s,mk_not(ov))) return END; } } }
      if(I.sub>=E_SHL&&I.sub<=E_ASHR&&(I.w==32||I.w==64)){ if(!b.e) b.c&=I.w-1; else b=mkv(mk_bin(E_AND,b.e,mk_const(I.w-1,I.w))); }
      if(!a.e&&!b.e){ u64 r; fold_bin((Op)I.sub,I.w,a.c&mask(I.w),b.c&mask(I.w),r); f.r[I.dst]=cv(r); } else f.r[I.dst]=mkv(mk_bin((Op)I.sub,ex(a,I.w),ex(b,I.w))); break; }
    case I_ICMP: { Val a=get(f,I.a),b=get(f,I.b); 
      if(!a.e&&!b.e){ u64 x=a.c&mask(I.w),y=b.c&mask(I.w); i64 p=sext(x,I.w),q=sext(y,I.w); bool r; switch(I.sub){case P_EQ:r=x==y;break;case P_NE:r=x!=y;break;case P_UGT:r=x>y;break;case P_UGE:r=x>=y;break;case P_ULT:r=x<y;break;case P_ULE:r=x<=y;break;case P_SGT:r=p>q;break;case P_SGE:r=p>=q;break;case P_SLT:r=p<q;break;default:r=p<=q;} f.r[I.dst]=cv(r); }
      else { Expr*x=ex(a,I.w),*y=ex(b,I.w),*r; switch(I.sub){case P_EQ:r=mk_bin(E_EQ,x,y);break;case P_NE:r=mk_not(mk_bin(E_EQ,x,y));break;case P_UGT:r=mk_bin(E_ULT,y,x);break;case P_UGE:r=mk_bin(E_ULE,y,x);break;case P_ULT:r=mk_bin(E_ULT,x,y);break;case P_ULE:r=mk_bin(E_ULE,x,y);break;case P_SGT:r=mk_bin(E_SLT,y,x);break;case P_SGE:r=mk_bin(E_SLE,y,x);break;case P_SLT:r=mk_bin(E_SLT,x,y);break;default:r=mk_bin(E_SLE,x,y);} f.r[I.dst]=mkv(r); } break; }
    case I_CAST: { Val a=get(f,I.a); if(!a.e){ u64 v=a.c&mask(I.w2); if(I.sub==2) v=(u64)sext(v,I.w2); f.r[I.dst]=cv(v&mask(I.w)); } else if(I.w<I.w2) f.r[I.dst]=mkv(mk_extract(a.e,0,I.w)); else if(I.w>I.w2) f.r[I.dst]=mkv(mk_ext(I.sub==2?E_SEXT:E_ZEXT,a.e,I.w)); else f.r[I.dst]=a; break; }
    case I_GEP: { Val a=get(f,I.a); u64 c=I.imm; Expr*e=nullptr; if(a.e) e=a.e; else c+=a.c;
      for(auto&g:I.idx){ Val v=get(f,g.o); if(!v.e) c+=(u64)sext(v.c,g.w)*g.scale; else { Expr*x=mk_bin(E_MUL,mk_ext(E_SEXT,v.e,64),mk_const(g.scale,64)); e=e?mk_bin(E_ADD,e,x):x; } }
      if(!e) f.r[I.dst]=cv(c); else f.r[I.dst]=mkv(mk_bin(E_ADD,e,mk_const(c,64))); break; }
    case I_LOAD: { Val p=get(f,I.a); if(I.nslots==1){ Val v; if(!do_load(s,p,I.slotw[0],v)) return END; s->th[s->cur].st.back().r[I.dst]=v; } else { for(int i=0;i<I.nslots;i++){ Val v; if(p.e){ u64 a; if(!concretize(s,p.e,a,"aggregate load")) return END; p=cv(a);} if(!do_load(s,p,I.slotw[i],v,I.slotoff[i])) return END; s->th[s->cur].st.back().r[I.dst+i]=v; } } break; }
    case I_STORE: { Val p=get(f,I.b); for(int i=0;i<I.nslots;i++) if(!do_store(s,p,get(f,I.args[i]),I.slotw[i],I.slotoff[i])) return END; break; }
    case I_ALLOCA: { Val n=get(f,I.a); u64 k; if(!val_conc(s,n,64,k,"alloca size")) return END; u64 a=alloc_obj(s,I.imm*(k&0xffffffffu),K_STACK,heap_fill); f.allocas.push_back(a); f.r[I.dst]=cv(a); break; }
    case I_BR: enter_edge(f,I.edges[0]); break;
    case I_CBR: { Val c=get(f,I.a); if(!c.e){ enter_edge(f,I.edges[c.c&1?0:1]); break; }
      bool cur=eval(c.e,s->pc.model)!=0; Expr*mine=cur?c.e:mk_not(c.e),*oth=cur?mk_not(c.e):c.e; std::vector<u64> m;
      if(feasible(s,oth,m)){ State*o=fork_state(s); assume_m(o,oth,m); enter_edge(top(o),I.edges[cur?1:0]); push(o); add_constraint(s->pc,mine); }
      enter_edge(s->th[s->cur].st.back(),I.edges[cur?0:1]); break; }
    case I_SWITCH: { Val c=get(f,I.a); if(!c.e){ u64 v=c.c&mask(I.w); size_t k=0; for(size_t i=0;i<I.cases.size();i++) if(I.cases[i]==v){k=i+1;break;} enter_edge(f,I.edges[k]); break; }
      // group by target block
      u64 v=eval(c.e,s->pc.model); std::map<std::pair<int,size_t>,Expr*> grp; std::map<int,std::vector<size_t>> byt; std::vector<std::pair<size_t,Expr*>> alts; Expr*def=mk_const(1,1);
      std::map<int,size_t> first; 
      for(size_t i=0;i<I.cases.size();i++){ Expr*eq=mk_bin(E_EQ,c.e,mk_const(I.cases[i],I.w)); def=mk_bin(E_AND,def,mk_not(eq)); int tb=I.edges[i+1].block; bool simple=I.edges[i+1].copies.empty(); auto it=simple?first.find(tb):first.end(); if(it!=first.end()) alts[it->second].second=mk_bin(E_OR,alts[it->second].second,eq); else { if(simple) first[tb]=alts.size(); alts.push_back({i+1,eq}); } }
      alts.push_back({0,def}); int mine=-1; std::vector<u64> m;
      for(size_t k=0;k<alts.size();k++){ if(mine<0&&eval(alts[k].second,s->pc.model)){ mine=(int)k; continue; } if(is_false(alts[k].second)) continue; if(feasible(s,alts[k].second,m)){ State*o=fork_state(s); assume_m(o,alts[k].second,m); enter_edge(top(o),I.edges[alts[k].first]); push(o); } }
      (void)v; if(mine<0){ inc("switch",s); return END; } add_constraint(s->pc,alts[mine].second); enter_edge(s->th[s->cur].st.back(),I.edges[alts[mine].first]); break; }
    case I_SELECT: { Val c=get(f,I.a); int od; if(!c.e) f.r[I.dst]=get(f,c.c&1?I.b:I.c); else if((od=order_decided(s->pc,c.e))>=0&&od<2) f.r[I.dst]=get(f,od?I.b:I.c);
      else if(od==2&&I.w==64){ std::vector<u64> m; bool cur=eval(c.e,s->pc.model)!=0; Expr*oth=cur?mk_not(c.e):c.e; if(feasible(s,oth,m)){ State*o=fork_state(s); assume_m(o,oth,m); Frame&g=top(o); g.r[I.dst]=get(g,cur?I.c:I.b); push(o); } add_constraint(s->pc,cur?c.e:mk_not(c.e)); Frame&g=top(s); g.r[I.dst]=get(g,cur?I.b:I.c); }
      else f.r[I.dst]=mkv(mk_ite(c.e,ex(get(f,I.b),I.w),ex(get(f,I.c),I.w))); break; }
    case I_COPY: { if(I.nslots==1) f.r[I.dst]=get(f,I.args[0]); else { std::vector<Val> t; for(auto&a:I.args) t.push_back(get(f,a)); for(size_t i=0;i<t.size();i++) f.r[I.dst+i]=t[i]; } break; }
    case I_OVF: { Val a=get(f,I.a),b=get(f,I.b); Expr*x=ex(a,I.w),*y=ex(b,I.w); Expr*r,*o; u8 w=I.w; Expr*z=mk_const(0,w);
      switch(I.sub){ case 0: r=mk_bin(E_ADD,x,y); o=mk_bin(E_ULT,r,x); break; case 1: { r=mk_bin(E_ADD,x,y); Expr*sx=mk_bin(E_SLT,x,z),*sy=mk_bin(E_SLT,y,z),*sr=mk_bin(E_SLT,r,z); o=mk_bin(E_AND,mk_bin(E_EQ,sx,sy),mk_not(mk_bin(E_EQ,sx,sr))); break; } case 2: r=mk_bin(E_SUB,x,y); o=mk_bin(E_ULT,x,y); break;
        case 3: { r=mk_bin(E_SUB,x,y); Expr*sx=mk_bin(E_SLT,x,z),*sy=mk_bin(E_SLT,y,z),*sr=mk_bin(E_SLT,r,z); o=mk_bin(E_AND,mk_not(mk_bin(E_EQ,sx,sy)),mk_not(mk_bin(E_EQ,sx,sr))); break; } case 4: r=mk_bin(E_MUL,x,y); o=mk_bin(E_UMULO,x,y); break; default: r=mk_bin(E_MUL,x,y); o=mk_bin(E_SMULO,x,y); }
      f.r[I.dst]=mkv(r); f.r[I.dst+1]=mkv(o); break; }
    case I_RET: { std::vector<Val> v; for(auto&a:I.args) v.push_back(get(f,a)); if(!ret_from(s,v)){ if(s->th[0].status==2) { n_done++; } return END; } break; }
    case I_UNREACHABLE: report(s,"unreachable","unreachable code reached"); return END;
    case I_NOP: break;
    case I_FBIN: case I_FCMP: case I_FNEG: case I_FCAST: {
      u64 x,y=0; u8 w=I.op==I_FCAST?I.w2:I.w; if(!val_conc(s,get(f,I.a),w,x,"symbolic float")) return END; if(I.op==I_FBIN||I.op==I_FCMP) if(!val_conc(s,get(f,I.b),w,y,"symbolic float")) return END;
      Frame&g=s->th[s->cur].st.back(); 
      if(I.op==I_FBIN){ double a=asd(x,w),b=asd(y,w),r; switch(I.sub){case 0:r=a+b;break;case 1:r=a-b;break;case 2:r=a*b;break;case 3:r=a/b;break;default:r=fmod(a,b);} g.r[I.dst]=cv(fromd(r,w)); }
      else if(I.op==I_FNEG) g.r[I.dst]=cv(fromd(-asd(x,w),w));
      else if(I.op==I_FCMP){ double a=asd(x,w),b=asd(y,w); bool un=std::isnan(a)||std::isnan(b),r=false; switch(I.sub){ case 0:r=false;break; case 1:r=!un&&a==b;break;case 2:r=!un&&a>b;break;case 3:r=!un&&a>=b;break;case 4:r=!un&&a<b;break;case 5:r=!un&&a<=b;break;case 6:r=!un&&a!=b;break;case 7:r=!un;break;case 8:r=un;break;case 9:r=un||a==b;break;case 10:r=un||a>b;break;case 11:r=un||a>=b;break;case 12:r=un||a<b;break;case 13:r=un||a<=b;break;case 14:r=un||a!=b;break;default:r=true;} g.r[I.dst]=cv(r); }
      else switch(I.sub){ case 0: g.r[I.dst]=cv((u64)asd(x,I.w2)&mask(I.w)); break; case 1: g.r[I.dst]=cv((u64)(i64)asd(x,I.w2)&mask(I.w)); break; case 2: g.r[I.dst]=cv(fromd((double)x,I.w)); break; case 3: g.r[I.dst]=cv(fromd((double)sext(x,I.w2),I.w)); break; default: g.r[I.dst]=cv(fromd(asd(x,I.w2),I.w)); }
      break; }
    case I_ATOMICRMW: { Val p=get(f,I.a),v=get(f,I.b),o; if(!do_load(s,p,I.w,o)) return END; Expr*x=ex(o,I.w),*y=ex(v,I.w),*r; switch(I.sub){ case 0:r=y;break; case 1:r=mk_bin(E_ADD,x,y);break; case 2:r=mk_bin(E_SUB,x,y);break; case 3:r=mk_bin(E_AND,x,y);break; case 5:r=mk_bin(E_OR,x,y);break; case 6:r=mk_bin(E_XOR,x,y);break; default: inc("atomicrmw",s); return END; } if(!do_store(s,p,mkv(r),I.w)) return END; s->th[s->cur].st.back().r[I.dst]=o; break; }
    case I_CMPXCHG: { Val p=get(f,I.a),c=get(f,I.b),n=get(f,I.c),o; if(!do_load(s,p,I.w,o)) return END; Expr*eq=mk_bin(E_EQ,ex(o,I.w),ex(c,I.w)); Expr*r=mk_ite(eq,ex(n,I.w),ex(o,I.w)); if(!do_store(s,p,mkv(r),I.w)) return END; Frame&g=s->th[s->cur].st.back(); g.r[I.dst]=o; g.r[I.dst+1]=mkv(eq); break; }
    case I_CALL: {
      Func*g=I.callee; std::vector<Val> args; args.reserve(I.args.size()); for(auto&a:I.args) args.push_back(get(f,a));
      if(!g){ Val p=get(f,I.a); u64 a; if(!val_conc(s,p,64,a,"function pointer")) return END; g=func_at(a); if(!g){ report(s,"memory",a<4096?"call through NULL function pointer":"call through invalid function pointer"); return END; } }
      if(g->redirect) g=g->redirect;
      if(g->builtin<0) g->builtin=g->decl||g->name.rfind("llvm.",0)==0?builtin_of(g->name):0;
      if(g->builtin>0){ int r=do_builtin(s,g->builtin,I,args,g); if(!r) return END; if(s->th[s->cur].st.empty()) return END; break; }
      if(!call_func(s,g,args,I.argw,&I,&I.byval)) return END; break; }
    case I_UNSUP: inc(std::string("unsupported instruction: ")+(I.text?I.text:"?"),s); return END;
    } } }

static void output(FILE*o){
  fprintf(o,"{\"paths\":%llu,\"completed\":%llu,\"assumed_away\":%llu,\"forks\":%llu,\"instructions\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"assert_const\":%llu,\"z3_queries\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\"cache_hits\":%llu,\"domain_decided\":%llu,\"model_hits\":%llu,\"fd_solved\":%llu,\"z3_confirmed\":%llu,\"z3_time\":%.3f,\"wall\":%.3f,\"exprs\":%llu,\"symbols\":%zu,",
    (unsigned long long)n_paths,(unsigned long long)n_done,(unsigned long long)n_killed,(unsigned long long)n_forks,(unsigned long long)n_insts,(unsigned long long)n_asserts,(unsigned long long)n_assert_q,(unsigned long long)n_assert_const,(unsigned long long)g_ss.queries,(unsigned long long)g_ss.sat,(unsigned long long)g_ss.unsat,(unsigned long long)g_ss.unknown,(unsigned long long)g_ss.cache,(unsigned long long)g_ss.domain,(unsigned long long)g_ss.model,(unsigned long long)g_ss.fd,(unsigned long long)g_ss.confirmed,g_ss.time,now(),(unsigned long long)g_nexpr,g_syms.size());
  auto mp=[&](const char*n,std::map<std::string,u64>&m){ fprintf(o,"\"%s\":{",n); bool c=false; for(auto&p:m){ fprintf(o,"%s\"%s\":%llu",c?",":"",jesc(p.first).c_str(),(unsigned long long)p.second); c=true; } fprintf(o,"},"); };
  mp("reached",reached); mp("known",known); mp("incomplete",incomplete);
  fprintf(o,"\"functions\":["); bool c=false; for(auto f:g_funcs) if(f->used){ fprintf(o,"%s\"%s\"",c?",":"",jesc(f->name).c_str()); c=true; } fprintf(o,"],\"samples\":["); c=false; for(auto&s:samples){ fprintf(o,"%s\"%s\"",c?",":"",jesc(s).c_str()); c=true; }
  fprintf(o,"],\"wit\":["); c=false; for(auto&w:wits){ fprintf(o,"%s%s",c?",":"",w.c_str()); c=true; }
  fprintf(o,"],\"errors\":["); c=false;
  for(auto&e:errors){ fprintf(o,"%s{\"kind\":\"%s\",\"msg\":\"%s\",\"func\":\"%s\",\"file\":\"%s\",\"line\":%u,\"stack\":\"%s\",\"inputs\":[",c?",":"",jesc(e.kind).c_str(),jesc(e.msg).c_str(),jesc(e.func).c_str(),jesc(e.file).c_str(),e.line,jesc(e.stack).c_str()); c=true; bool d=false; for(auto&i:e.in){ fprintf(o,"%s[\"%s\",%d,\"%llx\"]",d?",":"",jesc(i.first).c_str(),i.second.first,(unsigned long long)i.second.second); d=true; } fprintf(o,"]}"); }
  fprintf(o,"]}\n"); fflush(o); }
static void explore(size_t until){
  while(!work.empty()&&!stop_all&&(until==0||work.size()<until)){
    State*s; if(until){ s=work.front(); work.erase(work.begin()); } else { s=work.back(); work.pop_back(); } n_paths++; u64 d0=n_done; size_t e0=errors.size(); run_path(s);
    if(errors.size()==e0&&n_done>d0){ if((n_done&(n_done-1))==0&&wits.size()<8){ std::string t; bool sc=false; for(auto&i:s->in){ char b[64]; u64 v=i.sym<s->pc.model.size()?s->pc.model[i.sym]:0; snprintf(b,64,"\",%d,\"%llx\"]",i.w,(unsigned long long)v); t+=(t.empty()?"[\"":",[\"")+jesc(g_syms[i.sym].name)+b; } wits.push_back("["+t+"]"); }
      if(samples.size()<3){ std::string t; for(auto&i:s->in){ char b[64]; snprintf(b,64,"=%llx ",(unsigned long long)(i.sym<s->pc.model.size()?s->pc.model[i.sym]:0)); t+=g_syms[i.sym].name+b; if(t.size()>200) break; } samples.insert("path completed with "+t+"| constraints "+std::to_string(s->pc.cs.size())); } }
    delete s; 
  } }
static int g_argc; static char**g_argv; static int g_jobs=1; static int g_rc=0;
static void run(){
  std::vector<std::string> files; std::string entry="harness", passes="", emit="";
  for(int i=1;i<g_argc;i++){ std::string a=g_argv[i]; auto nx=[&]{ return std::string(g_argv[++i]); };
    if(a=="--entry") entry=nx(); else if(a=="--passes") passes=nx(); else if(a=="--confirm") g_confirm_budget=atof(nx().c_str()); else if(a=="--emit") emit=nx(); else if(a=="--max-steps") max_steps=strtoull(nx().c_str(),0,10); else if(a=="--time") time_limit=atof(nx().c_str()); else if(a=="--max-errors") max_errors=strtoull(nx().c_str(),0,10); else if(a=="--jobs") g_jobs=atoi(nx().c_str()); else if(a=="--query-timeout") g_timeout_ms=(unsigned)atoi(nx().c_str()); else files.push_back(a); }
  T0=std::chrono::steady_clock::now();
  if(passes.empty()) passes="globaldce,function(sroa,early-cse,simplifycfg<bonus-inst-threshold=3;switch-to-lookup>,instsimplify,dce),globaldce"; if(passes=="none") passes="globaldce";
  ir_load(files,entry,passes,emit);
  State*s=new State(); 
  for(auto&G:g_globals){ Obj*o=obj_new((u32)G.size,G.ext?K_EXT:G.constant?K_CONST:K_GLOBAL,0); o->name=strdup(G.name.c_str()); if(!G.ext) { LLVMValueRef in=LLVMGetInitializer(G.v); if(in) ir_init_bytes(in,o->b,G.size); } s->mem.put(G.addr>>32,o); }
  s->nextobj=next_objid+8; s->th.resize(1); Func*m=g_fbyname[entry]; ir_convert(m); m->used=true; Frame f; f.f=m; f.pc=0; f.call=nullptr; f.r.resize(m->nregs); s->th[0].st.push_back(f);
  work.push_back(s);
  if(g_jobs<=1){ explore(0); output(stdout); return; }
  // parallel: explore until enough states, then fork workers; idle parent aggregates raw outputs (driver merges)
  explore((size_t)g_jobs*32);
  if(work.empty()||stop_all){ output(stdout); return; }
  output(stdout); fflush(stdout);
  std::vector<State*> all=work; size_t*nextw=(size_t*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); *nextw=0; std::vector<pid_t> pids; std::vector<FILE*> outs;
  for(int j=0;j<g_jobs;j++){ FILE*o=tmpfile(); pid_t p=fork(); if(!p){ // child
      work.clear();
      n_paths=n_done=n_killed=n_forks=n_insts=n_asserts=n_assert_q=n_assert_const=0; g_ss=SolverStats(); reached.clear(); known.clear(); incomplete.clear(); errors.clear(); samples.clear(); wits.clear();
      for(;;){ size_t i=__atomic_fetch_add(nextw,1,__ATOMIC_SEQ_CST); if(i>=all.size()||stop_all) break; work.push_back(all[i]); explore(0); } output(o); _exit(0); } pids.push_back(p); outs.push_back(o); }
  size_t left=pids.size(); while(left){ int st; pid_t p=wait(&st); if(p<0) break; left--; for(size_t j=0;j<pids.size();j++) if(pids[j]==p){ if(!WIFEXITED(st)||WEXITSTATUS(st)) printf("{\"fatal\":\"worker died\"}\n"); rewind(outs[j]); char b[65536]; size_t n; bool err=false; std::string acc; while((n=fread(b,1,sizeof b,outs[j]))>0) acc.append(b,n); if(acc.find("\"errors\":[]")==std::string::npos) err=true; fputs(acc.c_str(),stdout); if(err&&max_errors==1){ for(size_t k=0;k<pids.size();k++) if(k!=j) kill(pids[k],SIGKILL); fflush(stdout); _exit(0);} } }
  fflush(stdout); }
static void*thr(void*){ run(); return nullptr; }
int main(int argc,char**argv){ g_argc=argc; g_argv=argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,2ull<<30); pthread_t t; pthread_create(&t,&at,thr,nullptr); pthread_join(t,nullptr); fflush(stdout); _exit(0); }
