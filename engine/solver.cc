#include <unistd.h>
#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <unordered_map>
SolverStats g_ss; unsigned g_timeout_ms=60000;
static Z3_context C; static Z3_solver S; static unsigned since_reset=0;
static Bits256 FULL={{~0ull,~0ull,~0ull,~0ull}};
Bits256&PathCond::domain(u32 s){ while(dom.size()<=s){ u32 i=(u32)dom.size(); Bits256 b=FULL; if(i<g_syms.size()&&g_syms[i].w<8){ memset(&b,0,sizeof b); for(u32 v=0;v<(1u<<g_syms[i].w);v++) b.set(v);} dom.push_back(b);} return dom[s]; }
static void init(){ if(C) return; Z3_config cfg=Z3_mk_config(); C=Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error %s\n",Z3_get_error_msg(c,e)); printf("{\"fatal\":\"z3 error %s\"}\n",Z3_get_error_msg(c,e)); exit(3); }); }
static Z3_ast tr(Expr*e);
static Z3_ast keep(Expr*e,Z3_ast a){ Z3_inc_ref(C,a); e->z3=a; return a; }
static Z3_ast bv2b(Z3_ast b){ return b; }
static Z3_ast numeral(u64 v,unsigned w){ return Z3_mk_unsigned_int64(C,v,Z3_mk_bv_sort(C,w)); }
// width-1 expressions are represented as Bool; asbv converts
static Z3_ast asbv(Expr*e){ Z3_ast a=tr(e); if(e->w==1) return Z3_mk_ite(C,a,numeral(1,1),numeral(0,1)); return a; }
static Z3_ast tabtree(Table*t,Z3_ast idx,unsigned iw,u32 lo,u32 hi){ // [lo,hi)
  bool same=true; for(u32 i=lo+1;i<hi&&same;i++) same=t->el[i]==t->el[lo];
  if(same){ return t->width==1? asbv(t->el[lo]):tr(t->el[lo]); }
  u32 mid=lo+(hi-lo)/2; Z3_ast l=tabtree(t,idx,iw,lo,mid); Z3_inc_ref(C,l); Z3_ast r=tabtree(t,idx,iw,mid,hi); Z3_inc_ref(C,r);
  Z3_ast x=Z3_mk_ite(C,Z3_mk_bvult(C,idx,numeral(mid,iw)),l,r); return x; }
static Z3_ast tr(Expr*e){
  if(e->z3) return (Z3_ast)e->z3;
  bool b1=e->w==1; Z3_ast x,y;
  switch(e->op){
  case E_CONST: return keep(e,b1?(e->val?Z3_mk_true(C):Z3_mk_false(C)):numeral(e->val,e->w));
  case E_SYM: { std::string n="s"+std::to_string(e->val); Z3_ast a=Z3_mk_const(C,Z3_mk_string_symbol(C,n.c_str()),b1?Z3_mk_bool_sort(C):Z3_mk_bv_sort(C,e->w)); return keep(e,a); }
  case E_ZEXT: return keep(e,Z3_mk_zero_ext(C,e->w-e->a->w,asbv(e->a)));
  case E_SEXT: return keep(e,Z3_mk_sign_ext(C,e->w-e->a->w,asbv(e->a)));
  case E_EXTRACT: { Z3_ast r=Z3_mk_extract(C,(unsigned)(e->val+e->w-1),(unsigned)e->val,tr(e->a)); if(b1) r=Z3_mk_eq(C,r,numeral(1,1)); return keep(e,r); }
  case E_CONCAT: { x=asbv(e->a); Z3_inc_ref(C,x); y=asbv(e->b); Z3_ast r=Z3_mk_concat(C,x,y); return keep(e,r); }
  case E_ITE: return keep(e,Z3_mk_ite(C,tr(e->a),tr(e->b),tr(e->c)));
  case E_TABLE: { Z3_ast r=tabtree(e->t,asbv(e->a),e->a->w,0,e->t->n); if(b1) r=Z3_mk_eq(C,r,numeral(1,1)); return keep(e,r); }
  default:break; }
  if(e->a->w==1){ // boolean operands
    x=tr(e->a); y=tr(e->b);
    Z3_ast as[2]={x,y};
    switch(e->op){
    case E_AND: return keep(e,Z3_mk_and(C,2,as)); case E_OR: return keep(e,Z3_mk_or(C,2,as));
    case E_XOR: case E_ADD: case E_SUB: return keep(e,Z3_mk_xor(C,x,y)); case E_EQ: return keep(e,Z3_mk_iff(C,x,y));
    case E_MUL: return keep(e,Z3_mk_and(C,2,as));
    case E_ULT: { Z3_ast n[2]={Z3_mk_not(C,x),y}; return keep(e,Z3_mk_and(C,2,n)); }
    case E_ULE: { Z3_ast n[2]={Z3_mk_not(C,x),y}; return keep(e,Z3_mk_or(C,2,n)); }
    case E_SLT: { Z3_ast n[2]={x,Z3_mk_not(C,y)}; return keep(e,Z3_mk_and(C,2,n)); }
    case E_SLE: { Z3_ast n[2]={x,Z3_mk_not(C,y)}; return keep(e,Z3_mk_or(C,2,n)); }
    default: { Z3_ast p=asbv(e->a),q=asbv(e->b),r; Z3_inc_ref(C,p); switch(e->op){ case E_UDIV:r=Z3_mk_bvudiv(C,p,q);break; case E_UREM:r=Z3_mk_bvurem(C,p,q);break; case E_SDIV:r=Z3_mk_bvsdiv(C,p,q);break; case E_SREM:r=Z3_mk_bvsrem(C,p,q);break; case E_SHL:r=Z3_mk_bvshl(C,p,q);break; case E_LSHR:r=Z3_mk_bvlshr(C,p,q);break; default:r=Z3_mk_bvashr(C,p,q);} return keep(e,Z3_mk_eq(C,r,numeral(1,1))); } } }
  x=tr(e->a); y=tr(e->b); Z3_ast r=nullptr;
  switch(e->op){
  case E_ADD:r=Z3_mk_bvadd(C,x,y);break; case E_SUB:r=Z3_mk_bvsub(C,x,y);break; case E_MUL:r=Z3_mk_bvmul(C,x,y);break;
  case E_UDIV:r=Z3_mk_bvudiv(C,x,y);break; case E_SDIV:r=Z3_mk_bvsdiv(C,x,y);break; case E_UREM:r=Z3_mk_bvurem(C,x,y);break; case E_SREM:r=Z3_mk_bvsrem(C,x,y);break;
  case E_AND:r=Z3_mk_bvand(C,x,y);break; case E_OR:r=Z3_mk_bvor(C,x,y);break; case E_XOR:r=Z3_mk_bvxor(C,x,y);break;
  case E_SHL:r=Z3_mk_bvshl(C,x,y);break; case E_LSHR:r=Z3_mk_bvlshr(C,x,y);break; case E_ASHR:r=Z3_mk_bvashr(C,x,y);break;
  case E_EQ:r=Z3_mk_eq(C,x,y);break; case E_ULT:r=Z3_mk_bvult(C,x,y);break; case E_ULE:r=Z3_mk_bvule(C,x,y);break; case E_SLT:r=Z3_mk_bvslt(C,x,y);break; case E_SLE:r=Z3_mk_bvsle(C,x,y);break;
  case E_UMULO:r=Z3_mk_not(C,Z3_mk_bvmul_no_overflow(C,x,y,false));break;
  case E_SMULO:{ Z3_ast n[2]={Z3_mk_not(C,Z3_mk_bvmul_no_overflow(C,x,y,true)),Z3_mk_not(C,Z3_mk_bvmul_no_underflow(C,x,y))}; r=Z3_mk_or(C,2,n);break; }
  default: fprintf(stderr,"tr op %d\n",e->op); abort(); }
  return keep(e,r); }
struct VH{ size_t operator()(const std::vector<u32>&v) const { u64 h=v.size(); for(u32 x:v) h=(h^x)*0x9e3779b97f4a7c15ull+(h>>29); return h; } };
struct CacheE { Res r; std::vector<std::pair<u32,u64>> m; };
static std::unordered_map<std::vector<u32>,CacheE,VH> cache;
void add_constraint(PathCond&pc,Expr*c){
  if(is_true(c)) return;
  if(c->op==E_AND&&c->w==1){ add_constraint(pc,c->a); add_constraint(pc,c->b); return; }
  if(c->op==E_XOR&&c->w==1&&is_c(c->b)&&c->b->val&&c->a->op==E_OR){ add_constraint(pc,mk_not(c->a->a)); add_constraint(pc,mk_not(c->a->b)); return; }
  int s; 
  for(auto x:pc.cs) if(x==c) return;
  if(single_narrow(c,s)){ Bits256&d=pc.domain((u32)s); d=d&*truth_table(c); }
  else pc.entangled=pc.entangled|c->syms;
  pc.cs.push_back(c); }
int fd_solve(const std::vector<Expr*>&roots,const SymSet&syms,PathCond&pc,u64 budget,std::vector<std::pair<u32,u64>>&out);
static unsigned long nreset=0;
// comparison of one wide symbol (possibly plus a constant, or its upper bits) with a constant: inside [lo,hi], or (neg) outside it
static bool interval(Expr*c,u32&s,u64&lo,u64&hi,bool&neg){
  neg=false; if(c->op==E_XOR&&c->w==1&&is_c(c->b)&&c->b->val){ if(c->a->op!=E_EQ) return false; neg=true; c=c->a; }
  if(c->op!=E_EQ&&c->op!=E_ULT&&c->op!=E_ULE) return false;
  Expr*x; if(is_c(c->b)){ x=c->a; u64 v=c->b->val; if(c->op==E_EQ) lo=hi=v; else if(c->op==E_ULT){ if(!v) return false; lo=0; hi=v-1; } else { lo=0; hi=v; } }
  else if(is_c(c->a)){ x=c->b; u64 v=c->a->val,m=mask(x->w); if(c->op==E_EQ) lo=hi=v; else if(c->op==E_ULT){ if(v>=m) return false; lo=v+1; hi=m; } else { lo=v; hi=m; } }
  else return false;
  if(x->op==E_ZEXT){ u64 m=mask(x->a->w); if(lo>m) return false; if(hi>m) hi=m; x=x->a; }
  if(x->op==E_EXTRACT&&x->a->op==E_SYM&&x->val+x->w==x->a->w){ lo<<=x->val; hi=(hi<<x->val)|mask((u8)x->val); x=x->a; }
  if(x->op==E_ADD&&is_c(x->b)&&x->a->op==E_SYM){ u64 m=mask(x->w),k=x->b->val; if(lo==0&&hi==m) return false; lo=(lo-k)&m; hi=(hi-k)&m; x=x->a; if(lo>hi){ u64 l=(hi+1)&m,h=(lo-1)&m; if(l>h) return false; lo=l; hi=h; neg=!neg; } }
  if(x->op!=E_SYM) return false; s=(u32)x->val; return true; }
typedef std::vector<std::pair<u64,u64>> Excl;
static bool bounds(PathCond&pc,u32 s,u64&lo,u64&hi,Excl&ex){ u32 s2; u64 l,h; bool neg; for(auto c:pc.cs) if(c->syms.test(s)){ if(c->syms.count()!=1||!interval(c,s2,l,h,neg)) return false; if(neg) ex.push_back({l,h}); else { if(l>lo) lo=l; if(h<hi) hi=h; } } return true; }
static bool least(u64 lo,u64 hi,Excl&ex,u64&v){ if(lo>hi) return false; std::sort(ex.begin(),ex.end()); v=lo; for(auto&x:ex){ if(x.second<v) continue; if(x.first<=v){ if(x.second>=hi) return false; v=x.second+1; } else break; } return v<=hi; }
bool sym_bounds(PathCond&pc,u32 s,u64&lo,u64&hi){ static Excl ex; ex.clear(); lo=0; hi=mask(g_syms[s].w); u64 v; if(!bounds(pc,s,lo,hi,ex)) return false; bool any=false; for(auto&x:ex) if(x.first<=hi&&x.second>=lo) any=true; return !any&&lo<=hi; }
static int interval_check(PathCond&pc,Expr*cond,std::vector<u64>&model){ u32 s; u64 lo,hi,v; bool neg; static Excl ex; ex.clear();
  if(cond->syms.count()!=1||!interval(cond,s,lo,hi,neg)||g_syms[s].w<=8) return -1;
  if(neg){ ex.push_back({lo,hi}); lo=0; hi=mask(g_syms[s].w); }
  if(!bounds(pc,s,lo,hi,ex)) return -1;
  if(!least(lo,hi,ex,v)) return 0;
  model=pc.model; if(model.size()<=s) model.resize(s+1,0); model[s]=v; 
  if(!eval(cond,model)){ fprintf(stderr,"interval model check failed\n"); abort(); } for(auto c:pc.cs) if(c->syms.test(s)&&!eval(c,model)){ fprintf(stderr,"interval model check failed\n"); abort(); }
  return 1; }
// one wide symbol whose constraints only compare it (plus a constant) with constants: truth changes only at the break points collected here
static bool order_points(Expr*e,std::vector<u64>&pts,std::vector<Expr*>&seen){
  if(e->op==E_CONST) return true; if(e->w!=1) return false; for(auto x:seen) if(x==e) return true; seen.push_back(e); if(seen.size()>400) return false;
  auto side=[&](Expr*x,u64 c,bool sg)->bool{ if(x->op==E_ZEXT){ if(sg) return false; u64 m=mask(x->a->w); x=x->a; if(c>m) c=m; } u64 m=mask(x->w),k=0; int sh=0; u64 sb=x->w<64?1ull<<(x->w-1):1ull<<63;
    if(x->op==E_EXTRACT&&x->a->op==E_SYM&&x->val+x->w==x->a->w){ if(sg) return false; sh=(int)x->val; x=x->a; c<<=sh; } else if(x->op==E_ADD&&is_c(x->b)&&x->a->op==E_SYM){ k=x->b->val; x=x->a; }
    if(x->op!=E_SYM) return false; u64 mm=mask(x->w); (void)m; u64 w=sh?1ull<<sh:1; for(u64 b: {c-k,(u64)(0-k),sg?sb-k:c-k}) for(u64 d: {(u64)0-w,(u64)0-1,(u64)0,(u64)1,w,w-1}) pts.push_back((b+d)&mm); return true; };
  switch(e->op){ case E_EQ: if(e->a->w==1) return order_points(e->a,pts,seen)&&order_points(e->b,pts,seen); /* fallthrough */ case E_ULT: case E_ULE: case E_SLT: case E_SLE: { bool sg=e->op==E_SLT||e->op==E_SLE; if(is_c(e->b)) return side(e->a,e->b->val,sg); if(is_c(e->a)) return side(e->b,e->a->val,sg); return false; }
  case E_AND: case E_OR: case E_XOR: return order_points(e->a,pts,seen)&&order_points(e->b,pts,seen);
  case E_ITE: return order_points(e->a,pts,seen)&&order_points(e->b,pts,seen)&&order_points(e->c,pts,seen);
  default: return false; } }
static int order_check(PathCond&pc,std::vector<Expr*>&q,Expr*cond,const SymSet&syms,std::vector<u64>&model){
  if(syms.count()!=1) return -1; u32 s=0; while(!syms.test(s)) s++; if(g_syms[s].w<=8) return -1; static std::vector<u64> pts; static std::vector<Expr*> seen; pts.clear(); seen.clear(); pts.push_back(0); pts.push_back(mask(g_syms[s].w));
  u64 lo=0,hi=mask(g_syms[s].w),l,h; u32 s2; bool neg; static std::vector<Expr*> rest; rest.clear();
  for(auto e:q) if(interval(e,s2,l,h,neg)&&!neg){ if(l>lo) lo=l; if(h<hi) hi=h; } else rest.push_back(e);
  if(lo>hi) return 0;
  { size_t k=0; for(auto e:rest) if(interval(e,s2,l,h,neg)&&(h<lo||l>hi)) continue; else rest[k++]=e; rest.resize(k); }
  if(!order_points(cond,pts,seen)) return -1; for(auto e:rest) if(!order_points(e,pts,seen)) return -1;
  { size_t k=0; for(u64 v:pts) if(v>=lo&&v<=hi) pts[k++]=v; pts.resize(k); } pts.push_back(lo); pts.push_back(hi);
  std::sort(pts.begin(),pts.end()); pts.erase(std::unique(pts.begin(),pts.end()),pts.end()); model=pc.model; if(model.size()<=s) model.resize(s+1,0);
  for(u64 v:pts){ model[s]=v; if(!eval(cond,model)) continue; bool ok=true; for(auto e:rest) if(!eval(e,model)){ ok=false; break; } if(ok){ for(auto e:q) if(!eval(e,model)){ fprintf(stderr,"order model check failed\n"); abort(); } return 1; } }
  return 0; }
// cheap decision of a condition over one wide symbol: 0/1 when the path condition decides it, -1 otherwise
int order_decided(PathCond&pc,Expr*c){ if(c->syms.count()!=1) return -1; std::vector<Expr*> q; for(auto e:pc.cs) if(e->syms.intersects(c->syms)){ if(e->syms.count()!=1) return -1; q.push_back(e); }
  std::vector<u64> m; bool cur=eval(c,pc.model)!=0; int r=order_check(pc,q,cur?mk_not(c):c,c->syms,m); return r==0?(cur?1:0):r==1?2:-1; }
Res check(PathCond&pc,Expr*cond,std::vector<u64>&model){
  if(is_c(cond)){ if(cond->val){ model=pc.model; return SAT;} return UNSAT; }
  if(eval(cond,pc.model)){ g_ss.model++; model=pc.model; return SAT; }
  int s;
  if(single_narrow(cond,s)){
    Bits256 r=pc.domain((u32)s)&*truth_table(cond);
    if(r.empty()){ g_ss.domain++; return UNSAT; }
    if(!pc.entangled.test((u32)s)){ g_ss.domain++; model=pc.model; if(model.size()<=(size_t)s) model.resize(s+1,0); model[s]=(u64)r.first(); return SAT; }
  }
  { int r=interval_check(pc,cond,model); if(r>=0){ g_ss.domain++; return r?SAT:UNSAT; } }
  // slice
  SymSet syms=cond->syms; std::vector<Expr*> q; std::vector<char> in(pc.cs.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<pc.cs.size();i++) if(!in[i]&&pc.cs[i]->syms.intersects(syms)){ in[i]=1; q.push_back(pc.cs[i]); if(!pc.cs[i]->syms.subset(syms)){ syms=syms|pc.cs[i]->syms; ch=true; } } }
  std::vector<u32> key; for(auto e:q) key.push_back(e->id); std::sort(key.begin(),key.end()); key.push_back(cond->id);
  auto it=cache.find(key);
  if(it!=cache.end()){ g_ss.cache++; if(it->second.r==SAT){ model=pc.model; for(auto&p:it->second.m){ if(model.size()<=p.first) model.resize(p.first+1,0); model[p.first]=p.second; } } return it->second.r; }
  { int r=order_check(pc,q,cond,syms,model); if(r>=0){ g_ss.domain++; return r?SAT:UNSAT; } }
  std::vector<Expr*> roots; for(auto e:q){ int z; if(!single_narrow(e,z)) roots.push_back(e); } roots.push_back(cond);
  auto fd=[&](u64 budget)->int{ std::vector<std::pair<u32,u64>> out; int r=fd_solve(roots,syms,pc,budget,out); if(r<0) return r; CacheE ce; ce.r=r?SAT:UNSAT;
    if(r){ model=pc.model; for(auto&p:out){ if(model.size()<=p.first) model.resize(p.first+1,0); model[p.first]=p.second; ce.m.push_back(p); } for(auto e:q) if(!eval(e,model)){ fprintf(stderr,"fd model check failed\n"); abort(); } if(!eval(cond,model)) abort(); }
    if(cache.size()<2000000) cache[key]=ce; return r; };
  { int r=fd(200000); if(r>=0){ g_ss.fd++; return r?SAT:UNSAT; } }
  if(getenv("VP_Q")) fprintf(stderr,"Q n=%zu %s\n",q.size(),expr_str(cond,8).c_str());
  init(); auto t0=std::chrono::steady_clock::now();
  if(!S||++since_reset>2000){ if(S) Z3_solver_dec_ref(C,S); S=Z3_mk_simple_solver(C); Z3_solver_inc_ref(C,S); since_reset=0; }
  Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),400);
  Z3_solver_set_params(C,S,p);
  Z3_solver_push(C,S); for(auto e:q) Z3_solver_assert(C,S,bv2b(tr(e))); Z3_solver_assert(C,S,tr(cond));
  Z3_lbool r=Z3_solver_check(C,S); Z3_model m=nullptr; Z3_solver used=S; Z3_solver S2=nullptr;
  if(r==Z3_L_UNDEF){ // bit-blasting solver, short
    S2=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_BV")); Z3_solver_inc_ref(C,S2);
    Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),8000); Z3_solver_set_params(C,S2,p);
    for(auto e:q) Z3_solver_assert(C,S2,tr(e)); Z3_solver_assert(C,S2,tr(cond)); r=Z3_solver_check(C,S2); used=S2; if(r==Z3_L_UNDEF){ Z3_solver_dec_ref(C,S2); S2=nullptr; used=S; } }
  if(r==Z3_L_UNDEF){ int k=fd(200000000); if(k>=0){ g_ss.fd++; Z3_solver_pop(C,S,1); Z3_params_dec_ref(C,p); return k?SAT:UNSAT; } }
  if(r==Z3_L_UNDEF){ // hard query: dedicated QF_BV solver
    S2=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_BV")); Z3_solver_inc_ref(C,S2);
    Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),g_timeout_ms); Z3_solver_set_params(C,S2,p);
    for(auto e:q) Z3_solver_assert(C,S2,tr(e)); Z3_solver_assert(C,S2,tr(cond)); r=Z3_solver_check(C,S2); used=S2; }
  CacheE ce; ce.r=r==Z3_L_TRUE?SAT:r==Z3_L_FALSE?UNSAT:UNKNOWN;
  if(r==Z3_L_TRUE){ m=Z3_solver_get_model(C,used); Z3_model_inc_ref(C,m); model=pc.model;
    for(u32 i=0;i<g_syms.size();i++) if(syms.test(i)){ Z3_ast out; Expr*e=mk_sym(i); u64 v=0; if(Z3_model_eval(C,m,tr(e),true,&out)){ if(e->w==1) v=Z3_get_bool_value(C,out)==Z3_L_TRUE; else { uint64_t x=0; Z3_get_numeral_uint64(C,out,&x); v=x; } } if(model.size()<=i) model.resize(i+1,0); model[i]=v; ce.m.push_back({i,v}); }
    Z3_model_dec_ref(C,m); }
  Z3_solver_pop(C,S,1); if(S2) Z3_solver_dec_ref(C,S2); Z3_params_dec_ref(C,p);
  g_ss.queries++; if(ce.r==SAT) g_ss.sat++; else if(ce.r==UNSAT) g_ss.unsat++; else g_ss.unknown++;
  double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); g_ss.time+=dt;
  if(getenv("VP_SLOW")&&dt>0.5) fprintf(stderr,"slow query %.2fs r=%d n=%zu cond=%s\n",dt,(int)ce.r,q.size(),expr_str(cond,8).c_str());
  if(ce.r==SAT){ for(auto e:q) if(!eval(e,model)){ fprintf(stderr,"model check failed\n"); abort(); } if(!eval(cond,model)){ fprintf(stderr,"model check failed (cond) %s\n",expr_str(cond,10).c_str()); abort(); } }
  if(cache.size()<2000000) cache[key]=ce;
  return ce.r; }

// independent confirmation by z3 of an UNSAT verdict reached by the finite-domain procedure
double g_confirm_budget=2.0; 
void confirm_unsat(PathCond&pc,Expr*cond){
  static double spent=0; static std::unordered_map<std::vector<u32>,char,VH> seen; if(spent>g_confirm_budget||is_c(cond)) return;
  SymSet syms=cond->syms; std::vector<Expr*> q; std::vector<char> in(pc.cs.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<pc.cs.size();i++) if(!in[i]&&pc.cs[i]->syms.intersects(syms)){ in[i]=1; q.push_back(pc.cs[i]); if(!pc.cs[i]->syms.subset(syms)){ syms=syms|pc.cs[i]->syms; ch=true; } } }
  std::vector<u32> key; for(auto e:q) key.push_back(e->id); std::sort(key.begin(),key.end()); key.push_back(cond->id); if(!seen.emplace(key,1).second) return;
  init(); auto t0=std::chrono::steady_clock::now(); Z3_solver S2=Z3_mk_simple_solver(C); Z3_solver_inc_ref(C,S2); Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),1000); Z3_solver_set_params(C,S2,p);
  for(auto e:q) Z3_solver_assert(C,S2,tr(e)); Z3_solver_assert(C,S2,tr(cond)); Z3_lbool r=Z3_solver_check(C,S2); Z3_solver_dec_ref(C,S2); Z3_params_dec_ref(C,p);
  double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); spent+=dt; g_ss.time+=dt; g_ss.queries++;
  if(r==Z3_L_TRUE){ printf("{\"fatal\":\"solver disagreement\"}\n"); fflush(stdout); _exit(4); }
  if(r==Z3_L_FALSE){ g_ss.unsat++; g_ss.confirmed++; } else g_ss.unknown_confirm++; }
