#include "expr.h"
#include <unordered_set>
#include <cassert>
#include <cstdio>
#include <cstdlib>
std::vector<SymInfo> g_syms; std::vector<Expr*> g_symexpr; u64 g_nexpr=0;
static const char*opn[]={"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","zext","sext","extract","concat","ite","table","umulo","smulo"};
struct H { size_t operator()(const Expr*e) const { return e->hash; } };
struct Q { bool operator()(const Expr*x,const Expr*y) const { return x->op==y->op&&x->w==y->w&&x->val==y->val&&x->a==y->a&&x->b==y->b&&x->c==y->c&&x->t==y->t; } };
static std::unordered_set<Expr*,H,Q> cons;
static u64 mix(u64 h,u64 x){ h^=x+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdull; }
static Expr* arena=nullptr; static size_t arena_n=0;
static Expr* intern(Op op,u8 w,u64 val,Expr*a,Expr*b,Expr*c,Table*t=nullptr){
  Expr k; k.op=op;k.w=w;k.val=val;k.a=a;k.b=b;k.c=c;k.t=t;
  u64 h=mix(op*131+w,val); h=mix(h,a?a->hash:1); h=mix(h,b?b->hash:2); h=mix(h,c?c->hash:3); h=mix(h,t?t->hash:4); k.hash=h;
  auto it=cons.find(&k); if(it!=cons.end()) return *it;
  if(!arena_n){ arena_n=4096; arena=(Expr*)malloc(sizeof(Expr)*arena_n);} 
  Expr*e=arena++; arena_n--; *e=k; e->id=(u32)g_nexpr++; e->ev_epoch=0; e->z3=nullptr; e->tab=nullptr; e->vals=nullptr;
  SymSet s; if(a) s=s|a->syms; if(b) s=s|b->syms; if(c) s=s|c->syms; if(t) s=s|t->syms; if(op==E_SYM) s.set((u32)val); e->syms=s;
  cons.insert(e); return e; }
static std::unordered_map<std::string,u32> symidx;
u32 new_sym(const std::string&name,u8 w){
  std::string k=name+"#"+std::to_string(w);
  auto it=symidx.find(k); if(it!=symidx.end()) return it->second;
  u32 i=(u32)g_syms.size(); if(i>=256){ fprintf(stderr,"too many symbols\n"); printf("{\"fatal\":\"too many symbols\"}\n"); exit(3);} 
  g_syms.push_back({name,w}); symidx[k]=i; g_symexpr.push_back(intern(E_SYM,w,i,0,0,0)); return i; }
Expr*mk_sym(u32 i){ return g_symexpr[i]; }
Expr*mk_const(u64 v,u8 w){ return intern(E_CONST,w,v&mask(w),0,0,0); }
bool fold_bin(Op op,u8 w,u64 a,u64 b,u64&r){
  u64 m=mask(w);
  switch(op){
  case E_ADD:r=(a+b)&m;break; case E_SUB:r=(a-b)&m;break; case E_MUL:r=(a*b)&m;break;
  case E_UDIV: if(!b){r=m;break;} r=a/b;break; case E_UREM: if(!b){r=a;break;} r=a%b;break;
  case E_SDIV:{ i64 x=sext(a,w),y=sext(b,w); if(!y){ r=x<0?1:m; break;} if(y==-1){ r=(0-(u64)x)&m; break;} r=(u64)(x/y)&m;break;}
  case E_SREM:{ i64 x=sext(a,w),y=sext(b,w); if(!y){ r=a; break;} if(y==-1){ r=0; break;} r=(u64)(x%y)&m;break;}
  case E_AND:r=a&b;break; case E_OR:r=a|b;break; case E_XOR:r=a^b;break;
  case E_SHL:r= b>=w?0:(a<<b)&m;break; case E_LSHR:r= b>=w?0:a>>b;break;
  case E_ASHR:r= b>=w? (sext(a,w)<0?m:0) : (u64)(sext(a,w)>>b)&m;break;
  case E_EQ:r=a==b;break; case E_ULT:r=a<b;break; case E_ULE:r=a<=b;break; case E_SLT:r=sext(a,w)<sext(b,w);break; case E_SLE:r=sext(a,w)<=sext(b,w);break;
  case E_UMULO:{ u128 p=(u128)a*b; r=(p>>w)!=0; break;}
  case E_SMULO:{ __int128 p=(__int128)sext(a,w)*sext(b,w); r= p!=(__int128)sext((u64)p,w); break;}
  default:return false;} return true; }
static bool cmp(Op o){ return o==E_EQ||o==E_ULT||o==E_ULE||o==E_SLT||o==E_SLE||o==E_UMULO||o==E_SMULO; }
static bool comm(Op o){ return o==E_ADD||o==E_MUL||o==E_AND||o==E_OR||o==E_XOR||o==E_EQ; }
Expr*mk_not(Expr*a){ // width 1
  if(is_c(a)) return mk_const(!a->val,1);
  if(a->op==E_XOR&&is_c(a->b)&&a->b->val==1) return a->a;
  if(a->op==E_ULT) return mk_bin(E_ULE,a->b,a->a);
  if(a->op==E_ULE) return mk_bin(E_ULT,a->b,a->a);
  if(a->op==E_SLT) return mk_bin(E_SLE,a->b,a->a);
  if(a->op==E_SLE) return mk_bin(E_SLT,a->b,a->a);
  return intern(E_XOR,1,0,a,mk_const(1,1),0); }
static bool ite_of_consts(Expr*e){ return e->op==E_ITE&&((is_c(e->b)||ite_of_consts(e->b))&&(is_c(e->c)||ite_of_consts(e->c))); }
static int itedepth(Expr*e){ if(e->op!=E_ITE) return 0; int x=itedepth(e->b),y=itedepth(e->c); return 1+(x>y?x:y); }
Expr*mk_bin(Op op,Expr*a,Expr*b){
  u8 w=a->w; 
  if(a->w!=b->w){ fprintf(stderr,"width mismatch %s %d %d\n",opn[op],a->w,b->w); abort(); }
  if(is_c(a)&&is_c(b)){ u64 r; fold_bin(op,w,a->val,b->val,r); return mk_const(r,cmp(op)?1:w); }
  if(comm(op)&&(is_c(a)||(!is_c(b)&&a->id>b->id))){ Expr*t=a;a=b;b=t; }
  u64 m=mask(w);
  bool cb=is_c(b), ca=is_c(a); u64 bv=cb?b->val:0;
  if(cb&&bv&&a->op==E_ZEXT&&a->a->w<w&&bv<=mask(a->a->w)&&!(bv>>(w-1))&&(op==E_UDIV||op==E_SDIV||op==E_UREM||op==E_SREM))
    return mk_ext(E_ZEXT,mk_bin((op==E_UDIV||op==E_SDIV)?E_UDIV:E_UREM,a->a,mk_const(bv,a->a->w)),w);
  switch(op){
  case E_ADD: if(cb&&!bv) return a; if(cb&&a->op==E_ADD&&is_c(a->b)) return mk_bin(E_ADD,a->a,mk_const(a->b->val+bv,w)); 
     break;
  case E_SUB: if(a==b) return mk_const(0,w); if(cb) return mk_bin(E_ADD,a,mk_const(0-bv,w));
     if(a->op==E_ADD&&is_c(a->b)){ if(a->a==b) return a->b; if(b->op==E_ADD&&is_c(b->b)&&a->a==b->a) return mk_const(a->b->val-b->b->val,w);} if(b->op==E_ADD&&is_c(b->b)&&b->a==a) return mk_const(0-b->b->val,w); break;
  case E_MUL: if(cb){ if(!bv) return b; if(bv==1) return a; if(!(bv&(bv-1))) return mk_bin(E_SHL,a,mk_const(__builtin_ctzll(bv),w)); if(a->op==E_MUL&&is_c(a->b)) return mk_bin(E_MUL,a->a,mk_const(a->b->val*bv,w)); } break;
  case E_UDIV: if(cb&&bv==1) return a; if(cb&&bv&&!(bv&(bv-1))) return mk_bin(E_LSHR,a,mk_const(__builtin_ctzll(bv),w)); break;
  case E_SDIV: if(cb&&bv==1) return a; break;
  case E_UREM: if(cb&&bv==1) return mk_const(0,w); if(cb&&bv&&!(bv&(bv-1))) return mk_bin(E_AND,a,mk_const(bv-1,w)); break;
  case E_AND: if(a==b) return a; if(cb){ if(!bv) return b; if(bv==m) return a; 
       if(a->op==E_ZEXT){ u64 im=mask(a->a->w); if((bv&im)==im) return a; if(a->a->w<w) return mk_ext(E_ZEXT,mk_bin(E_AND,a->a,mk_const(bv,a->a->w)),w); }
       if(a->op==E_AND&&is_c(a->b)) return mk_bin(E_AND,a->a,mk_const(a->b->val&bv,w));
       if(!(bv&(bv+1))&&bv!=m){ int n=__builtin_ctzll(~bv); return mk_ext(E_ZEXT,mk_extract(a,0,(u8)n),w);} 
       if(ite_of_consts(a)&&itedepth(a)<=4) return mk_ite(a->a,mk_bin(op,a->b,b),mk_bin(op,a->c,b)); }
     if(w==1){ if((a->op==E_XOR&&a->a==b&&is_c(a->b))||(b->op==E_XOR&&b->a==a&&is_c(b->b))) return mk_const(0,1); }
     break;
  case E_OR: if(a==b) return a; if(cb){ if(!bv) return a; if(bv==m) return b; if(ite_of_consts(a)&&itedepth(a)<=4) return mk_ite(a->a,mk_bin(op,a->b,b),mk_bin(op,a->c,b)); }
     if(w==1){ if((a->op==E_XOR&&a->a==b&&is_c(a->b))||(b->op==E_XOR&&b->a==a&&is_c(b->b))) return mk_const(1,1); }
     break;
  case E_XOR: if(a==b) return mk_const(0,w); if(cb){ if(!bv) return a; if(w==1) return mk_not(a); if(a->op==E_XOR&&is_c(a->b)) return mk_bin(E_XOR,a->a,mk_const(a->b->val^bv,w)); } break;
  case E_SHL: case E_LSHR: if(cb){ if(!bv) return a; if(bv>=w) return mk_const(0,w); 
       if(op==E_LSHR){ return mk_ext(E_ZEXT,mk_extract(a,(u8)bv,(u8)(w-bv)),w); }
       else { return mk_concat(mk_extract(a,0,(u8)(w-bv)),mk_const(0,(u8)bv)); } } break;
  case E_ASHR: if(cb&&!bv) return a; if(cb&&bv<w) return mk_ext(E_SEXT,mk_extract(a,(u8)bv,(u8)(w-bv)),w); break;
  case E_EQ: if(a==b) return mk_const(1,1);
     if(cb){ if(w==1) return bv?a:mk_not(a);
       if(a->op==E_ZEXT||(a->op==E_CONCAT&&is_c(a->a))){ 
         if(a->op==E_ZEXT){ if(bv>>a->a->w) return mk_const(0,1); return mk_bin(E_EQ,a->a,mk_const(bv,a->a->w)); }
         if((bv>>a->b->w)!=a->a->val) return mk_const(0,1); return mk_bin(E_EQ,a->b,mk_const(bv,a->b->w)); }
       if(a->op==E_SEXT){ if((u64)(sext(bv,a->a->w))!=(u64)sext(bv,w)) return mk_const(0,1); return mk_bin(E_EQ,a->a,mk_const(bv,a->a->w)); }
       if(a->op==E_CONCAT&&is_c(a->b)){ if((bv&mask(a->b->w))!=a->b->val) return mk_const(0,1); return mk_bin(E_EQ,a->a,mk_const(bv>>a->b->w,a->a->w)); }
       if(a->op==E_CONCAT) { return mk_bin(E_AND,mk_bin(E_EQ,a->a,mk_const(bv>>a->b->w,a->a->w)),mk_bin(E_EQ,a->b,mk_const(bv,a->b->w))); }
       if(a->op==E_ADD&&is_c(a->b)) return mk_bin(E_EQ,a->a,mk_const(bv-a->b->val,w));
       if(a->op==E_XOR&&is_c(a->b)) return mk_bin(E_EQ,a->a,mk_const(bv^a->b->val,w));
       if(a->op==E_SUB&&!bv) return mk_bin(E_EQ,a->a,a->b);
       if(a->op==E_XOR&&!bv) return mk_bin(E_EQ,a->a,a->b);
       if(a->op==E_OR&&!bv) return mk_bin(E_AND,mk_bin(E_EQ,a->a,b),mk_bin(E_EQ,a->b,b));
       if(a->op==E_ITE&&(is_c(a->b)||is_c(a->c))&&itedepth(a)<=8){ Expr*x=mk_bin(E_EQ,a->b,b),*y=mk_bin(E_EQ,a->c,b); return mk_ite(a->a,x,y); }
     }
     if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mk_bin(E_EQ,a->a,b->a);
     if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mk_bin(E_EQ,a->a,b->a);
     break;
  case E_ULT: if(a==b) return mk_const(0,1); if(cb&&!bv) return mk_const(0,1); if(cb&&bv==1) return mk_bin(E_EQ,a,mk_const(0,w)); if(ca&&a->val==m) return mk_const(0,1);
     if(ca&&!a->val) return mk_not(mk_bin(E_EQ,b,a));
     if(cb&&a->op==E_ZEXT){ if(bv>mask(a->a->w)) return mk_const(1,1); return mk_bin(op,a->a,mk_const(bv,a->a->w)); }
     if(ca&&b->op==E_ZEXT){ if(a->val>=mask(b->a->w)) return mk_const(0,1); return mk_bin(op,mk_const(a->val,b->a->w),b->a); }
     if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mk_bin(op,a->a,b->a);
     if(cb&&ite_of_consts(a)&&itedepth(a)<=8) return mk_ite(a->a,mk_bin(op,a->b,b),mk_bin(op,a->c,b));
     if(ca&&ite_of_consts(b)&&itedepth(b)<=8) return mk_ite(b->a,mk_bin(op,a,b->b),mk_bin(op,a,b->c));
     break;
  case E_ULE: if(a==b) return mk_const(1,1); if(ca&&!a->val) return mk_const(1,1); if(cb&&bv==m) return mk_const(1,1); if(cb&&!bv) return mk_bin(E_EQ,a,b);
     if(cb&&a->op==E_ZEXT){ if(bv>=mask(a->a->w)) return mk_const(1,1); return mk_bin(op,a->a,mk_const(bv,a->a->w)); }
     if(ca&&b->op==E_ZEXT){ if(a->val>mask(b->a->w)) return mk_const(0,1); return mk_bin(op,mk_const(a->val,b->a->w),b->a); }
     if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w==b->a->w) return mk_bin(op,a->a,b->a);
     if(cb&&ite_of_consts(a)&&itedepth(a)<=8) return mk_ite(a->a,mk_bin(op,a->b,b),mk_bin(op,a->c,b));
     if(ca&&ite_of_consts(b)&&itedepth(b)<=8) return mk_ite(b->a,mk_bin(op,a,b->b),mk_bin(op,a,b->c));
     break;
  case E_SLT: case E_SLE: if(a==b) return mk_const(op==E_SLE,1);
     if(a->op==E_ZEXT&&a->a->w<w&&cb){ if(sext(bv,w)<0) return mk_const(0,1); return mk_bin(op==E_SLT?E_ULT:E_ULE,a,b); }
     if(b->op==E_ZEXT&&b->a->w<w&&ca){ if(sext(a->val,w)<0) return mk_const(1,1); return mk_bin(op==E_SLT?E_ULT:E_ULE,a,b); }
     if(a->op==E_ZEXT&&b->op==E_ZEXT&&a->a->w<w&&b->a->w<w) return mk_bin(op==E_SLT?E_ULT:E_ULE,a,b);
     if(a->op==E_SEXT&&b->op==E_SEXT&&a->a->w==b->a->w) return mk_bin(op,a->a,b->a);
     if(cb&&a->op==E_SEXT&&(u64)sext(bv&mask(a->a->w),a->a->w)==(u64)sext(bv,w)) return mk_bin(op,a->a,mk_const(bv,a->a->w));
     if(ca&&b->op==E_SEXT&&(u64)sext(a->val&mask(b->a->w),b->a->w)==(u64)sext(a->val,w)) return mk_bin(op,mk_const(a->val,b->a->w),b->a);
     if(cb&&ite_of_consts(a)&&itedepth(a)<=8) return mk_ite(a->a,mk_bin(op,a->b,b),mk_bin(op,a->c,b));
     if(ca&&ite_of_consts(b)&&itedepth(b)<=8) return mk_ite(b->a,mk_bin(op,a,b->b),mk_bin(op,a,b->c));
     break;
  default:break; }
  return intern(op,cmp(op)?1:w,0,a,b,0); }
Expr*mk_ext(Op op,Expr*a,u8 w){
  if(a->w==w) return a;
  if(is_c(a)) return mk_const(op==E_ZEXT?a->val:(u64)sext(a->val,a->w),w);
  if(a->op==E_ZEXT) return mk_ext(E_ZEXT,a->a,w);
  if(a->op==E_SEXT&&op==E_SEXT) return mk_ext(E_SEXT,a->a,w);
  if(ite_of_consts(a)&&itedepth(a)<=8) return mk_ite(a->a,mk_ext(op,a->b,w),mk_ext(op,a->c,w));
  return intern(op,w,0,a,0,0); }
Expr*mk_extract(Expr*a,u8 lo,u8 w){
  if(lo==0&&w==a->w) return a;
  if(is_c(a)) return mk_const(a->val>>lo,w);
  if(a->op==E_EXTRACT) return mk_extract(a->a,(u8)(lo+a->val),w);
  if(a->op==E_CONCAT){ u8 lw=a->b->w; if(lo+w<=lw) return mk_extract(a->b,lo,w); if(lo>=lw) return mk_extract(a->a,(u8)(lo-lw),w);
    return mk_concat(mk_extract(a->a,0,(u8)(lo+w-lw)),mk_extract(a->b,lo,(u8)(lw-lo))); }
  if(a->op==E_ZEXT){ u8 iw=a->a->w; if(lo>=iw) return mk_const(0,w); if(lo+w<=iw) return mk_extract(a->a,lo,w); return mk_ext(E_ZEXT,mk_extract(a->a,lo,(u8)(iw-lo)),w); }
  if(a->op==E_SEXT){ u8 iw=a->a->w; if(lo+w<=iw) return mk_extract(a->a,lo,w); if(lo==0) return mk_ext(E_SEXT,a->a,w); if(lo>=iw) return mk_ext(E_SEXT,mk_extract(a->a,iw-1,1),w); }
  if(a->op==E_ITE&&(is_c(a->b)||is_c(a->c))&&itedepth(a)<=8) return mk_ite(a->a,mk_extract(a->b,lo,w),mk_extract(a->c,lo,w));
  if(a->op==E_AND||a->op==E_OR||a->op==E_XOR) return mk_bin(a->op,mk_extract(a->a,lo,w),mk_extract(a->b,lo,w));
  if(lo==0&&(a->op==E_ADD||a->op==E_SUB||a->op==E_MUL)) return mk_bin(a->op,mk_extract(a->a,0,w),mk_extract(a->b,0,w));
  return intern(E_EXTRACT,w,lo,a,0,0); }
Expr*mk_concat(Expr*hi,Expr*lo){
  u8 w=(u8)(hi->w+lo->w);
  if(is_c(hi)&&is_c(lo)) return mk_const(hi->val<<lo->w|lo->val,w);
  if(is_c(hi)&&!hi->val) return mk_ext(E_ZEXT,lo,w);
  if(hi->op==E_EXTRACT&&lo->op==E_EXTRACT&&hi->a==lo->a&&hi->val==lo->val+lo->w) return mk_extract(lo->a,(u8)lo->val,w);
  if(lo->op==E_CONCAT){ // (hi . (x . y)) try merging hi.x
    Expr*x=lo->a; if((hi->op==E_EXTRACT&&x->op==E_EXTRACT&&hi->a==x->a&&hi->val==x->val+x->w)||(is_c(hi)&&is_c(x))) return mk_concat(mk_concat(hi,x),lo->b); }
  if(hi->op==E_CONCAT){ Expr*y=hi->b; if((y->op==E_EXTRACT&&lo->op==E_EXTRACT&&y->a==lo->a&&y->val==lo->val+lo->w)||(is_c(y)&&is_c(lo))) return mk_concat(hi->a,mk_concat(y,lo)); }
  // low part is whole truncated value: extract(x,lo..) . zext? handled above
  if(hi->op==E_ZEXT) { return mk_ext(E_ZEXT,mk_concat(hi->a,lo),w); }
  return intern(E_CONCAT,w,0,hi,lo,0); }
Expr*mk_ite(Expr*c,Expr*a,Expr*b){
  if(is_c(c)) return c->val?a:b;
  if(a==b) return a;
  if(a->w==1){ if(is_c(a)&&is_c(b)) return a->val?c:mk_not(c); if(is_true(a)) return mk_bin(E_OR,c,b); if(is_false(a)) return mk_bin(E_AND,mk_not(c),b); if(is_true(b)) return mk_bin(E_OR,mk_not(c),a); if(is_false(b)) return mk_bin(E_AND,c,a); }
  if(c->op==E_XOR&&is_c(c->b)) return mk_ite(c->a,b,a);
  if(a->op==E_ITE&&a->a==c) a=a->b;
  if(b->op==E_ITE&&b->a==c) b=b->c;
  if(a==b) return a;
  return intern(E_ITE,a->w,0,c,a,b); }
static std::unordered_map<u64,std::vector<Table*>> tabs;
Table*intern_table(std::vector<Expr*>&el,u8 width){
  u64 h=width; for(auto e:el) h=mix(h,e->hash);
  for(auto t:tabs[h]) if(t->width==width&&t->el==el) return t;
  Table*t=new Table; t->n=(u32)el.size(); t->width=width; t->el=el; t->hash=h; t->allconst=true; t->cel.resize(el.size());
  for(size_t i=0;i<el.size();i++){ if(is_c(el[i])) t->cel[i]=el[i]->val; else t->allconst=false; t->syms=t->syms|el[i]->syms; }
  tabs[h].push_back(t); return t; }
Expr*mk_table(Table*t,Expr*idx){
  if(is_c(idx)) return idx->val<t->n?t->el[idx->val]:mk_const(0,t->width);
  if(ite_of_consts(idx)&&itedepth(idx)<=6) return mk_ite(idx->a,mk_table(t,idx->b),mk_table(t,idx->c));
  bool same=true; for(u32 i=1;i<t->n&&same;i++) same=t->el[i]==t->el[0];
  if(same) return t->el[0];
  return intern(E_TABLE,t->width,0,idx,0,0,t); }
static u64 epoch=0;
static u64 ev(Expr*e,const std::vector<u64>&m){
  if(e->op==E_CONST) return e->val;
  if(e->op==E_SYM) return e->val<m.size()?m[e->val]:0;
  if(e->ev_epoch==epoch) return e->ev_val;
  u64 r=0;
  switch(e->op){
  case E_ZEXT:r=ev(e->a,m);break; case E_SEXT:r=(u64)sext(ev(e->a,m),e->a->w)&mask(e->w);break;
  case E_EXTRACT:r=(ev(e->a,m)>>e->val)&mask(e->w);break;
  case E_CONCAT:r=ev(e->a,m)<<e->b->w|ev(e->b,m);break;
  case E_ITE:r=ev(e->a,m)?ev(e->b,m):ev(e->c,m);break;
  case E_TABLE:{ u64 i=ev(e->a,m); r= i<e->t->n? (e->t->allconst?e->t->cel[i]:ev(e->t->el[i],m)):0; break; }
  default: fold_bin(e->op,e->a->w,ev(e->a,m),ev(e->b,m),r); }
  e->ev_epoch=epoch; e->ev_val=r; return r; }
u64 eval(Expr*e,const std::vector<u64>&m){ epoch++; return ev(e,m); }
bool single_narrow(Expr*e,int&sym){ if(e->syms.count()!=1) return false; sym=e->syms.first(); return g_syms[sym].w<=8; }
/* values of an expression over one narrow symbol, for every value of the symbol; kept per node, dropped together when they grow too many */
static std::vector<Expr*> va_nodes; static std::vector<u64*> va_free;
static u64*va(Expr*e,u32 n);
static u64*va(Expr*e,u32 n){
  if(e->vals) return e->vals;
  u64*r; if(va_free.empty()) r=new u64[256]; else { r=va_free.back(); va_free.pop_back(); }
  switch(e->op){
  case E_CONST: for(u32 v=0;v<256;v++) r[v]=e->val; break;
  case E_SYM: for(u32 v=0;v<n;v++) r[v]=v; break;
  case E_ZEXT:{ const u64*a=va(e->a,n); for(u32 v=0;v<n;v++) r[v]=a[v]; break; }
  case E_SEXT:{ const u64*a=va(e->a,n); for(u32 v=0;v<n;v++) r[v]=(u64)sext(a[v],e->a->w)&mask(e->w); break; }
  case E_EXTRACT:{ const u64*a=va(e->a,n); for(u32 v=0;v<n;v++) r[v]=(a[v]>>e->val)&mask(e->w); break; }
  case E_CONCAT:{ const u64*a=va(e->a,n),*b=va(e->b,n); for(u32 v=0;v<n;v++) r[v]=a[v]<<e->b->w|b[v]; break; }
  case E_ITE:{ const u64*c=va(e->a,n); const u64*x=va(e->b,n),*y=va(e->c,n); for(u32 v=0;v<n;v++) r[v]=c[v]?x[v]:y[v]; break; }
  case E_TABLE:{ const u64*a=va(e->a,n); for(u32 v=0;v<n;v++){ u64 i=a[v]; if(i>=e->t->n) r[v]=0; else if(e->t->allconst) r[v]=e->t->cel[i]; else { Expr*x=e->t->el[i]; r[v]=va(x,n)[v]; } } break; }
  default:{ const u64*a=va(e->a,n),*b=e->b?va(e->b,n):a; for(u32 v=0;v<n;v++){ u64 q=0; fold_bin(e->op,e->a->w,a[v],b[v],q); r[v]=q; } } }
  e->vals=r; va_nodes.push_back(e); return r; }
Bits256*truth_table(Expr*e){
  if(e->tab) return e->tab; int s=e->syms.first(); Bits256*b=new Bits256; memset(b,0,sizeof *b);
  u32 n=1u<<g_syms[s].w; const u64*r=va(e,n);
  for(u32 v=0;v<n;v++) if(r[v]) b->set(v);
  if(va_nodes.size()>40000){ for(auto x:va_nodes){ va_free.push_back(x->vals); x->vals=0; } va_nodes.clear(); }
  e->tab=b; return b; }
std::string expr_str(Expr*e,int d){
  char buf[64]; if(e->op==E_CONST){ snprintf(buf,64,"0x%llx:%d",(unsigned long long)e->val,e->w); return buf; }
  if(e->op==E_SYM) return g_syms[e->val].name;
  if(!d) return "..";
  std::string s=std::string("(")+opn[e->op]; if(e->op==E_EXTRACT){ snprintf(buf,64,"[%d+%d]",(int)e->val,e->w); s+=buf; }
  if(e->a) s+=" "+expr_str(e->a,d-1); if(e->b) s+=" "+expr_str(e->b,d-1); if(e->c) s+=" "+expr_str(e->c,d-1); return s+")"; }
