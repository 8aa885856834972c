// Complete finite-domain decision procedure for small slices: backtracking over per-symbol domains with
// incremental evaluation (each constraint is checked as soon as its last symbol is assigned).
#include "solver.h"
#include <unordered_map>
#include <algorithm>
struct Nd { Op op; u8 w,aw,bw; int a,b,c; u64 k; Table*t; std::vector<int> el; };
// returns 1 sat (fills out), 0 unsat, -1 budget exhausted
int fd_solve(const std::vector<Expr*>&roots,const SymSet&syms,PathCond&pc,u64 budget,std::vector<std::pair<u32,u64>>&out){
  std::vector<u32> S; for(u32 i=0;i<256;i++) if(syms.test(i)){ if(g_syms[i].w>8) return -1; S.push_back(i); }
  if(S.size()>40) return -1;
  std::vector<std::pair<int,u32>> o; for(u32 s:S) o.push_back({pc.domain(s).count(),s}); 
  // symbols of the last root (the condition) last would prune worst; sort by domain size then index
  std::stable_sort(o.begin(),o.end()); S.clear(); for(auto&p:o) S.push_back(p.second);
  double prod=1; for(auto&p:o) prod*=p.first; if(prod==0) return 0;
  int n=(int)S.size(); std::unordered_map<u32,int> pos; for(int i=0;i<n;i++) pos[S[i]]=i;
  std::vector<Nd> nd; std::vector<int> lev; std::unordered_map<Expr*,int> ix;
  struct It{ Expr*e; int st; }; 
  // iterative-ish recursion
  std::vector<Expr*> stack;
  bool toobig=false;
  auto build=[&](auto&self,Expr*e)->int{ auto it=ix.find(e); if(it!=ix.end()) return it->second; if(nd.size()>20000){ toobig=true; return 0; }
    Nd d; d.op=e->op; d.w=e->w; d.aw=e->a?e->a->w:0; d.bw=e->b?e->b->w:0; d.a=d.b=d.c=-1; d.k=e->val; d.t=e->t; int l=-1;
    if(e->op==E_SYM) l=pos[(u32)e->val];
    else if(e->op!=E_CONST){ if(e->a){ d.a=self(self,e->a); l=std::max(l,lev[d.a]); } if(e->b){ d.b=self(self,e->b); l=std::max(l,lev[d.b]); } if(e->c){ d.c=self(self,e->c); l=std::max(l,lev[d.c]); }
      if(e->op==E_TABLE&&!e->t->allconst) for(auto x:e->t->el){ int q=self(self,x); d.el.push_back(q); l=std::max(l,lev[q]); if(toobig) break; } }
    int id=(int)nd.size(); nd.push_back(d); lev.push_back(l); ix[e]=id; return id; };
  std::vector<std::vector<int>> chk(n); std::vector<int> rid;
  for(auto r:roots){ int i=build(build,r); if(toobig) return -1; rid.push_back(i); }
  std::vector<std::vector<int>> at(n); std::vector<u64> v(nd.size(),0);
  auto evn=[&](int i){ Nd&d=nd[i]; u64 r=0; switch(d.op){ case E_CONST:r=d.k;break; case E_SYM:return;
    case E_ZEXT:r=v[d.a];break; case E_SEXT:r=(u64)sext(v[d.a],d.aw)&mask(d.w);break; case E_EXTRACT:r=(v[d.a]>>d.k)&mask(d.w);break; case E_CONCAT:r=v[d.a]<<d.bw|v[d.b];break;
    case E_ITE:r=v[d.a]?v[d.b]:v[d.c];break; case E_TABLE:{ u64 k=v[d.a]; r=k<d.t->n?(d.t->allconst?d.t->cel[k]:v[d.el[k]]):0; break; }
    default: fold_bin(d.op,d.aw,v[d.a],v[d.b],r); } v[i]=r; };
  for(int i=0;i<(int)nd.size();i++){ if(lev[i]<0) evn(i); else at[lev[i]].push_back(i); }
  for(size_t i=0;i<rid.size();i++){ if(lev[rid[i]]<0){ if(!v[rid[i]]) return 0; } else chk[lev[rid[i]]].push_back(rid[i]); }
  std::vector<int> symnode(n,-1); for(int i=0;i<(int)nd.size();i++) if(nd[i].op==E_SYM) symnode[pos[(u32)nd[i].k]]=i;
  std::vector<int> cur(n,-1); int l=0; u64 used=0;
  auto next=[&](int s,int from)->int{ Bits256&b=pc.domain(S[s]); for(int x=from;x<256;x++) if(b.test((u32)x)) return x; return -1; };
  while(l>=0){
    int x=next(l,cur[l]+1); if(x<0){ cur[l]=-1; l--; continue; }
    cur[l]=x; if(symnode[l]>=0) v[symnode[l]]=(u64)x; used+=at[l].size()+1; if(used>budget) return -1;
    for(int i:at[l]) evn(i);
    bool ok=true; for(int r:chk[l]) if(!v[r]){ ok=false; break; }
    if(!ok) continue;
    if(l==n-1){ for(int i=0;i<n;i++) out.push_back({S[i],(u64)cur[i]}); return 1; }
    l++; cur[l]=-1; }
  return 0; }
