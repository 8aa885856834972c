//@mods base
//@bounds every list of up to N (3, thorough 4) pointers to four objects (two of them equal) built under ten flag sets (plain, stack, sorted, stable, value and pointer sets, never-shrink and combinations), then every single operation (insert, insert_at, take, remove at/first/last/value/range/duplicates, replace value/at, swap, grouped insert, duplicate, merge, every match type and every index up to one past the end), compared with a reference sequence, with frees counted per object; sequences of P (6, thorough 9) pushes and pops at both ends of a list of 0..9 to cross the growth and shrink thresholds; resorting by a comparator with a thunk in both directions; typed wrappers (u64, str, bin)
//@outside longer lists; which of several equal values a single-value removal or replacement picks (any is accepted); replacing several values by one in a pointer set; a value argument that is freed by the call itself
//@H h_ops q:N=3,FS=0 t:N=4,FS=0 jobs=4 reach=ins,at,take,range,val,dups,repl,swap,merge,dup
//@H h_ops q:N=3,FS=1 t:N=4,FS=1 jobs=4 reach=ins,take,range,val,dups,repl,merge,dup
//@H h_grow q:P=6 t:P=9 jobs=2 reach=end
//@H h_thunk reach=sorted,resorted
//@H h_types reach=u64,str,bin
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 3
#endif
#ifndef FS
#define FS 0
#endif
#ifndef P
#define P 6
#endif
typedef struct { int cls, id; } ob; static ob OB[5]={{0,0},{1,1},{1,2},{2,3},{1,4}}; static int freed[5];
static void vfree(void *p){ freed[((ob*)p)-OB]++; }
static int eq(const void *a, const void *b, void *t){ const ob *x=*(ob*const*)a, *y=*(ob*const*)b; (void)t; return x->cls-y->cls; }
static const unsigned FL[2][5]={{0,M_LIST_STACK,M_LIST_SET_VAL,M_LIST_SET_PTR|M_LIST_NEVERSHRINK,M_LIST_STACK|M_LIST_SET_VAL},{M_LIST_SORTED,M_LIST_SORTED|M_LIST_STABLE,M_LIST_SORTED|M_LIST_SET_VAL,M_LIST_SORTED|M_LIST_SET_PTR,M_LIST_SORTED|M_LIST_STABLE|M_LIST_NEVERSHRINK}};
typedef struct { int n, v[16]; } seq;
static int has(const seq *s, int x, unsigned ty){ int i; for(i=0;i<s->n;i++) if(ty&M_LIST_MATCH_PTR?s->v[i]==x:OB[s->v[i]].cls==OB[x].cls) return 1; return 0; }
static void del(seq *s, int i){ s->n--; for(;i<s->n;i++) s->v[i]=s->v[i+1]; }
static void put(seq *s, int i, int x){ int j; if(i>s->n) i=s->n; for(j=s->n;j>i;j--) s->v[j]=s->v[j-1]; s->v[i]=x; s->n++; }
static void rd(const M_list_t *l, seq *s){ int i; s->n=(int)M_list_len(l); for(i=0;i<s->n;i++){ const ob *o=(const ob*)M_list_at(l,(size_t)i); vp_assert_msg(o>=OB&&o<OB+5,"element is a value"); s->v[i]=(int)(o-OB); } vp_assert(M_list_at(l,(size_t)s->n)==NULL); vp_assert(M_list_first(l)==(s->n?&OB[s->v[0]]:NULL)&&M_list_last(l)==(s->n?&OB[s->v[s->n-1]]:NULL)); }
static int same(const seq *a, const seq *b){ int i; if(a->n!=b->n) return 0; for(i=0;i<a->n;i++) if(a->v[i]!=b->v[i]) return 0; return 1; }
static int bag(const seq *a, const seq *b){ int i, c[5]={0}; if(a->n!=b->n) return 0; for(i=0;i<a->n;i++){ c[a->v[i]]++; c[b->v[i]]--; } for(i=0;i<5;i++) if(c[i]) return 0; return 1; }
static int sorted(const seq *a){ int i; for(i=1;i<a->n;i++) if(OB[a->v[i-1]].cls>OB[a->v[i]].cls) return 0; return 1; }
static int in_set(const seq *s, int x, unsigned fl){ return (fl&M_LIST_SET_VAL&&has(s,x,0))||(fl&M_LIST_SET_PTR&&has(s,x,M_LIST_MATCH_PTR)); }
static int ins(seq *s, int x, unsigned fl){ int i; if(in_set(s,x,fl)) return 0; if(fl&M_LIST_STACK) put(s,0,x); else if(fl&M_LIST_SORTED){ for(i=0;i<s->n&&OB[s->v[i]].cls<=OB[x].cls;i++); put(s,i,x); } else put(s,s->n,x); return 1; }
static int agree(const seq *a, const seq *b, unsigned fl){ return (fl&M_LIST_SORTED)&&!(fl&M_LIST_STABLE)?bag(a,b)&&sorted(a):same(a,b); }
#define check(l,m,fl,w) do { seq a_; rd(l,&a_); vp_assert_msg(agree(&a_,m,fl),w); *(m)=a_; query(l,a_); } while(0)
static void query(const M_list_t *l, seq a){ int x; for(x=0;x<5;x++){ unsigned ty; for(ty=0;ty<2;ty++){ size_t ix=77, c=0; int i; for(i=0;i<a.n;i++) if(ty?a.v[i]==x:OB[a.v[i]].cls==OB[x].cls) c++; vp_assert_msg(M_list_count(l,&OB[x],ty)==c,"count"); vp_assert_msg(M_list_index_of(l,&OB[x],ty,&ix)==(c>0),"membership"); if(c) vp_assert_msg(ix<(size_t)a.n&&(ty?a.v[ix]==x:OB[a.v[ix]].cls==OB[x].cls),"index of"); } } }
static void frees(const seq *before, const seq *after, int extra){ int i, c[5]={0}; for(i=0;i<before->n;i++) c[before->v[i]]++; for(i=0;i<after->n;i++) c[after->v[i]]--; if(extra>=0) c[extra]++; for(i=0;i<5;i++){ vp_assert_msg(freed[i]==c[i],"frees exactly what left"); freed[i]=0; } }
void h_ops(void){ unsigned f=(unsigned)vp_pick("fl",5), fl=FL[FS][f], op, ty; struct M_list_callbacks cb={eq,NULL,NULL,vfree}; M_list_t *l; seq m, b, t, e; int n=(int)vp_pick("n",N+1), i, x, y; size_t r, ix; M_uint64 live; m.n=0; live=vp_heap_live(); l=M_list_create(&cb,fl); vp_assert(l!=NULL);
	for(i=0;i<n;i++){ x=(int)vp_pick("v",4); r=M_list_insert(l,&OB[x]); vp_assert_msg((int)r==ins(&m,x,fl),"insert result"); rd(l,&t); vp_assert_msg(agree(&t,&m,fl),"insert order"); m=t; vp_reach("ins"); }
	if(vp_pick("shift",2)&&m.n){ void *p=M_list_take_first(l); vp_assert(p==&OB[m.v[0]]); del(&m,0); } /* leaves a gap at the start */
	check(l,&m,fl,"content"); b=m; op=(unsigned)vp_pick("op",14);
	switch(op){
	case 0: x=(int)vp_pick("x",5); { size_t at=M_list_insert_idx(l,&OB[x]); int ok=ins(&m,x,fl); vp_assert(M_list_insert(l,&OB[x])==ok); if(ok) vp_assert_msg(M_list_at(l,at)==&OB[x],"insert_idx"); } check(l,&m,fl,"insert"); frees(&b,&b,-1); break;
	case 1: x=(int)vp_pick("x",5); ix=(size_t)vp_pick("ix",(unsigned)m.n+3); { int ok=!(fl&M_LIST_SORTED)&&!in_set(&m,x,fl); vp_assert(M_list_insert_at(l,&OB[x],ix)==ok); if(ok) put(&m,ix>(size_t)m.n?m.n:(int)ix,x); check(l,&m,fl,"insert_at"); frees(&b,&b,-1); vp_reach("at"); } break;
	case 2: ix=(size_t)vp_pick("ix",(unsigned)m.n+2); { void *p=ix==0&&vp_pick("first",2)?M_list_take_first(l):m.n&&ix==(size_t)m.n-1&&vp_pick("last",2)?M_list_take_last(l):M_list_take_at(l,ix); vp_assert_msg(p==(ix<(size_t)m.n?&OB[m.v[ix]]:NULL),"take"); if(p) del(&m,(int)ix); check(l,&m,fl,"take"); frees(&b,&b,-1); vp_reach("take"); } break;
	case 3: ix=(size_t)vp_pick("ix",(unsigned)m.n+2); { M_bool ok=ix==0&&vp_pick("first",2)?M_list_remove_first(l):m.n&&ix==(size_t)m.n-1&&vp_pick("last",2)?M_list_remove_last(l):M_list_remove_at(l,ix); vp_assert(ok==(ix<(size_t)m.n)); if(ok) del(&m,(int)ix); check(l,&m,fl,"remove_at"); frees(&b,&m,-1); } break;
	case 4: { size_t s=(size_t)vp_pick("st",(unsigned)m.n+2), en=(size_t)vp_pick("en",(unsigned)m.n+3); int ok=s<=en&&s<(size_t)m.n; vp_assert(M_list_remove_range(l,s,en)==ok); if(ok) for(i=(int)s;i<=(int)en&&i<b.n;i++) del(&m,(int)s); check(l,&m,fl,"range"); frees(&b,&m,-1); vp_reach("range"); } break;
	case 5: ty=(unsigned)vp_pick("ty",4); x=(int)vp_pick("x",5); r=M_list_remove_val(l,&OB[x],ty); rd(l,&t); vp_reach("val"); if(!has(&m,x,ty)) vp_assert(r==0&&same(&t,&m)); else if(ty&M_LIST_MATCH_ALL){ for(i=0;i<m.n;) if(ty&M_LIST_MATCH_PTR?m.v[i]==x:OB[m.v[i]].cls==OB[x].cls) del(&m,i); else i++; vp_assert_msg((int)r==b.n-m.n,"removed count"); vp_assert_msg(same(&t,&m),"removes every match"); } else { int ok=0; vp_assert(r==1); for(i=0;i<m.n;i++) if(ty&M_LIST_MATCH_PTR?m.v[i]==x:OB[m.v[i]].cls==OB[x].cls){ e=m; del(&e,i); ok|=same(&e,&t); } vp_assert_msg(ok,"removes one match"); } frees(&b,&t,-1); m=t; check(l,&m,fl,"val"); break;
	case 6: ty=(unsigned)vp_pick("ty",2); M_list_remove_duplicates(l,ty); e.n=0; for(i=0;i<m.n;i++) if(!has(&e,m.v[i],ty)) put(&e,e.n,m.v[i]); rd(l,&t); vp_reach("dups"); if(ty) vp_assert_msg(bag(&t,&e),"one of each pointer"); else { int c; vp_assert_msg(t.n==e.n,"one of each value"); for(c=0;c<5;c++) vp_assert(has(&t,c,0)==has(&m,c,0)); } if(!(fl&(M_LIST_SORTED|M_LIST_STACK))) vp_assert_msg(same(&t,&e),"first ones stay in order"); frees(&b,&t,-1); m=t; check(l,&m,fl,"dups"); break;
	case 7: ty=(unsigned)vp_pick("ty",4); x=(int)vp_pick("x",5); y=(int)vp_pick("y",5); if(fl&M_LIST_SET_PTR&&!(ty&M_LIST_MATCH_PTR)) { M_list_destroy(l,M_FALSE); return; } { int c=0, rem, k, ok=0; r=M_list_replace_val(l,&OB[x],&OB[y],ty); rd(l,&t); vp_reach("repl"); for(i=0;i<m.n;i++) c+=ty&M_LIST_MATCH_PTR?m.v[i]==x:OB[m.v[i]].cls==OB[x].cls; if(ty&M_LIST_MATCH_PTR?x==y:OB[x].cls==OB[y].cls) c=0; rem=in_set(&m,y,fl);
		if(!c){ vp_assert(r==0&&same(&t,&m)); break; } if(!(ty&M_LIST_MATCH_ALL)) vp_assert(r==1); else vp_assert_msg((int)r==c,"replaced count");
		for(k=0;k<m.n;k++) if(ty&M_LIST_MATCH_PTR?m.v[k]==x:OB[m.v[k]].cls==OB[x].cls){ int cnt=0; e=m; if(ty&M_LIST_MATCH_ALL){ for(i=0;i<e.n;) if(ty&M_LIST_MATCH_PTR?e.v[i]==x:OB[e.v[i]].cls==OB[x].cls){ cnt++; if(rem||fl&M_LIST_SORTED) del(&e,i); else e.v[i++]=y; } else i++; } else { cnt=1; if(rem||fl&M_LIST_SORTED) del(&e,k); else e.v[k]=y; } if(!rem&&fl&M_LIST_SORTED) while(cnt--) ins(&e,y,fl&~(M_LIST_SET_VAL|M_LIST_SET_PTR)); ok|=agree(&t,&e,fl); if(ty&M_LIST_MATCH_ALL) break; }
		vp_assert_msg(ok,"replaces the matches"); { int q[5]={0}; for(i=0;i<b.n;i++) q[b.v[i]]++; for(i=0;i<t.n;i++) q[t.v[i]]--; if(!rem) q[y]+=(int)r; for(i=0;i<5;i++) vp_assert_msg(freed[i]==q[i],"frees what was replaced"); } m=t; check(l,&m,fl,"repl"); } break;
	case 8: x=(int)vp_pick("x",5); ix=(size_t)vp_pick("ix",(unsigned)m.n+2); { int ok=!(fl&M_LIST_SORTED)&&ix<(size_t)m.n; if(fl&(M_LIST_SET_VAL|M_LIST_SET_PTR)&&ok){ e=m; del(&e,(int)ix); if(in_set(&e,x,fl)) ok=0; } r=M_list_replace_at(l,&OB[x],ix); vp_assert_msg(r==(size_t)ok,"replace_at result"); if(ok) m.v[ix]=x; check(l,&m,fl,"replace_at"); if(ok){ freed[b.v[ix]]--; } for(i=0;i<5;i++) vp_assert(freed[i]==0); } break;
	case 9: { size_t i1=(size_t)vp_pick("i1",(unsigned)m.n+2), i2=(size_t)vp_pick("i2",(unsigned)m.n+2); int ok=!(fl&M_LIST_SORTED)&&i1!=i2&&i1<(size_t)m.n&&i2<(size_t)m.n; vp_assert_msg(M_list_swap(l,i1,i2)==ok,"swap result"); if(ok){ int z=m.v[i1]; m.v[i1]=m.v[i2]; m.v[i2]=z; vp_reach("swap"); } check(l,&m,fl,"swap"); } break;
	case 10: M_list_insert_begin(l); for(i=0;i<2;i++){ x=(int)vp_pick("x",4); if(!in_set(&m,x,fl)){ vp_assert(M_list_insert(l,&OB[x])); ins(&m,x,fl); } else vp_assert(!M_list_insert(l,&OB[x])); } M_list_insert_end(l); check(l,&m,fl,"grouped insert"); break;
	case 11: { M_list_t *d=M_list_duplicate(l); check(d,&m,fl,"duplicate"); vp_assert(M_list_insert(d,&OB[0])==ins(&m,0,fl)); check(d,&m,fl,"use of the duplicate"); check(l,&b,fl,"source"); M_list_destroy(d,M_FALSE); vp_reach("dup"); m=b; } break;
	default: { unsigned g=(unsigned)vp_pick("g",3); int inc=(int)vp_pick("inc",2), k=(int)vp_pick("k",3), c; unsigned sf=g==0?0:g==1?M_LIST_SORTED:M_LIST_STACK; M_list_t *d; seq s; s.n=0; ty=op-12; d=M_list_create(&cb,sf); for(i=0;i<k;i++){ x=(int)vp_pick("s",5); M_list_insert(d,&OB[x]); ins(&s,x,sf); } M_list_merge(&l,d,inc,ty); vp_reach("merge"); rd(l,&t);
		if(fl&M_LIST_SET_PTR&&(inc||!(sf&M_LIST_SORTED))) ty=M_LIST_MATCH_PTR; else if(fl&M_LIST_SET_VAL) ty=0; for(c=0;c<5;c++) vp_assert_msg(has(&t,c,ty)==(has(&m,c,ty)||has(&s,c,ty)),"union"); if(fl&(M_LIST_SET_PTR|M_LIST_SET_VAL)){ ty=fl&M_LIST_SET_PTR?M_LIST_MATCH_PTR:0; for(i=0;i<t.n;i++){ e=t; del(&e,i); vp_assert_msg(!has(&e,t.v[i],ty),"still a set"); } } else if(inc) vp_assert_msg(t.n==m.n+s.n,"all values"); else { int lo=m.n; e.n=0; c=0; for(i=0;i<s.n;i++) if(!has(&m,s.v[i],ty)){ c++; if(!has(&e,s.v[i],ty)) put(&e,e.n,s.v[i]); } vp_assert_msg(t.n>=lo+e.n&&t.n<=lo+c,"only new values"); }
		if(fl&M_LIST_SORTED) vp_assert_msg(sorted(&t),"sorted after merge"); { int q[5]={0}; for(i=0;i<m.n;i++) q[m.v[i]]++; for(i=0;i<s.n;i++) q[s.v[i]]++; for(i=0;i<t.n;i++) q[t.v[i]]--; for(i=0;i<5;i++){ vp_assert_msg(q[i]==freed[i],"merge frees what it drops"); freed[i]=0; } } vp_assert(M_list_insert(l,&OB[4])==ins(&t,4,fl)); { seq z; rd(l,&z); vp_assert_msg(z.n==t.n&&(!(fl&M_LIST_SORTED)||sorted(&z)),"use after merge"); m=z; } } }
	{ int c[5]={0}; for(i=0;i<m.n;i++) c[m.v[i]]++; for(i=0;i<5;i++) freed[i]=0; M_list_destroy(l,M_TRUE); for(i=0;i<5;i++) vp_assert_msg(freed[i]==c[i],"destroy frees each once"); vp_assert(vp_heap_live()==live); } }
void h_grow(void){ static ob G[24]; ob *m[40]; int h=20, t=20, i, n=(int)vp_pick("n",10), nx=0; unsigned fl=vp_pick("ns",2)?M_LIST_NEVERSHRINK:0; M_list_t *l=M_list_create(NULL,fl); for(i=0;i<n;i++){ M_list_insert(l,&G[nx]); m[t++]=&G[nx++]; }
	for(i=0;i<P;i++){ void *p; switch(vp_pick("op",5)){ case 0: M_list_insert(l,&G[nx]); m[t++]=&G[nx++]; break; case 1: M_list_insert_at(l,&G[nx],0); m[--h]=&G[nx++]; break; case 2: p=M_list_take_first(l); vp_assert(p==(h<t?m[h]:NULL)); if(h<t) h++; break; case 3: p=M_list_take_last(l); vp_assert(p==(h<t?m[t-1]:NULL)); if(h<t) t--; break; default: vp_assert(M_list_remove_range(l,1,3)==(t-h>1)); if(t-h>1){ int k=t-h-1, j; if(k>3) k=3; for(j=h+1;j+k<t;j++) m[j]=m[j+k]; t-=k; } } }
	vp_assert(M_list_len(l)==(size_t)(t-h)); for(i=h;i<t;i++) vp_assert_msg(M_list_at(l,(size_t)(i-h))==m[i],"order across growth"); M_list_destroy(l,M_TRUE); vp_assert(vp_heap_live()==0); vp_reach("end"); }
static int teq(const void *a, const void *b, void *t){ int x=**(int*const*)a, y=**(int*const*)b; vp_assert_msg(t!=NULL,"thunk is passed"); return (x-y)**(int*)t; }
void h_thunk(void){ int v[4], i, up=1, dn=-1, j; M_list_t *l, *d, *q; struct M_list_callbacks cb={NULL,NULL,NULL,NULL}; size_t ix; unsigned st=vp_pick("st",2)?M_LIST_STABLE:0; l=M_list_create(&cb,0); for(i=0;i<4;i++){ v[i]=(int)vp_pick("v",3); M_list_insert(l,&v[i]); }
	for(j=0;j<3;j++){ int *t=j==1?&dn:&up; M_list_change_sorting(l,teq,M_LIST_SORTED|st,t); vp_reach(j?"resorted":"sorted"); for(i=1;i<4;i++) vp_assert_msg((*(const int*)M_list_at(l,i)-*(const int*)M_list_at(l,i-1))**t>=0,"sorted by the comparator"); for(i=0;i<4;i++){ vp_assert(M_list_index_of(l,&v[i],0,&ix)&&*(const int*)M_list_at(l,ix)==v[i]); vp_assert(M_list_index_of(l,&v[i],M_LIST_MATCH_PTR,&ix)&&M_list_at(l,ix)==&v[i]); } vp_assert(M_list_count(l,&v[0],0)>=1); }
	d=M_list_duplicate(l); for(i=1;i<4;i++) vp_assert(*(const int*)M_list_at(d,i)>=*(const int*)M_list_at(d,i-1)); q=M_list_duplicate(d); M_list_remove_duplicates(d,0); for(i=1;i<(int)M_list_len(d);i++) vp_assert_msg(*(const int*)M_list_at(d,i)>*(const int*)M_list_at(d,i-1),"no duplicates"); for(i=0;i<4;i++) vp_assert_msg(M_list_index_of(d,&v[i],0,NULL),"no value lost"); M_list_change_sorting(q,teq,0,&dn); vp_assert(M_list_index_of(q,&v[2],0,&ix)); M_list_remove_duplicates(q,0); vp_assert(M_list_len(q)==M_list_len(d)); M_list_merge(&d,q,M_FALSE,0); vp_assert(M_list_len(d)>=1); M_list_destroy(d,M_TRUE); M_list_destroy(l,M_TRUE); }
void h_types(void){ M_uint64 a=vp_u64("a"), b=vp_u64("b"); M_list_u64_t *u=M_list_u64_create(M_LIST_U64_SORTASC); size_t ix=9; unsigned k=(unsigned)vp_pick("k",2); vp_assert(M_list_u64_insert(u,a)&&M_list_u64_insert(u,b)); vp_assert(M_list_u64_at(u,0)==(a<b?a:b)&&M_list_u64_at(u,1)==(a<b?b:a)); vp_assert(M_list_u64_index_of(u,b,&ix)&&M_list_u64_at(u,ix)==b); vp_assert(M_list_u64_count(u,a)==1u+(a==b)); vp_assert(M_list_u64_insert_idx(u,&b)<=2); if(k){ M_list_u64_change_sorting(u,M_LIST_U64_SORTDESC); vp_assert(M_list_u64_first(u)==(a<b?b:a)); vp_assert(M_list_u64_remove_val(u,a,M_LIST_U64_MATCH_ALL)==1u+(a==b)); } else { M_list_u64_remove_duplicates(u); vp_assert(M_list_u64_len(u)==(a==b?1u:2u)); vp_assert(M_list_u64_take_last(u)==(a<b?b:a)); } vp_reach("u64"); M_list_u64_destroy(u);
	{ char s[2][3]; int i; M_list_str_t *l; for(i=0;i<4;i++) s[i/2][i%2]=(char)vp_below("c",3)+'A'; s[0][2]=s[1][2]=0; for(i=0;i<4;i++){ s[i/2][i%2]=(char)vp_conc((unsigned char)s[i/2][i%2]); if(s[i/2][i%2]=='C') s[i/2][i%2]='a'; } { int cs=strcmp(s[0],s[1]); char lo[2][3]; int ci; for(i=0;i<6;i++){ char c=s[i/3][i%3]; lo[i/3][i%3]=c>='A'&&c<='Z'?c+32:c; } ci=strcmp(lo[0],lo[1]); l=M_list_str_create(k?M_LIST_STR_SORTASC:M_LIST_STR_SORTASC|M_LIST_STR_CASECMP); vp_assert(M_list_str_insert(l,s[0])&&M_list_str_insert(l,s[1])); cs=k?cs:ci; if(cs) vp_assert_msg(M_str_eq(M_list_str_at(l,0),cs<0?s[0]:s[1]),"sorted strings"); vp_assert(M_list_str_count(l,s[0],M_LIST_STR_MATCH_VAL)==1u+(cs==0)); { char *j=M_list_str_join(l,','); vp_assert(M_str_len(j)==5&&j[2]==','); M_free(j); } vp_assert(M_list_str_remove_val(l,s[1],M_LIST_STR_MATCH_ALL)==1u+(cs==0)); M_list_str_destroy(l); vp_reach("str"); } }
	{ M_uint8 d[2][2]; size_t n[2], i, len; M_list_bin_t *l; for(i=0;i<2;i++){ n[i]=vp_pick("n",2)+1; d[i][0]=(M_uint8)vp_below("d",2); d[i][1]=(M_uint8)vp_below("d",2); } l=M_list_bin_create(M_LIST_BIN_NONE); vp_assert(M_list_bin_insert(l,d[0],n[0])&&M_list_bin_insert(l,d[1],n[1])); for(i=0;i<2;i++){ const M_uint8 *p=M_list_bin_at(l,i,&len); vp_assert(len==n[i]&&p[0]==d[i][0]&&(len==1||p[1]==d[i][1])&&p!=d[i]); } i=n[0]==n[1]&&d[0][0]==d[1][0]&&(n[0]==1||d[0][1]==d[1][1]); vp_assert(M_list_bin_count(l,d[0],n[0])==1+i); M_list_bin_destroy(l); vp_reach("bin"); } }
