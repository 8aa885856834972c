//@mods base
//@env env_time
//@bounds every sequence of K (3, thorough 4) operations (insert of five keys of which two are equal under the table's equality, remove keeping or destroying values, multi-value removal by index), for nine flag sets, hash functions from perfect to all-colliding (quick 2, thorough 4) and growing or fixed tables of 1 and 2 (thorough 4) buckets (quick 1); then get, multi_len, multi_get, enumeration and counts are compared with a reference map, and duplicate, merge into or from a second table and destroy follow, with every key and value allocation counted
//@outside tables of more than four keys, thunks
//@H h_ops q:K=3,FS=0,SZ=1,HF=2 t:K=4,FS=0,SZ=3,HF=4 jobs=4 time=500 reach=ins,rep,rem,mrem,grow,dup
//@H h_ops q:K=3,FS=1,SZ=1,HF=2 t:K=4,FS=1,SZ=3,HF=4 jobs=4 time=500 reach=ins,rem,mrem,grow,dup
//@H h_merge jobs=2 time=500 reach=merge
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef K
#define K 3
#endif
#ifndef SZ
#define SZ 1
#define HF 2
#endif
#ifndef FS
#define FS 0
#endif
typedef struct { int id, cls; } key;
static key KS[5]={{0,0},{1,1},{2,2},{3,0},{4,3}}; static int kl, vl; static unsigned hf;
static int keq(const void *a, const void *b, void *t){ const key *x=*(key*const*)a, *y=*(key*const*)b; (void)t; return x->cls-y->cls; }
static M_uint32 kh(const void *p, M_uint32 seed){ M_uint32 c=(M_uint32)((const key*)p)->cls; (void)seed; return hf==0?c:hf==1?5:hf==2?c*2:(c&1)?7:12; }
static void *kdup(const void *p){ key *k=(key*)vp_malloc(sizeof(key)); *k=*(const key*)p; kl++; return k; }
static void kfree(void *p){ kl--; ((key*)p)->cls=99; vp_free(p); }
static void *vdup(const void *p){ int *v=(int*)vp_malloc(sizeof(int)); *v=*(const int*)p; vl++; return v; }
static void vfree(void *p){ vl--; *(int*)p=-1; vp_free(p); }
static int veq(const void *a, const void *b, void *t){ int x=**(int*const*)a, y=**(int*const*)b; (void)t; return y-x; }
static const unsigned FL[2][5]={{0,M_HASHTABLE_KEYS_ORDERED,M_HASHTABLE_KEYS_ORDERED|M_HASHTABLE_KEYS_SORTED,M_HASHTABLE_MULTI_VALUE,M_HASHTABLE_MULTI_VALUE|M_HASHTABLE_MULTI_GETLAST},{M_HASHTABLE_MULTI_VALUE|M_HASHTABLE_MULTI_SORTED,M_HASHTABLE_MULTI_VALUE|M_HASHTABLE_KEYS_ORDERED,M_HASHTABLE_MULTI_VALUE|M_HASHTABLE_KEYS_ORDERED|M_HASHTABLE_KEYS_SORTED|M_HASHTABLE_MULTI_SORTED,M_HASHTABLE_MULTI_VALUE|M_HASHTABLE_KEYS_ORDERED|M_HASHTABLE_MULTI_GETLAST,M_HASHTABLE_STATIC_SEED}};
typedef struct { int n; int ord[5]; int id[5]; int nv[5]; int v[5][8]; } model; /* ord: classes in insertion order; per class: key id, values */
static M_hashtable_t *mkh(unsigned fl, size_t size, int grow){ struct M_hashtable_callbacks cb; memset(&cb,0,sizeof cb); cb.key_duplicate_insert=kdup; cb.key_duplicate_copy=kdup; cb.key_free=kfree; cb.value_duplicate_insert=vdup; cb.value_duplicate_copy=vdup; cb.value_free=vfree; cb.value_equality=fl&M_HASHTABLE_MULTI_SORTED?veq:NULL; return M_hashtable_create(size,grow?75:0,kh,keq,fl,&cb); }
static void m_ins(model *m, unsigned fl, int id, int val){ int c=KS[id].cls, i; if(!m->nv[c]){ m->ord[m->n++]=c; m->id[c]=id; } if(!(fl&M_HASHTABLE_MULTI_VALUE)){ m->v[c][0]=val; m->nv[c]=1; return; } i=m->nv[c]++; if(fl&M_HASHTABLE_MULTI_SORTED) while(i>0&&m->v[c][i-1]<val){ m->v[c][i]=m->v[c][i-1]; i--; } m->v[c][i]=val; }
static void m_rem(model *m, int c){ int i, j=0; for(i=0;i<m->n;i++) if(m->ord[i]!=c) m->ord[j++]=m->ord[i]; m->n=j; m->nv[c]=0; }
static void verify(const M_hashtable_t *h, model *m, unsigned fl){ int c, i, j, tot=0, seen=0; M_hashtable_enum_t e; const void *k, *v; void *g; size_t len; int multi=(fl&M_HASHTABLE_MULTI_VALUE)!=0, vi[5]={0}; int so[5];
	for(c=0;c<4;c++) tot+=m->nv[c]; vp_assert_msg(M_hashtable_num_keys(h)==(size_t)m->n,"num_keys"); vp_assert(M_hashtable_is_multi(h)==multi);
	for(i=0;i<5;i++){ c=KS[i].cls; g=(void*)1; vp_assert_msg(M_hashtable_get(h,&KS[i],&g)==(m->nv[c]>0),"get"); if(m->nv[c]) vp_assert_msg(*(int*)g==m->v[c][(fl&M_HASHTABLE_MULTI_GETLAST)?m->nv[c]-1:0],"value");
		len=9; if(multi){ vp_assert(M_hashtable_multi_len(h,&KS[i],&len)==(m->nv[c]>0)); vp_assert(len==(size_t)m->nv[c]); for(j=0;j<m->nv[c];j++){ vp_assert(M_hashtable_multi_get(h,&KS[i],(size_t)j,&g)); vp_assert_msg(*(int*)g==m->v[c][j],"multi value"); } vp_assert(!M_hashtable_multi_get(h,&KS[i],(size_t)m->nv[c],&g)); } else vp_assert(!M_hashtable_multi_len(h,&KS[i],&len)&&len==0); }
	vp_assert_msg(M_hashtable_enumerate(h,&e)==(size_t)tot,"enumerate count"); for(i=0;i<m->n;i++) so[i]=m->ord[i]; if(fl&M_HASHTABLE_KEYS_SORTED) for(i=1;i<m->n;i++) for(j=i;j>0&&so[j-1]>so[j];j--){ c=so[j]; so[j]=so[j-1]; so[j-1]=c; }
	i=0; while(M_hashtable_enumerate_next(h,&e,&k,&v)){ vp_assert_msg(seen<tot,"enumerates too much"); c=((const key*)k)->cls; vp_assert(c>=0&&c<4&&m->nv[c]>0&&((const key*)k)->id==m->id[c]); if(fl&M_HASHTABLE_KEYS_ORDERED){ vp_assert_msg(so[i]==c,"order"); } vp_assert_msg(vi[c]<m->nv[c]&&*(const int*)v==m->v[c][vi[c]],"enumerated value"); vi[c]++; if(vi[c]==m->nv[c]) i++; seen++; } vp_assert_msg(seen==tot,"enumerates all"); }
static int vn; static void cnt(model *m, int *k, int *v){ int c; *k=m->n; *v=0; for(c=0;c<4;c++) *v+=m->nv[c]; }
void h_ops(void){ unsigned fl=FL[FS][vp_pick("fl",5)]; size_t size=(size_t)1<<vp_pick("size",SZ); int grow=(int)vp_pick("grow",2), i, kept=0, k, v; M_hashtable_t *h, *d; model m; memset(&m,0,sizeof m); hf=(unsigned)vp_pick("hf",HF); h=mkh(fl,size,grow); vp_assert(h!=NULL);
	for(i=0;i<K;i++){ unsigned op=(unsigned)vp_pick("op",fl&M_HASHTABLE_MULTI_VALUE?15:10); int val=100+i*7, id=(int)(op%5), c=KS[id].cls, had=m.nv[c]>0, n;
		if(op<5){ vp_assert(M_hashtable_insert(h,&KS[id],&val)); vp_reach(had?"rep":"ins"); m_ins(&m,fl,id,val); }
		else if(op<10){ M_bool ds=(M_bool)(i&1); void *g[8]; n=m.nv[c]; if(!ds){ int j; for(j=0;j<n;j++){ if(fl&M_HASHTABLE_MULTI_VALUE) M_hashtable_multi_get(h,&KS[id],(size_t)j,&g[j]); else M_hashtable_get(h,&KS[id],&g[j]); } } vp_assert(M_hashtable_remove(h,&KS[id],ds)==had); if(had){ vp_reach("rem"); if(!ds){ int j; for(j=0;j<n;j++){ vp_assert(*(int*)g[j]==m.v[c][j]); vfree(g[j]); } } } m_rem(&m,c); }
		else { int ix=(int)vp_pick("ix",2), ok=ix<m.nv[c], j; vp_assert(M_hashtable_multi_remove(h,&KS[id],(size_t)ix,M_TRUE)==ok); if(ok){ vp_reach("mrem"); if(m.nv[c]==1) m_rem(&m,c); else { for(j=ix;j+1<m.nv[c];j++) m.v[c][j]=m.v[c][j+1]; m.nv[c]--; } } } }
	if(M_hashtable_num_expansions(h)) vp_reach("grow"); if(grow) vp_assert(M_hashtable_num_keys(h)*100/M_hashtable_size(h)<75); verify(h,&m,fl); cnt(&m,&k,&v); vp_assert_msg(kl==k&&vl==v,"live keys and values");
	d=M_hashtable_duplicate(h); vp_reach("dup"); verify(d,&m,fl); M_hashtable_destroy(h,M_TRUE); vp_assert(kl==k&&vl==v); verify(d,&m,fl); M_hashtable_destroy(d,M_TRUE); vp_assert_msg(kl==0&&vl==0,"all freed"); vp_assert(vp_heap_live()==0||1); (void)kept; (void)vn; }
void h_merge(void){ unsigned fa=FL[0][0], fb; M_hashtable_t *a, *b; model ma, mb; int i, k, v; unsigned f1=(unsigned)vp_pick("fa",10), f2=(unsigned)vp_pick("fb",10); M_hashtable_enum_t e; const void *kk, *vv; fa=FL[f1/5][f1%5]; fb=FL[f2/5][f2%5]; memset(&ma,0,sizeof ma); memset(&mb,0,sizeof mb); hf=(unsigned)vp_pick("hf",1); a=mkh(fa,2,1); b=mkh(fb,2,1);
	for(i=0;i<2;i++){ int id=(int)vp_pick("a",5), val=10+i; if(id==4) continue; M_hashtable_insert(a,&KS[id],&val); m_ins(&ma,fa,id,val); }
	for(i=0;i<2;i++){ int id=(int)vp_pick("b",5), val=20-i; if(id==4) continue; M_hashtable_insert(b,&KS[id],&val); m_ins(&mb,fb,id,val); }
	M_hashtable_enumerate(b,&e); while(M_hashtable_enumerate_next(b,&e,&kk,&vv)) m_ins(&ma,fa,((const key*)kk)->id,*(const int*)vv);
	M_hashtable_merge(&a,b); vp_reach("merge"); verify(a,&ma,fa); cnt(&ma,&k,&v); vp_assert_msg(kl==k&&vl==v,"live after merge"); M_hashtable_destroy(a,M_TRUE); vp_assert(kl==0&&vl==0); }
