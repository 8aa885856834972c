//@mods base
//@env env_time
//@bounds the nine typed tables, under every combination of key ordering (none, insertion, ascending, descending), multi-value mode (off, on, get-last, sorted ascending and descending where offered) and key case mode (exact, case-insensitive, folded), all sequences of K (3) operations of insert and remove over three keys (two equal ignoring case) with values of symbolic content and different lengths including empty; then reads, enumeration, duplicate, merge and destroy with the number of live allocations compared; the multi-type table over every value type with symbolic contents
//@outside keys and values longer than 4 bytes, allocation failure
//@H h_table q:T=0 jobs=2 time=400 reach=ok
//@H h_table q:T=1 time=400 reach=ok
//@H h_table q:T=2 time=400 reach=ok
//@H h_table q:T=3 time=400 reach=ok
//@H h_table q:T=4 time=400 reach=ok
//@H h_table q:T=5 time=400 reach=ok
//@H h_table q:T=6 time=400 reach=ok
//@H h_table q:T=7 time=400 reach=ok
//@H h_table q:T=8 time=400 reach=ok
//@H h_multi jobs=2 time=400 reach=ok
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef T
#define T 0
#endif
#ifndef K
#define K 3
#endif
typedef unsigned char u8;
static char S[4][4]; static u8 B[4][4]; static size_t BL[4]; static M_uint64 U[4]; static int freed; static const char *SK[3]={"ab","c","Ab"}; static const M_uint64 UK[3]={7,0x100000007ULL,0xFFFFFFFFFFFFFFFFULL};
static void vfree(void *p){ freed++; M_free(p); }
/* value kinds: str, vp, bin, u64, idx */
#define SKEY(i) SK[i]
#define UKEY(i) UK[i]
#define KT_S const char*
#define KT_U M_uint64
#define KEQ_S(a,i) M_str_eq(a,SKS(i))
#define KEQ_U(a,i) ((a)==UK[i])
#if T==0
#define P(x) M_hash_dict_##x
#define H M_hash_dict_t
#define E M_hash_dict_enum_t
#define F(x) M_HASH_DICT_##x
#define STRKEY 1
#define VSTR 1
#define SORTV 1
#elif T==1
#define P(x) M_hash_strvp_##x
#define H M_hash_strvp_t
#define E M_hash_strvp_enum_t
#define F(x) M_HASH_STRVP_##x
#define STRKEY 1
#define VVP 1
#elif T==2
#define P(x) M_hash_strbin_##x
#define H M_hash_strbin_t
#define E M_hash_strbin_enum_t
#define F(x) M_HASH_STRBIN_##x
#define STRKEY 1
#define VBIN 1
#elif T==3
#define P(x) M_hash_u64vp_##x
#define H M_hash_u64vp_t
#define E M_hash_u64vp_enum_t
#define F(x) M_HASH_U64VP_##x
#define VVP 1
#elif T==4
#define P(x) M_hash_u64bin_##x
#define H M_hash_u64bin_t
#define E M_hash_u64bin_enum_t
#define F(x) M_HASH_U64BIN_##x
#define VBIN 1
#elif T==5
#define P(x) M_hash_u64str_##x
#define H M_hash_u64str_t
#define E M_hash_u64str_enum_t
#define F(x) M_HASH_U64STR_##x
#define VSTR 1
#define SORTV 1
#elif T==6
#define P(x) M_hash_u64u64_##x
#define H M_hash_u64u64_t
#define E M_hash_u64u64_enum_t
#define F(x) M_HASH_U64U64_##x
#define SORTV 1
#elif T==7
#define P(x) M_hash_stru64_##x
#define H M_hash_stru64_t
#define E M_hash_stru64_enum_t
#define F(x) M_HASH_STRU64_##x
#define STRKEY 1
#else
#define P(x) M_hash_stridx_##x
#define H M_hash_stridx_t
#define E M_hash_stridx_enum_t
#define F(x) M_HASH_STRIDX_##x
#define STRKEY 1
#define VIDX 1
#endif
#ifdef STRKEY
#define KY(i) SK[i]
#define KT const char*
#else
#define KY(i) UK[i]
#define KT M_uint64
#endif
#if defined(VSTR)
#define VT const char*
#define VA(i) S[i]
#define VEQ(v,i) (M_str_eq(v,S[i])&&(v)!=S[i])
#elif defined(VVP)
static int *VP[4];
#define VT void*
#define VA(i) VP[i]
#define VEQ(v,i) ((v)==(void*)VP[i])
#elif defined(VBIN)
#define VT const u8*
#elif defined(VIDX)
#define VT size_t
#define VA(i) (size_t)U[i]
#define VEQ(v,i) ((v)==(size_t)U[i])
#else
#define VT M_uint64
#define VA(i) U[i]
#define VEQ(v,i) ((v)==U[i])
#endif
static int cse; /* 0 exact, 1 casecmp, 2 upper+casecmp, 3 lower+casecmp */
static int sameclass(int a, int b){
#ifdef STRKEY
	return a==b||(cse&&a!=1&&b!=1);
#else
	return a==b;
#endif
}
static int ksame(KT k, int i){
#ifdef STRKEY
	return M_str_eq(k,cse==2?(i==1?"C":"AB"):cse==3?(i==1?"c":"ab"):SK[i]);
#else
	return k==UK[i];
#endif
}
typedef struct { int n, k[4], nv[4], v[4][8]; } model; /* entries in insertion order */
static int m_find(model *m, int k){ int i; for(i=0;i<m->n;i++) if(sameclass(m->k[i],k)) return i; return -1; }
static int vlt(int a, int b, int desc){
#if defined(VSTR)
	int c=M_str_cmpsort(S[a],S[b]); return desc?c>0:c<0;
#elif !defined(VVP)&&!defined(VBIN)&&!defined(VIDX)
	return desc?U[a]>U[b]:U[a]<U[b];
#else
	return 0;
#endif
}
static void m_ins(model *m, int multi, int sv, int k, int v){ int e=m_find(m,k), j; if(e<0){ e=m->n++; m->k[e]=k; m->nv[e]=0; } if(!multi){ m->nv[e]=1; m->v[e][0]=v; return; } j=m->nv[e]++; if(sv) while(j>0&&vlt(v,m->v[e][j-1],sv==2)){ m->v[e][j]=m->v[e][j-1]; j--; } m->v[e][j]=v; }
static void m_rem(model *m, int e){ int i; for(i=e;i+1<m->n;i++){ m->k[i]=m->k[i+1]; m->nv[i]=m->nv[i+1]; memcpy(m->v[i],m->v[i+1],sizeof m->v[i]); } m->n--; }
static int krank(int k){
#ifdef STRKEY
	return cse?(k==1?1:0):(k==2?0:k==0?1:2);
#else
	return k;
#endif
}
#ifdef VBIN
#define CHECKV(v,l,i) do { vp_assert_msg((l)==BL[i],"length"); vp_assert_msg((BL[i]==0)==((v)==NULL)||BL[i]==0,"pointer"); if(BL[i]) vp_assert_msg(M_mem_eq(v,B[i],BL[i])&&(v)!=B[i],"bytes"); } while(0)
#define GET(h,k,v,l) P(get)(h,k,v,l)
#define MGET(h,k,i,v,l) P(multi_get)(h,k,i,v,l)
#define NEXT(h,e,k,v,l) P(enumerate_next)(h,e,k,v,l)
#else
#define CHECKV(v,l,i) do { (void)l; vp_assert_msg(VEQ(v,i),"value"); } while(0)
#define GET(h,k,v,l) P(get)(h,k,v)
#define MGET(h,k,i,v,l) P(multi_get)(h,k,i,v)
#define NEXT(h,e,k,v,l) P(enumerate_next)(h,e,k,v)
#endif
static void verify(H *h, model *m, int multi, int last, int ord){ int i, j, e, tot=0, seen=0, o[4]; VT v; size_t l; E *en=NULL; KT k; for(i=0;i<m->n;i++){ tot+=m->nv[i]; o[i]=i; } vp_assert_msg(P(num_keys)(h)==(size_t)m->n,"num_keys");
	for(i=0;i<3;i++){ M_bool r; e=m_find(m,i); l=77; r=GET(h,KY(i),&v,&l); vp_assert_msg(r==(e>=0),"get"); if(r) CHECKV(v,l,m->v[e][last?m->nv[e]-1:0]); if(multi){ l=5; vp_assert(P(multi_len)(h,KY(i),&l)==(e>=0)); vp_assert(l==(size_t)(e>=0?m->nv[e]:0)); for(j=0;e>=0&&j<m->nv[e];j++){ vp_assert(MGET(h,KY(i),(size_t)j,&v,&l)); CHECKV(v,l,m->v[e][j]); } } }
	for(i=1;i<m->n&&ord>=2;i++) for(j=i;j>0;j--){ int a=krank(m->k[o[j-1]]), b=krank(m->k[o[j]]), t=o[j]; if(ord==2?a>b:a<b){ o[j]=o[j-1]; o[j-1]=t; } }
	vp_assert_msg(P(enumerate)(h,&en)==(size_t)tot,"count"); { int vi[4]={0}, at=0; while(NEXT(h,en,&k,&v,&l)){ vp_assert(seen<tot); for(e=0;e<m->n;e++) if(ksame(k,m->k[e])) break; vp_assert_msg(e<m->n,"key"); if(ord) vp_assert_msg(o[at]==e,"key order"); vp_assert(vi[e]<m->nv[e]); CHECKV(v,l,m->v[e][vi[e]]); vi[e]++; if(vi[e]==m->nv[e]) at++; seen++; } } vp_assert_msg(seen==tot,"all"); P(enumerate_free)(en); }
void h_table(void){ int i, multi, last, sv=0, ord, vused[4]={0}; unsigned fl=F(NONE), mm; H *h, *d; model m; M_uint64 live, live2; memset(&m,0,sizeof m); (void)vused;
	for(i=0;i<4;i++){ U[i]=vp_u64("u"); BL[i]=(size_t)i%3; B[i][0]=(u8)vp_u8("b"); B[i][1]=0; S[i][0]="bab"[i%3]; S[i][1]=i==1?'x':0; S[i][2]=0; }
	S[3][0]=0;
	ord=(int)vp_pick("ord",4); if(ord) fl|=F(KEYS_ORDERED); if(ord==2) fl|=F(KEYS_SORTASC); if(ord==3) fl|=F(KEYS_SORTDESC);
#ifdef SORTV
	mm=(unsigned)vp_pick("mm",5); if(mm==3){ sv=1; fl|=F(MULTI_SORTASC); } if(mm==4){ sv=2; fl|=F(MULTI_SORTDESC); }
#else
	mm=(unsigned)vp_pick("mm",3);
#endif
	multi=mm!=0; last=mm==2; if(multi) fl|=F(MULTI_VALUE); if(last) fl|=F(MULTI_GETLAST);
#ifdef STRKEY
	cse=(int)vp_pick("cse",4); if(cse) fl|=F(CASECMP); if(cse==2) fl|=F(KEYS_UPPER); if(cse==3) fl|=F(KEYS_LOWER);
#endif
	M_rand_range(NULL,1,3); { M_hash_dict_t *w=M_hash_dict_create(2,75,0); M_hash_dict_destroy(w); } live=vp_heap_live();
#ifdef VVP
	for(i=0;i<4;i++) VP[i]=NULL;
	h=P(create)(2,75,fl,vfree);
#else
	h=P(create)(2,75,fl);
#endif
	for(i=0;i<K;i++){ unsigned op=(unsigned)vp_pick("op",6); int k=(int)(op%3), e=m_find(&m,k); if(op<3){
#ifdef VVP
			VP[i]=(int*)M_malloc(4);
#endif
#ifdef VBIN
			vp_assert(P(insert)(h,KY(k),B[i],BL[i]));
#else
			vp_assert(P(insert)(h,KY(k),VA(i)));
#endif
			m_ins(&m,multi,sv,k,i); }
		else { int f0=freed, w=e>=0?m.nv[e]:0; 
#ifdef VVP
			vp_assert(P(remove)(h,KY(k),M_TRUE)==(e>=0)); vp_assert_msg(freed==f0+w,"values freed");
#else
			vp_assert(P(remove)(h,KY(k))==(e>=0)); (void)f0; (void)w;
#endif
			if(e>=0) m_rem(&m,e); } }
	verify(h,&m,multi,last,ord); vp_reach("ok");
#ifndef VVP
	live2=vp_heap_live(); d=P(duplicate)(h); P(destroy)(h); verify(d,&m,multi,last,ord);
	h=P(create)(2,75,fl);
#ifdef VBIN
	P(insert)(h,KY(1),B[3],BL[3]);
#else
	P(insert)(h,KY(1),VA(3));
#endif
	P(merge)(&d,h); m_ins(&m,multi,sv,1,3); verify(d,&m,multi,last,ord); P(destroy)(d);
#else
	d=P(create)(2,75,fl,vfree); P(merge)(&d,h); vp_assert(m.n==0||P(num_keys)(d)==(size_t)m.n); verify(d,&m,multi,last,ord); P(destroy)(d,M_TRUE); (void)live2;
#endif
	vp_assert_msg(vp_heap_live()==live,"nothing leaks"); }
void h_multi(void){ M_hash_multi_t *h; M_uint64 live, uk=vp_u64("uk"); int i, ty[2]={-1,-1}, cs=(int)vp_pick("cs",2), f0; M_int64 iv=(M_int64)vp_u64("iv"); u8 bb[3]; M_bool bv=(M_bool)vp_below("bv",2); int *vp=NULL; M_uint64 uq; bb[0]=(u8)vp_u8("b0"); bb[1]=(u8)vp_u8("b1"); bb[2]=0; S[0][0]=(char)vp_u8("c"); S[0][1]=0; uk=vp_conc(uk&1)|0x700000000ULL; M_rand_range(NULL,1,3); live=vp_heap_live(); h=M_hash_multi_create(cs?M_HASH_MULTI_STR_CASECMP:0);
	for(i=0;i<3;i++){ unsigned op=(unsigned)vp_pick("op",14); int sk=op>=7, t; const char *key=i==1&&cs?"KEY":"key"; op%=7; f0=freed; t=ty[sk]; vp_assert((sk?M_hash_multi_str_type(h,key):M_hash_multi_u64_type(h,uk))==(t<0||t>4?0:t==0?M_HASH_MULTI_VAL_TYPE_BOOL:t==1?M_HASH_MULTI_VAL_TYPE_INT:t==2?M_HASH_MULTI_VAL_TYPE_STR:t==3?M_HASH_MULTI_VAL_TYPE_BIN:M_HASH_MULTI_VAL_TYPE_VP));
		switch(op){ case 0: vp_assert(sk?M_hash_multi_str_insert_bool(h,key,bv):M_hash_multi_u64_insert_bool(h,uk,bv)); ty[sk]=0; break; case 1: vp_assert(sk?M_hash_multi_str_insert_int(h,key,iv):M_hash_multi_u64_insert_int(h,uk,iv)); ty[sk]=1; break; case 2: vp_assert(sk?M_hash_multi_str_insert_str(h,key,S[0]):M_hash_multi_u64_insert_str(h,uk,S[0])); ty[sk]=2; break; case 3: vp_assert(sk?M_hash_multi_str_insert_bin(h,key,bb,3):M_hash_multi_u64_insert_bin(h,uk,bb,3)); ty[sk]=3; break;
		case 4: vp=(int*)M_malloc(4); vp_assert(sk?M_hash_multi_str_insert_vp(h,key,vp,vfree):M_hash_multi_u64_insert_vp(h,uk,vp,vfree)); ty[sk]=4; break; case 5: vp_assert((sk?M_hash_multi_str_remove(h,key,M_TRUE):M_hash_multi_u64_remove(h,uk,M_TRUE))==(t>=0)); ty[sk]=-1; break; default: vp_assert(!(sk?M_hash_multi_str_remove(h,"other",M_TRUE):M_hash_multi_u64_remove(h,uk^2,M_TRUE))); break; }
		vp_assert_msg(freed-f0==(op!=6&&t==4),"old pointer freed once"); t=ty[sk];
		{ M_bool b=9; M_int64 v=5; M_uint64 u=5; const char *s=NULL; const u8 *bp=NULL; size_t bl=7; void *p=NULL; vp_assert((sk?M_hash_multi_str_get_bool(h,key,&b):M_hash_multi_u64_get_bool(h,uk,&b))==(t==0)); if(t==0) vp_assert(b==bv); vp_assert((sk?M_hash_multi_str_get_int(h,key,&v):M_hash_multi_u64_get_int(h,uk,&v))==(t==1)); if(t==1){ vp_assert(v==iv); vp_assert((sk?M_hash_multi_str_get_uint(h,key,&u):M_hash_multi_u64_get_uint(h,uk,&u))&&u==(M_uint64)iv); }
		vp_assert((sk?M_hash_multi_str_get_str(h,key,&s):M_hash_multi_u64_get_str(h,uk,&s))==(t==2)); if(t==2) vp_assert(s[0]==S[0][0]&&s!=S[0]&&(S[0][0]==0||s[1]==0)); vp_assert((sk?M_hash_multi_str_get_bin(h,key,&bp,&bl):M_hash_multi_u64_get_bin(h,uk,&bp,&bl))==(t==3)); if(t==3) vp_assert(bl==3&&bp[0]==bb[0]&&bp[1]==bb[1]&&bp[2]==0); vp_assert((sk?M_hash_multi_str_get_vp(h,key,&p):M_hash_multi_u64_get_vp(h,uk,&p))==(t==4)); if(t==4) vp_assert(p!=NULL); } }
	f0=freed; M_hash_multi_destroy(h); vp_assert(freed-f0==(ty[0]==4)+(ty[1]==4)); vp_assert_msg(vp_heap_live()==live,"nothing leaks"); vp_reach("ok"); (void)uq; }
