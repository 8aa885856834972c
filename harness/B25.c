//@mods base
//@env env_time
//@bounds every list of up to N pointers to four objects (two of them equal) in plain, sorted (every skip level choice) and circular form, then every sequence of K operations (N=3,K=1 and N=2,K=2; thorough N=4,K=1 and N=3,K=2): insert, insert first/before/after, set first/last, move before/after, take, remove, remove by value or pointer, remove duplicates, duplicate, merge of a list of either kind; the forward and backward walks, length, count and find are compared with a reference sequence (cyclic order for circular lists) and frees counted per object; sorted lists with a thunk comparator and up to 20 elements to raise the level cap; typed wrappers
//@outside longer operation sequences; a free callback being called with NULL by merge
//@stubs M_rand, M_rand_create, M_rand_destroy (levels chosen by the solver)
//@H h_ops q:N=3,K=1 t:N=4,K=1 jobs=8 reach=ins,take,val,dups,move
//@H h_ops q:N=1,K=2 t:N=2,K=2 jobs=8 reach=ins,take,val,dups,move
//@H h_merge q:N=2,M=2 t:N=3,M=2 jobs=8 reach=merge
//@H h_many reach=end
//@H h_types reach=end
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 3
#endif
#ifndef M
#define M 2
#endif
#ifndef K
#define K 1
#endif
void M_llist_set_last(M_llist_node_t *n);
typedef struct { int cls, id; } ob; static ob OB[5]={{0,0},{1,1},{1,2},{2,3},{1,4}}; static int freed[5], th=1, lvl=2;
M_rand_t *vpstub_M_rand_create(M_uint64 s){ (void)s; return NULL; }
void vpstub_M_rand_destroy(M_rand_t *s){ (void)s; }
M_uint64 vpstub_M_rand(M_rand_t *s){ (void)s; return 1ULL<<(lvl>1?vp_pick("lvl",(unsigned)lvl)*2:0); }
static void vfree(void *p){ if(p) freed[((ob*)p)-OB]++; }
static int eq(const void *a, const void *b, void *t){ const ob *x=*(ob*const*)a, *y=*(ob*const*)b; vp_assert_msg(t==(void*)&th||t==NULL,"thunk"); return x->cls-y->cls; }
typedef struct { int n, v[12]; } seq; static unsigned fl;
static int mt(int a, int b, unsigned ty){ return ty&M_LLIST_MATCH_PTR?a==b:OB[a].cls==OB[b].cls; }
static int has(const seq *s, int x, unsigned ty){ int i; for(i=0;i<s->n;i++) if(mt(s->v[i],x,ty)) return 1; return 0; }
static void del(seq *s, int i){ s->n--; for(;i<s->n;i++) s->v[i]=s->v[i+1]; }
static void put(seq *s, int i, int x){ int j; for(j=s->n;j>i;j--) s->v[j]=s->v[j-1]; s->v[i]=x; s->n++; }
static void ins(seq *s, int x, unsigned f){ int i=s->n; if(f&M_LLIST_SORTED) for(i=0;i<s->n&&OB[s->v[i]].cls<=OB[x].cls;i++); put(s,i,x); }
static M_llist_node_t *nth(const M_llist_t *l, int i){ M_llist_node_t *n=M_llist_first(l); while(i--) n=M_llist_node_next(n); return n; }
static void rd(const M_llist_t *l, seq *s, unsigned f){ int i, n=(int)M_llist_len(l); M_llist_node_t *p=M_llist_first(l), *q; s->n=n; if(!n){ vp_assert_msg(!p&&!M_llist_last(l),"empty list"); return; } vp_assert(p!=NULL&&M_llist_last(l)!=NULL); for(i=0;i<n;i++){ ob *o; vp_assert_msg(p!=NULL,"walk is complete"); o=(ob*)M_llist_node_val(p); vp_assert(o>=OB&&o<OB+5); s->v[i]=(int)(o-OB); q=M_llist_node_next(p); if(i==n-1){ vp_assert_msg(p==M_llist_last(l),"last"); vp_assert_msg(q==(f&M_LLIST_CIRCULAR?M_llist_first(l):NULL),"end of walk"); } p=q; }
	p=M_llist_last(l); for(i=n-1;i>=0;i--){ vp_assert_msg(p!=NULL&&M_llist_node_val(p)==&OB[s->v[i]],"backward walk"); if(i==0){ vp_assert_msg(p==M_llist_first(l),"first"); vp_assert(M_llist_node_prev(p)==(f&M_LLIST_CIRCULAR?M_llist_last(l):NULL)); } p=M_llist_node_prev(p); } }
static int same(const seq *a, const seq *b, unsigned f){ int i, r; if(a->n!=b->n) return 0; for(r=0;r<(f&M_LLIST_CIRCULAR&&a->n?a->n:1);r++){ for(i=0;i<a->n&&a->v[i]==b->v[(i+r)%a->n];i++); if(i==a->n) return 1; } return 0; }
#define check(l,m,w) do { seq a_; rd(l,&a_,fl); vp_assert_msg(same(&a_,m,fl),w); *(m)=a_; query(l,&a_); } while(0)
static void query(const M_llist_t *l, const seq *a){ int x; unsigned ty; for(x=0;x<5;x++) for(ty=0;ty<2;ty++){ int i, c=0, fi=-1; M_llist_node_t *f; for(i=0;i<a->n;i++) if(mt(a->v[i],x,ty)){ if(fi<0) fi=i; c++; } vp_assert_msg(M_llist_count(l,&OB[x],ty)==(size_t)c,"count"); f=M_llist_find(l,&OB[x],ty); vp_assert_msg(f==(fi<0?NULL:nth(l,fi)),"find"); } }
static void frees(const seq *b, const seq *a, int add){ int i, c[5]={0}; for(i=0;i<b->n;i++) c[b->v[i]]++; for(i=0;i<a->n;i++) c[a->v[i]]--; if(add>=0) c[add]++; for(i=0;i<5;i++){ vp_assert_msg(freed[i]==c[i],"frees exactly what left"); freed[i]=0; } }
void h_ops(void){ static const unsigned F[3]={0,M_LLIST_SORTED,M_LLIST_CIRCULAR}; struct M_llist_callbacks cb={eq,NULL,NULL,vfree}; M_llist_t *l; seq m, b, t, e; int n, i, k, x, j; unsigned ty; M_llist_node_t *p, *q; M_uint64 live; live=vp_heap_live(); fl=F[vp_pick("fl",3)]; n=(int)vp_pick("n",N+1); m.n=0; l=M_llist_create(&cb,fl); if(fl&M_LLIST_SORTED) vp_assert(M_llist_change_sorting(l,NULL,&th));
	for(i=0;i<n;i++){ x=(int)vp_pick("v",4); p=M_llist_insert(l,&OB[x]); vp_assert(p&&M_llist_node_val(p)==&OB[x]); ins(&m,x,fl); check(l,&m,"insert order"); vp_reach("ins"); }
	for(k=0;k<K;k++){ unsigned op=(unsigned)vp_pick("op",13); int so=(fl&M_LLIST_SORTED)!=0; b=m; if(op>=2&&op<=9&&!m.n) break;
	switch(op){
	case 0: x=(int)vp_pick("x",5); p=M_llist_insert(l,&OB[x]); ins(&m,x,fl); check(l,&m,"insert"); break;
	case 1: x=(int)vp_pick("x",5); p=M_llist_insert_first(l,&OB[x]); vp_assert((p==NULL)==so); if(p){ put(&m,0,x); vp_assert(M_llist_first(l)==p); } check(l,&m,"insert first"); break;
	case 2: case 3: x=(int)vp_pick("x",5); i=(int)vp_pick("i",(unsigned)m.n); q=nth(l,i); p=op==2?M_llist_insert_before(q,&OB[x]):M_llist_insert_after(q,&OB[x]); vp_assert((p==NULL)==so); if(p){ put(&m,i+(op==3),x); vp_assert(op==2?M_llist_node_next(p)==q&&M_llist_node_prev(q)==p:M_llist_node_prev(p)==q&&M_llist_node_next(q)==p); } check(l,&m,"insert before/after"); break;
	case 4: case 5: i=(int)vp_pick("i",(unsigned)m.n); q=nth(l,i); if(op==4) M_llist_set_first(q); else M_llist_set_last(q); if(!so){ x=m.v[i]; vp_assert_msg(q==(op==4?M_llist_first(l):M_llist_last(l)),"set first/last"); if(!(fl&M_LLIST_CIRCULAR)){ del(&m,i); put(&m,op==4?0:m.n,x); } } check(l,&m,"set first/last order"); break;
	case 6: case 7: i=(int)vp_pick("i",(unsigned)m.n); j=(int)vp_pick("j",(unsigned)m.n); p=nth(l,i); q=nth(l,j); vp_reach("move"); { M_bool ok=op==6?M_llist_move_before(p,q):M_llist_move_after(p,q); vp_assert(ok==(!so&&i!=j)); if(ok){ x=m.v[i]; del(&m,i); if(j>i) j--; put(&m,j+(op==7),x); } check(l,&m,"move"); } break;
	case 8: i=(int)vp_pick("i",(unsigned)m.n); vp_reach("take"); vp_assert(M_llist_take_node(nth(l,i))==&OB[m.v[i]]); x=m.v[i]; del(&m,i); check(l,&m,"take"); freed[x]++; break;
	case 9: i=(int)vp_pick("i",(unsigned)m.n); vp_assert(M_llist_remove_node(nth(l,i))); del(&m,i); check(l,&m,"remove"); break;
	case 10: ty=(unsigned)vp_pick("ty",4); x=(int)vp_pick("x",5); vp_reach("val"); { size_t r=M_llist_remove_val(l,&OB[x],ty), c=0; for(i=0;i<m.n;) if(mt(m.v[i],x,ty)&&(!c||ty&M_LLIST_MATCH_ALL)){ c++; del(&m,i); } else i++; vp_assert_msg(r==c,"removed count"); check(l,&m,"remove val"); } break;
	case 11: ty=(unsigned)vp_pick("ty",2); M_llist_remove_duplicates(l,ty); vp_reach("dups"); e.n=0; for(i=0;i<m.n;i++) if(!has(&e,m.v[i],ty)) put(&e,e.n,m.v[i]); m=e; check(l,&m,"dups"); break;
	case 12: { M_llist_t *d=M_llist_duplicate(l); check(d,&m,"duplicate"); M_llist_insert(d,&OB[0]); e=m; ins(&e,0,fl); check(d,&e,"use of duplicate"); M_llist_destroy(d,M_FALSE); check(l,&m,"source"); } break;
	default: break; }
	if(op==0||op==1||op==2||op==3){ for(i=0;i<5;i++) vp_assert(freed[i]==0); } else frees(&b,&m,-1); }
	frees(&m,&m,-1); { int c[5]={0}; for(i=0;i<m.n;i++) c[m.v[i]]++; M_llist_destroy(l,M_TRUE); for(i=0;i<5;i++) vp_assert_msg(freed[i]==c[i],"destroy frees each once"); } vp_assert_msg(vp_heap_live()==live,"nothing leaks"); (void)t; }
void h_merge(void){ static const unsigned F[3]={0,M_LLIST_SORTED,M_LLIST_CIRCULAR}; struct M_llist_callbacks cb={eq,NULL,NULL,vfree}; M_llist_t *l; seq m, b; int n, i, x; unsigned ty; M_uint64 live=vp_heap_live(); fl=F[vp_pick("fl",3)]; n=(int)vp_pick("n",N+1); m.n=0; l=M_llist_create(&cb,fl); for(i=0;i<n;i++){ x=(int)vp_pick("v",4); M_llist_insert(l,&OB[x]); ins(&m,x,fl); }
	{ unsigned sf=F[vp_pick("sf",3)]; int inc=(int)vp_pick("inc",2), c=(int)vp_pick("k",M+1); M_llist_t *d; seq s; ty=(unsigned)vp_pick("mty",2); s.n=0; lvl=1; d=M_llist_create(&cb,sf); for(i=0;i<c;i++){ x=(int)vp_pick("s",5); M_llist_insert(d,&OB[x]); ins(&s,x,sf); } lvl=2; M_llist_merge(&l,d,inc,ty); vp_reach("merge"); b.n=0; for(i=0;i<m.n;i++) put(&b,b.n,m.v[i]); for(i=0;i<s.n;i++){ put(&b,b.n,s.v[i]); if(inc||!has(&m,s.v[i],ty)) ins(&m,s.v[i],fl); } check(l,&m,"merge"); } frees(&b,&m,-1); { int c[5]={0}; for(i=0;i<m.n;i++) c[m.v[i]]++; M_llist_destroy(l,M_TRUE); for(i=0;i<5;i++) vp_assert_msg(freed[i]==c[i],"destroy frees each once"); } vp_assert_msg(vp_heap_live()==live,"nothing leaks"); }
static int ueq(const void *a, const void *b, void *t){ M_uint64 x=**(M_uint64*const*)a, y=**(M_uint64*const*)b; int r=x<y?-1:x>y; return t?-r:r; }
void h_many(void){ static M_uint64 v[22]; struct M_llist_callbacks cb={ueq,NULL,NULL,NULL}; M_llist_t *l; int i, n=(int)vp_range("n",17,20), pat=(int)vp_pick("pat",3), rev=(int)vp_pick("rev",2), hi=0; M_llist_node_t *p; lvl=1; l=M_llist_create(&cb,M_LLIST_SORTED); if(rev) M_llist_change_sorting(l,NULL,&hi); for(i=0;i<n;i++){ v[i]=(M_uint64)(pat==0?i:pat==1?n-i:(i*7)%11); if(i%5==4) lvl=2; M_llist_insert(l,&v[i]); lvl=1; } for(p=M_llist_first(l),i=0;p;p=M_llist_node_next(p),i++) if(M_llist_node_prev(p)){ M_uint64 a=*(M_uint64*)M_llist_node_val(M_llist_node_prev(p)), b=*(M_uint64*)M_llist_node_val(p); vp_assert_msg(rev?a>=b:a<=b,"sorted"); } vp_assert(i==n&&M_llist_len(l)==(size_t)n);
	for(i=0;i<n;i++){ p=M_llist_find(l,&v[i],M_LLIST_MATCH_PTR); vp_assert_msg(p&&M_llist_node_val(p)==&v[i],"find"); vp_assert(M_llist_remove_node(p)); vp_assert(!M_llist_find(l,&v[i],M_LLIST_MATCH_PTR)); } vp_assert(M_llist_len(l)==0&&!M_llist_first(l)&&!M_llist_last(l)); M_llist_destroy(l,M_TRUE); vp_reach("end"); }
void h_types(void){ M_uint64 a=vp_u64("a"), b=vp_u64("b"); M_llist_u64_t *u; int k=(int)vp_pick("k",2), i; M_llist_u64_node_t *p; lvl=1; u=M_llist_u64_create(k?M_LLIST_U64_SORTASC:M_LLIST_U64_SORTDESC); M_llist_u64_insert(u,a); M_llist_u64_insert(u,b); p=M_llist_u64_first(u); vp_assert(M_llist_u64_node_val(p)==(k==(a<b)?a:b)||a==b); vp_assert(M_llist_u64_count(u,a)==1u+(a==b)); vp_assert(M_llist_u64_find(u,b)!=NULL); vp_assert(M_llist_u64_remove_val(u,a,M_LLIST_U64_MATCH_ALL)==1u+(a==b)); M_llist_u64_destroy(u);
	{ char s[2][2]; M_llist_str_t *l; for(i=0;i<2;i++){ s[i][0]=(char)vp_conc("aAb"[vp_pick("c",3)]); s[i][1]=0; } l=M_llist_str_create(k?M_LLIST_STR_SORTASC:M_LLIST_STR_SORTASC|M_LLIST_STR_CASECMP); M_llist_str_insert(l,s[0]); M_llist_str_insert(l,s[1]); i=k?s[0][0]-s[1][0]:(s[0][0]|32)-(s[1][0]|32); vp_assert(M_str_eq(M_llist_str_node_val(M_llist_str_first(l)),s[i>0])); vp_assert(M_llist_str_count(l,s[0],M_LLIST_STR_MATCH_VAL)==1u+(i==0)); { char *t=M_llist_str_take_node(M_llist_str_first(l)); vp_assert(M_str_eq(t,s[i>0])&&t!=s[0]&&t!=s[1]); M_free(t); } M_llist_str_destroy(l); }
	{ M_uint8 d[2][2]; size_t n[2], len; M_llist_bin_t *l; const M_uint8 *r; for(i=0;i<2;i++){ n[i]=(size_t)vp_pick("n",2)+1; d[i][0]=(M_uint8)vp_u8("d"); d[i][1]=(M_uint8)vp_u8("d"); } l=M_llist_bin_create(M_LLIST_BIN_NONE); M_llist_bin_insert(l,d[0],n[0]); M_llist_bin_insert(l,d[1],n[1]); r=M_llist_bin_node_val(M_llist_bin_last(l),&len); vp_assert(len==n[1]&&r[0]==d[1][0]&&(len==1||r[1]==d[1][1])&&r!=d[1]); i=n[0]==n[1]&&d[0][0]==d[1][0]&&(n[0]==1||d[0][1]==d[1][1]); vp_assert(M_llist_bin_count(l,d[0],n[0])==1u+(unsigned)i); M_llist_bin_destroy(l); } vp_reach("end"); }
