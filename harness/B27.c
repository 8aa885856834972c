//@mods base
//@env env_time
//@bounds queues: every sequence of K operations (insert, remove, take of three members, take first, enumeration removing any subset of current members) in insertion and in comparator order, two of the members comparing equal; caches: every sequence of K operations (insert, get and remove of three keys, change of the maximum 0..3) starting from a maximum of 1..2, with and without copying callbacks, and the string cache case-sensitive and not; frees counted per object, nothing leaks
//@outside more than three distinct members or keys
//@H h_queue q:K=5 t:K=6 jobs=8 reach=rm,take,each,dup
//@H h_cache q:K=4 t:K=6 jobs=8 reach=evict,hit,miss,shrink
//@H h_strvp q:K=4 t:K=5 jobs=8 reach=hit,miss
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef K
#define K 4
#endif
typedef struct { int cls, id; } ob; static ob OB[3]={{1,0},{0,1},{1,2}}; static int freed[3];
static void vfree(void *p){ freed[(ob*)p-OB]++; }
static int cmp(const void *a, const void *b, void *t){ (void)t; return (*(ob*const*)a)->cls-(*(ob*const*)b)->cls; }
static int m[8], n; static int pos(int x){ int i; for(i=0;i<n;i++) if(m[i]==x) return i; return -1; }
static void del(int i){ n--; for(;i<n;i++) m[i]=m[i+1]; }
static void warm(void){ M_hashtable_t *h=M_hashtable_create(16,75,M_hash_func_hash_vp,M_sort_compar_vp,M_HASHTABLE_NONE,NULL); M_hashtable_destroy(h,M_FALSE); }
void h_queue(void){ M_queue_t *q; int so, fr, k, i, x, want[3]={0}; M_uint64 live; warm(); live=vp_heap_live(); so=(int)vp_pick("so",2); fr=(int)vp_pick("fr",2); n=0; q=M_queue_create(so?cmp:NULL,fr?vfree:NULL);
	for(k=0;k<K;k++){ unsigned op=(unsigned)vp_pick("op",11); x=(int)op%3; i=pos(x);
	if(op<3){ M_bool r=M_queue_insert(q,&OB[x]); vp_assert_msg(r==(i<0),"insert"); if(i>=0) vp_reach("dup"); else { int j=n, y; if(so) for(j=0;j<n&&OB[m[j]].cls<=OB[x].cls;j++); for(y=n;y>j;y--) m[y]=m[y-1]; m[j]=x; n++; } }
	else if(op<6){ vp_assert_msg(M_queue_remove(q,&OB[x])==(i>=0),"remove"); if(i>=0){ vp_reach("rm"); del(i); want[x]+=fr; } }
	else if(op<9){ vp_assert_msg(M_queue_take(q,&OB[x])==(i>=0),"take"); if(i>=0){ vp_reach("take"); del(i); } }
	else if(op==9){ void *p=M_queue_take_first(q); vp_assert_msg(p==(n?&OB[m[0]]:NULL),"take first"); if(n) del(0); }
	else { M_queue_foreach_t *it=NULL; void *p=(void*)1; int w=0; while(M_queue_foreach(q,&it,&p)){ vp_reach("each"); vp_assert_msg(w<n&&p==&OB[m[w]],"enumerates in order"); if(vp_pick("rmcur",2)){ vp_assert(M_queue_remove(q,p)); want[m[w]]+=fr; del(w); } else w++; } vp_assert(w==n&&p==NULL); }
	vp_assert_msg(M_queue_len(q)==(size_t)n,"length"); vp_assert(M_queue_first(q)==(n?&OB[m[0]]:NULL)&&M_queue_last(q)==(n?&OB[m[n-1]]:NULL)); for(i=0;i<3;i++){ vp_assert(M_queue_exists(q,&OB[i])==(pos(i)>=0)); vp_assert_msg(freed[i]==want[i],"freed"); } }
	for(i=0;i<n;i++) want[m[i]]+=fr; if(vp_pick("drain",2)){ for(i=0;i<n;i++){ vp_assert_msg(M_queue_take_first(q)==&OB[m[i]],"delivery order"); want[m[i]]-=fr; } vp_assert(M_queue_take_first(q)==NULL); } M_queue_destroy(q); for(i=0;i<3;i++) vp_assert_msg(freed[i]==want[i],"destroy frees each once"); vp_assert_msg(vp_heap_live()==live,"nothing leaks"); }
/* cache: keys are objects compared by id; with copying callbacks key and value are duplicated */
typedef struct { int kind, id; } kv; static int dk, dv;
static void *kdup(const void *p){ kv *r=M_malloc(sizeof *r); *r=*(const kv*)p; vp_assert_msg(r->kind==1,"key copied from a key"); dk++; return r; }
static void *vdup(const void *p){ kv *r; if(!p) return NULL; r=M_malloc(sizeof *r); *r=*(const kv*)p; vp_assert_msg(r->kind==2,"value copied from a value"); dv++; return r; }
static void kfree(void *p){ vp_assert(((kv*)p)->kind==1); dk--; M_free(p); }
static void vvfree(void *p){ if(p){ vp_assert(((kv*)p)->kind==2); dv--; } M_free(p); }
static M_uint32 khash(const void *p, M_uint32 seed){ (void)seed; return (M_uint32)((const kv*)p)->id; }
static int keq(const void *a, const void *b, void *t){ (void)t; return (*(kv*const*)a)->id-(*(kv*const*)b)->id; }
void h_cache(void){ static kv KEY[3]={{1,0},{1,1},{1,2}}; static kv VAL[K]; static int val[3]; struct M_cache_callbacks cb={kdup,kfree,vdup,vvfree}; M_cache_t *c; int k, i, x, j, cp; size_t max; M_uint64 live; warm(); live=vp_heap_live(); cp=(int)vp_pick("copy",2); max=(size_t)vp_pick("max",2)+1; n=0; c=M_cache_create(max,khash,keq,M_CACHE_NONE,cp?&cb:NULL); vp_assert(M_cache_max_size(c)==max);
	for(k=0;k<K;k++){ unsigned op=(unsigned)vp_pick("op",13); kv key; x=(int)op%3; key=KEY[x]; i=pos(x);
	if(op<3){ VAL[k].kind=2; VAL[k].id=k; { M_bool r=M_cache_insert(c,cp?&key:&KEY[x],&VAL[k]); vp_assert_msg(r==(max>0),"insert"); if(r){ if(i>=0) del(i); else if((size_t)n==max){ vp_reach("evict"); n--; } for(j=n;j>0;j--) m[j]=m[j-1]; m[0]=x; n++; val[x]=k; } } }
	else if(op<6){ void *p=NULL; M_bool r=M_cache_get(c,&key,&p); vp_assert_msg(r==(i>=0),"hit"); if(r){ vp_reach("hit"); vp_assert_msg(((kv*)p)->kind==2&&((kv*)p)->id==val[x]&&(cp||p==&VAL[val[x]]),"last value inserted"); del(i); for(j=n;j>0;j--) m[j]=m[j-1]; m[0]=x; n++; } else vp_reach("miss"); }
	else if(op<9){ vp_assert_msg(M_cache_remove(c,&key)==(i>=0),"remove"); if(i>=0) del(i); }
	else { max=(size_t)op-9; if((size_t)n>max){ vp_reach("shrink"); n=(int)max; } vp_assert(M_cache_set_max_size(c,max)); vp_assert(M_cache_max_size(c)==max); }
	vp_assert_msg(M_cache_size(c)==(size_t)n&&(size_t)n<=max,"size"); if(cp) vp_assert_msg(dk==n&&dv==n,"one copy per entry"); }
	/* exactly the reference entries are held: query newest last so recency is unaffected by the order */
	for(i=n-1;i>=0;i--){ void *p=NULL; vp_assert_msg(M_cache_get(c,&KEY[m[i]],&p)&&((kv*)p)->id==val[m[i]],"held"); } for(x=0;x<3;x++) if(pos(x)<0) vp_assert_msg(!M_cache_get(c,&KEY[x],NULL),"not held"); M_cache_destroy(c); vp_assert(!cp||(dk==0&&dv==0)); vp_assert_msg(vp_heap_live()==live,"nothing leaks"); }
void h_strvp(void){ static const char *S[4]={"a","A","b","c"}; static int val[4]; M_cache_strvp_t *c; int k, i, j, ci, x; M_uint64 live; warm(); live=vp_heap_live(); ci=(int)vp_pick("ci",2); n=0; c=M_cache_strvp_create(2,ci?M_CACHE_STRVP_CASECMP:M_CACHE_STRVP_NONE,M_free); vp_assert(!M_cache_strvp_insert(c,"",NULL)&&!M_cache_strvp_insert(c,NULL,NULL));
	for(k=0;k<K;k++){ unsigned op=(unsigned)vp_pick("op",12); int key; x=(int)op%4; key=ci&&x==1?0:x; i=pos(key);
	if(op<4){ int *v=M_malloc(sizeof *v); *v=k; vp_assert(M_cache_strvp_insert(c,S[x],v)); if(i>=0) del(i); else if(n==2) n--; for(j=n;j>0;j--) m[j]=m[j-1]; m[0]=key; n++; val[key]=k; }
	else if(op<8){ int *p=M_cache_strvp_get_direct(c,S[x]); vp_assert_msg((p!=NULL)==(i>=0),"hit"); if(p){ vp_reach("hit"); vp_assert(*p==val[key]); del(i); for(j=n;j>0;j--) m[j]=m[j-1]; m[0]=key; n++; } else vp_reach("miss"); }
	else { vp_assert(M_cache_strvp_remove(c,S[x])==(i>=0)); if(i>=0) del(i); }
	vp_assert(M_cache_strvp_size(c)==(size_t)n); }
	for(i=n-1;i>=0;i--) vp_assert_msg(M_cache_strvp_get(c,S[m[i]],NULL),"held"); M_cache_strvp_set_max_size(c,1); vp_assert(M_cache_strvp_max_size(c)==1&&M_cache_strvp_size(c)==(n?1u:0u)); M_cache_strvp_destroy(c); vp_assert_msg(vp_heap_live()==live,"nothing leaks"); }
