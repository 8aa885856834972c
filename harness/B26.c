//@mods base
//@bounds sorts: every array of n elements (qsort: n<=8 with symbolic keys 0..2, which covers the insertion sort and one partition step; n in 9..12 with keys 0..1 in thorough; n=41..44 of one-threshold patterns to reach the median-of-nine pivot; mergesort: n<=6 symbolic keys), element sizes 1, 4, 8, 12, 16 and an unaligned base; binary search and insertion index on every sorted array of n<=5 (thorough 7) elements with symbolic 8-bit keys, stable and not; comparators on symbolic 64-bit values, strings of up to 3 bytes and binary values of up to 2 bytes
//@outside comparators that are not an order
//@H h_qsort q:N=8,V=2 t:N=10,V=2 jobs=8 reach=end
//@H h_qsort q:N=7,V=3 t:N=8,V=4 jobs=8 reach=end
//@H h_qbig reach=end jobs=4
//@H h_merge q:N=6,V=3 t:N=8,V=3 jobs=4 reach=end
//@H h_search q:N=5 t:N=7 jobs=4 reach=hit,miss,ins
//@H h_cmp reach=end
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 6
#endif
#ifndef V
#define V 3
#endif
/* an element of esize bytes: byte 0 is the key, byte 1 (when present) the original position, the rest a function of both */
static size_t es; static int th;
static int cmp(const void *a, const void *b, void *t){ int x=*(const M_uint8*)a, y=*(const M_uint8*)b; vp_assert_msg(t==&th,"thunk"); return x<y?-1:x>y; }
static void fill(M_uint8 *p, M_uint8 k, int i){ size_t j; p[0]=k; if(es>1) p[1]=(M_uint8)i; for(j=2;j<es;j++) p[j]=(M_uint8)(i*16+(int)j); }
static void post(const M_uint8 *b, const M_uint8 *k, int n, int stable){ int i; size_t j; unsigned long long seen=0; int cin[4]={0}, cout[4]={0};
	for(i=0;i<n;i++){ const M_uint8 *e=b+es*(size_t)i; if(i) vp_assert_msg(e[-(long)es]<=e[0],"ascending"); if(es>1){ int q=e[1]; vp_assert(q<n); vp_assert_msg(!(seen>>q&1),"permutation"); seen|=1ULL<<q; vp_assert_msg(k[q]==e[0],"element intact"); for(j=2;j<es;j++) vp_assert_msg(e[j]==(M_uint8)(q*16+(int)j),"element bytes intact"); if(stable&&i&&e[-(long)es]==e[0]) vp_assert_msg(e[1-(long)es]<e[1],"stable"); } else { cin[k[i]]++; cout[e[0]]++; } }
	if(es==1) for(i=0;i<4;i++) vp_assert(cin[i]==cout[i]); }
static const size_t SZ[5]={1,4,8,12,16};
static void one(int merge){ M_uint8 k[12], raw[12*16+16], *b; int n, i, off; n=(int)vp_pick("n",N+1); es=SZ[vp_pick("es",5)]; off=es==4||es==8?(int)vp_pick("off",2):0; M_mem_set(raw,0xEE,sizeof raw); b=(M_uint8*)(((size_t)raw+7)&~(size_t)7)+off; for(i=0;i<n;i++){ k[i]=(M_uint8)vp_conc((unsigned)vp_below("k",V)); fill(b+es*(size_t)i,k[i],i); } if(merge) M_sort_mergesort(b,(size_t)n,es,cmp,&th); else M_sort_qsort(b,(size_t)n,es,cmp,&th); post(b,k,n,merge); vp_assert_msg(b[es*(size_t)n]==0xEE,"no write past the array"); vp_reach("end"); }
void h_qsort(void){ one(0); }
void h_merge(void){ one(1); }
void h_qbig(void){ M_uint8 k[48], b[48*4]; int n, i, p, t; n=(int)vp_range("n",39,44); p=(int)vp_pick("pat",5); t=(int)vp_pick("t",44); es=4; for(i=0;i<n;i++){ k[i]=(M_uint8)(p==0?(i<t):p==1?(i>=t):p==2?((i^t)&1):p==3?(i*7+t)%3:(i==t?0:(i+t)%4)); fill(b+es*(size_t)i,k[i],i); } M_sort_qsort(b,(size_t)n,es,cmp,&th); post(b,k,n,0); vp_reach("end"); }
void h_search(void){ M_uint8 b[N+1], key; size_t i, n=(size_t)vp_pick("n",N+1), idx=77, lo=0, hi=0; int stable=(int)vp_pick("stable",2); M_bool f; for(i=0;i<n;i++){ b[i]=(M_uint8)vp_u8("k"); if(i) vp_assume(b[i-1]<=b[i]); } key=(M_uint8)vp_u8("key"); es=1;
	f=M_sort_binary_search(b,n,1,&key,stable,cmp,&th,&idx); for(i=0;i<n;i++){ lo+=b[i]<key; hi+=b[i]<=key; }
	vp_assert_msg(f==(lo<hi),"found exactly when present"); if(f){ vp_reach("hit"); vp_assert_msg(idx<n&&b[idx]==key,"index of an equal element"); if(stable) vp_assert_msg(idx==lo,"first equal element"); } else vp_reach("miss"); vp_assert(M_sort_binary_search(b,n,1,&key,stable,cmp,&th,NULL)==f);
	idx=M_sort_binary_insert_idx(b,n,1,&key,stable,cmp,&th); vp_reach("ins"); vp_assert_msg(idx>=lo&&idx<=hi,"insertion keeps order"); if(stable) vp_assert_msg(idx==hi,"after the equal elements"); }
static int sg(int x){ return x<0?-1:x>0; }
void h_cmp(void){ M_uint64 a=vp_u64("a"), b=vp_u64("b"), *pa=&a, *pb=&b; int w=a<b?-1:a>b, i; vp_assert(M_sort_compar_u64(&pa,&pb,NULL)==w); vp_assert(M_sort_compar_u64_desc(&pa,&pb,NULL)==-w); vp_assert(M_sort_compar_vp(&pa,&pb,NULL)==-M_sort_compar_vp_desc(&pa,&pb,NULL)&&M_sort_compar_vp(&pa,&pa,NULL)==0&&M_sort_compar_vp(&pa,&pb,NULL)==((size_t)pa<(size_t)pb?-1:1));
	{ char s[2][4], *p[2]; for(i=0;i<2;i++){ size_t n=(size_t)vp_pick("n",4), j; for(j=0;j<n;j++) s[i][j]=(char)vp_conc((unsigned char)"aAb\xC1"[vp_pick("c",4)]); s[i][n]=0; p[i]=s[i]; } { int e=0, c=0, x; for(x=0;;x++){ unsigned char u=(unsigned char)s[0][x], v=(unsigned char)s[1][x], U=u=='A'?'a':u, V2=v=='A'?'a':v; if(!e) e=u<v?-1:u>v; if(!c) c=U<V2?-1:U>V2; if(!u||!v) break; } vp_assert_msg(sg(M_sort_compar_str(&p[0],&p[1],NULL))==e,"string order"); vp_assert(sg(M_sort_compar_str_desc(&p[0],&p[1],NULL))==-e); vp_assert(sg(M_sort_compar_str_casecmp(&p[0],&p[1],NULL))==c); vp_assert(sg(M_sort_compar_str_casecmp_desc(&p[0],&p[1],NULL))==-c); } }
	{ M_uint8 d[2][2], *wr[2]; size_t n[2], j; int e=0; for(i=0;i<2;i++){ n[i]=(size_t)vp_pick("m",2)+1; for(j=0;j<2;j++) d[i][j]=(M_uint8)vp_u8("d"); wr[i]=M_bin_wrap(d[i],n[i]); } e=n[0]<n[1]?-1:n[0]>n[1]; for(j=0;j<n[0]&&!e;j++) e=d[0][j]<d[1][j]?-1:d[0][j]>d[1][j]; vp_assert_msg(sg(M_sort_compar_binwraped(&wr[0],&wr[1],NULL))==e,"binary order"); M_free(wr[0]); M_free(wr[1]); } vp_reach("end"); }
