//@mods base
//@bounds block contents arbitrary, lengths 0..N (quick 4, thorough 6) for haystack and 0..M (quick 3, thorough 4) for needle; buffers of exactly that size, so any over-read is an error
//@bounds checksums: every 1- and 2-byte block, every 3-byte block with a fixed first byte, blocks of 4..6 bytes with one arbitrary byte at every position
//@outside longer blocks: the loops are byte-uniform
//@H h_eq q:N=4 t:N=7 reach=eq,ne
//@H h_cmpsort q:N=3 t:N=5 reach=lt,gt,eq
//@H h_trans q:N=2 t:N=3 reach=tr
//@H h_search q:N=3,M=2 t:N=6,M=3 jobs=2 reach=found,absent
//@H h_count q:N=4 t:N=7 reach=some
//@H h_copy q:N=5 t:N=7 reach=ok
//@H h_lrc q:N=5 t:N=9 reach=ok
//@H h_crc1 q: t: jobs=4 reach=ok
//@H h_crcn q:N=4 t:N=6 jobs=2 reach=ok
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 4
#endif
#ifndef M
#define M 2
#endif
static int sgn(int x){ return (x>0)-(x<0); }
void h_eq(void){ size_t n=vp_pick("n",N+1), i; unsigned char *a=vp_buf("a",n), *b=vp_buf("b",n); int e=1; for(i=0;i<n;i++) e&=(a[i]==b[i]);
	vp_assert((M_mem_eq(a,b,n)==M_TRUE)==e); vp_assert((M_mem_eq(b,a,n)==M_TRUE)==e); vp_assert(M_mem_eq(a,a,n)); if(e) vp_reach("eq"); else vp_reach("ne");
	if(n) { vp_assert(!M_mem_eq(NULL,b,n)); vp_assert(!M_mem_eq(a,NULL,n)); } vp_assert(M_mem_eq(NULL,NULL,n)); }
static int refcmp(const unsigned char*a,size_t n,const unsigned char*b,size_t m){ size_t i; int r=0; if(n!=m) return n<m?-1:1; for(i=0;i<n;i++){ int d=(a[i]>b[i])-(a[i]<b[i]); r = r?r:d; } return r; }
void h_cmpsort(void){ size_t n=vp_pick("n",N+1), m=vp_pick("m",N+1); unsigned char *a=vp_buf("a",n), *b=vp_buf("b",m); int r=refcmp(a,n,b,m);
	vp_assert(sgn(M_mem_cmpsort(a,n,b,m))==r); vp_assert(sgn(M_mem_cmpsort(b,m,a,n))==-r); vp_assert(M_mem_cmpsort(a,n,a,n)==0);
	if(n) { vp_assert(M_mem_cmpsort(NULL,0,b,m)==(m?-1:0)); vp_assert(M_mem_cmpsort(b,m,NULL,0)==(m?1:0)); }
	if(r<0) vp_reach("lt"); else if(r>0) vp_reach("gt"); else vp_reach("eq"); }
void h_trans(void){ size_t n=vp_pick("n",N+1), m=vp_pick("m",N+1), k=vp_pick("k",N+1); unsigned char *a=vp_buf("a",n), *b=vp_buf("b",m), *c=vp_buf("c",k);
	if(M_mem_cmpsort(a,n,b,m)<=0 && M_mem_cmpsort(b,m,c,k)<=0){ vp_reach("tr"); vp_assert(M_mem_cmpsort(a,n,c,k)<=0); } }
void h_search(void){ size_t n=vp_pick("n",N+1), m=vp_pick("m",M+1), i, j, first=99, last=99, idx=77; unsigned char *h=vp_buf("h",n), *d=vp_buf("d",m), c=vp_u8("c"); const unsigned char *r; 
	size_t ch=99; for(i=0;i<n;i++) if(h[i]==c){ ch=i; break; }
	r=M_mem_chr(h,c,n); vp_assert(r==(ch==99?NULL:h+ch));
	if(m==0){ vp_assert((M_mem_mem(h,n,d,0)!=NULL)==(n>0)); vp_assert(M_mem_contains(h,n,d,0)==(n>0)); return; }
	for(i=0;i+m<=n;i++){ int e=1; for(j=0;j<m;j++) e&=(h[i+j]==d[j]); if(e){ if(first==99) first=i; last=i; } }
	r=M_mem_mem(h,n,d,m); vp_assert(r==(first==99?NULL:h+first));
	r=M_mem_rmem(h,n,d,m); vp_assert(r==(last==99?NULL:h+last));
	vp_assert(M_mem_mempos(h,n,d,m,&idx)==(first!=99)); if(first!=99) vp_assert(idx==first); else vp_assert(idx==77);
	vp_assert(M_mem_mempos(h,n,d,m,NULL)==(first!=99)); vp_assert(M_mem_contains(h,n,d,m)==(first!=99));
	vp_assert(M_mem_mem(NULL,0,d,m)==NULL); vp_assert(M_mem_rmem(NULL,0,d,m)==NULL);
	{ char *s=(char*)vp_malloc(m+1); int z=0; for(i=0;i<m;i++){ s[i]=(char)d[i]; if(!d[i]) z=1; } s[m]=0; if(!z){ r=M_mem_str(h,n,s); vp_assert(r==(first==99?NULL:h+first)); } }
	if(first!=99) vp_reach("found"); else vp_reach("absent"); }
void h_count(void){ size_t n=vp_pick("n",N+1), i, c=0, x=vp_pick("x",N+2), y=vp_pick("y",N+2); unsigned char *h=vp_buf("h",n), b=vp_u8("b"); unsigned char o[N+1];
	for(i=0;i<n;i++){ o[i]=h[i]; if(h[i]==b) c++; } vp_assert(M_mem_count(h,n,b)==c); vp_assert(M_mem_count(NULL,n,b)==0); if(c) vp_reach("some");
	{ M_bool ok=M_mem_swap_bytes(h,n,x,y); vp_assert(ok==(x<n&&y<n)); for(i=0;i<n;i++) vp_assert(h[i]==(ok?(i==x?o[y]:i==y?o[x]:o[i]):o[i])); } }
void h_copy(void){ size_t n=vp_pick("n",N+1), i, off, k; unsigned char *a=vp_buf("a",n), o[N+1], *b=(unsigned char*)vp_malloc(n); for(i=0;i<n;i++) o[i]=a[i];
	vp_assert(M_mem_copy(b,a,n)==b); for(i=0;i<n;i++) vp_assert(b[i]==o[i]&&a[i]==o[i]);
	k=n?vp_pick("k",n+1):0; off=n-k; if(vp_pick("dir",2)){ M_mem_move(a+off,a,k); for(i=0;i<n;i++) vp_assert(a[i]==(i<off?o[i]:o[i-off])); } else { M_mem_move(a,a+off,k); for(i=0;i<n;i++) vp_assert(a[i]==(i<k?o[i+off]:o[i])); }
	{ unsigned char c=vp_u8("c"); M_mem_set(b,c,k); for(i=0;i<n;i++) vp_assert(b[i]==(i<k?c:o[i])); } 
	{ void *d=M_memdup(o,n); vp_assert((d==NULL)==(n==0)); if(d) for(i=0;i<n;i++) vp_assert(((unsigned char*)d)[i]==o[i]); M_free(d); } vp_reach("ok"); }
void h_lrc(void){ size_t n=vp_pick("n",N+1), i; unsigned char *a=vp_buf("a",n), l=0; for(i=0;i<n;i++) l^=a[i]; vp_assert(M_mem_calc_lrc(a,n)==l); vp_assert(M_mem_calc_lrc(NULL,n)==0); vp_reach("ok"); }
static M_uint8 r8(const unsigned char*a,size_t n){ M_uint8 v=0; size_t i; int k; for(i=0;i<n;i++){ v^=a[i]; for(k=0;k<8;k++) v=(M_uint8)((M_uint8)(v<<1)^(0x07&-(v>>7))); } return v; }
static M_uint16 r16(const unsigned char*a,size_t n){ M_uint16 v=0xFFFF; size_t i; int k; if(!n) return 0; for(i=0;i<n;i++){ v^=(M_uint16)(a[i]<<8); for(k=0;k<8;k++) v=(M_uint16)((M_uint16)(v<<1)^(0x1021&-(v>>15))); } return v; }
static M_uint32 r32(const unsigned char*a,size_t n){ M_uint32 v=0xFFFFFFFFu; size_t i; int k; if(!n) return 0; for(i=0;i<n;i++){ v^=a[i]; for(k=0;k<8;k++) v=(v>>1)^(0xEDB88320u&(0u-(v&1))); } return ~v; }
static void crc(const unsigned char *a,size_t n){ vp_assert(M_mem_calc_crc8_ccitt(a,n)==r8(a,n)); vp_assert(M_mem_calc_crc16_ccitt(a,n)==r16(a,n)); vp_assert(M_mem_calc_crc32(a,n)==r32(a,n)); }
void h_crc1(void){ size_t n=1+vp_pick("n",3); unsigned char *a=vp_buf("a",n); static const unsigned char f[]={0x31,0,0xff,0x80}; if(n==3){ a[0]=f[vp_pick("f",4)]; } if(n>=2) a[n-2]=(unsigned char)vp_pick("p",256);
	crc(a,n); vp_reach("ok"); }
void h_crcn(void){ size_t n=4+vp_pick("n",N-3), i; unsigned char a[8]; size_t p=vp_pick("p",n); unsigned base=(unsigned)vp_pick("b",4); static const unsigned char f[]={0,0xff,0x55,0x13}; for(i=0;i<n;i++) a[i]=(unsigned char)(f[base]*(i+1)); a[p]=vp_u8("x");
	{ unsigned char *q=(unsigned char*)vp_malloc(n); for(i=0;i<n;i++) q[i]=a[i]; crc(q,n); } vp_assert(M_mem_calc_crc8_ccitt(NULL,n)==0&&M_mem_calc_crc16_ccitt(NULL,n)==0&&M_mem_calc_crc32(NULL,n)==0); vp_reach("ok"); }
