//@mods base
//@bounds block sizes 1..N (quick 9, thorough 20) and resize targets 0..N+3, every content; callback registration histories of up to 5 operations over 3 callbacks; up to 4 consecutive allocation failures
//@outside larger blocks (same straight-line code: memset/memmove over the size header)
//@stubs malloc/free are wrapped: free records what it is given, malloc may be told to fail
//@H h_wipe q:N=9 t:N=20 reach=freed,resized,shrunk
//@H h_contents q:N=9 t:N=20 reach=grow,shrink
//@H h_cbs q:K=3 t:K=5 reach=retry,full
//@H h_hist q:K=6,HIST=1 t:K=7,HIST=1 jobs=2 reach=dereg
//@H h_over q: t: reach=over
#include "vp.h"
#include <mstdlib/mstdlib.h>
void *vporig_malloc(size_t n); void vporig_free(void *p);
static unsigned char rec[2][4][64]; static size_t reclen[2][4]; static int run, nfree, recording;
static int failures; static int pending_fail;
void *vpstub_malloc(size_t n){ if(pending_fail>0){ pending_fail--; failures++; return NULL; } return vporig_malloc(n); }
void vpstub_free(void *p){ if(p && recording && nfree<4){ size_t n=vp_obj_size(p); if(n>64) n=64; reclen[run][nfree]=n; memcpy(rec[run][nfree],p,n); nfree++; } vporig_free(p); }
#ifndef N
#define N 9
#endif
#ifndef K
#define K 4
#endif
/* non-interference: what the system allocator gets back must not depend on what the block held */
void h_wipe(void){
	size_t n=(size_t)vp_range("n",1,N), m=(size_t)vp_pick("m",N+4), i, j; int zero=(int)vp_pick("zero",2), doresize=(int)vp_pick("resize",2); unsigned char secret[N]; int r;
	vp_sym_bytes(secret,n,"secret");
	for(r=0;r<2;r++){ unsigned char *p=M_malloc(n), *q; run=r; nfree=0; recording=1; vp_assert(p!=NULL);
		for(i=0;i<n;i++) p[i]=(unsigned char)(r?secret[i]^0xA5:secret[i]);
		if(doresize){ q=zero?M_realloc_zero(p,m):M_realloc(p,m); if(m==0){ vp_assert(q==NULL); } else { vp_assert(nfree==1); for(i=n;i<m;i++) q[i]=(unsigned char)(r?0x11:0x22); vp_reach("resized"); if(m<n) vp_reach("shrunk"); M_free(q); } }
		else { M_free(p); vp_reach("freed"); }
		recording=0; }
	vp_assert(nfree==(doresize&&m?2:1));
	for(j=0;j<(size_t)nfree;j++){ vp_assert(reclen[0][j]==reclen[1][j]); for(i=0;i<reclen[0][j];i++) vp_assert(rec[0][j][i]==rec[1][j][i]); } }
void h_contents(void){
	size_t n=(size_t)vp_range("n",1,N), m=(size_t)vp_range("m",1,N+3), i; unsigned char d[N]; unsigned char *p; int how=(int)vp_pick("how",4);
	vp_sym_bytes(d,n,"d");
	switch(how){ case 0: p=M_malloc(n); for(i=0;i<n;i++) p[i]=d[i]; p=M_realloc(p,m); break;
	case 1: p=M_malloc_zero(n); for(i=0;i<n;i++) vp_assert(p[i]==0); for(i=0;i<n;i++) p[i]=d[i]; p=M_realloc_zero(p,m); for(i=n;i<m;i++) vp_assert(p[i]==0); break;
	case 2: p=M_memdup(d,n); m=n; break;
	default: p=M_memdup_max(d,n,m); if(m<n) m=n; break; }
	vp_assert(p!=NULL); vp_readable(p,m); for(i=0;i<n&&i<m;i++) vp_assert(p[i]==d[i]);
	for(i=0;i<m;i++) p[i]=1; /* whole block writable */
	vp_reach(m>n?"grow":"shrink"); M_free(p);
	vp_assert(M_malloc(0)==NULL && M_realloc(NULL,0)==NULL && M_malloc_zero(0)==NULL); M_free(NULL); }
/* callbacks */
static int order[16], no; static unsigned char want[3];
static M_bool cb(int k){ if(no<16) order[no++]=k; return want[k]; }
static M_bool cb0(void){ return cb(0); } static M_bool cb1(void){ return cb(1); } static M_bool cb2(void){ return cb(2); }
static M_malloc_error_cb f[3]={cb0,cb1,cb2}; static int reg[16], n;
static void history(void){ int i,j;
	for(i=0;i<K;i++){ int op=(int)vp_pick("op",7);
		if(op<3){ M_bool r=M_malloc_register_errorcb(f[op]); if(n<12){ vp_assert(r); reg[n++]=op; } else { vp_assert(!r); } }
		else if(op<6){ int k=op-3, at=-1; M_bool r; for(j=0;j<n;j++) if(reg[j]==k){ at=j; break; } r=M_malloc_deregister_errorcb(f[k]); vp_assert(r==(at>=0)); if(at>=0){ vp_reach("dereg"); /* which of several equal registrations goes is not specified: stop at duplicates */ { int dup=0; for(j=at+1;j<n;j++) if(reg[j]==k) dup=1; vp_assume(!dup); } for(j=at;j<n-1;j++) reg[j]=reg[j+1]; n--; } }
		else { M_malloc_clear_errorcb(); n=0; } }
}
void h_hist(void){ int i; history(); for(i=0;i<3;i++) want[i]=0; { int top=n?reg[n-1]:-1; if(n){ want[top]=1; pending_fail=1; no=0; M_free(M_malloc(3)); vp_assert(no==1 && order[0]==top); } } }
void h_cbs(void){ int i,j,exp[16],ne=0,nf; void*p; history();
	vp_assert(!M_malloc_register_errorcb(NULL)); vp_assert(!M_malloc_deregister_errorcb(NULL));
	for(i=0;i<3;i++) want[i]=(unsigned char)vp_pick("want",2);
	/* the allocation fails nf times; each failure consults callbacks newest first, older and older, until one asks for a retry */
	for(nf=0,j=n;j>0;j--) if(want[reg[j-1]]) nf++;
	vp_assume(nf>0); nf=1+(int)vp_pick("nf",(unsigned)nf); { int left=nf; for(j=n;j>0&&left>0;j--){ exp[ne++]=reg[j-1]; if(want[reg[j-1]]) left--; } }
	pending_fail=nf; no=0; p=M_malloc(5); vp_assert(p!=NULL); vp_assert(no==ne); for(i=0;i<ne;i++) vp_assert(order[i]==exp[i]); vp_reach("retry"); M_free(p);
	M_malloc_clear_errorcb(); for(i=0;i<12;i++) vp_assert(M_malloc_register_errorcb(f[i%3])); vp_assert(!M_malloc_register_errorcb(cb0)); vp_reach("full");
	M_malloc_clear_errorcb(); for(i=0;i<3;i++) vp_assert(!M_malloc_deregister_errorcb(f[i])); }
void h_over(void){ size_t s=vp_u64("s"); vp_assume(s>SIZE_MAX-8); { void *p=M_malloc(s); vp_assert(p==NULL); } vp_reach("over"); }
