//@mods base
//@bounds ranges 1,2,3,4,5,7,10,2^16,2^32-1,2^32,2^63-1,2^63,2^63+1,2^64-1 wide with arbitrary minimum; generator outputs arbitrary 64-bit values (every state of the real generator produces one of them), up to 3 rejected draws
//@bounds reachability: every value of the ranges 1..5 (M_rand_range) is reached by some generator output
//@bounds determinism: seeds arbitrary 64-bit (as a seed term), 4 draws; random strings up to N characters
//@outside seeding from the clock (seed 0); statistical quality
//@stubs M_rand replaced by an arbitrary 64-bit value in the range harnesses (RNG=1)
//@H h_range q:RNG=1 t:RNG=1 reach=ok
//@H h_any q:RNG=1 t:RNG=1 reach=ok
//@H h_reach q:RNG=1 t:RNG=1 must=r1_0,r2_0,r2_1,r3_0,r3_1,r3_2,r4_0,r4_1,r4_2,r4_3,r5_0,r5_1,r5_2,r5_3,r5_4
//@H h_str q:RNG=1,N=3 t:RNG=1,N=5 reach=ok
//@H h_det q: t: reach=ok
//@H h_dup q: t: reach=ok
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 3
#endif
#ifdef RNG
static int draws; M_uint64 vpstub_M_rand(M_rand_t *st){ (void)st; if(++draws>4) vp_assume(0); return vp_u64("r"); }
#endif
static M_rand_t *mk(void){ return M_rand_create(1); }
static const M_uint64 W[]={1,2,3,4,5,7,10,1u<<16,0xffffffffull,0x100000000ull,0x7fffffffffffffffull,0x8000000000000000ull,0x8000000000000001ull,0xffffffffffffffffull};
#ifdef RNG
M_rand_t *vpstub_M_rand_create(M_uint64 seed){ (void)seed; return M_malloc_zero(64); }
void h_range(void){ M_uint64 w=W[vp_pick("w",14)], mn=vp_u64("min"), r; M_rand_t *st=mk(); vp_assume(mn<=M_UINT64_MAX-w); r=M_rand_range(st,mn,mn+w); vp_assert(r>=mn); vp_assert(r<mn+w); 
	if(w<11){ vp_assert(M_rand_range(st,mn,mn)==mn); } M_rand_destroy(st); vp_reach("ok"); }
void h_any(void){ M_uint64 mx=W[vp_pick("w",14)], r; M_rand_t *st=vp_pick("null",2)?NULL:mk(); r=M_rand_max(st,mx); vp_assert(r<mx); M_rand_destroy(st); vp_reach("ok"); }
void h_reach(void){ M_uint64 w=1+vp_pick("w",5), r; M_rand_t *st=mk(); r=M_rand_range(st,10,10+w)-10; char t[8]; int i; for(i=0;i<5;i++) if(r==(M_uint64)i){ t[0]='r'; t[1]=(char)('0'+w); t[2]='_'; t[3]=(char)('0'+i); t[4]=0; vp_reach(t); } M_rand_destroy(st); }
void h_str(void){ size_t n=(size_t)vp_range("n",1,N), k=(size_t)vp_range("k",1,3), i; char cs[4]; char *o=(char*)vp_malloc(n+1); M_rand_t *st=mk(); for(i=0;i<k;i++) cs[i]=(char)('a'+i); cs[k]=0; vp_assert(M_rand_str(st,cs,o,n)); vp_assert(o[n]==0); for(i=0;i<n;i++) vp_assert(vp_in(o[i],cs)); vp_assert(!M_rand_str(st,"",o,n)); vp_assert(!M_rand_str(st,cs,NULL,n)); M_rand_destroy(st); vp_reach("ok"); }
#else
void h_det(void){ static const M_uint64 S[]={1,2,0xdeadbeefull,0x8000000000000000ull,0xffffffffffffffffull}; M_uint64 s=S[vp_pick("s",5)]; M_rand_t *a=mk(), *b; int i,k=(int)vp_pick("k",3); M_rand_destroy(a); a=M_rand_create(s); b=M_rand_create(s); for(i=0;i<k;i++) vp_assert(M_rand(a)==M_rand(b)); M_rand_jump(a); M_rand_jump(b);
	for(i=0;i<3;i++) vp_assert(M_rand(a)==M_rand(b)); vp_assert(M_rand_range(a,5,500)==M_rand_range(b,5,500)); M_rand_destroy(a); M_rand_destroy(b); vp_reach("ok"); }
/* arbitrary internal state: a duplicate continues with the same sequence and does not disturb the original */
void h_dup(void){ M_rand_t *a=M_rand_create(7), *b, *c; M_uint64 x[3]; int i,k=(int)vp_pick("k",3); vp_sym_bytes(a,32,"st"); for(i=0;i<k;i++) (void)M_rand(a); b=M_rand_duplicate(a); c=M_rand_duplicate(a); vp_assert(b&&c&&b!=a); for(i=0;i<3;i++) x[i]=M_rand(b); for(i=0;i<3;i++) vp_assert(M_rand(a)==x[i]); M_rand_destroy(a); for(i=0;i<3;i++) vp_assert(M_rand(c)==x[i]); M_rand_destroy(b); M_rand_destroy(c); vp_reach("ok"); }
#endif
