//@mods base
//@bounds every value of up to 6 (thorough 12) symbolic bytes; wrap, duplicate, unwrap and unwrap-copy composed in both orders, with the source overwritten and freed; NULL and empty values
//@H h_bin q:N=6 t:N=12 reach=end
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 6
#endif
void h_bin(void){ size_t n=(size_t)vp_pick("n",N+1), len=77, i; M_uint8 src[N+1], cp[N+1], *w, *d, *v, *u; const M_uint8 *r; M_uint64 live=vp_heap_live(); for(i=0;i<n;i++) cp[i]=src[i]=(M_uint8)vp_u8("b"); w=M_bin_wrap(src,n);
	len=77; vp_assert(M_bin_wrap(NULL,3)==NULL&&M_bin_wrapeddup(NULL)==NULL&&M_bin_unwrap(NULL,NULL)==NULL); vp_assert(M_bin_unwrap(NULL,&len)==NULL&&len==0); len=77; vp_assert(M_bin_unwrapdup(NULL,&len)==NULL); vp_assert_msg(len==0,"length of no value is 0"); vp_assert(M_bin_unwrapdup(NULL,NULL)==NULL);
	if(!n){ vp_assert(w==NULL); return; } M_mem_set(src,0,sizeof src); len=77; r=M_bin_unwrap(w,&len); vp_assert_msg(len==n,"length"); for(i=0;i<n;i++) vp_assert_msg(r[i]==cp[i],"bytes"); vp_assert(M_bin_unwrap(w,NULL)==r);
	d=vp_pick("vp",2)?M_bin_wrapeddup_vp(w):M_bin_wrapeddup(w); vp_assert(d!=w); len=77; v=M_bin_unwrapdup(w,&len); vp_assert(len==n&&v!=r); u=M_bin_unwrapdup(w,NULL); M_mem_set(w,0xEE,n); M_free(w); for(i=0;i<n;i++) vp_assert_msg(v[i]==cp[i]&&u[i]==cp[i],"copy is independent"); M_free(u); M_free(v); r=M_bin_unwrap(d,&len); vp_assert(len==n); for(i=0;i<n;i++) vp_assert_msg(r[i]==cp[i],"duplicate is independent"); M_free(d); vp_assert(vp_heap_live()==live); vp_reach("end"); }
