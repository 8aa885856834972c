//@mods base
//@bounds around six bases (0, below 2^31, below 2^32, 1.7e9, negative, below -2^31): every microsecond part 0..999999 of one instant against {0,999,999999} of the others, at most 1 second apart, and every second within 256 s of one instant against {0,127,254} of the others with microseconds in {0,999,1000,999999}; triples of instants for monotonicity; elapsed time against every monotonic clock reading, including clocks that fail and clocks that go backwards
//@outside Windows and Apple clock sources; seconds whose millisecond count does not fit 64 bits
//@stubs clock_gettime, gettimeofday: any reading, or failure
//@H h_diff q:FIX=0 t:FIX=0 jobs=8 reach=end
//@H h_mono q:FIX=0 t:FIX=0 jobs=8 reach=end
//@H h_diff q:FIX=1 t:FIX=1 jobs=8 reach=end
//@H h_mono q:FIX=1 t:FIX=1 jobs=8 reach=end
//@H h_elapsed q:FIX=0 t:FIX=0 jobs=8 reach=fwd,back
//@H h_elapsed q:FIX=1 t:FIX=1 jobs=8 reach=fwd,back
//@H h_clamp jobs=4 reach=end
#include "vp.h"
#ifndef FIX
#define FIX 0
#endif
#define SY 2
#include <mstdlib/mstdlib.h>
#include <time.h>
#include <sys/time.h>
#include "time/m_time_int.h"
static const M_int64 bases[6]={0,2147483520LL,4294967168LL,1700000000LL,-300,-2147483776LL};
static M_int64 base; static int useclock; static M_int64 ck_sec; static M_int64 ck_ns; static int ck_fail;
int vpstub_clock_gettime(clockid_t c, struct timespec *ts){ (void)c; if(ck_fail) return -1; ts->tv_sec=ck_sec; ts->tv_nsec=ck_ns; return 0; }
int vpstub_gettimeofday(struct timeval *tv, void *z){ (void)z; tv->tv_sec=ck_sec; tv->tv_usec=ck_ns/1000; return 0; }
static M_int64 usec(const char *n){ M_uint32 u=vp_u32(n)&0xFFFFF; vp_assume(u<1000000); return (M_int64)u; }
static int fixu, nsym, symat; static const M_int64 us3[3]={0,999,999999};
static const M_int64 us6[4]={0,999,1000,999999};
static void inst(M_timeval_t *t, const char *a, const char *b){ if(fixu){ t->tv_sec=base+(nsym++==symat?(M_int64)vp_u8(a):(M_int64)vp_pick(a,3)*127);  t->tv_usec=(M_suseconds_t)us6[vp_pick(b,4)]; return; } t->tv_sec=base+(nsym?1:vp_pick(a,3)); if(nsym++==symat) t->tv_usec=(M_suseconds_t)usec(b); else t->tv_usec=(M_suseconds_t)us3[vp_pick(b,3)]; }
static M_int64 us(const M_timeval_t *t){ return (M_int64)t->tv_sec*1000000+t->tv_usec; }
void h_diff(void){ M_timeval_t a, b; base=bases[FIX?vp_pick("base",6):3]; fixu=FIX; symat=vp_pick("symat",SY); inst(&a,"as","au"); inst(&b,"bs","bu");
	M_int64 d=M_time_timeval_diff(&a,&b), e=M_time_timeval_diff(&b,&a), x=us(&b)-us(&a);
	vp_assert_msg(d*1000<x+1000 && d*1000>x-1000,"difference within one millisecond of the exact difference");
	vp_assert_msg(e==-d,"antisymmetric");
	if(x>=0) vp_assert_msg(d>=0,"never negative for ordered instants"); else vp_assert_msg(d<=0,"never positive for reversed instants");
	if(a.tv_usec%1000==0&&b.tv_usec%1000==0) vp_assert_msg(d*1000==x,"exact for whole milliseconds");
	vp_assert_msg(M_time_timeval_diff(&a,&a)==0,"zero for equal instants"); vp_reach("end"); }
void h_mono(void){ M_timeval_t a, b, c; base=bases[FIX?vp_pick("base",6):3]; fixu=FIX; symat=vp_pick("symat",SY); inst(&a,"as","au"); inst(&b,"bs","bu"); inst(&c,"cs","cu");
	vp_assume(us(&b)<=us(&c)); vp_assert_msg(M_time_timeval_diff(&a,&b)<=M_time_timeval_diff(&a,&c),"later instant, larger difference");
	vp_assert_msg(M_time_timeval_diff(&a,&b)+M_time_timeval_diff(&b,&c)==M_time_timeval_diff(&a,&c),"differences add up"); vp_reach("end"); }
void h_elapsed(void){ M_timeval_t s; base=bases[FIX?vp_pick("base",4):3]; ck_fail=vp_pick("fail",2);
	M_timeval_t k; fixu=FIX; symat=vp_pick("symat",SY); inst(&k,"s1","n1"); ck_sec=k.tv_sec; ck_ns=(M_int64)k.tv_usec*1000+vp_pick("ns",2)*999; M_int64 s1=ck_sec, n1=ck_ns;
	M_time_elapsed_start(&s); vp_assert_msg(s.tv_sec==s1,"seconds of the clock"); vp_assert_msg(s.tv_usec==n1/1000,"microseconds of the clock");
	inst(&k,"s2","n2"); ck_sec=k.tv_sec; ck_ns=(M_int64)k.tv_usec*1000;
	M_uint64 ms=M_time_elapsed(&s); M_int64 x=(ck_sec*1000000+ck_ns/1000)-(s1*1000000+n1/1000);
	if(x<0){ vp_assert_msg(ms==0,"clock moved back: nothing elapsed"); vp_reach("back"); }
	else { vp_assert_msg((M_int64)ms*1000<x+1000&&(M_int64)ms*1000>x-1000,"elapsed milliseconds"); vp_reach("fwd"); } }
void h_clamp(void){ M_timeval_t m; struct timeval tv; M_uint64 s=vp_u64("s"); m.tv_sec=(M_time_t)s; m.tv_usec=(M_suseconds_t)usec("u");
	int abs=vp_pick("abs",2); M_time_M_timeval_t_to_struct_timeval(&m,&tv,abs?M_TRUE:M_FALSE);
	vp_assert_msg(tv.tv_usec==m.tv_usec,"microseconds kept"); vp_assert_msg((M_int64)tv.tv_sec==((!abs&&m.tv_sec<0)?0:m.tv_sec),"seconds kept unless negative values are not allowed"); vp_reach("end"); }
