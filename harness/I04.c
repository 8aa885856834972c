//@mods base io/m_io_bwshaping.c
//@env env_time
//@bounds both modes, both directions, rates and sample frequencies from a small set, period of one second, with and without latency; OPS transfers of any size up to 4000 bytes at any times (any steps of up to 1500 ms) with the layer below taking all, part or nothing; the clock is symbolic
//@outside longer histories; other rates and periods; a change of settings under way; windows other than those stated in the assertions (the sample frequency is the granularity of the accounting)
//@stubs the clock, the layer below, the layer bookkeeping, soft events and the timer are stand-ins
//@H h_rate q:OPS=2 t:OPS=4 jobs=8 reach=limited,free
//@H h_many q:OPS=5 t:OPS=6 jobs=8 reach=limited
//@H h_wake jobs=8 reach=woken,write,read
//@H h_reset reach=done
//@H h_accept reach=done
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_io.h>
#include <mstdlib/io/m_io_layer.h>
#ifndef OPS
#define OPS 3
#endif
static int tm_on; static M_uint64 tm_ms, now; static M_event_callback_t tcb; static void *tcd;
#define NO_TIMER_STUBS
#include "iolayer.h"
void vpstub_M_time_elapsed_start(M_timeval_t *tv){ tv->tv_sec=(M_time_t)now; tv->tv_usec=0; }
M_uint64 vpstub_M_time_elapsed(const M_timeval_t *tv){ return now-(M_uint64)tv->tv_sec; }
static size_t below; static int below_wb; static size_t seen;
M_io_error_t M_io_layer_read(M_io_t *io, size_t l, unsigned char *b, size_t *n, M_io_meta_t *m){ (void)io;(void)l;(void)m;(void)b; if(below_wb) return M_IO_ERROR_WOULDBLOCK; if(*n>below) *n=below; seen+=*n; return M_IO_ERROR_SUCCESS; }
M_io_error_t M_io_layer_write(M_io_t *io, size_t l, const unsigned char *b, size_t *n, M_io_meta_t *m){ (void)b; return M_io_layer_read(io,l,NULL,n,m); }
static M_io_t *IO=(M_io_t*)&LY[0]; static M_uint64 Bps, FR; static int dir, trickle; static unsigned char BUF[8];
static void mk(void){ static const M_uint64 BR[]={100,1000,999}, FQ[]={250,400,100}; size_t id; dir=vp_pick("dir",2)?M_IO_BWSHAPING_DIRECTION_IN:M_IO_BWSHAPING_DIRECTION_OUT; trickle=vp_pick("trickle",2); Bps=BR[vp_pick("bps",3)]; FR=FQ[vp_pick("freq",2)]; now=100000; M_io_add_bwshaping(IO,&id); M_io_bwshaping_direction_t d=(M_io_bwshaping_direction_t)dir; vp_assert_msg(M_io_bwshaping_set_throttle(IO,1,d,Bps)&&M_io_bwshaping_set_throttle_mode(IO,1,d,trickle?M_IO_BWSHAPING_MODE_TRICKLE:M_IO_BWSHAPING_MODE_BURST)&&M_io_bwshaping_set_throttle_period(IO,1,d,1,FR),"configured"); LY[0].cb.init(&LY[0]); below=1<<20; vp_assert_msg(held==0,"released"); }
static M_io_error_t xfer(size_t *n){ size_t want=*n; M_io_error_t e=dir==M_IO_BWSHAPING_DIRECTION_IN?LY[0].cb.read(&LY[0],BUF,n,NULL):LY[0].cb.write(&LY[0],BUF,n,NULL); if(e==M_IO_ERROR_SUCCESS) vp_assert_msg(*n<=want,"no more than asked"); return e; }
static M_uint64 T[8]; static size_t B[8];
static void rates(int n){ M_uint64 q=trickle?(Bps*1)/(1000/FR):Bps; /* burst: what lies within period minus frequency is within one accounting period; trickle: a window shorter than the frequency meets at most two samples, one of a period at most one more than fit in it */
 for(int i=0;i<n;i++){ M_uint64 a=0, b=0; for(int k=i;k<n;k++){ M_uint64 d=T[k]-T[i]; a+=d<(trickle?FR:1000-FR)?B[k]:0; b+=d<1000?B[k]:0; } if(trickle){ vp_assert_msg(a<=2*q,"within a sample the rate is kept"); vp_assert_msg(b<=Bps+2*q,"within a period the rate is kept"); } else vp_assert_msg(a<=q,"within a period the rate is kept"); } }
void h_rate(void){ mk(); for(int i=0;i<OPS;i++){ M_uint64 dt=vp_below("dt",1501); now+=dt; size_t n=1+vp_below("n",4000), want=n; int bl=vp_pick("below",2); below=bl?7:1<<20; M_io_error_t e=xfer(&n); T[i]=now; B[i]=0; if(e==M_IO_ERROR_SUCCESS){ B[i]=n; if(n<want) vp_reach("limited"); else vp_reach("free"); } } rates(OPS); vp_assert_msg(M_io_bwshaping_get_totalbytes(IO,1,(M_io_bwshaping_direction_t)dir)==seen,"bytes are counted"); }
void h_many(void){ mk(); static const int S[]={0,1,-1,-2,-3}; for(int i=0;i<OPS;i++){ int s=S[vp_pick("step",5)]; now+=s==-1?FR:s==-2?FR-1:s==-3?1000:(M_uint64)s; size_t n=4000; M_io_error_t e=xfer(&n); T[i]=now; B[i]=e==M_IO_ERROR_SUCCESS?n:0; if(n<4000) vp_reach("limited"); } rates(OPS); }
void h_wake(void){ mk(); if(vp_pick("lat",2)) M_io_bwshaping_set_latency(IO,1,(M_io_bwshaping_direction_t)dir,30); now+=vp_below("d0",1200); for(int i=0;i<2;i++){ size_t n=1+(size_t)vp_pick("n",2)*3999; xfer(&n); now+=i?0:(M_uint64)vp_pick("d1",3)*250; } size_t n=4000; M_io_error_t e=xfer(&n); soft_write=soft_read=0; if(e==M_IO_ERROR_WOULDBLOCK){ vp_assert_msg(tm_on,"a throttled transfer sets the timer"); for(int i=0;i<3&&tm_on;i++){ vp_assert_msg(tm_ms<=1000,"no later than the period"); now+=tm_ms; tm_on=0; tcb(NULL,M_EVENT_TYPE_OTHER,NULL,tcd); } vp_assert_msg((dir==M_IO_BWSHAPING_DIRECTION_IN?soft_read:soft_write)>0,"and is told when it may go on"); M_event_type_t t=dir==M_IO_BWSHAPING_DIRECTION_IN?M_EVENT_TYPE_READ:M_EVENT_TYPE_WRITE; vp_assert_msg(!LY[0].cb.pe(&LY[0],&t),"the event is passed on"); n=1; vp_assert_msg(xfer(&n)==M_IO_ERROR_SUCCESS&&n==1,"and may"); vp_reach("woken"); if(dir==M_IO_BWSHAPING_DIRECTION_IN) vp_reach("read"); else vp_reach("write"); } }
void h_reset(void){ mk(); size_t n=5; xfer(&n); vp_assert_msg(LY[0].cb.reset(&LY[0]),"reset"); n=5; vp_assert_msg(xfer(&n)==M_IO_ERROR_SUCCESS&&n==5,"works again after a reset"); vp_assert_msg(LY[0].cb.reset(&LY[0]),"reset twice"); vp_assert_msg(LY[0].cb.reset(&LY[0]),"reset thrice"); LY[0].cb.destroy(&LY[0]); vp_reach("done"); }
void h_accept(void){ mk(); M_io_bwshaping_set_throttle_period(IO,1,(M_io_bwshaping_direction_t)dir,20,50); struct M_io_layer o=LY[0]; M_io_t *io2=(M_io_t*)&LY[0]; (void)io2; vp_assert_msg(o.cb.accept(IO,&o)==M_IO_ERROR_SUCCESS,"accepted"); T[0]=0; for(int i=0;i<230;i++){ now+=51; size_t n=1; M_io_error_t e=xfer(&n); vp_assert_msg(e==M_IO_ERROR_SUCCESS&&n==1,"the accepted object works with the settings of the listener"); } vp_reach("done"); }
