//@mods base io/m_io_buffer.c
//@env env_time
//@bounds limits of 0 (off), 8, 32, 16384 and 32768 for reading and 0, 4, 8 for writing (and odd values rounded); any sequence of OPS operations: arrival below of one of several amounts, application reads or writes of one of several sizes, the layer below taking any part of what it is given, would-block, events; the written bytes are symbolic
//@outside longer sequences; limits beyond 32768; errors other than would-block
//@stubs the layer below, the layer bookkeeping and soft events are stand-ins
//@H h_read q:OPS=5 t:OPS=7 jobs=8 reach=full,drained,pass
//@H h_read q:OPS=2,BIG=1 t:OPS=4,BIG=1 jobs=8 reach=drained
//@H h_write q:OPS=5 t:OPS=7 jobs=8 reach=full,partial,drained,pass
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_io.h>
#include <mstdlib/io/m_io_layer.h>
#include "iolayer.h"
#ifndef BIG
#define BIG 0
#endif
#ifndef OPS
#define OPS 4
#endif
static unsigned char pat(size_t i){ return (unsigned char)(i*7+i/251); }
/* below: edge triggered source */
static size_t arrived, taken, got; static unsigned char OUT[65536];
M_io_error_t M_io_layer_read(M_io_t *io, size_t l, unsigned char *b, size_t *n, M_io_meta_t *m){ (void)io;(void)l;(void)m; size_t k=arrived-taken; if(k==0) return M_IO_ERROR_WOULDBLOCK; if(k>*n) k=*n; for(size_t i=0;i<k;i++) b[i]=pat(taken+i); taken+=k; *n=k; return M_IO_ERROR_SUCCESS; }
static unsigned char W[64], WR[64]; static size_t wn, wrn; static int flush;
M_io_error_t M_io_layer_write(M_io_t *io, size_t l, const unsigned char *b, size_t *n, M_io_meta_t *m){ (void)io;(void)l;(void)m; size_t k=flush?*n:(size_t)vp_range("takes",0,(M_int64)(*n<3?*n:3)); if(k==3) k=*n; if(k==0) return M_IO_ERROR_WOULDBLOCK; if(k<*n) vp_reach("partial"); M_mem_copy(W+wn,b,k); wn+=k; *n=k; return M_IO_ERROR_SUCCESS; }
static int app_told; /* the application has an unhandled read event */
static int ev(M_event_type_t t){ M_event_type_t e=t; return LY[0].cb.pe(&LY[0],&e); }
static size_t lim;
static void chk(void){ if(lim) vp_assert_msg(taken-got<=lim,"no more is held than the limit"); else vp_assert_msg(taken==got,"nothing is held without a buffer"); }
static void rdev(void){ if(!ev(M_EVENT_TYPE_READ)) app_told=1; chk(); while(soft_read){ soft_read=0; if(!ev(M_EVENT_TYPE_READ)) app_told=1; chk(); } }
static M_bool appread(size_t k){ size_t n=k; unsigned char *o=OUT; M_io_error_t e=LY[0].cb.read(&LY[0],o,&n,NULL); if(e==M_IO_ERROR_SUCCESS){ vp_assert_msg(n>0&&n<=k,"some bytes"); for(size_t i=0;i<n;i++) if(o[i]!=pat(got+i)){ vp_assert_msg(0,"bytes come in order"); } got+=n; chk(); return M_TRUE; } vp_assert_msg(e==M_IO_ERROR_WOULDBLOCK,"else would block"); app_told=0; return M_FALSE; }
static const int LS[]={0,8,20};
void h_read(void){ size_t l=BIG?16384u<<vp_pick("limit",2):(size_t)LS[vp_pick("limit",3)], id; size_t AR[3]={3,BIG?16384:8,BIG?40000:40}, RD[3]={2,BIG?16384:8,60000}; lim=l==20?32:l; M_io_add_buffer((M_io_t*)&LY[0],&id,l,0); int edge=0;
 for(int s=0;s<OPS;s++){ int o=vp_pick("op",4); if(o<3){ arrived+=AR[o]; rdev(); } else { size_t k=RD[vp_pick("rd",3)]; int full=(lim&&taken-got==lim); M_bool r=appread(k); if(full&&r) vp_reach("full"); while(soft_read){ soft_read=0; if(!ev(M_EVENT_TYPE_READ)) app_told=1; chk(); } } (void)edge; }
 /* the application keeps reading, as told, until told nothing more; with no further event from below everything must have come */
 if(!lim) app_told=1; for(int i=0;i<40&&(app_told||arrived>got);i++){ if(!app_told) break; while(appread(60000)) ; while(soft_read){ soft_read=0; if(!ev(M_EVENT_TYPE_READ)) app_told=1; } }
 vp_assert_msg(got==arrived,"all that arrived is delivered to an application that reads whenever told"); if(lim) vp_reach("drained"); else vp_reach("pass"); LY[0].cb.destroy(&LY[0]); }
void h_write(void){ static const size_t LM[]={0,4,8,7}; size_t l=LM[vp_pick("limit",4)], id; size_t lm=l==7?8:l; M_io_add_buffer((M_io_t*)&LY[0],&id,0,l); int blocked=0, told=0;
 for(int s=0;s<OPS;s++){ int o=vp_pick("op",2); if(o==0){ size_t k=1+2*(size_t)vp_pick("n",3), n=k; unsigned char b[8]; vp_sym_bytes(b,k,"b"); M_io_error_t e=LY[0].cb.write(&LY[0],b,&n,NULL); if(e==M_IO_ERROR_SUCCESS){ vp_assert_msg(n>0&&n<=k,"part of it"); if(n<k) { blocked=1; told=0; } M_mem_copy(WR+wrn,b,n); wrn+=n; } else { vp_assert_msg(e==M_IO_ERROR_WOULDBLOCK,"would block"); blocked=1; told=0; if(lm){ vp_assert_msg(wrn-wn==lm,"refused only when full"); vp_reach("full"); } } if(lm) vp_assert_msg(wrn-wn<=lm,"no more is held than the limit"); else vp_assert_msg(wrn==wn,"nothing is held"); if(lm&&wrn>wn&&e==M_IO_ERROR_SUCCESS) vp_assert_msg(soft_write>0,"a write is prompted"); }
  else { soft_write=0; size_t b4=wn; if(!ev(M_EVENT_TYPE_WRITE)) told=1; if(lm&&blocked&&wn>b4) vp_assert_msg(told,"room is announced to a writer that was held up"); if(told) blocked=0; }
  vp_assert_msg(wn<=wrn&&M_mem_eq(W,WR,wn?wn:0)|(wn==0),"bytes go below in order, once"); }
 flush=1; for(int i=0;i<20&&wn<wrn;i++) ev(M_EVENT_TYPE_WRITE); if(wn==wrn){ vp_assert_msg(wn==0||M_mem_eq(W,WR,wn),"all"); if(lm) vp_reach("drained"); else vp_reach("pass"); } LY[0].cb.destroy(&LY[0]); }
