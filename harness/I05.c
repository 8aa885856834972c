//@mods base io/m_event_timer.c
//@env env_time
//@bounds two timers (three in h_sym); OPS operations from start, stop, reset, adjust, remove, add again, advance the clock and process, with callbacks which do nothing, stop, remove or restart their own timer or stop or remove or restart the other; fire counts 0 to 2; both modes; start and end times; h_sym: any interval up to IVMAX ms beside two others, over several clock steps
//@outside removal from another thread; fractions of a millisecond (the granularity of the clock comparisons); backward wall clock
//@stubs the clock; event loop locking, waking and distribution
//@H h_ops q:OPS=3 t:OPS=4 jobs=8 reach=fired,selfrestart
//@H h_start jobs=8 reach=fired
//@H h_sym q:IVMAX=512 t:IVMAX=4096 jobs=8 reach=fired,two
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_io.h>
#include "io/m_event_int.h"
#ifndef IVMAX
#define IVMAX 512
#endif
#ifndef OPS
#define OPS 3
#endif
static M_int64 now=1000000; static M_event_t EV;
static void tvset(M_timeval_t *tv, M_int64 ms){ tv->tv_sec=(M_time_t)(ms/1000); tv->tv_usec=(M_suseconds_t)(ms%1000)*1000; }
void vpstub_M_time_elapsed_start(M_timeval_t *tv){ tvset(tv,now); }
void vpstub_M_time_gettimeofday(M_timeval_t *tv){ tvset(tv,now); }
static int locked;
void M_event_lock(M_event_t *e){ (void)e; locked++; }
void M_event_unlock(M_event_t *e){ (void)e; locked--; vp_assert_msg(locked>=0,"lock balance"); }
void M_event_wake(M_event_t *e){ (void)e; }
M_event_t *M_event_distribute(M_event_t *e){ return e; }
M_bool M_event_queue_task(M_event_t *e, M_event_callback_t cb, void *d){ (void)e;(void)cb;(void)d; return M_FALSE; }
M_threadid_t M_thread_self(void){ return (M_threadid_t)1; }
/* the model */
typedef struct { M_event_timer_t *t; int alive, on, cnt, lim, mono, restarted; M_int64 iv, due, end; } md_t;
static md_t m[3]; static int NT=2, action[3], fires, inproc;
static void m_start(int i, M_int64 iv){ m[i].iv=iv; m[i].cnt=0; m[i].on=1; m[i].due=now+iv; m[i].restarted=1; }
static void act(int k, int i){ if(!m[i].alive) return; switch(k){ case 1: M_event_timer_stop(m[i].t); m[i].on=0; break; case 2: M_event_timer_remove(m[i].t); m[i].alive=0; m[i].on=0; break; case 3: vp_assert_msg(M_event_timer_start(m[i].t,10),"restarted"); m_start(i,10); break; } }
static void cb(M_event_t *e, M_event_type_t ty, M_io_t *io, void *d){ (void)e;(void)ty;(void)io; int i=(int)(size_t)d; fires++; vp_assert_msg(inproc&&locked==1-1,"called from processing, unlocked"); vp_assert_msg(m[i].alive,"a removed timer does not fire"); vp_assert_msg(m[i].on,"a stopped timer does not fire"); vp_assert_msg(now>=m[i].due,"no timer fires early"); vp_assert_msg(!m[i].end||now<m[i].end,"nor after its end time"); for(int j=0;j<NT;j++) if(j!=i&&m[j].alive&&m[j].on) vp_assert_msg(!(m[j].due<m[i].due)||(m[j].end&&now>=m[j].end),"due timers fire in order"); m[i].cnt++; vp_assert_msg(m[i].lim==0||m[i].cnt<=m[i].lim,"fire count"); m[i].restarted=0; vp_reach("fired"); int a=action[i]; if(a){ int o=a>3; act(o?a-3:a,o?1-i:i); if(a==3) vp_reach("selfrestart"); }
 if(m[i].alive&&m[i].on){ if(m[i].lim&&m[i].cnt>=m[i].lim) m[i].on=0; else if(!m[i].restarted) m[i].due=m[i].mono?m[i].due+m[i].iv:now+m[i].iv; } }
static void proc(void){ for(int r=0;r<8;r++){ for(int j=0;j<NT;j++) if(m[j].alive&&m[j].on&&m[j].end&&now>=m[j].end&&now>=m[j].due) m[j].on=0; int b=fires; inproc=1; M_event_lock(&EV); M_event_timer_process(&EV); M_event_unlock(&EV); inproc=0; int pend=0; for(int j=0;j<NT;j++) if(m[j].alive&&m[j].on&&now>=m[j].due) pend=1; if(!pend) break; vp_assert_msg(fires>b,"a due timer fires"); } }
static void check(void){ M_int64 mn=-1; for(int j=0;j<NT;j++) if(m[j].alive){ vp_assert_msg(M_event_timer_get_status(m[j].t)==m[j].on,"status"); if(m[j].on){ M_int64 r=m[j].due-now; if(r<0) r=0; vp_assert_msg(M_event_timer_get_remaining_ms(m[j].t)==(M_uint64)r,"time remaining"); if(mn<0||r<mn) mn=r; } } vp_assert_msg(M_event_timer_minimum_ms(&EV)==(mn<0?M_TIMEOUT_INF:(M_uint64)mn),"time to the next timer"); vp_assert_msg(locked==0,"unlocked"); }
static void add(int i){ m[i].t=M_event_timer_add(&EV,cb,(void*)(size_t)i); m[i].alive=1; m[i].on=0; m[i].cnt=0; m[i].end=0; m[i].lim=0; m[i].mono=0; }
static void fini(void){ for(int i=0;i<NT;i++) if(m[i].alive) M_event_timer_remove(m[i].t); M_queue_destroy(EV.u.loop.timers); }
void h_ops(void){ for(int i=0;i<2;i++) add(i); action[0]=vp_pick("act",7); m[0].lim=vp_pick("lim",3); m[0].mono=vp_pick("mono",2); if(m[0].mono) M_event_timer_set_mode(m[0].t,M_EVENT_TIMER_MODE_MONOTONIC); M_event_timer_set_firecount(m[0].t,(size_t)m[0].lim); vp_assert_msg(M_event_timer_start(m[0].t,20),"started"); m_start(0,20); vp_assert_msg(M_event_timer_start(m[1].t,15),"started"); m_start(1,15); check();
 for(int s=0;s<OPS;s++){ int o=vp_pick("op",8), i=o<6?vp_pick("i",2):0; static const M_int64 D[]={15,20,65};
  if(o>=6){ now+=o==6?D[0]:D[1+(s&1)]; proc(); } else if(!m[i].alive){ if(o) vp_end(); add(i); vp_assert_msg(M_event_timer_start(m[i].t,12),"started"); m_start(i,12); }
  else switch(o){ case 0: vp_assert_msg(M_event_timer_start(m[i].t,30),"started"); m_start(i,30); break; case 1: vp_assert_msg(M_event_timer_stop(m[i].t),"stopped"); m[i].on=0; break; case 2: { int ok=m[i].iv||m[i].lim==1; vp_assert_msg(M_event_timer_reset(m[i].t,0)==ok,"reset"); if(ok) m_start(i,m[i].iv); else m[i].on=0; break; } case 3: { M_bool ok=M_event_timer_adjust(m[i].t,5); vp_assert_msg(ok==!m[i].mono,"adjust"); if(ok){ if(m[i].on&&m[i].due-now>5) m_start(i,5); else m[i].iv=5; } break; } case 4: M_event_timer_remove(m[i].t); m[i].alive=0; m[i].on=0; break;
   case 5: { M_bool ok=M_event_timer_start(m[i].t,0); vp_assert_msg(ok==(m[i].lim==1),"an interval of 0 only for a single shot"); if(ok) m_start(i,0); else { m[i].on=M_event_timer_get_status(m[i].t); m[i].iv=M_event_timer_get_interval_ms(m[i].t); if(!m[i].iv) vp_assert_msg(!m[i].on,"not left running without an interval"); } break; } }
  check(); } now+=40; proc(); check(); fini(); }
void h_start(void){ add(0); add(1); m[0].mono=vp_pick("mono",2); if(m[0].mono) M_event_timer_set_mode(m[0].t,M_EVENT_TIMER_MODE_MONOTONIC); m[0].lim=vp_pick("lim",4); M_event_timer_set_firecount(m[0].t,(size_t)m[0].lim); M_timeval_t tv; int st=vp_pick("start",3), en=vp_pick("end",3); M_event_timer_start(m[1].t,17); m_start(1,17); if(st){ tvset(&tv,now+(st==1?50:-5)); vp_assert_msg(M_event_timer_set_starttv(m[0].t,&tv),"start time"); } if(en){ tvset(&tv,now+(en==1?70:20)); m[0].end=now+(en==1?70:20); vp_assert_msg(M_event_timer_set_endtv(m[0].t,&tv),"end time"); } vp_assert_msg(M_event_timer_start(m[0].t,10),"started"); m_start(0,10); if(st) m[0].due=now+(st==1?50:0); action[1]=vp_pick("a",2)?6:0; int again=vp_pick("again",2); if(again){ tvset(&tv,now+90); action[0]=3; M_event_timer_set_starttv(m[0].t,&tv); vp_assert_msg(M_event_timer_start(m[0].t,10),"restarted"); m_start(0,10); m[0].due=now+90; }
 for(int s=0;s<8;s++){ now+=7+6*(M_int64)vp_pick("d",2); proc(); check(); } fini(); }
void h_sym(void){ NT=3; for(int i=0;i<3;i++) add(i); int sy=vp_pick("sym",3); for(int i=0;i<3;i++){ static const M_int64 IV[]={300,300,1700}; M_int64 iv=i==sy?1+(M_int64)vp_below("iv",IVMAX):IV[i]; m[i].lim=1; M_event_timer_set_firecount(m[i].t,1); vp_assert_msg(M_event_timer_start(m[i].t,(M_uint64)iv),"started"); m_start(i,iv); } static const M_int64 DD[]={1,299,300,301,1700,4000}; now+=DD[vp_pick("d",6)]; int b=fires; proc(); if(fires-b==2) vp_reach("two"); for(int i=0;i<3;i++) vp_assert_msg(m[i].on==(m[i].due>now),"exactly the due timers fired"); fini(); }
