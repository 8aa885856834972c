//@mods base thread/m_thread_rwlock_emu.c
//@env env_time,env_tsan
//@tsan thread/m_thread_rwlock_emu.c
//@bounds three threads (and four with one operation each), each locking and unlocking once or twice for reading or writing in every combination; every interleaving of the lock's mutex and condition operations and, within PB preemptions, of every shared access of the lock's code; every choice of the waiter a signal wakes; spurious wake-ups
//@outside more than four threads; recursive locking; destroying a lock in use
//@stubs mutex and condition variable primitives are replaced by their textbook semantics over the engine's scheduler
//@H h_two q:PB=3 t:PB=6 jobs=8 reach=done,shared
//@H h_three q:PB=2 t:PB=4 jobs=8 reach=done,shared
//@H h_four q:PB=1 t:PB=2 jobs=8 reach=done
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_thread.h>
#include "thread/m_thread_int.h"
#ifndef PB
#define PB 2
#endif
extern int vp_tsan_on;
typedef struct { int held; } MX; typedef struct { int waiting; } CV;
static int spurious;
M_thread_mutex_t *vpstub_M_thread_mutex_create(M_uint32 a){ (void)a; return M_malloc_zero(sizeof(MX)); }
void vpstub_M_thread_mutex_destroy(M_thread_mutex_t *m){ if(m) vp_assert_msg(!((MX*)m)->held,"destroyed mutex is free"); M_free(m); }
M_bool vpstub_M_thread_mutex_lock(M_thread_mutex_t *m){ MX *x=(MX*)m; vp_yield(); while(x->held) vp_block((M_uint64)(size_t)x&0xffffffffffull); x->held=1+(int)vp_self(); return M_TRUE; }
M_bool vpstub_M_thread_mutex_unlock(M_thread_mutex_t *m){ MX *x=(MX*)m; vp_assert_msg(x->held==1+(int)vp_self(),"mutex is unlocked by its holder"); x->held=0; vp_wake((M_uint64)(size_t)x&0xffffffffffull,99); return M_TRUE; }
M_thread_cond_t *vpstub_M_thread_cond_create(M_uint32 a){ (void)a; return M_malloc_zero(sizeof(CV)); }
void vpstub_M_thread_cond_destroy(M_thread_cond_t *c){ M_free(c); }
static int sleeping[8]; static void *cvof[8];
M_bool vpstub_M_thread_cond_wait(M_thread_cond_t *c, M_thread_mutex_t *m){ int me=(int)vp_self(); sleeping[me]=1; cvof[me]=c; vpstub_M_thread_mutex_unlock(m); if(spurious){ spurious--; sleeping[me]=0; vp_yield(); } else while(sleeping[me]) vp_block(0x7000+(M_uint64)me); vpstub_M_thread_mutex_lock(m); return M_TRUE; }
void vpstub_M_thread_cond_broadcast(M_thread_cond_t *c){ for(int i=0;i<8;i++) if(sleeping[i]&&cvof[i]==(void*)c){ sleeping[i]=0; vp_wake(0x7000+(M_uint64)i,1); } }
void vpstub_M_thread_cond_signal(M_thread_cond_t *c){ int n=0, w[8]; for(int i=0;i<8;i++) if(sleeping[i]&&cvof[i]==(void*)c) w[n++]=i; if(!n) return; int k=n>1?(int)vp_pick("wake",n):0; sleeping[w[k]]=0; vp_wake(0x7000+(M_uint64)w[k],1); }
static M_thread_rwlock_t *L; static int rd, wr, op[4][2], nop, tot;
static void *work(void *p){ int t=(int)(size_t)p; for(int i=0;i<nop;i++){ int o=op[t][i]; if(o==2) continue; vp_assert_msg(M_thread_rwlock_emu_lock(L,o?M_THREAD_RWLOCK_TYPE_WRITE:M_THREAD_RWLOCK_TYPE_READ),"locked"); if(o){ vp_assert_msg(rd==0&&wr==0,"a writer is alone"); wr++; } else { vp_assert_msg(wr==0,"no writer beside a reader"); rd++; if(rd>1) vp_reach("shared"); } vp_yield(); if(o) wr--; else rd--; tot++; vp_assert_msg(M_thread_rwlock_emu_unlock(L),"unlocked"); } return NULL; }
static int sp; static void go(int nt, int no){ nop=no; int want=0; for(int t=0;t<nt;t++) for(int i=0;i<no;i++){ op[t][i]=(int)vp_below("op",i?3:2); if(op[t][i]!=2) want++; } spurious=sp; L=M_thread_rwlock_emu_create(); vp_sched_bound(PB); M_uint64 h[4]; vp_tsan_on=1; for(int t=1;t<nt;t++) h[t]=vp_thread_spawn(work,(void*)(size_t)t); work((void*)0); for(int t=1;t<nt;t++) vp_block(0xfffffff000000000ull+h[t]); vp_tsan_on=0; vp_assert_msg(tot==want,"every thread got the lock"); M_thread_rwlock_emu_destroy(L); vp_reach("done"); }
void h_two(void){ go(2,2); }
void h_three(void){ sp=vp_pick("spurious",2); go(3,1); }
void h_four(void){ go(4,1); }
