//@mods base thread/m_atomic.c
//@env env_tsan
//@tsan thread/m_atomic.c
//@bounds every value and operand of each 32 and 64 bit operation; two threads with two operations each and three threads with one operation each on one counter, every interleaving at every shared access
//@outside weaker memory orders than sequential consistency; the implementations for other compilers and platforms
//@stubs threads are scheduled by the engine, with a switch possible before every shared access of m_atomic.c
//@H h_val reach=add,cas,nocas
//@H h_two jobs=8 reach=done
//@H h_three jobs=8 reach=done
//@H h_cas jobs=8 reach=done
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_thread.h>
extern int vp_tsan_on;
void h_val(void){ M_uint32 a=vp_u32("a"), b=vp_u32("b"), x=a; M_uint64 c=vp_u64("c"), d=vp_u64("d"), y=c; switch(vp_pick("op",12)){
	case 0: vp_assert(M_atomic_add_u32(&x,b)==a); vp_assert(x==(M_uint32)(a+b)); vp_reach("add"); break; case 1: vp_assert(M_atomic_sub_u32(&x,b)==a); vp_assert(x==(M_uint32)(a-b)); break;
	case 2: vp_assert(M_atomic_inc_u32(&x)==a); vp_assert(x==(M_uint32)(a+1)); break; case 3: vp_assert(M_atomic_dec_u32(&x)==a); vp_assert(x==(M_uint32)(a-1)); break;
	case 4: vp_assert(M_atomic_add_u64(&y,d)==c); vp_assert(y==c+d); break; case 5: vp_assert(M_atomic_sub_u64(&y,d)==c); vp_assert(y==c-d); break; case 6: vp_assert(M_atomic_inc_u64(&y)==c); vp_assert(y==c+1); break; case 7: vp_assert(M_atomic_dec_u64(&y)==c); vp_assert(y==c-1); break;
	case 8: { M_uint32 e=vp_u32("e"); M_bool r=M_atomic_cas32(&x,e,b); if(a==e){ vp_assert(r==M_TRUE&&x==b); vp_reach("cas"); } else { vp_assert(r==M_FALSE&&x==a); vp_reach("nocas"); } break; }
	case 9: { M_uint64 e=vp_u64("e"); M_bool r=M_atomic_cas64(&y,e,d); if(c==e) vp_assert(r==M_TRUE&&y==d); else vp_assert(r==M_FALSE&&y==c); break; }
	case 10: { M_uint32 g[3]={1,a,2}; M_atomic_add_u32(&g[1],b); vp_assert(g[0]==1&&g[2]==2); break; } default: { M_uint64 g[3]={1,c,2}; M_atomic_add_u64(&g[1],d); vp_assert(g[0]==1&&g[2]==2); } } }
static M_uint32 v32; static M_uint64 v64; static int wide, op[3][2], nop; static M_uint64 prior[3][2];
static M_uint64 one(int o){ if(wide) switch(o){ case 0: return M_atomic_inc_u64(&v64); case 1: return M_atomic_dec_u64(&v64); case 2: return M_atomic_add_u64(&v64,16); default: return M_atomic_sub_u64(&v64,256); } switch(o){ case 0: return M_atomic_inc_u32(&v32); case 1: return M_atomic_dec_u32(&v32); case 2: return M_atomic_add_u32(&v32,16); default: return M_atomic_sub_u32(&v32,256); } }
static const int dl[4]={1,-1,16,-256};
static void *work(void *p){ int t=(int)(size_t)p; for(int i=0;i<nop;i++) prior[t][i]=one(op[t][i]); return NULL; }
/* some order of the operations, keeping each thread's own, gives every returned value */
static int hist(int nt, int *pos, M_uint64 cur){ int left=0; for(int t=0;t<nt;t++) if(pos[t]<nop){ left=1; if(prior[t][pos[t]]==cur){ M_int64 d=dl[op[t][pos[t]]]; pos[t]++; int r=hist(nt,pos,wide?cur+(M_uint64)d:(M_uint32)(cur+(M_uint64)d)); pos[t]--; if(r) return 1; } } return !left; }
static void check(int nt, M_uint64 start){ int tot=0, pos[3]={0}; for(int t=0;t<nt;t++) for(int i=0;i<nop;i++) tot+=dl[op[t][i]]; M_uint64 fin=wide?v64:v32, want=start+(M_uint64)(M_int64)tot; vp_assert_msg(fin==(wide?want:(M_uint32)want),"no update is lost"); vp_assert_msg(hist(nt,pos,start),"each operation returns the value it changed"); }
static void go(int nt, int no){ wide=vp_pick("wide",2); nop=no; M_uint64 start=vp_pick("st",2)?(wide?~0ull:0xFFFFFFFFull):1000; v32=(M_uint32)start; v64=start; for(int t=0;t<nt;t++) for(int i=0;i<no;i++) op[t][i]=t==0&&i==0?0:vp_pick("op",4); M_uint64 h[3]; vp_tsan_on=1; for(int t=1;t<nt;t++) h[t]=vp_thread_spawn(work,(void*)(size_t)t); work((void*)0); for(int t=1;t<nt;t++) vp_block(0xfffffff000000000ull+h[t]); vp_tsan_on=0; check(nt,start); vp_reach("done"); }
void h_two(void){ go(2,2); }
void h_three(void){ go(3,1); }
static int won[3]; static void *cw(void *p){ int t=(int)(size_t)p; won[t]=wide?M_atomic_cas64(&v64,5,10+(M_uint64)t):M_atomic_cas32(&v32,5,10+(M_uint32)t); return NULL; }
void h_cas(void){ wide=vp_pick("wide",2); int st=vp_pick("st",2)?5:6; v32=(M_uint32)st; v64=(M_uint64)st; vp_tsan_on=1; M_uint64 a=vp_thread_spawn(cw,(void*)1), b=vp_thread_spawn(cw,(void*)2); cw((void*)0); vp_block(0xfffffff000000000ull+a); vp_block(0xfffffff000000000ull+b); vp_tsan_on=0; int s=won[0]+won[1]+won[2]; M_uint64 v=wide?v64:v32; vp_assert_msg(s==(st==5),"exactly one swap succeeds"); if(st==5) vp_assert_msg(v>=10&&v<13&&won[v-10],"and its value is stored"); else vp_assert_msg(v==6,"unchanged"); vp_reach("done"); }
