/* Native side of vp.h: replays recorded inputs. Built with ASan together with the code under test. */
#include "vp.h"
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <ucontext.h>
#define NT 16
static char rn[512][128]; static uint64_t rv[512]; static int rc,ri; static long live; static int done_flag;
static int lenient;
static void finish(int code,const char*what,const char*m){ printf("%s %s\n",what,m); fflush(stdout); _exit(code); }
static uint64_t take(const char*name){ if(ri>=rc) { if(lenient) { ri++; return 0; } finish(8,"VPDESYNC","inputs exhausted"); } (void)name; return rv[ri++]; }
uint64_t vp_sym(const char*n,uint64_t b){ uint64_t v=take(n); return b<64?v&((1ull<<b)-1):v; }
void vp_sym_bytes(void*p,uint64_t n,const char*nm){ uint64_t i; for(i=0;i<n;i++) ((unsigned char*)p)[i]=(unsigned char)take(nm); }
void vp_assume(int c){ if(!c) finish(7,"VPASSUME","assumption false"); }
void vp_assert_(int c,const char*m){ if(!c) finish(10,"VPFAIL",m); }
void vp_fail_(const char*m){ finish(10,"VPFAIL",m); }
void vp_reach(const char*t){ printf("VPREACH %s\n",t); }
void vp_known_(const char*t){ finish(11,"VPKNOWN",t); }
uint64_t vp_conc(uint64_t v){ return v; }
uint64_t vp_heap_live(void){ return (uint64_t)live; }
void vp_end(void){ finish(0,"VPDONE",""); }
void vp_readable(const void*p,uint64_t n){ const volatile unsigned char*c=p; uint64_t i; for(i=0;i<n;i++) (void)c[i]; }
extern size_t malloc_usable_size(void*);
uint64_t vp_obj_size(const void*p){ return malloc_usable_size((void*)p); }
void*vporig_malloc(size_t n); void vporig_free(void*); void*vporig_realloc(void*,size_t); void*vporig_calloc(size_t,size_t);
__attribute__((weak)) void*vpstub_malloc(size_t n){ void*p; if(n>(1u<<26)) return NULL; p=vporig_malloc(n); if(p){ memset(p,0xCB,n); live++; } return p; }
__attribute__((weak)) void*vpstub_calloc(size_t a,size_t b){ void*p; if(a*b>(1u<<26)) return NULL; p=vporig_calloc(a,b); if(p) live++; return p; }
__attribute__((weak)) void*vpstub_realloc(void*o,size_t n){ void*p=vporig_realloc(o,n); if(!o) live++; return p; }
__attribute__((weak)) void vpstub_free(void*p){ if(p) live--; vporig_free(p); }
void*vp_malloc(uint64_t n){ return vpstub_malloc(n); }
void vp_free(void*p){ vpstub_free(p); }
/* cooperative threads */
static struct { ucontext_t c; int st; uint64_t wait; void*(*fn)(void*); void*arg; } T[NT]; static int nt=1,cur; static int bound=-1,preempt;
static void pick(int self_ok){
  int run[NT],n=0,i,old=cur,ch=0; int me=self_ok&&T[cur].st==0;
  if(me) run[n++]=cur; for(i=0;i<nt;i++) if(T[i].st==0&&!(me&&i==cur)) run[n++]=i;
  if(!n) finish(12,"VPDEADLOCK","no thread can run");
  if(me&&bound>=0&&preempt>=bound) return;
  if(n>1){ ch=(int)take("sched"); if(ch>=n) finish(8,"VPDESYNC","sched"); if(me&&ch) preempt++; }
  cur=run[ch]; if(cur!=old) swapcontext(&T[old].c,&T[cur].c); }
static void tmain(void){ int i; T[cur].fn(T[cur].arg); T[cur].st=2; for(i=0;i<nt;i++) if(T[i].st==1&&T[i].wait==0xfffffff000000000ull+(uint64_t)cur) T[i].st=0; pick(0); }
uint64_t vp_thread_spawn(void*(*fn)(void*),void*arg){ int i=nt++; if(i>=NT) finish(8,"VPDESYNC","threads"); getcontext(&T[i].c); T[i].c.uc_stack.ss_sp=vporig_malloc(1<<20); T[i].c.uc_stack.ss_size=1<<20; T[i].fn=fn; T[i].arg=arg; T[i].st=0; makecontext(&T[i].c,tmain,0); return (uint64_t)i; }
void vp_yield(void){ pick(1); }
void vp_block(uint64_t key){ if((key>>36)==0xfffffff&&T[key&0xff].st==2) return; T[cur].st=1; T[cur].wait=key; pick(0); }
void vp_wake(uint64_t key,uint64_t n){ int i; for(i=0;i<nt&&n;i++) if(T[i].st==1&&T[i].wait==key){ T[i].st=0; n--; } }
uint64_t vp_self(void){ return (uint64_t)cur; }
void vp_sched_bound(uint64_t k){ bound=(int)k; }
void vp_entry(void);
int main(int argc,char**argv){ FILE*f=argc>1?fopen(argv[1],"r"):NULL; unsigned w; unsigned long long v; setvbuf(stdout,NULL,_IOLBF,0); lenient=argc>2;
  while(f&&rc<512&&fscanf(f," %127s %u %llx",rn[rc],&w,&v)==3) rv[rc++]=v; vp_entry(); finish(0,"VPDONE",""); return 0; }
