//@mods base
//@env env_time
//@bounds three states (with and without a cleanup machine and a list of allowed next ids) under eight flag combinations, every sequence of up to L state calls where each call returns any status and any next id (default, each state, an unknown one), cleanups that wait once or fail, resets with every reason while waiting, and a second run after the end; a sub machine with pre and post callbacks of any outcome; interleaved sub machines of every outcome over up to R rounds; descriptors and traces while active
//@outside default status of a pre callback that sets none; interleaved sub machines left waiting when another one aborts them; pausing onto an unknown id
//@H h_run q:L=2,FL=8 t:L=3,FL=8 jobs=8 reach=wait,pause,err,done,cleanup
//@H h_run q:L=3,FL=1 t:L=4,FL=1 jobs=8 reach=wait,pause,err,done
//@H h_reset q:L=2 t:L=3 jobs=8 reach=reset
//@H h_sub q:L=4 t:L=5 jobs=8 reach=sub,skip,post
//@H h_inter q:L=5 t:L=7 jobs=8 reach=end,round
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef L
#define L 2
#endif
#ifndef FL
#define FL 1
#endif
typedef M_state_machine_status_t st; typedef struct { int id; st s; M_uint64 next; } ev;
#define S_(x) M_STATE_MACHINE_STATUS_##x
static ev E[64]; static int ne, ncall, lim, nounk; static int CE[64], CR[64], CS[64], nc, cw;
static const st ALL[7]={S_(NEXT),S_(PREV),S_(CONTINUE),S_(PAUSE),S_(WAIT),S_(DONE),S_(ERROR_STATE)};
static st state(int id, M_uint64 *next){ st s; unsigned nx; vp_assert(ne<64); E[ne].id=id; if(ncall>=lim) s=ncall%2?S_(DONE):S_(ERROR_STATE); else s=ALL[vp_pick("s",7)]; ncall++; E[ne].next=*next; if(s==S_(NEXT)||s==S_(CONTINUE)||s==S_(PAUSE)){ nx=(unsigned)vp_pick("nx",nounk||s==S_(PAUSE)?4:5); if(nx) *next=nx==4?9:nx; E[ne].next=*next; } E[ne].s=s; ne++; return s; }
static st s1(void *d, M_uint64 *n){ (void)d; return state(1,n); }
static st s2(void *d, M_uint64 *n){ (void)d; return state(2,n); }
static st s3(void *d, M_uint64 *n){ (void)d; return state(3,n); }
static st cl(int id, M_state_machine_cleanup_reason_t r){ vp_assert(nc<64); CE[nc]=id; CR[nc]=(int)r; CS[nc]=cw&&nc<2?(int)vp_pick("cs",3):0; nc++; return CS[nc-1]==1?S_(WAIT):CS[nc-1]==2?S_(ERROR_STATE):S_(DONE); }
static st c1(void *d, M_state_machine_cleanup_reason_t r, M_uint64 *n){ (void)d; (void)n; return cl(1,r); }
static st c3(void *d, M_state_machine_cleanup_reason_t r, M_uint64 *n){ (void)d; (void)n; return cl(3,r); }
static M_state_machine_cleanup_t *mkc(M_state_machine_cleanup_cb f){ M_state_machine_cleanup_t *c=M_state_machine_cleanup_create(7,"clean",M_STATE_MACHINE_NONE); vp_assert(M_state_machine_cleanup_insert_state(c,1,0,"c",f,NULL,NULL)); return c; }
static int useallow;
static M_state_machine_t *mk(M_uint32 fl){ M_state_machine_t *m=M_state_machine_create(5,"M",fl); M_state_machine_cleanup_t *a=mkc(c1), *c=mkc(c3); M_list_u64_t *al=NULL; if(useallow){ al=M_list_u64_create(M_LIST_U64_NONE); M_list_u64_insert(al,1); M_list_u64_insert(al,3); } vp_assert(M_state_machine_insert_state(m,1,11,"one",s1,a,NULL)&&M_state_machine_insert_state(m,2,12,"two",s2,NULL,al)&&M_state_machine_insert_state(m,3,13,"three",s3,c,NULL)&&!M_state_machine_insert_state(m,3,0,NULL,s3,NULL,NULL)&&!M_state_machine_insert_state(m,0,0,NULL,s3,NULL,NULL)); M_state_machine_cleanup_destroy(a); M_state_machine_cleanup_destroy(c); vp_assert(M_state_machine_has_state(m,3)&&!M_state_machine_has_state(m,9)); return m; }
/* reference machine */
static int running, cur, prv[64], np, cleaning, todo[64], nt, pe, pc, seen[4]; static M_uint64 con[64]; static int ncon; static st rst; static M_state_machine_cleanup_reason_t rsn;
static st ref(M_uint32 fl){ int i;
	if(!running){ running=1; cur=1; np=nt=ncon=0; cleaning=0; for(i=0;i<4;i++) seen[i]=0; }
	while(!cleaning){ ev *e; int lin; if(cur<1||cur>3){ cleaning=1; rst=S_(ERROR_BAD_ID); rsn=M_STATE_MACHINE_CLEANUP_REASON_ERROR; break; } vp_assert_msg(pe<ne,"state was run"); e=&E[pe++]; vp_assert_msg(e->id==cur,"states run in order"); lin=fl&M_STATE_MACHINE_EXPLICIT_NEXT||cur==3?0:cur+1; if(e->s==S_(PREV)||e->s==S_(WAIT)||e->s==S_(DONE)||e->s==S_(ERROR_STATE)) vp_assert_msg(e->next==(M_uint64)lin,"default next"); if(e->s!=S_(WAIT)&&e->s!=S_(CONTINUE)) todo[nt++]=cur;
	switch(e->s){ case S_(WAIT): ncon=0; vp_reach("wait"); return S_(WAIT);
	case S_(PREV): if(!np){ cleaning=1; rst=S_(ERROR_NO_PREV); rsn=M_STATE_MACHINE_CLEANUP_REASON_ERROR; break; } cur=prv[--np]; break;
	case S_(DONE): case S_(ERROR_STATE): if(e->s==S_(DONE)&&!(fl&M_STATE_MACHINE_DONE_CLEANUP)){ running=0; vp_reach("done"); return S_(DONE); } cleaning=1; rst=e->s; rsn=e->s==S_(DONE)?M_STATE_MACHINE_CLEANUP_REASON_DONE:M_STATE_MACHINE_CLEANUP_REASON_ERROR; break;
	default: { M_uint64 nx=e->next; st er=0; if(!nx){ if(fl&M_STATE_MACHINE_LINEAR_END&&!(fl&M_STATE_MACHINE_EXPLICIT_NEXT)){ if(!(fl&M_STATE_MACHINE_DONE_CLEANUP)){ running=0; return S_(DONE); } cleaning=1; rst=S_(DONE); rsn=M_STATE_MACHINE_CLEANUP_REASON_DONE; break; } er=S_(ERROR_NO_NEXT); }
		else if(useallow&&cur==2&&nx!=1&&nx!=3) er=S_(ERROR_BAD_NEXT); else { if(e->s==S_(CONTINUE)){ for(i=0;i<ncon;i++) if(con[i]==nx&&!(fl&M_STATE_MACHINE_CONTINUE_LOOP)) er=S_(ERROR_INF_CONT); con[ncon++]=nx; } else { if(fl&M_STATE_MACHINE_SINGLE_PREV) np=0; prv[np++]=cur; ncon=0; } if(!er&&nx==(M_uint64)cur&&!(fl&M_STATE_MACHINE_SELF_CALL)) er=S_(ERROR_SELF_NEXT); }
		if(er){ cleaning=1; rst=er; rsn=M_STATE_MACHINE_CLEANUP_REASON_ERROR; vp_reach("err"); break; } cur=(int)nx; if(e->s==S_(PAUSE)){ vp_reach("pause"); return S_(PAUSE); } } } }
	while(nt){ int id=todo[nt-1]; if(id==2||(fl&M_STATE_MACHINE_ONE_CLEANUP&&seen[id])){ nt--; continue; } vp_assert_msg(pc<nc,"cleanup was run"); vp_assert_msg(CE[pc]==id,"cleanups run in reverse order"); vp_assert_msg(CR[pc]==(int)rsn,"cleanup reason"); vp_reach("cleanup"); if(CS[pc++]==1) return S_(WAIT); nt--; seen[id]=1; }
	running=0; return rst; }
static void act(M_state_machine_t *m){ M_uint64 id=77; vp_assert_msg(M_state_machine_active_state(m,&id)==running,"active"); if(!running) vp_assert(id==0); if(running&&!cleaning&&cur>=1&&cur<=3){ static const char *D[3]={"one","two","three"}; char *f; vp_assert_msg(id==(M_uint64)cur,"active state"); vp_assert(M_state_machine_active_state_ndescr(m,M_TRUE)==10u+(unsigned)cur&&M_str_eq(M_state_machine_active_state_descr(m,M_TRUE),D[cur-1])&&M_state_machine_ndescr(m,M_TRUE)==5&&M_str_eq(M_state_machine_descr(m,M_TRUE),"M")); f=M_state_machine_descr_full(m,M_FALSE); vp_assert_msg(M_str_eq(f,cur==1?"[M] M -> [S] one":cur==2?"[M] M -> [S] two":"[M] M -> [S] three"),"full description"); M_free(f); } }
static const M_uint32 FLAGS[8]={0,M_STATE_MACHINE_SINGLE_PREV|M_STATE_MACHINE_DONE_CLEANUP,M_STATE_MACHINE_CONTINUE_LOOP|M_STATE_MACHINE_ONE_CLEANUP,M_STATE_MACHINE_SELF_CALL|M_STATE_MACHINE_LINEAR_END,M_STATE_MACHINE_DONE_CLEANUP|M_STATE_MACHINE_ONE_CLEANUP|M_STATE_MACHINE_SELF_CALL,M_STATE_MACHINE_EXPLICIT_NEXT|M_STATE_MACHINE_LINEAR_END,M_STATE_MACHINE_LINEAR_END|M_STATE_MACHINE_DONE_CLEANUP,M_STATE_MACHINE_ONE_CLEANUP|M_STATE_MACHINE_SELF_CALL};
static void warm(void){ M_hash_u64vp_t *h=M_hash_u64vp_create(8,75,M_HASH_U64VP_NONE,NULL); M_hash_u64vp_destroy(h,M_FALSE); }
static void go(M_state_machine_t *m, M_uint32 fl, int rounds){ int r; for(r=0;r<rounds;r++){ st a=M_state_machine_run(m,NULL), b=ref(fl); vp_assert_msg(a==b,"status of run"); vp_assert_msg(pe==ne&&pc==nc,"nothing else ran"); act(m); if(!running) return; } }
void h_run(void){ M_state_machine_t *m, *d; M_uint32 fl; M_uint64 live; warm(); live=vp_heap_live(); lim=L; fl=FL>1?FLAGS[vp_pick("fl",FL)]:(nounk=1,(M_uint32)(M_STATE_MACHINE_SELF_CALL)); useallow=FL>1?(int)vp_pick("allow",2):0; cw=FL>1; m=mk(fl); if(vp_pick("dup",2)){ d=M_state_machine_duplicate(m); M_state_machine_destroy(m); m=d; } go(m,fl,L+4); vp_assert_msg(!running,"ends"); if(FL==1&&vp_pick("again",2)){ go(m,fl,2); } M_state_machine_destroy(m); vp_assert_msg(vp_heap_live()==live,"nothing leaks"); }
void h_reset(void){ M_state_machine_t *m; M_uint32 fl=FLAGS[vp_pick("fl",3)]; M_state_machine_cleanup_reason_t r=(M_state_machine_cleanup_reason_t)vp_pick("r",5); M_uint64 live; warm(); live=vp_heap_live(); lim=L; nounk=1; cw=1; m=mk(fl); go(m,fl,1); M_state_machine_reset(m,r); if(running){ vp_reach("reset"); if(r==M_STATE_MACHINE_CLEANUP_REASON_NONE){ running=0; cleaning=0; nt=0; vp_assert(!M_state_machine_active_state(m,NULL)); } else { if(cleaning&&nt){ seen[todo[--nt]]=1; /* a waiting cleanup is cancelled */ } cleaning=1; rsn=r; rst=S_(DONE); } } go(m,fl,L+3); M_state_machine_destroy(m); vp_assert(vp_heap_live()==live); }
/* sub machine: parent states 1, 2 (sub machine a, b), 3 */
static char T[64]; static int nT, sc; static void ad(char c){ vp_assert(nT<63); T[nT++]=c; T[nT]=0; }
static st pick(const st *v, unsigned n){ if(sc>=L) return S_(NEXT); sc++; return v[vp_pick("s",n)]; }
static const st V4[4]={S_(NEXT),S_(WAIT),S_(PAUSE),S_(ERROR_STATE)}; static st last; static int ranpre, runsub; static st prest; static M_uint64 prenx;
static st p1(void *d, M_uint64 *n){ (void)d; (void)n; ad('1'); return S_(NEXT); }
static st p3(void *d, M_uint64 *n){ (void)d; (void)n; ad('3'); return S_(DONE); }
static st sa(void *d, M_uint64 *n){ (void)d; (void)n; ad('a'); return last=pick(V4,4); }
static st sb(void *d, M_uint64 *n){ (void)d; (void)n; ad('b'); return last=pick(V4,4); }
static M_bool pre(void *d, st *s, M_uint64 *n){ (void)d; ad('<'); ranpre=1; runsub=(int)vp_pick("runsub",2); if(!runsub){ vp_reach("skip"); prest=*s=vp_pick("ps",2)?S_(NEXT):S_(DONE); prenx=*n; vp_assert_msg(*n==3,"linear next offered"); if(prest==S_(NEXT)&&!sc&&vp_pick("pn",2)){ prenx=*n=1; sc=L; } } return runsub; }
static st postst; static int subres; static st post(void *d, st s, M_uint64 *n){ (void)d; vp_assert(*n==3); ad('>'); vp_reach("post"); subres=(int)s; postst=vp_pick("post",2)?s==S_(DONE)?S_(NEXT):s:S_(NEXT); return postst; }
static st csub(void *d, M_state_machine_cleanup_reason_t r, M_uint64 *n){ (void)d; (void)n; vp_assert(r==M_STATE_MACHINE_CLEANUP_REASON_ERROR); ad('c'); return S_(DONE); }
void h_sub(void){ M_state_machine_t *m, *s; M_state_machine_cleanup_t *c; int hp, hq, r, w; char X[64]; int nx=0; st a; M_uint64 live; warm(); live=vp_heap_live(); hp=(int)vp_pick("pre",2); hq=(int)vp_pick("post?",2); s=M_state_machine_create(8,"S",M_STATE_MACHINE_LINEAR_END); M_state_machine_insert_state(s,1,21,"a",sa,NULL,NULL); M_state_machine_insert_state(s,2,22,"b",sb,NULL,NULL); c=mkc(csub); m=M_state_machine_create(5,"M",M_STATE_MACHINE_NONE); M_state_machine_insert_state(m,1,11,"one",p1,NULL,NULL); vp_assert(M_state_machine_insert_sub_state_machine(m,2,12,"two",s,hp?pre:NULL,hq?post:NULL,c,NULL)); M_state_machine_insert_state(m,3,13,"three",p3,NULL,NULL); M_state_machine_destroy(s); M_state_machine_cleanup_destroy(c);
	/* reference: what must follow, given the outcomes seen */
#define EXP(ch) do { vp_assert_msg(w<nT&&T[w]==(ch),"sequence"); w++; } while(0)
	w=0; runsub=1; a=M_state_machine_run(m,NULL); EXP('1'); if(hp) EXP('<'); if(hp&&w<nT&&T[w]=='1'){ EXP('1'); EXP('<'); } if(!runsub){ /* skipped: the status and next of pre apply */ if(prest==S_(DONE)){ vp_assert(a==S_(DONE)&&w==nT); goto out; } EXP('3'); vp_assert(a==S_(DONE)&&w==nT); goto out; }
	vp_reach("sub"); { int at='a'; (void)X; (void)nx; for(r=0;r<L+4;r++){ st fin=0; while(1){ st z; int more; EXP(at); more=w<nT; /* outcome of this state: known only for the last one run, otherwise it was NEXT */ z=more&&(T[w]=='a'||T[w]=='b')?S_(NEXT):last; if(z==S_(NEXT)){ if(at=='a'){ at='b'; continue; } fin=S_(DONE); break; } if(z==S_(WAIT)||(z==S_(PAUSE)&&at=='a')){ vp_assert_msg(a==z,"wait goes up"); vp_assert(w==nT); vp_assert(M_state_machine_active_sub(m,M_TRUE)!=NULL&&M_str_eq(M_state_machine_descr(m,M_TRUE),"S")); if(z==S_(PAUSE)) at='b'; vp_assert(M_state_machine_active_state_ndescr(m,M_TRUE)==(at=='a'?21u:22u)); { M_uint64 id=0; M_state_machine_active_state(m,&id); vp_assert(id==2); } break; } fin=z==S_(PAUSE)?S_(DONE):S_(ERROR_STATE); break; }
		if(!fin){ a=M_state_machine_run(m,NULL); continue; }
		{ st ps=fin; if(hq){ EXP('>'); vp_assert_msg(subres==(int)fin,"status of the sub machine"); ps=postst; } else if(fin==S_(DONE)) ps=S_(NEXT); if(ps==S_(NEXT)){ EXP('3'); vp_assert(a==S_(DONE)&&w==nT); } else { EXP('c'); vp_assert_msg(a==ps&&w==nT,"error of the sub machine"); } } break; } vp_assert(r<L+4); }
out: M_state_machine_destroy(m); vp_assert(vp_heap_live()==live); }
/* interleaved: two machines of one state each, any outcome per round */
static int ires[2], icnt[2], rnd; static const st V3[3]={S_(WAIT),S_(DONE),S_(ERROR_STATE)};
static st is(int i){ vp_assert_msg(ires[i]==0,"a finished machine is not run again"); vp_assert_msg(icnt[i]==rnd-1,"each machine runs once per round"); icnt[i]++; { st s=sc>=L?S_(DONE):(sc++,V3[vp_pick("i",3)]); if(s!=S_(WAIT)) ires[i]=(int)s; return s; } }
static st ia(void *d, M_uint64 *n){ (void)d; (void)n; return is(0); }
static st ib(void *d, M_uint64 *n){ (void)d; (void)n; return is(1); }
static int ipost; static st iposts(void *d, st s, M_uint64 *n){ (void)d; (void)n; ipost++; subres=(int)s; return s==S_(DONE)?S_(NEXT):s; }
static int tr_exit; static st tr_st; static void trace(M_state_machine_trace_t t, M_uint64 mn, const char *md, M_uint64 sn, const char *sd, const char *fd, M_uint64 id, st s, M_bool rs, M_uint64 ni, void *th){ (void)md; (void)sn; (void)sd; (void)fd; (void)id; (void)rs; (void)ni; (void)th; if(t==M_STATE_MACHINE_TRACE_MACHINEEXIT&&mn==5){ tr_exit++; tr_st=s; } }
void h_inter(void){ M_state_machine_t *m, *s; int na=(int)vp_pick("noabort",2), first; st a; M_uint64 live; warm(); live=vp_heap_live(); m=M_state_machine_create(5,"M",na?M_STATE_MACHINE_INTERNOABORT:M_STATE_MACHINE_NONE); vp_assert(M_state_machine_insert_state_interleaved(m,1,0,"i",NULL,iposts,NULL,NULL)); s=M_state_machine_create(0,"A",M_STATE_MACHINE_NONE); M_state_machine_insert_state(s,1,0,"a",ia,NULL,NULL); vp_assert(M_state_machine_insert_sub_state_machine_interleaved(m,1,s)&&!M_state_machine_insert_sub_state_machine_interleaved(m,9,s)); M_state_machine_destroy(s); s=M_state_machine_create(0,"B",M_STATE_MACHINE_NONE); M_state_machine_insert_state(s,1,0,"b",ib,NULL,NULL); M_state_machine_insert_sub_state_machine_interleaved(m,1,s); M_state_machine_destroy(s); M_state_machine_insert_state(m,3,13,"three",p3,NULL,NULL); M_state_machine_enable_trace(m,trace,NULL);
	for(rnd=1;rnd<=L+2;rnd++){ int e0, e1, fin; a=M_state_machine_run(m,NULL); vp_assert_msg(tr_exit==rnd&&tr_st==a,"exit trace carries the status"); e0=ires[0]==(int)S_(ERROR_STATE); e1=ires[1]==(int)S_(ERROR_STATE); fin=(ires[0]&&ires[1])||(!na&&(e0||e1)); if(!fin){ vp_assert_msg(a==S_(WAIT)&&!ipost,"waits for the others"); vp_assert(icnt[0]==(ires[0]?icnt[0]:rnd)&&icnt[1]==(ires[1]?icnt[1]:rnd)); vp_reach("round"); continue; } first=e0||e1; vp_assert_msg(ipost==1&&subres==(int)(first?S_(ERROR_STATE):S_(DONE)),"post gets the first error or done"); vp_assert(a==(first?S_(ERROR_STATE):S_(DONE))); vp_assert((nT==1&&T[0]=='3')==!first); break; } vp_assert(rnd<=L+2); M_state_machine_destroy(m); vp_assert(vp_heap_live()==live); vp_reach("end"); }
