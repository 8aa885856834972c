//@mods base
//@env env_time
//@bounds command lines of an application name and up to 3 (thorough 4) arguments: the first of up to 4 (thorough 5) bytes over option letters, '-', '=', a digit and an unknown letter, the others from 13 shapes (values, flags, groups, long options, '--', '-'); options of all four types with required and optional values; every integer and decimal value of up to 3 symbolic characters; option definitions with every short letter and long names of up to 2 symbolic bytes
//@outside quoting by a shell; the Apple process serial number argument
//@H h_parse q:A1=4,NA=2 t:A1=5,NA=3 jobs=8 reach=ok,missing,invopt,order,nonopt,type
//@H h_long q:NA=2 t:NA=3 jobs=4 reach=ok,missing,invopt,order,type
//@H h_value q:N=3 t:N=4 jobs=4 reach=int,dec,bad
//@H h_define reach=end
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef A1
#define A1 4
#endif
#ifndef NA
#define NA 2
#endif
#ifndef N
#define N 3
#endif
typedef struct { int kind; char s; const char *l; char v[24]; int isnull; M_int64 i; size_t idx; } ev_t;
static ev_t L[24], R[24]; static size_t nl, nr; static int nonopt_ok=1; static int the_thunk;
static void cpy(char *d, const char *s){ size_t i; for(i=0;i<23&&s[i];i++) d[i]=s[i]; d[i]=0; }
static int is(const char *a, const char *b){ size_t i; for(i=0;a[i]&&a[i]==b[i];i++){} return a[i]==b[i]; }
static ev_t *nev(int k, char s, const char *l, void *t){ ev_t *e; vp_assert_msg(t==&the_thunk,"thunk"); vp_assert_msg(nl<24,"too many callbacks"); e=&L[nl++]; e->kind=k; e->s=s; e->l=l; e->v[0]=0; e->isnull=0; e->i=0; e->idx=0; return e; }
static M_bool icb(char s, const char *l, M_int64 *v, void *t){ ev_t *e=nev('i',s,l,t); if(!v) e->isnull=1; else e->i=*v; return M_TRUE; }
static M_bool dcb(char s, const char *l, M_decimal_t *v, void *t){ ev_t *e=nev('d',s,l,t); if(!v) e->isnull=1; else e->i=M_decimal_to_int(v,2); return M_TRUE; }
static M_bool scb(char s, const char *l, const char *v, void *t){ ev_t *e=nev('s',s,l,t); if(!v) e->isnull=1; else cpy(e->v,v); return M_TRUE; }
static M_bool bcb(char s, const char *l, M_bool v, void *t){ ev_t *e=nev('b',s,l,t); e->i=v; return M_TRUE; }
static M_bool ncb(size_t idx, const char *o, void *t){ ev_t *e=nev('n',0,NULL,t); e->idx=idx; cpy(e->v,o); return nonopt_ok?M_TRUE:M_FALSE; }
typedef struct { char s; const char *l; int type; int req; } opt_t;
static const opt_t O[]={ {'i',"int",'i',0},{'s',"str",'s',1},{'b',NULL,'b',0},{'B',"Bool",'b',1},{'d',"dec",'d',1},{'t',NULL,'s',0},{0,"lo-ng",'s',0} };
#define NO (sizeof(O)/sizeof(*O))
static char lc(char c){ return c>='A'&&c<='Z'?(char)(c+32):c; }
static const opt_t *fs(char c){ size_t i; for(i=0;i<NO;i++) if(O[i].s&&O[i].s==c) return &O[i]; return NULL; }
static const opt_t *fl(const char *s){ size_t i,j; for(i=0;i<NO;i++) if(O[i].l){ for(j=0;s[j]&&lc(s[j])==lc(O[i].l[j]);j++){} if(!s[j]&&!O[i].l[j]) return &O[i]; } return NULL; }
/* reference readers of numbers: whole text, optional sign, digits (with a fraction for decimals, scaled by 100) */
static int rint_(const char *s, M_int64 *v){ int neg=0; *v=0; if(*s=='-'||*s=='+'){ neg=*s=='-'; s++; } if(!*s) return 0; for(;*s;s++){ if(*s<'0'||*s>'9') return 0; *v=*v*10+(*s-'0'); } if(neg) *v=-*v; return 1; }
static int rtrue(const char *s){ static const char *T[]={"t","true","yes","y","on","1","enabled"}; size_t i,j; for(i=0;i<7;i++){ for(j=0;s[j]&&lc(s[j])==T[i][j];j++){} if(!s[j]&&!T[i][j]) return 1; } return 0; }
/* one option with its candidate value: 0 ok, else error; *used set when the value was the next argument */
static M_getopt_error_t ref_opt(const opt_t *o, const char *v, int eq, int *used){ ev_t *e; M_int64 x=0; if(!o) return M_GETOPT_ERROR_INVALIDOPT; if(o->req&&!v) return M_GETOPT_ERROR_MISSINGVALUE; if(o->type=='b'&&!o->req){ if(v&&eq) return M_GETOPT_ERROR_INVALIDDATATYPE; v=NULL; }
	if((o->type=='i')&&v&&!rint_(v,&x)) return M_GETOPT_ERROR_INVALIDDATATYPE; if(o->type=='d'&&v){ if(!rint_(v,&x)) return M_GETOPT_ERROR_INVALIDDATATYPE; x*=100; }
	if(v&&!eq) *used=1; e=&R[nr++]; e->kind=o->type; e->s=o->s; e->l=o->l; e->v[0]=0; e->isnull=v==NULL&&o->type!='b'; e->i=x; e->idx=0; if(o->type=='b') e->i=v?rtrue(v):1; if(o->type=='s'&&v) cpy(e->v,v); return M_GETOPT_ERROR_SUCCESS; }
static M_getopt_error_t ref(const char **av, int ac, int *failed){ int i, proc=1, done=0; for(i=1;i<ac;i++){ const char *a=av[i]; *failed=i;
	if(proc&&is(a,"--")){ proc=0; continue; }
	if(proc&&a[0]=='-'){ char o[24]; const char *v=NULL; int eq=0, used=0; size_t j,k,ne=0; M_getopt_error_t r; if(done) return M_GETOPT_ERROR_INVALIDORDER; if(is(a,"-")) return M_GETOPT_ERROR_INVALIDOPT; for(j=0;a[j];j++) if(a[j]=='=') ne++; cpy(o,a);
		if(ne){ for(j=0;o[j]!='=';j++){} if(ne!=1||!a[j+1]||!j) return M_GETOPT_ERROR_MISSINGVALUE; o[j]=0; v=a+j+1; eq=1; } else if(i+1<ac&&av[i+1][0]!='-') v=av[i+1];
		if(o[0]=='-'&&o[1]=='-'){ r=ref_opt(fl(o+2),v,eq,&used); if(r) return r; }
		else { size_t n=0; while(o[1+n]) n++; if(!n) return M_GETOPT_ERROR_INVALIDOPT; for(k=0;k<n;k++){ r=ref_opt(fs(o[1+k]),k+1==n?v:NULL,k+1==n?eq:0,&used); if(r) return r; } }
		if(used) i++; continue; }
	done=1; { ev_t *e=&R[nr++]; e->kind='n'; e->s=0; e->l=NULL; e->isnull=0; e->i=0; e->idx=(size_t)i; cpy(e->v,a); } if(!nonopt_ok) return M_GETOPT_ERROR_NONOPTION; }
	return M_GETOPT_ERROR_SUCCESS; }
static M_getopt_t *mk(void){ M_getopt_t *g=M_getopt_create(ncb); size_t i; for(i=0;i<NO;i++){ M_bool q=O[i].req?M_TRUE:M_FALSE, ok=M_FALSE; switch(O[i].type){ case 'i': ok=M_getopt_addinteger(g,O[i].s,O[i].l,q,"d",icb); break; case 'd': ok=M_getopt_adddecimal(g,O[i].s,O[i].l,q,NULL,dcb); break; case 's': ok=M_getopt_addstring(g,O[i].s,O[i].l,q,"d",scb); break; default: ok=M_getopt_addboolean(g,O[i].s,O[i].l,q,"d",bcb); } vp_assert_msg(ok,"option accepted"); } return g; }
static void go(const char **av, int ac){ M_getopt_t *g; const char *f=NULL; M_getopt_error_t r, e; int fi=0; size_t i; M_uint64 live; M_hash_u64vp_destroy(M_hash_u64vp_create(8,75,M_HASH_U64VP_NONE,NULL),M_FALSE); live=vp_heap_live(); g=mk();
	r=M_getopt_parse(g,(const char * const *)av,ac,&f,&the_thunk); e=ref(av,ac,&fi); M_getopt_destroy(g); vp_assert_msg(vp_heap_live()==live,"leak");
	vp_assert_msg(r==e,"result"); if(e!=M_GETOPT_ERROR_SUCCESS) vp_assert_msg(f==av[fi],"failing argument"); vp_assert_msg(nl==nr,"number of callbacks");
	for(i=0;i<nr;i++){ vp_assert_msg(L[i].kind==R[i].kind&&L[i].s==R[i].s&&L[i].isnull==R[i].isnull&&L[i].i==R[i].i&&L[i].idx==R[i].idx,"callback"); vp_assert_msg((L[i].l==NULL)==(R[i].l==NULL)&&(!L[i].l||1),"long name"); vp_assert_msg(is(L[i].v,R[i].v),"callback text"); }
	switch(e){ case M_GETOPT_ERROR_SUCCESS: vp_reach("ok"); break; case M_GETOPT_ERROR_MISSINGVALUE: vp_reach("missing"); break; case M_GETOPT_ERROR_INVALIDOPT: vp_reach("invopt"); break; case M_GETOPT_ERROR_INVALIDORDER: vp_reach("order"); break; case M_GETOPT_ERROR_NONOPTION: vp_reach("nonopt"); break; case M_GETOPT_ERROR_INVALIDDATATYPE: vp_reach("type"); break; default: break; } }
static const char *S[]={"5","x","-b","-ib","-s","--","-","-t=y","v","--int","--STR=q","-Bb","true"};
void h_parse(void){ const char *av[6]; int ac=1+(int)vp_pick("ac",NA+2), i; char a[8]; nonopt_ok=ac==3?1:!vp_pick("rej",2); av[0]="app"; if(ac>1){ M_bool plain=vp_pick("plain",2)?M_TRUE:M_FALSE; if(plain) av[1]=S[vp_pick("s1",13)]; else { char *p=vp_stra("a",A1-1,"-=sbi5z"); size_t k; a[0]='-'; for(k=0;k<A1-1&&p[k];k++) a[1+k]=p[k]; a[1+k]=0; av[1]=a; } } for(i=2;i<ac;i++) av[i]=S[vp_pick("s",13)]; go(av,ac); }
static const char *LG[]={"--int=7","--INT","--Bool","--bool=no","--dec","--lo-ng","--lo-ng=a","--str","--nope","-=x","--=x","5","-d=3","--int=7x"};
void h_long(void){ const char *av[6]; int ac=1+(int)vp_pick("ac",NA+2), i; av[0]="app"; for(i=1;i<ac;i++) av[i]=LG[vp_pick("s",14)]; go(av,ac); }
void h_value(void){ char *v=vp_stra("v",N,"0129+-.x "); M_bool dec=vp_pick("d",2)?M_TRUE:M_FALSE; char buf[16]; const char *av[3]; M_getopt_t *g; M_getopt_error_t r; size_t i,n=0; const char *f=NULL; int ok=1, dig=0, dot=0, neg=0; M_int64 x=0; int fd=0; while(v[n]) n++; av[0]="app"; buf[0]='-'; buf[1]=dec?'d':'i'; buf[2]='='; for(i=0;i<=n;i++) buf[3+i]=v[i]; av[1]=buf;
	i=0; if(i<n&&(v[i]=='-'||v[i]=='+')){ neg=v[i]=='-'; i++; } for(;i<n;i++){ if(v[i]>='0'&&v[i]<='9'){ dig++; if(!dot||fd<2){ x=x*10+(v[i]-'0'); if(dot) fd++; } } else if(dec&&v[i]=='.'&&!dot) dot=1; else ok=0; } if(!dig) ok=0; if(dec) for(;fd<2;fd++) x*=10; if(neg) x=-x;
	/* how blanks, a bare point and signs without digits are read is decided by the number readers (B06, B13): here only plainly valid and plainly invalid texts */
	{ size_t j; int odd=0; for(j=0;j<n;j++) if(v[j]==' ') odd=1; if(dot&&(v[n-1]=='.'||v[0]=='.'||(n>1&&(v[0]=='-'||v[0]=='+')&&v[1]=='.'))) odd=1; if(odd) return; }
	if(!n) return; g=mk(); r=M_getopt_parse(g,(const char * const *)av,2,&f,&the_thunk); if(ok){ vp_assert_msg(r==M_GETOPT_ERROR_SUCCESS,"number accepted"); vp_assert_msg(nl==1&&!L[0].isnull,"one callback"); vp_assert_msg(L[0].i==x,"exact value"); if(dec) vp_reach("dec"); else vp_reach("int"); } else { vp_assert_msg(r==M_GETOPT_ERROR_INVALIDDATATYPE,"malformed number rejected"); vp_assert_msg(nl==0&&f==av[1],"no callback"); vp_reach("bad"); } M_getopt_destroy(g); }
void h_define(void){ M_getopt_t *g=M_getopt_create(NULL); char c=(char)vp_u8("c"); char *l=vp_strn("l",2); size_t n=0,i; int okc, okl=1; M_bool r; char *h; while(l[n]) n++; okc=c==0||((M_uint8)c>' '&&(M_uint8)c<127&&c!='-'&&c!='='&&c!='"'&&c!='\''); if(!n) okl=0; for(i=0;i<n;i++) if((M_uint8)l[i]<=' '||(M_uint8)l[i]>=127||l[i]=='='||l[i]=='"'||l[i]=='\'') okl=0; if(n&&(l[0]=='-'||l[n-1]=='-')) okl=0;
	if(vp_pick("nolong",2)){ r=M_getopt_addstring(g,c,NULL,M_TRUE,NULL,scb); vp_assert_msg((r==M_TRUE)==(okc&&c!=0),"short option letter"); if(r){ vp_assert_msg(!M_getopt_addboolean(g,c,"other",M_FALSE,NULL,bcb),"duplicate letter"); vp_assert(M_getopt_addboolean(g,0,"other",M_FALSE,NULL,bcb)); vp_assert_msg(!M_getopt_addboolean(g,c=='q'?'r':'q',"OTHER",M_FALSE,NULL,bcb),"duplicate long name"); h=M_getopt_help(g); vp_assert(h[0]==' '&&h[1]==' '&&h[2]=='-'&&h[3]==c&&is(h+4," <val> (string)\n  --other\n")); M_free(h); } }
	else { r=M_getopt_addinteger(g,c,l,M_FALSE,"D",icb); vp_assert_msg((r==M_TRUE)==(okc&&okl),"option names"); if(r){ const char *av[2]; char b[8]; the_thunk=0; b[0]=b[1]='-'; for(i=0;i<=n;i++) b[2+i]=l[i]; av[0]="a"; av[1]=b; vp_assert_msg(M_getopt_parse(g,(const char * const *)av,2,NULL,&the_thunk)==M_GETOPT_ERROR_SUCCESS&&nl==1&&L[0].s==c&&L[0].isnull&&is(L[0].l,l),"defined option found"); } }
	vp_assert(!M_getopt_addstring(g,0,NULL,M_TRUE,NULL,scb)&&!M_getopt_addstring(g,'z',NULL,M_TRUE,NULL,NULL)&&!M_getopt_addstring(NULL,'z',NULL,M_TRUE,NULL,scb)); M_getopt_destroy(g); vp_reach("end"); }
