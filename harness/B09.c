//@mods base
//@bounds pairs of strings of up to N arbitrary bytes each (quick 3, thorough 5), NULL included; triples of up to T bytes for transitivity (quick 2, thorough 3); every limit 0..N+1; haystacks up to N+2 over a small alphabet for substring search
//@outside NULL needle in the case-insensitive substring search, empty needle in an empty haystack
//@stubs strcmp, strcasecmp and friends are the C-locale definitions (lib/libc.c)
//@H h_pair q:N=3 t:N=5 jobs=3 reach=eq,ne,null
//@H h_trans q:T=2 t:T=3 jobs=2 reach=ok
//@H h_ends q:N=3 t:N=5 reach=yes,no
//@H h_find q:N=3 t:N=4 jobs=2 reach=hit,miss
//@H h_sub q:N=3 t:N=4 jobs=2 reach=hit,miss
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 3
#endif
#ifndef T
#define T 2
#endif
static char *mk(const char *nm, size_t n){ size_t l=(size_t)vp_pick(nm,n+2); if(l==n+1){ vp_reach("null"); return NULL; } return vp_strn(nm,l); }
static int low(char c){ unsigned char u=(unsigned char)c; return u>='A'&&u<='Z'?u+32:u; }
static int rcmp(const char *a, const char *b, size_t max, int ci){ size_t i; if(!a) a=""; if(!b) b=""; for(i=0;i<max;i++){ int x=ci?low(a[i]):(unsigned char)a[i], y=ci?low(b[i]):(unsigned char)b[i]; if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
static int sg(int x){ return x<0?-1:x>0; }
void h_pair(void){ char *a=mk("a",N), *b=mk("b",N); int ci=(int)vp_pick("ci",2), r, e, fn=(int)vp_pick("fn",2); size_t m=(size_t)vp_pick("m",N+2); if(m==N+1) m=SIZE_MAX;
	r=rcmp(a,b,m,ci); if(fn==0){ if(m==SIZE_MAX) e=ci?M_str_casecmpsort(a,b):M_str_cmpsort(a,b); else e=ci?M_str_casecmpsort_max(a,b,m):M_str_cmpsort_max(a,b,m); vp_assert(sg(e)==r); }
	else { if(m==SIZE_MAX) e=ci?M_str_caseeq(a,b):M_str_eq(a,b); else e=ci?M_str_caseeq_max(a,b,m):M_str_eq_max(a,b,m); vp_assert(e==(r==0)); } if(r==0) vp_reach("eq"); else vp_reach("ne"); }
void h_trans(void){ char *a=mk("a",T), *b=mk("b",T), *c=mk("c",T); int ci=(int)vp_pick("ci",2), x,y,z; if(ci){ x=M_str_casecmpsort(a,b); y=M_str_casecmpsort(b,c); z=M_str_casecmpsort(a,c); vp_assert(sg(M_str_casecmpsort(b,a))==-sg(x)); } else { x=M_str_cmpsort(a,b); y=M_str_cmpsort(b,c); z=M_str_cmpsort(a,c); vp_assert(sg(M_str_cmpsort(b,a))==-sg(x)); }
	vp_assert(!(x<=0&&y<=0&&z>0)); vp_assert(!(x==0&&y==0&&z!=0)); vp_reach("ok"); }
void h_ends(void){ char *a=mk("a",N), *b=mk("b",N); int ci=(int)vp_pick("ci",2), st=(int)vp_pick("st",2), e; size_t la=a?strlen(a):0, lb=b?strlen(b):0;
	if(st){ e=ci?M_str_caseeq_start(a,b):M_str_eq_start(a,b); vp_assert(e==(la>=lb&&rcmp(a,b,lb,ci)==0)); } else { if(!a||!b){ vp_assert(!(ci?M_str_caseeq_end(a,b):M_str_eq_end(a,b))); return; } e=ci?M_str_caseeq_end(a,b):M_str_eq_end(a,b); vp_assert(e==(la>=lb&&rcmp(a+la-lb,b,SIZE_MAX,ci)==0)); } if(e) vp_reach("yes"); else vp_reach("no"); }
void h_find(void){ char *a=mk("a",N), *cs=mk("cs",2), *p; int op=(int)vp_pick("op",6); char c=(char)vp_u8("c"); size_t i, la=a?strlen(a):0; long e=-1;
	switch(op){ case 0: p=M_str_chr(a,c); for(i=la+1;a&&i--;) if(a[i]==c) e=(long)i; break; case 1: p=M_str_rchr(a,c); for(i=0;a&&i<=la;i++) if(a[i]==c) e=(long)i; break;
	case 2: p=M_str_find_first_from_charset(a,cs); for(i=la;i--;) if(cs&&strchr(cs,a[i])) e=(long)i; break; case 3: p=M_str_find_first_not_from_charset(a,cs); for(i=la;i--;) if(!cs||!strchr(cs,a[i])) e=(long)i; break;
	case 4: { int all=1; for(i=0;i<la;i++) if(!cs||!strchr(cs,a[i])) all=0; vp_assert(M_str_ischarset(a,cs)==(la&&cs&&*cs&&all)); return; }
	default: { int none=1; for(i=0;i<la;i++) if(cs&&strchr(cs,a[i])) none=0; vp_assert(M_str_isnotcharset(a,cs)==none); return; } }
	if(e<0){ vp_assert(p==NULL); vp_reach("miss"); } else { vp_assert(p==a+e); vp_reach("hit"); } }
void h_sub(void){ size_t la=(size_t)vp_pick("la",N+3), lb=(size_t)vp_pick("lb",N+1), i, j; int ci=(int)vp_pick("ci",2); char *a=vp_stra("a",la,"aAb"), *b=vp_stra("b",lb,"aAb"), *p; long e=-1; for(i=la+1;i--;){ int m=i+lb<=la; for(j=0;m&&j<lb;j++) m=ci?low(a[i+j])==low(b[j]):a[i+j]==b[j]; if(m) e=(long)i; } if(ci&&la==0&&lb==0) return;
	p=ci?M_str_casestr(a,b):M_str_str(a,b); if(e<0){ vp_assert(p==NULL); vp_reach("miss"); } else { vp_assert(p==a+e); vp_reach("hit"); } if(ci) vp_assert(M_str_casestr_pos(a,b)==e); vp_assert(M_str_str(a,NULL)==a && M_str_str(NULL,b)==NULL); }
