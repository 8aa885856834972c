//@mods base
//@bounds every pattern of up to P symbols built from letters, '*', '?', escaped specials and bracket expressions (3 tokens; case-insensitive quick 2, thorough 3) against every string of up to S bytes over those characters (quick 2, thorough 3; case-insensitive 2); arbitrary raw patterns of up to R characters for memory safety (quick 4, thorough 5)
//@outside patterns the implementation documents as errors (lone ']', unclosed '[', other escapes), backslash inside brackets, bytes above 127 in a range, character-class names; strings beginning with '.' or containing '/' get no special treatment
//@H h_match q:P=3,S=2,CI=0 t:P=3,S=3,CI=0 jobs=4 reach=yes,no
//@H h_match q:P=2,S=2,CI=1 t:P=3,S=2,CI=1 jobs=3 reach=yes,no
//@H h_raw q:R=4 t:R=5 jobs=3 reach=yes
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef P
#define P 3
#endif
#ifndef S
#define S 3
#endif
#ifndef R
#define R 4
#endif
#ifndef CI
#define CI 0
#endif
typedef struct { int kind; char lit; int neg, n; char lo[3], hi[3]; } tok; /* 0 literal 1 ? 2 * 3 bracket */
static int fold(char c){ return c>='A'&&c<='Z'?c+32:c; }
static int upc(char c){ return c>='a'&&c<='z'?c-32:c; }
static int inr(char c, char lo, char hi){ return c>=lo&&c<=hi; }
static int one(const tok *t, char c){ int i, in=0; if(t->kind==1) return 1; if(t->kind==0) return CI?fold(t->lit)==fold(c):t->lit==c; for(i=0;i<t->n;i++){ in|=inr(c,t->lo[i],t->hi[i]); if(CI) in|=inr((char)fold(c),t->lo[i],t->hi[i])|inr((char)upc(c),t->lo[i],t->hi[i]); } return in!=t->neg; }
static int rmatch(const tok *t, size_t n, const char *s, size_t l){ int d[S+2]; size_t i,j; for(j=0;j<=l;j++) d[j]=j==0; for(i=0;i<n;i++){ if(t[i].kind==2){ for(j=1;j<=l;j++) d[j]|=d[j-1]; } else { for(j=l;j>0;j--) d[j]=d[j-1]&one(t+i,s[j-1]); d[0]=0; } } return d[l]; }
void h_match(void){ size_t n=(size_t)vp_pick("n",P+1), i, k=0, l=(size_t)vp_pick("l",S+1); tok t[P]; char p[P*8+1], *s=vp_strn("s",l), *pp; M_bool r; int e;
	for(i=0;i<n;i++){ unsigned c=(unsigned)vp_pick("t",CI?8:15); tok *x=t+i; memset(x,0,sizeof(*x)); switch(c){
		case 0: x->lit='a'; p[k++]='a'; break; case 1: x->lit='B'; p[k++]='B'; break; case 2: x->kind=1; p[k++]='?'; break; case 3: x->kind=2; p[k++]='*'; break;
		default: x->kind=3; p[k++]='['; switch(c){
			case 4: x->n=1; x->lo[0]='a'; x->hi[0]='c'; memcpy(p+k,"a-c]",4); k+=4; break; case 5: x->neg=1; x->n=1; x->lo[0]='a'; x->hi[0]='c'; memcpy(p+k,"!a-c]",5); k+=5; break;
			case 6: x->n=2; x->lo[0]=x->hi[0]='b'; x->lo[1]='A'; x->hi[1]='C'; memcpy(p+k,"bA-C]",5); k+=5; break; case 7: x->neg=1; x->n=2; x->lo[0]=x->hi[0]='Z'; x->lo[1]=x->hi[1]='b'; memcpy(p+k,"!Zb]",4); k+=4; break;
			case 8: x->n=2; x->lo[0]=x->hi[0]=']'; x->lo[1]=x->hi[1]='-'; memcpy(p+k,"]-]",3); k+=3; break; case 9: x->neg=1; x->n=3; x->lo[0]=x->hi[0]=']'; x->lo[1]=x->hi[1]='a'; x->lo[2]=x->hi[2]='-'; memcpy(p+k,"!]a-]",5); k+=5; break;
			case 10: x->n=2; x->lo[0]=x->hi[0]='['; x->lo[1]=x->hi[1]='*'; memcpy(p+k,"[*]",3); k+=3; break;
			case 11: x->n=2; x->lo[0]=x->hi[0]='-'; x->lo[1]='0'; x->hi[1]='9'; memcpy(p+k,"-0-9]",5); k+=5; break;
			case 12: x->n=2; x->lo[0]=x->hi[0]='a'; x->lo[1]=x->hi[1]='!'; memcpy(p+k,"a!]",3); k+=3; break;
			default: { char z=c==13?"*?[]\\"[vp_pick("z",5)]:'~'; k--; memset(x,0,sizeof(*x)); x->lit=z; if(c==13) p[k++]='\\'; p[k++]=z; } } } }
	p[k]=0; pp=(char*)vp_malloc(k+1); memcpy(pp,p,k+1); for(i=0;i<l;i++) vp_assume((unsigned char)s[i]<128);
	r=CI?M_str_case_pattern_match(pp,s):M_str_pattern_match(pp,s); e=rmatch(t,n,s,l); vp_assert(r==e); if(e) vp_reach("yes"); else vp_reach("no"); }
void h_raw(void){ size_t n=(size_t)vp_pick("n",R+1), l=(size_t)vp_pick("l",3), i; char *p=vp_stra("p",n,"a*?[]\\-!"), *s=vp_stra("s",l,"ab]-"); for(i=0;i<n;i++) p[i]=(char)vp_conc((unsigned char)p[i]); if(M_str_pattern_match(p,s)) vp_reach("yes"); (void)M_str_case_pattern_match(p,s); vp_assert(!M_str_pattern_match(NULL,s)); vp_assert(!M_str_pattern_match(p,NULL)); }
