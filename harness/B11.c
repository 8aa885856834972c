//@mods base
//@bounds texts of up to N arbitrary bytes with any delimiter byte (quick 5, thorough 7); quoted form over delimiter, quote, escape and a letter, every maximum 0..4, quick M=5, thorough M=7; line splitting over letters, space and newline up to L characters, 1..4 lines of 1..4 characters (quick 6, thorough 8); lists of up to 3 strings of up to 2 bytes; 1..2 arbitrary integers
//@outside doubled escape characters in the quoted splitter, delimiter equal to quote or escape; zero-length input; text beginning with NUL (documented as empty); integer lists with parts that are not integers
//@H h_explode q:N=5 t:N=7 reach=many,len
//@H h_quoted q:M=5 t:M=7 jobs=4 reach=q,max
//@H h_lines q:L=6 t:L=8 jobs=4 reach=fit,trunc,no
//@H h_implode q:K=2 t:K=3 jobs=2 reach=ok
//@H h_ints q:- t: reach=ok
//@H h_ints1 reach=ok
//@H h_list q:N=4 t:N=6 jobs=2 reach=ok
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 5
#endif
#ifndef M
#define M 5
#endif
#ifndef L
#define L 6
#endif
#ifndef K
#define K 2
#endif
void h_explode(void){ size_t l=(size_t)vp_range("l",1,N), i, num=99, k=0, st=0, *la=NULL; int arr=(int)vp_pick("arr",2); unsigned char d=vp_u8("d"), *s=vp_buf("s",l); char **o; vp_assume(s[0]!=0); o=M_str_explode(d,(char*)s,l,&num,arr?&la:NULL); vp_assert(o!=NULL);
	for(i=0;i<=l;i++) if(i==l||s[i]==d){ size_t n=i-st, j; vp_assert(k<num); for(j=0;j<n;j++) vp_assert((unsigned char)o[k][j]==s[st+j]); vp_assert(o[k][n]==0); if(arr) vp_assert(la[k]==n); st=i+1; k++; } vp_assert(num==k); if(k>2) vp_reach("many"); if(arr) vp_reach("len");
	M_str_explode_free(o,num); M_free(la); vp_assert(vp_heap_live()==1); }
/* independent reading: quotes toggle, an escaped quote does not, delimiters count outside quotes */
void h_quoted(void){ size_t l=(size_t)vp_range("l",1,M), i, num=99, k=0, st=0, *la=NULL, max=(size_t)vp_pick("max",5); int mode=(int)vp_pick("mode",4), inq=0; unsigned char q=mode==3?0:'"', e=mode==0?'"':mode==1?'\\':0; char *s=vp_stra("s",l,mode==1?",\"\\a":",\"a"), **o; for(i=0;i<l;i++) s[i]=(char)vp_conc((unsigned char)s[i]); if(mode==1) for(i=0;i+1<l;i++) vp_assume(!(s[i]=='\\'&&s[i+1]=='\\'));
	o=M_str_explode_quoted(',',s,l,q,e,max,&num,&la); vp_assert(o!=NULL);
	for(i=0;i<=l;i++){ int cut=i==l; if(i<l&&q&&s[i]=='"'){ if(e=='"'&&i+1<l&&s[i+1]=='"'){ i++; continue; } if(e=='\\'&&i>0&&s[i-1]=='\\') continue; inq=!inq; vp_reach("q"); continue; }
		if(i<l&&s[i]==','&&!inq){ if(max&&k+1>=max) vp_reach("max"); else cut=1; }
		if(cut){ size_t n=i-st, j; vp_assert(k<num); for(j=0;j<n;j++) vp_assert(o[k][j]==s[st+j]); vp_assert(o[k][n]==0); vp_assert(la[k]==n); st=i+1; k++; } }
	vp_assert(num==k); M_str_explode_free(o,num); M_free(la); vp_assert(vp_heap_live()==1); }
static int ws(char c){ return c==' '||c=='\n'; }
void h_lines(void){ size_t l=(size_t)vp_pick("l",L+1), ml=(size_t)vp_range("ml",1,4), mc=(size_t)vp_range("mc",1,4), num=99, i, p=0, k=0; int tr=(int)vp_pick("tr",2), left; char *s=vp_stra("s",l,"a \n"), **o; for(i=0;i<l;i++) s[i]=(char)vp_conc((unsigned char)s[i]);
	o=M_str_explode_lines(ml,mc,s,tr?M_TRUE:M_FALSE,&num);
	/* greedy word wrap: as many whole words as fit, a longer word is cut */
	for(;;){ size_t e, best=0, j; while(p<l&&ws(s[p])) p++; if(p==l||k==ml) break; for(e=p+1;e<=l&&e-p<=mc;e++) if(!ws(s[e-1])&&(e==l||ws(s[e]))) best=e; if(!best) best=p+mc; if(o){ vp_assert(k<num); for(j=p;j<best;j++) vp_assert(o[k][j-p]==s[j]); vp_assert(o[k][best-p]==0); } p=best; k++; }
	left=p<l; if(k==0||(left&&!tr)){ vp_assert(o==NULL&&num==0); vp_reach("no"); } else { vp_assert(o!=NULL&&num==k); if(left) vp_reach("trunc"); else vp_reach("fit"); } M_str_explode_free(o,num); vp_assert(vp_heap_live()==1); }
/* join, then split and unquote, gives the parts back */
void h_implode(void){ size_t n=(size_t)vp_range("n",1,3), i, num=0; int esc=(int)vp_pick("esc",2), alw=(int)vp_pick("alw",2); char *p[3], *j, **o; char e=esc?'"':'\\'; size_t tot=0; for(i=0;i<n;i++){ size_t l=(size_t)vp_pick("l",K+1), t; p[i]=vp_stra("p",l,",\"\\a "); for(t=0;t<l;t++) p[i][t]=(char)vp_conc((unsigned char)p[i][t]); for(t=0;t+1<l;t++) if(!esc) vp_assume(p[i][t]!='\\'); if(!esc&&l) vp_assume(p[i][l-1]!='\\'); if(l) vp_assume(p[i][0]!=' '&&p[i][l-1]!=' '); tot+=l; }
	j=M_str_implode(',','"',(unsigned char)e,p,n,alw?M_TRUE:M_FALSE); if(tot==0&&n==1&&!alw) return; vp_assert(j!=NULL); o=M_str_explode_str_quoted(',',j,'"',(unsigned char)e,0,&num); vp_assert(num==n); for(i=0;i<n;i++){ char *u=M_str_unquote(o[i],'"',(unsigned char)e); vp_assert(strcmp(u,p[i])==0); } vp_reach("ok"); }
static void rint(char *b, size_t *k, int v){ char t[12]; int n=0; unsigned u=v<0?0u-(unsigned)v:(unsigned)v; if(v<0) b[(*k)++]='-'; do { t[n++]=(char)('0'+u%10); u/=10; } while(u); while(n) b[(*k)++]=t[--n]; }
static void ints(int n){ int v[2], *w, i; char *s, b[40]; size_t k=0, num=0; static const int lim[]={0,-1,2147483647,-2147483647-1,10,-10,1000000000}; for(i=0;i<n;i++){ unsigned sh=(unsigned)vp_pick("sh",8); v[i]=sh<7?lim[sh]:(int)(signed char)vp_u8("v"); } for(i=0;i<n;i++){ if(i) b[k++]=','; rint(b,&k,v[i]); } b[k]=0; s=M_str_implode_int(',',v,(size_t)n); vp_assert(strcmp(s,b)==0); w=M_str_explode_int(',',s,&num); vp_assert(num==(size_t)n); for(i=0;i<n;i++) vp_assert(w[i]==v[i]); M_free(s); M_free(w); vp_assert(vp_heap_live()==0); vp_reach("ok"); }
void h_ints(void){ ints(2); }
void h_ints1(void){ ints(1); }
void h_list(void){ size_t l=(size_t)vp_pick("l",N+1), i, st=0, k=0; int keep=(int)vp_pick("keep",2); char *s=vp_stra("s",l,":ab"), *j; M_list_str_t *d; for(i=0;i<l;i++) s[i]=(char)vp_conc((unsigned char)s[i]); d=M_list_str_split(':',s,M_LIST_STR_NONE,keep?M_TRUE:M_FALSE);
	if(l) for(i=0;i<=l;i++) if(i==l||s[i]==':'){ if(keep||i>st){ const char *x=M_list_str_at(d,k); size_t n=i-st; vp_assert(x!=NULL&&strlen(x)==n&&memcmp(x,s+st,n)==0); k++; } st=i+1; } vp_assert(M_list_str_len(d)==k);
	if(keep&&l){ j=M_list_str_join(d,':'); vp_assert(strcmp(j,s)==0); M_free(j); j=M_list_str_join_str(d,":"); vp_assert(strcmp(j,s)==0); M_free(j);
		{ size_t a=(size_t)vp_pick("a",k), b=(size_t)vp_pick("b",k+1); j=M_list_str_join_range(d,':',a,b); if(a>b) vp_assert(j==NULL); else { size_t e=b<k?b:k-1, c=0, off=0, end=0, t; for(t=0;t<=l;t++){ if(t==l||s[t]==':'){ if(c==e) end=t; c++; if(c==a) off=t+1; } } if(end>off){ vp_assert(j!=NULL&&strlen(j)==end-off&&memcmp(j,s+off,end-off)==0); } else vp_assert(j==NULL||*j==0); } M_free(j); } vp_reach("ok"); }
	M_list_str_destroy(d); vp_assert(vp_heap_live()==1); }
