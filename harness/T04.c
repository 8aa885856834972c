//@mods base text/verify/m_verify.c
//@bounds every domain of up to D symbolic bytes (any byte) and every address of up to A symbolic bytes over the delimiting characters; labels, local parts, domains and whole addresses at and around the 63, 64, 253 and 254 character limits; the alphabet of each part for every byte value; lists of up to 3 addresses with either delimiter and at the 100 address limit
//@outside nested quotes beyond the bounds
//@H h_domain q:D=6 t:D=7 jobs=8 reach=yes,no
//@H h_addr q:A=7 t:A=8 jobs=8 reach=yes,no
//@H h_char jobs=8 reach=yes,no
//@H h_limit jobs=8 reach=yes,no
//@H h_list jobs=8 reach=yes,no
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_text.h>
#include <string.h>
#ifndef D
#define D 5
#endif
#ifndef A
#define A 6
#endif
static int alnum(int c){ return (c>='0'&&c<='9')|(c>='a'&&c<='z')|(c>='A'&&c<='Z'); }
static int rdom(const char *s, int n){ if(n<=0||n>253) return 0; int l=0; for(int i=0;i<=n;i++){ if(i==n||s[i]=='.'){ if(l==0||l>63) return 0; if(s[i-1]=='-'||s[i-l]=='-') return 0; l=0; } else { if(!alnum((unsigned char)s[i])&&s[i]!='-') return 0; l++; } } return 1; }
static int rlocal(const char *s, int n){ if(n<=0||n>64||s[0]=='.'||s[n-1]=='.'||s[0]=='-') return 0; for(int i=0;i<n;i++) if(!alnum((unsigned char)s[i])&&!vp_in(s[i],".'*+-=^_{}~")) return 0; return 1; }
static int rmail(const char *s, int n){ int at=-1; for(int i=0;i<n;i++) if(s[i]=='@'){ if(at>=0) return 0; at=i; } return at>=0&&rlocal(s,at)&&rdom(s+at+1,n-at-1); }
static int esc(const char *s, int i){ int k=0; while(i>0&&s[i-1]=='\\'){ k++; i--; } return k&1; }
/* -1: the statement does not settle it (unbalanced quotes) */
static int raddr(const char *s, int n){ if(n<3||n>254) return 0; int q=0, o=-1, c=-1, no=0, nc=0; for(int i=0;i<n;i++){ if(s[i]=='"'&&!esc(s,i)) q=!q; else if(!q&&s[i]=='<'){ no++; o=i; } else if(!q&&s[i]=='>'){ nc++; c=i; } }
	if(no!=nc||no>1) return 0; if(!no) return rmail(s,n); if(c!=n-1) return 0; if(o>c) return 0; if(!rmail(s+o+1,c-o-1)) return 0;
	q=0; for(int i=0;i<o;i++){ if(s[i]=='\\') return -1; if(s[i]=='"'){ q=!q; continue; } if(!alnum((unsigned char)s[i])&&!vp_in(s[i],q?"!#$%&'*+-/=?^_`{|}~ \t()<>[]:;@,.":"!#$%&'*+-/=?^_`{|}~ \t")) return 0; } return q?-1:1; }
static void cc(char *s){ for(;;s++){ *s=(char)vp_conc((M_uint8)*s); if(!*s) return; } }
#define DONE(got,want) do{ int w_=(want); if(w_>=0) vp_assert_msg((got)==(w_?M_TRUE:M_FALSE),"accepted exactly when the rules allow"); if(w_==1) vp_reach("yes"); else vp_reach("no"); }while(0)
void h_domain(void){ int n=vp_pick("n",D+1); char *s=vp_strn("s",n); for(int i=0;i<n;i++) vp_assume(vp_in(s[i],"aZ9-._ \x80")); M_bool got=M_verify_domain(s); DONE(got,rdom(s,n)); }
void h_addr(void){ int form=vp_pick("form",3); static const char *pre[3]={"","\"","a<"}, *post[3]={"","\"<b@c>",">"}; char *s=vp_strm("s",A-1,"@.<>\"a-"); cc(s); char t[32]; strcpy(t,pre[form]); strcat(t,s); strcat(t,post[form]); M_bool got=M_verify_email_address(t); DONE(got,raddr(t,(int)strlen(t))); }
void h_char(void){ unsigned char c=vp_u8("c"); vp_assume(c); int k=vp_pick("k",8); static const char *tm[8]={"a_a@b","_a@b","a@b_b","a@b.c_d","x_x <a@b>","\"x_x\" <a@b>","a_@b","a@b_"}; char t[20]; strcpy(t,tm[k]); char *u=strchr(t,'_'); *u=(char)c; if(vp_pick("dom",2)&&strchr(t,'@')&&k<4&&k>1) { char *d=strchr(t,'@')+1; M_bool got=M_verify_domain(d); DONE(got,rdom(d,(int)strlen(d))); return; } M_bool got=M_verify_email_address(t); DONE(got,raddr(t,(int)strlen(t))); }
void h_limit(void){ static char t[400]; int k=vp_pick("k",4), n=0; if(k==0){ int l=(int)vp_range("lab",62,65); for(int i=0;i<l;i++) t[n++]='a'; t[n++]='.'; t[n++]='b'; t[n]=0; M_bool got=M_verify_domain(t); DONE(got,rdom(t,n)); return; }
	if(k==1){ int l=(int)vp_range("dom",251,256); for(int i=0;i<l;i++) t[i]=(i%50==49&&i!=l-1)?'.':'a'; t[l]=0; M_bool got=M_verify_domain(t); DONE(got,rdom(t,l)); return; }
	if(k==2){ int l=(int)vp_range("loc",63,66); for(int i=0;i<l;i++) t[n++]='a'; strcpy(t+n,"@b.c"); M_bool got=M_verify_email_address(t); DONE(got,raddr(t,(int)strlen(t))); return; }
	int l=(int)vp_range("all",253,256); int br=vp_pick("br",2); for(int i=0;i<64;i++) t[n++]='a'; t[n++]='@'; while(n<l-(br?2:0)) { t[n]=(n%50==49)?'.':'a'; n++; } if(t[n-1]=='.') t[n-1]='a'; t[n]=0; char u[300]; if(br){ strcpy(u,"<"); strcat(u,t); strcat(u,">"); } else strcpy(u,t); M_bool got=M_verify_email_address(u); DONE(got,raddr(u,(int)strlen(u))); }
void h_list(void){ static char t[700]; int n=(int)vp_pick("n",5); int big=n==4; if(big) n=(int)vp_range("big",99,102); int d=vp_pick("d",2); M_verify_email_listdelim_t dt=(M_verify_email_listdelim_t)vp_pick("dt",3); static const char *ad[5]={"a@b","\"x, y\" <a@b>"," a@b ","","bad"}; t[0]=0; int ok=1, comma=0, semi=0; for(int i=0;i<n;i++){ int w=big?0:vp_pick("w",5); if(i){ strcat(t,d?";":","); if(d) semi++; else comma++; } strcat(t,ad[w]); if(w>2) ok=0; if(w==2&&n==1) ok=-1; }
	M_bool got=M_verify_email_address_list(t,dt); int want=ok; if(n==0||!*t) want=0; else if(n>100) want=0; else if(n>1&&dt!=M_VERIFY_EMAIL_LISTDELIM_AUTO&&(dt==M_VERIFY_EMAIL_LISTDELIM_COMMA)!=(d==0)) want=0; DONE(got,want); }
