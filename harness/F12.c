//@mods base formats/url
//@bounds every text of up to U symbolic bytes over the delimiters (behind several prefixes), and of up to NB arbitrary bytes, against an RFC 3986 splitter; every URL built from up to two forms of each component is accepted; ports of up to 6 symbolic digits; URLs around 65536 characters
//@outside which malformed URLs are refused; an authority followed directly by a fragment is refused by the code; brackets of an IPv6 host are not part of the host component; '#' inside a fragment
//@H h_split q:U=5 t:U=6 jobs=8 reach=ok,no
//@H h_any q:NB=2 t:NB=3 jobs=8 reach=ok,no
//@H h_build jobs=8 reach=ok
//@H h_port jobs=8 reach=ok,no
//@H h_long reach=ok
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_formats.h>
#include <string.h>
#include <stdlib.h>
#ifndef U
#define U 5
#endif
#ifndef NB
#define NB 3
#endif
static void cc(char *s){ for(;;s++){ *s=(char)vp_conc((M_uint8)*s); if(!*s) return; } }
typedef struct { const char *s; size_t n; int set; } F;
enum { SC,HO,PO,PA,QU,FR,UI,NF };
static void set(F *f, const char *a, const char *b){ f->s=a; f->n=(size_t)(b-a); f->set=b>a; }
/* RFC 3986 appendix B, then the authority */
static void split(const char *s, F *f){ memset(f,0,sizeof(F)*NF); const char *e=s+strlen(s), *p=s, *q; q=p; while(q<e&&((*q>='a'&&*q<='z')||(*q>='A'&&*q<='Z'))) q++; if(q<e&&*q==':'&&q>p){ set(&f[SC],p,q); p=q+1; }
	if(e-p>=2&&p[0]=='/'&&p[1]=='/'&&f[SC].set){ p+=2; q=p; while(q<e&&!strchr("/?#",*q)) q++; const char *a=p, *ae=q, *at=NULL; for(const char *t=a;t<ae;t++) if(*t=='@') at=t; if(at){ set(&f[UI],a,at); a=at+1; } const char *he=ae; if(a<ae&&*a=='['){ const char *b=a; while(b<ae&&*b!=']') b++; set(&f[HO],a+1,b); if(b<ae&&b+1<ae&&b[1]==':') set(&f[PO],b+2,ae); } else { while(he>a&&he[-1]!=':') he--; if(he>a){ set(&f[PO],he,ae); set(&f[HO],a,he-1); } else set(&f[HO],a,ae); } p=q; }
	q=p; while(q<e&&*q!='?'&&*q!='#') q++; set(&f[PA],p,q); p=q; if(p<e&&*p=='?'){ p++; q=p; while(q<e&&*q!='#') q++; set(&f[QU],p,q); p=q; } if(p<e) set(&f[FR],p+1,e); }
static void eq(const char *g, F *f){ if(!f->set){ vp_assert_msg(g==NULL,"component not in the URL"); return; } vp_assert_msg(g!=NULL&&strlen(g)==f->n&&!memcmp(g,f->s,f->n),"component is the substring between its delimiters"); }
static void same(const char *s, M_url_t *u){ F f[NF]; split(s,f); eq(M_url_schema(u),&f[SC]); eq(M_url_host(u),&f[HO]); eq(M_url_port(u),&f[PO]); eq(M_url_path(u),&f[PA]); eq(M_url_query(u),&f[QU]); eq(M_url_fragment(u),&f[FR]); eq(M_url_userinfo(u),&f[UI]); unsigned long v=0; if(f[PO].set) for(size_t i=0;i<f[PO].n;i++){ vp_assert_msg(f[PO].s[i]>='0'&&f[PO].s[i]<='9',"port is a number"); v=v*10+(unsigned long)(f[PO].s[i]-'0'); } vp_assert_msg(v<=65535&&M_url_port_u16(u)==v,"port value"); }
static void go(const char *s){ M_url_t *u=M_url_create(s); if(!u){ vp_reach("no"); return; } same(s,u); for(const char *p=s;*p;p++) vp_assert_msg((unsigned char)*p>32&&*p!=127,"no blank or control character"); M_url_destroy(u); vp_reach("ok"); }
void h_split(void){ static const char *pre[5]={"","a://","a://b@c","a://[","a://b/"}; int k=vp_pick("pre",5); char *s=vp_strm("s",k?U-1:U,":/?#@[]a1"); cc(s); char t[32]; strcpy(t,pre[k]); strcat(t,s); const char *h=strchr(t,'#'); if(h) vp_assume(!strchr(h+1,'#')); go(t); }
void h_any(void){ static const char *pre[4]={"","a://b","a://[1","/"}; int k=vp_pick("pre",4), n=vp_pick("n",NB+1); char *s=vp_strn("s",(size_t)n); char t[32]; strcpy(t,pre[k]); int l=(int)strlen(t); for(int i=0;i<n;i++) t[l+i]=s[i]; t[l+n]=0; cc(t+l); const char *h=strchr(t,'#'); if(h) vp_assume(!strchr(h+1,'#')); go(t); }
void h_build(void){ static const char *sc[2]={"http","Ws"}, *ui[3]={"","u:p@","a%20b@"}, *ho[4]={"h","a-b.c1","[::1]","[fe80::1%eth0]"}, *po[3]={"",":0",":65535"}, *pa[4]={"","/","/a/b:c@d","/%2F;x=1"}, *qu[4]={"","?","?a=b&c=/?","?x:@[]"}, *fr[3]={"","#","#f/?g"}; char t[100]; strcpy(t,sc[vp_pick("sc",2)]); strcat(t,"://"); strcat(t,ui[vp_pick("ui",3)]); strcat(t,ho[vp_pick("ho",4)]); strcat(t,po[vp_pick("po",3)]); int p=vp_pick("pa",4), q=vp_pick("qu",4), r=vp_pick("fr",3); vp_assume(p||q||!r); strcat(t,pa[p]); strcat(t,qu[q]); strcat(t,fr[r]); M_url_t *u=M_url_create(t); vp_assert_msg(u!=NULL,"a well-formed URL is accepted"); same(t,u); M_url_destroy(u); vp_reach("ok"); }
void h_port(void){ int n=(int)vp_range("n",1,6); char *s=vp_stra("s",(size_t)n,"0123456789"); char t[32]="h://x:"; unsigned v=0; for(int i=0;i<n;i++){ t[6+i]=s[i]; v=v*10+(unsigned)(s[i]-'0'); } t[6+n]=0; M_url_t *u=M_url_create(t); if(v>65535){ vp_assert_msg(!u,"a port above 65535 is refused"); vp_reach("no"); return; } vp_assert_msg(u&&M_url_port_u16(u)==v,"port value"); vp_assert_msg(!strcmp(M_url_port(u),t+6),"port text"); M_url_destroy(u); vp_reach("ok"); }
/* components that begin or end around 2^16 */
void h_long(void){ int d=(int)vp_range("d",65526,65540), k=vp_pick("k",3); char *t=malloc((size_t)d+40); strcpy(t,"h://x/"); int l=6; if(k==1) t[l++]='?'; while(l<d) t[l++]='a'; strcpy(t+l,k==1?"#frag":"?query#frag"); if(k==2){ t[3]='/'; } M_url_t *u=M_url_create(t); vp_assert_msg(u!=NULL,"accepted"); same(t,u); M_url_destroy(u); free(t); vp_reach("ok"); }
