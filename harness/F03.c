//@mods base formats/xml/m_xml_entities.c
//@bounds every text of up to E symbolic bytes for encoding and decoding back; every text of up to D symbolic characters over the entity alphabet decoded against the reference, in a buffer of exactly its length; both text and attribute variants
//@outside entity names in capitals are also decoded (as the code does on purpose)
//@H h_rt q:E=4 t:E=5 jobs=8 reach=rt
//@H h_dec q:D=6 t:D=7 jobs=8 reach=ent,lit
//@H h_ent jobs=8 reach=ent,cut
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_formats.h>
#include <string.h>
#include "xml/m_xml_entities.h"
#ifndef E
#define E 4
#endif
#ifndef D
#define D 5
#endif
static struct { char c; const char *n; int at; } T[]={{'"',"&quot;",1},{'&',"&amp;",1},{'<',"&lt;",1},{'\'',"&apos;",0},{'>',"&gt;",0},{'\n',"&#xA;",0},{'\r',"&#xD;",0}};
static int low(int c){ return c>='A'&&c<='Z'?c+32:c; }
static int rdec(const char *s, int n, int attr, char *o){ int k=0; for(int i=0;i<n;){ int hit=0; if(s[i]=='&') for(int j=0;j<7;j++) if(!attr||T[j].at){ int l=(int)strlen(T[j].n), m; if(i+l>n) continue; for(m=0;m<l&&low(s[i+m])==low(T[j].n[m]);m++); if(m==l){ o[k++]=T[j].c; i+=l; hit=1; break; } } if(!hit) o[k++]=s[i++]; else vp_reach("ent"); } o[k]=0; return k; }
void h_rt(void){ int at=vp_pick("at",2), n=vp_pick("n",E+1); char *s=vp_strn("s",(size_t)n); char *e=at?M_xml_attribute_encode(s,(size_t)n):M_xml_entities_encode(s,(size_t)n);
	int l=(int)strlen(e); for(int i=0;i<l;i++){ vp_assert_msg(e[i]!='<'&&e[i]!='"'&&(at||(e[i]!='>'&&e[i]!='\'')),"no raw markup character"); if(e[i]=='&') vp_assert_msg(e[i+1]=='q'||e[i+1]=='a'||e[i+1]=='l'||e[i+1]=='g',"an ampersand starts an entity"); }
	char *d=at?M_xml_attribute_decode(e,(size_t)l):M_xml_entities_decode(e,(size_t)l); vp_assert_msg(!strcmp(d,s),"decoding gives the text back"); M_free(e); M_free(d); vp_reach("rt"); }
static void dec1(const char *s, int n, int at){ char *b=vp_malloc((size_t)n); for(int i=0;i<n;i++) b[i]=s[i]; char *d=at?M_xml_attribute_decode(b,(size_t)n):M_xml_entities_decode(b,(size_t)n); char o[64]; int k=rdec(s,n,at,o); vp_assert_msg(!memcmp(o,d,(size_t)k+1),"decoded as the reference"); M_free(d); }
void h_dec(void){ int at=vp_pick("at",2); char *s=vp_strm("s",D,"&lLtg;q#xA"); for(char *p=s;*p;p++) *p=(char)vp_conc((M_uint8)*p); dec1(s,(int)strlen(s),at); vp_reach("lit"); }
/* one entity, cut or with one byte replaced, then a byte */
void h_ent(void){ int at=vp_pick("at",2), j=vp_pick("j",7); char t[16]; strcpy(t,T[j].n); int l=(int)strlen(t); int pos=vp_pick("pos",l+1); t[l]='z'; t[l+1]=0; t[pos]=(char)vp_u8("c"); vp_assume(t[pos]); int n=vp_pick("cut",l+2); if(n<l) vp_reach("cut"); dec1(t,n,at); }
