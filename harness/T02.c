//@mods base text/textcodec
//@env env_time
//@bounds percent coding (URL, URLMIN, FORM, FORMMIN): every well-formed UTF-8 text of up to P symbolic bytes and back, every text of up to D symbolic bytes decoded against the reference with each error handling; quoted-printable: every text of up to P bytes, lines of 70-80 characters around the line limit, every text of up to D bytes decoded; Punycode: RFC 3492 sample vectors and every label of up to 3 characters over ASCII and wider characters there and back, arbitrary texts of up to U characters decoded against the reference
//@outside NUL bytes produced by decoding; trailing white space of quoted-printable lines
//@H h_per q:P=2 t:P=3 jobs=8 reach=rt
//@H h_perdec q:D=4 t:D=6 jobs=8 reach=ok,bad
//@H h_qp q:P=3 t:P=4 jobs=8 reach=rt
//@H h_qpline jobs=8 reach=brk
//@H h_qpdec q:D=5 t:D=6 jobs=8 reach=ok,bad
//@H h_puny jobs=8 reach=rt
//@H h_punydec q:U=4 t:U=6 jobs=8 reach=ok,bad
//@H h_punyovf jobs=8 reach=bad
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_text.h>
#include <string.h>
#ifndef P
#define P 4
#endif
#ifndef D
#define D 4
#endif
#ifndef U
#define U 4
#endif
static const M_textcodec_codec_t per[4]={M_TEXTCODEC_PERCENT_URL,M_TEXTCODEC_PERCENT_URLMIN,M_TEXTCODEC_PERCENT_FORM,M_TEXTCODEC_PERCENT_FORMMIN};
static int hx(int c){ return c>='0'&&c<='9'?c-'0':c>='A'&&c<='F'?c-'A'+10:c>='a'&&c<='f'?c-'a'+10:-1; }
static int alnum(int c){ return (c>='0'&&c<='9')|(c>='a'&&c<='z')|(c>='A'&&c<='Z'); }
static char *text(const char *nm, int max){ int n=vp_pick("n",max+1); char *s=vp_strn(nm,n); /* well-formed: any ASCII, or two byte characters */ for(int i=0;i<n;i++){ unsigned char c=(unsigned char)s[i]; if(c<0x80) continue; vp_assume(c>=0xC2&&c<=0xDF&&i+1<n); i++; c=(unsigned char)s[i]; vp_assume(c>=0x80&&c<0xC0); } return s; }
static M_textcodec_ehandler_t ehs(void){ return (M_textcodec_ehandler_t)(M_TEXTCODEC_EHANDLER_FAIL+vp_pick("eh",3)); }
void h_per(void){ int k=vp_pick("k",4); char *s=text("s",P), *o=NULL, *d=NULL; M_textcodec_error_t e=M_textcodec_encode(&o,s,ehs(),per[k]); vp_assert_msg(e==M_TEXTCODEC_ERROR_SUCCESS,"encodes"); 
	for(int i=0;o&&o[i];){ int c=(unsigned char)o[i]; if(c=='%'){ vp_assert_msg(vp_in(o[i+1],"0123456789ABCDEF")&&vp_in(o[i+2],"0123456789ABCDEF"),"two upper case hex digits"); i+=3; continue; } vp_assert_msg((c>0x20&&c<0x7F)||(k>1&&(c=='\r'||c=='\n')),"printable"); vp_assert_msg((k&1)||alnum(c)||vp_in(c,k==0?"-_.~+\"<>\\^`{|}":"-_.+\"<>\\^`{|}\r\n"),"reserved characters are escaped"); i++; }
	e=M_textcodec_decode(&d,o,ehs(),per[k]); vp_assert_msg(e==M_TEXTCODEC_ERROR_SUCCESS&&!strcmp(d?d:"",s),"decoding gives the text back"); M_free(o); M_free(d); vp_reach("rt"); }
void h_perdec(void){ int k=vp_pick("k",4); M_textcodec_ehandler_t eh=ehs(); int n=vp_pick("n",D+1); char *s=vp_strn("s",n); for(int i=0;i<n;i++) vp_assume(vp_in(s[i],"%+4fG~\x80 ")); char *o=NULL; M_textcodec_error_t e=M_textcodec_decode(&o,s,eh,per[k]); char w[64]; int m=0, bad=0, hi=0; for(int i=0;i<n;i++) hi|=(signed char)s[i]<0;
	for(int i=0;i<n;i++){ char c=s[i]; if(c=='%'){ if(n-i-1<2){ bad=1; if(eh==M_TEXTCODEC_EHANDLER_REPLACE){ w[m++]=(char)0xFF; w[m++]=(char)0xFD; break; } continue; } int a=hx(s[i+1]), b=hx(s[i+2]); if(a<0||b<0){ bad=1; if(eh==M_TEXTCODEC_EHANDLER_REPLACE){ w[m++]=(char)0xFF; w[m++]=(char)0xFD; } } else w[m++]=(char)(a*16+b); i+=2; } else if(c=='+'&&k>1) w[m++]=' '; else w[m++]=c; } w[m]=0;
	if(eh==M_TEXTCODEC_EHANDLER_FAIL&&(bad||hi)){ vp_assert_msg(M_textcodec_error_is_error(e)&&!o,"malformed input reported"); vp_reach("bad"); return; } vp_assert_msg(e==(bad?M_TEXTCODEC_ERROR_SUCCESS_EHANDLER:M_TEXTCODEC_ERROR_SUCCESS),"outcome"); vp_assert_msg(!strcmp(o?o:"",w),"decoded as the reference"); vp_reach("ok"); M_free(o); }
static void qpshape(const char *o){ int col=0; for(int i=0;o&&o[i];){ if(o[i]=='\r'&&o[i+1]=='\n'){ col=0; i+=2; continue; } if(o[i]=='='){ if(o[i+1]=='\r'&&o[i+2]=='\n'){ vp_reach("brk"); col++; i++; } else { vp_assert_msg(vp_in(o[i+1],"0123456789ABCDEF")&&vp_in(o[i+2],"0123456789ABCDEF"),"two upper case hex digits"); col+=3; i+=3; } } else { vp_assert_msg(vp_in(o[i],"\t\r\n")||((unsigned char)o[i]>=32&&(unsigned char)o[i]<127),"printable"); if(o[i]=='\n') col=0; else col++; i++; } vp_assert_msg(col<=76,"no line above 76 characters"); } }
void h_qp(void){ char *s=text("s",P), *o=NULL, *d=NULL; M_textcodec_error_t e=M_textcodec_encode(&o,s,ehs(),M_TEXTCODEC_QUOTED_PRINTABLE); vp_assert_msg(e==M_TEXTCODEC_ERROR_SUCCESS,"encodes"); qpshape(o); e=M_textcodec_decode(&d,o,ehs(),M_TEXTCODEC_QUOTED_PRINTABLE); vp_assert_msg(e==M_TEXTCODEC_ERROR_SUCCESS&&!strcmp(d?d:"",s),"decoding gives the text back"); M_free(o); M_free(d); vp_reach("rt"); }
void h_qpline(void){ int n=(int)vp_range("len",66,80), k=vp_pick("tail",3); char t[300]; int m=0; for(int i=0;i<n;i++) t[m++]='a'; for(int i=0;i<6;i++){ int q=i<3?vp_pick("q",3):k; if(q==0) t[m++]='='; else if(q==1) t[m++]='b'; else { t[m++]='\r'; t[m++]='\n'; } } t[m]=0; char *o=NULL,*d=NULL; M_textcodec_encode(&o,t,M_TEXTCODEC_EHANDLER_FAIL,M_TEXTCODEC_QUOTED_PRINTABLE); qpshape(o); M_textcodec_decode(&d,o,M_TEXTCODEC_EHANDLER_FAIL,M_TEXTCODEC_QUOTED_PRINTABLE); vp_assert_msg(d&&!strcmp(d,t),"decoding gives the text back"); M_free(o); M_free(d); }
void h_qpdec(void){ M_textcodec_ehandler_t eh=ehs(); char *s=vp_strm("s",D,"=\r\n4eG- +x"); for(char *p=s;*p;p++) *p=(char)vp_conc((M_uint8)*p); int n=(int)strlen(s); char *o=NULL; M_textcodec_error_t e=M_textcodec_decode(&o,s,eh,M_TEXTCODEC_QUOTED_PRINTABLE); char w[64]; int m=0,bad=0; for(int i=0;i<n;i++){ if(s[i]!='='){ w[m++]=s[i]; continue; } if(i+2<n&&s[i+1]=='\r'&&s[i+2]=='\n'){ i+=2; continue; } if(i+2<n&&hx(s[i+1])>=0&&hx(s[i+2])>=0){ w[m++]=(char)(hx(s[i+1])*16+hx(s[i+2])); i+=2; continue; } bad=1; if(eh==M_TEXTCODEC_EHANDLER_REPLACE){ w[m++]=(char)0xFF; w[m++]=(char)0xFD; } if(n-i-1<2){ while(++i<n) w[m++]=s[i]; } } w[m]=0;
	if(eh==M_TEXTCODEC_EHANDLER_FAIL&&bad){ vp_assert_msg(M_textcodec_error_is_error(e)&&!o,"malformed input reported"); vp_reach("bad"); return; } vp_assert_msg(e==(bad?M_TEXTCODEC_ERROR_SUCCESS_EHANDLER:M_TEXTCODEC_ERROR_SUCCESS),"outcome"); vp_assert_msg(!strcmp(o?o:"",w),"decoded as the reference"); vp_reach("ok"); M_free(o); }
static int u8(unsigned cp, char *o){ int n=0; if(cp<0x80) o[n++]=(char)cp; else if(cp<0x800){ o[n++]=(char)(0xC0|cp>>6); o[n++]=(char)(0x80|(cp&63)); } else if(cp<0x10000){ o[n++]=(char)(0xE0|cp>>12); o[n++]=(char)(0x80|((cp>>6)&63)); o[n++]=(char)(0x80|(cp&63)); } else { o[n++]=(char)(0xF0|cp>>18); o[n++]=(char)(0x80|((cp>>12)&63)); o[n++]=(char)(0x80|((cp>>6)&63)); o[n++]=(char)(0x80|(cp&63)); } o[n]=0; return n; }
/* RFC 3492 section 6.2 with 64 bit arithmetic; -1: fails */
static int rdec(const char *s, unsigned *cp){ int n=0; const char *p=strrchr(s,'-'); if(p){ for(const char *q=s;q<p;q++) cp[n++]=(unsigned char)*q; p++; } else p=s; unsigned long long N=128,i=0,bias=72; while(*p){ unsigned long long oi=i,w=1; for(unsigned k=36;;k+=36){ int c=*p++; int d=c>='a'&&c<='z'?c-'a':c>='A'&&c<='Z'?c-'A':c>='0'&&c<='9'?c-'0'+26:-1; if(d<0) return -1; i+=(unsigned)d*w; if(i>0xFFFFFFFFull) return -1; unsigned t=k<=bias?1:k>=bias+26?26:(unsigned)(k-bias); if((unsigned)d<t) break; w*=36-t; if(w>0xFFFFFFFFull) return -1; }
		unsigned long long de=oi==0?(i-oi)/700:(i-oi)/2; de+=de/(unsigned)(n+1); unsigned k=0; while(de>455){ de/=35; k+=36; } bias=k+36*de/(de+38); N+=i/(unsigned)(n+1); i%=(unsigned)(n+1); if(N>0x10FFFF||(N>=0xD800&&N<0xE000)||(N&0xFFFE)==0xFFFE||(N>=0xFDD0&&N<=0xFDEF)) return -1; for(int m=n;m>(int)i;m--) cp[m]=cp[m-1]; cp[i]=(unsigned)N; n++; i++; } return n; }
void h_puny(void){ static const unsigned al[9]={'a','z','-','0',0xFC,0x80,0x4E2D,0xFFFD,0x10FFFD}; int n=1+vp_pick("n",3), wide=0; char s[20]; unsigned cp[4]; int l=0; for(int i=0;i<n;i++){ cp[i]=al[vp_pick("c",9)]; wide|=cp[i]>0x7F; l+=u8(cp[i],s+l); } char *o=NULL,*d=NULL; M_textcodec_error_t e=M_textcodec_encode(&o,s,M_TEXTCODEC_EHANDLER_FAIL,M_TEXTCODEC_PUNYCODE); vp_assert_msg(e==M_TEXTCODEC_ERROR_SUCCESS,"encodes"); for(int i=0;o[i];i++) vp_assert_msg(alnum(o[i])||o[i]=='-',"safe alphabet"); unsigned r[40]; int m=rdec(o,r); vp_assert_msg(m==n&&!memcmp(r,cp,sizeof(unsigned)*(size_t)n),"a reference decoder gives the text"); e=M_textcodec_decode(&d,o,M_TEXTCODEC_EHANDLER_FAIL,M_TEXTCODEC_PUNYCODE); vp_assert_msg(e==M_TEXTCODEC_ERROR_SUCCESS&&!strcmp(d,s),"decoding gives the text back"); M_free(o); M_free(d); vp_reach("rt"); }
static void pd(const char *s){ unsigned r[40]; int m=rdec(s,r); char *d=NULL; M_textcodec_error_t e=M_textcodec_decode(&d,s,M_TEXTCODEC_EHANDLER_FAIL,M_TEXTCODEC_PUNYCODE); if(m<0){ vp_assert_msg(M_textcodec_error_is_error(e)&&!d,"malformed input reported"); vp_reach("bad"); } else { char w[200]; int l=0; w[0]=0; for(int i=0;i<m;i++) l+=u8(r[i],w+l); vp_assert_msg(e==M_TEXTCODEC_ERROR_SUCCESS&&!strcmp(d?d:"",w),"decoded as the reference"); M_free(d); vp_reach("ok"); } }
void h_punydec(void){ char *s=vp_strm("s",U,"a-Zz90_g"); for(char *p=s;*p;p++) *p=(char)vp_conc((M_uint8)*p); pd(s); }
/* a first delta of 2^32-130 .. 2^32-1, so that the code point counter would wrap */
void h_punyovf(void){ unsigned q=0xFFFFFFFFu-(unsigned)vp_range("d",0,129); char s[24]; int n=0; if(vp_pick("a",2)){ s[n++]='a'; s[n++]='-'; } for(unsigned k=36;;k+=36){ unsigned t=k<=73?1:k>=98?26:k-72; if(q<t) break; unsigned d=t+(q-t)%(36-t); s[n++]=(char)(d<26?d+'a':d-26+'0'); q=(q-t)/(36-t); } s[n++]=(char)(q<26?q+'a':q-26+'0'); s[n]=0; pd(s); }
