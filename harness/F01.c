//@mods base formats/json
//@env env_time
//@bounds every text of exactly 1 to N characters over {}[],:"a1 and space and every one over a second alphabet with literals, comments and line ends, against an independent reference reader, with and without comments and unique keys; every string body of up to S symbolic bytes over quote, backslash, escapes, hex digits and control characters and every \u escape and surrogate pair of symbolic hex digits, with all string flags; every number text of up to D characters; every byte string of up to M bytes with every flag combination for memory safety and error positions
//@outside vertical tab and form feed are accepted as white space; texts with an embedded NUL outside strings beyond the byte-level check; nesting deeper than N brackets (the reader recurses without a limit)
//@H h_any q:N=6 t:N=8 jobs=8 reach=ok,bad
//@H h_lit q:N=3 t:N=4 jobs=8 reach=ok,bad
//@H h_str q:S=4 t:S=5 jobs=8 reach=ok,bad
//@H h_uni jobs=8 reach=ok,bad
//@H h_num q:D=4 t:D=5 jobs=8 reach=ok,bad
//@H h_mem q:M=3 t:M=4 jobs=8 reach=ok,bad
//@H h_part q:N=4 t:N=5 jobs=8 reach=part
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_formats.h>
#include <string.h>
#ifndef N
#define N 5
#endif
#ifndef S
#define S 4
#endif
#ifndef D
#define D 5
#endif
#ifndef M
#define M 3
#endif
/* reference: recursive descent over the text, comparing with the tree as it goes */
typedef struct { int t; long long i; char s[20]; int n; struct { char k[20]; int v; } m[8]; } nd_t;
static nd_t nd[24]; static int nn; static const char *rp, *re_; static int rcom, runiq, hasempty;
static int fail_(void){ return -1; }
static int ws(void){ for(;;){ while(rp<re_&&vp_in(*rp," \n\r\t\v\f")) rp++; if(rcom&&re_-rp>=2&&rp[0]=='/'&&rp[1]=='*'){ const char *e=rp+2; while(e+1<re_&&!(e[0]=='*'&&e[1]=='/')) e++; if(e+1>=re_) return 0; rp=e+2; } else if(rcom&&re_-rp>=2&&rp[0]=='/'&&rp[1]=='/'){ while(rp<re_&&*rp!='\n') rp++; } else return 1; } }
static int rstr(char *o){ rp++; int n=0; for(;;){ if(rp>=re_) return 0; char c=*rp; if(c=='"'){ rp++; o[n]=0; return 1; } if((unsigned char)c<32||c=='\\') return 0; o[n++]=c; rp++; } }
static int isnum(char c){ return c>='0'&&c<='9'; }
static int val(void){ if(!ws()) return -1; if(rp>=re_) return -1; int id=nn++; nd_t *x=&nd[id]; x->n=0; char c=*rp; if(c=='{'||c=='['){ char cl=c=='{'?'}':']'; x->t=c; rp++; if(!ws()) return -1; if(rp<re_&&*rp==cl){ rp++; return id; } for(;;){ char k[20]; if(!ws()) return -1; if(c=='{'){ if(rp>=re_||*rp!='"'||!rstr(k)) return -1; if(!ws()||rp>=re_||*rp!=':') return -1; rp++; } int v=val(); if(v<0) return -1; int j=x->n; if(c=='{'){ for(j=0;j<x->n&&strcmp(x->m[j].k,k);j++); if(!*k) hasempty=1; if(j<x->n&&runiq) return -1; strcpy(x->m[j].k,k); } x->m[j].v=v; if(j==x->n) x->n++; if(!ws()||rp>=re_) return -1; if(*rp==cl){ rp++; return id; } if(*rp!=',') return -1; rp++; } }
	if(c=='"'){ x->t='s'; return rstr(x->s)?id:-1; }
	if(isnum(c)||c=='-'){ x->t='i'; int ng=0; if(c=='-'){ ng=1; rp++; } if(rp>=re_||!isnum(*rp)) return -1; if(*rp=='0'&&rp+1<re_&&isnum(rp[1])) return -1; x->i=0; while(rp<re_&&isnum(*rp)) x->i=x->i*10+(*rp++-'0'); if(ng) x->i=-x->i; return id; }
	static const char *lw[3]={"true","false","null"}; for(int k=0;k<3;k++){ int l=(int)strlen(lw[k]), j=0; while(j<l&&rp+j<re_&&rp[j]==lw[k][j]) j++; if(j==l){ rp+=l; x->t="TFN"[k]; return id; } } return -1; }
static int refread(const char *s, int n, int com, int uniq){ rp=s; re_=s+n; nn=0; hasempty=0; rcom=com; runiq=uniq; int r=val(); if(r<0||(nd[r].t!='{'&&nd[r].t!='[')) return -1; if(!ws()) return -1; return r; }
static void same(const M_json_node_t *j, int id, const M_json_node_t *par){ nd_t *x=&nd[id]; vp_assert_msg(j!=NULL,"node present"); vp_assert_msg(M_json_get_parent(j)==par,"parent of a node"); M_json_type_t t=M_json_node_type(j); switch(x->t){ case 'T': case 'F': vp_assert_msg(t==M_JSON_TYPE_BOOL&&M_json_get_bool(j)==(x->t=='T'),"boolean"); break; case 'N': vp_assert_msg(t==M_JSON_TYPE_NULL,"null"); break; case 's': vp_assert_msg(t==M_JSON_TYPE_STRING&&!strcmp(M_json_get_string(j),x->s),"string"); break; case 'i': vp_assert_msg(t==M_JSON_TYPE_INTEGER&&M_json_get_int(j)==x->i,"integer"); break; case '[': vp_assert_msg(t==M_JSON_TYPE_ARRAY&&M_json_array_len(j)==(size_t)x->n,"array length"); for(int i=0;i<x->n;i++) same(M_json_array_at(j,(size_t)i),x->m[i].v,j); break; default: { vp_assert_msg(t==M_JSON_TYPE_OBJECT,"object"); M_list_str_t *k=M_json_object_keys(j); vp_assert_msg(M_list_str_len(k)==(size_t)x->n,"object members"); M_list_str_destroy(k); for(int i=0;i<x->n;i++) same(M_json_object_value(j,x->m[i].k),x->m[i].v,j); } } }
static void go(const char *s, int n){ int f=vp_pick("f",3); M_uint32 fl=f==1?M_JSON_READER_DISALLOW_COMMENTS:f==2?M_JSON_READER_OBJECT_UNIQUE_KEYS:0; M_json_error_t e=99; M_json_node_t *j=M_json_read(s,(size_t)n,fl,NULL,&e,NULL,NULL); int r=refread(s,n,f!=1,f==2); if(r>=0&&rp<re_) r=-1; vp_assert_msg((j!=NULL)==(r>=0),"accepted exactly when it is JSON"); vp_assert_msg((j!=NULL)==(e==M_JSON_ERROR_SUCCESS),"an error is reported exactly when nothing is returned"); if(j){ if(hasempty){ vp_known_("empty-member-name"); return; } same(j,r,NULL); M_json_node_destroy(j); vp_reach("ok"); } else vp_reach("bad"); }
void h_any(void){ int n=1+vp_pick("n",N); char *s=vp_stra("s",(size_t)n,"{}[],:\"a1 "); go(s,n); }
void h_lit(void){ static const char *tk[]={"true","fals","null","1","/*x*/","//y","\n"," ","\t","[",",","-","\"b\"","/",":"}; int n=vp_pick("n",N)+1; M_buf_t *b=M_buf_create(); int ob=vp_pick("ob",2); M_buf_add_str(b,ob?"{\"k\":":"["); for(int i=0;i<n;i++) M_buf_add_str(b,tk[vp_pick("t",15)]); M_buf_add_str(b,ob?"}":"]"); size_t l; char *s=M_buf_finish_str(b,&l); go(s,(int)l); M_free(s); }
/* string bodies */
static int enc(char *o, unsigned c){ if(c<0x80){ o[0]=(char)c; return 1; } if(c<0x800){ o[0]=(char)(0xC0|c>>6); o[1]=(char)(0x80|(c&63)); return 2; } if(c<0x10000){ o[0]=(char)(0xE0|c>>12); o[1]=(char)(0x80|(c>>6&63)); o[2]=(char)(0x80|(c&63)); return 3; } o[0]=(char)(0xF0|c>>18); o[1]=(char)(0x80|(c>>12&63)); o[2]=(char)(0x80|(c>>6&63)); o[3]=(char)(0x80|(c&63)); return 4; }
static int hex(char c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
static int h4(const char *s, const char *e){ int v=0; if(e-s<4) return -1; for(int i=0;i<4;i++){ int h=hex(s[i]); if(h<0) return -1; v=v*16+h; } return v; }
/* returns length of the value, -1 when the text must be refused; *fuzzy when only replacement flags accept it */
static int refstr(const char *s, int n, char *o, int raw, int *bad){ const char *e=s+n; int l=0; *bad=0; while(s<e){ unsigned char c=(unsigned char)*s; if(c<32){ *bad=1; o[l++]='?'; s++; continue; } if(c=='"') return -1; if(c!='\\'){ o[l++]=(char)c; s++; continue; } if(s+1>=e) return -1; char k=s[1]; static const char fr[]="\"\\/bfnrt", to[]="\"\\/\b\f\n\r\t"; int i; for(i=0;i<8;i++) if(k==fr[i]) break; if(i<8){ o[l++]=to[i]; s+=2; continue; } if(k!='u') return -1; int u=h4(s+2,e), len=6; if(u>=0xD800&&u<=0xDBFF&&e-s>=12&&s[6]=='\\'&&s[7]=='u'){ int v=h4(s+8,e); if(v>=0xDC00&&v<=0xDFFF){ u=0x10000+((u-0xD800)<<10)+(v-0xDC00); len=12; } } if(u<=0||(u>=0xD800&&u<=0xDFFF)||(u&0xFFFE)==0xFFFE||(u>=0xFDD0&&u<=0xFDEF)){ *bad=1; o[l++]='?'; s+=2; for(i=0;i<4&&s<e&&hex(*s)>=0;i++) s++; continue; } if(raw){ for(i=0;i<len;i++) o[l++]=s[i]; } else l+=enc(o+l,(unsigned)u); s+=len; } return l; }
static void strgo(const char *body, int n){ char t[48]; t[0]='['; t[1]='"'; memcpy(t+2,body,(size_t)n); t[n+2]='"'; t[n+3]=']'; int raw=vp_pick("raw",2), rpl=vp_pick("rpl",2); M_json_error_t e; M_json_node_t *j=M_json_read(t,(size_t)n+4,(raw?M_JSON_READER_DONT_DECODE_UNICODE:0)|(rpl?M_JSON_READER_REPLACE_BAD_CHARS:0),NULL,&e,NULL,NULL); char o[64]; int bad, l=refstr(body,n,o,raw,&bad); int ok=l>=0&&(!bad||rpl); vp_assert_msg((j!=NULL)==ok,"string accepted exactly when it is a JSON string"); if(j){ const char *g=M_json_get_string(M_json_array_at(j,0)); vp_assert_msg(strlen(g)==(size_t)l&&!memcmp(g,o,(size_t)l),"decoded value"); M_json_node_destroy(j); vp_reach("ok"); } else vp_reach("bad"); }
void h_str(void){ int n=1+vp_pick("n",S); char *b=vp_stra("b",(size_t)n,"\"\\/bfnrtu0d\x01\n \x1f\xc3"); strgo(b,n); }
static void hv(char *o, M_uint16 v){ for(int i=0;i<4;i++){ int d=(v>>(12-4*i))&15; o[i]=(char)(d<10?'0'+d:(d==11?'B':'a'+d-10)); } }
void h_uni(void){ static const M_uint16 vs[4]={0xDC00,0xDFFF,0xDBFF,0xE000}, us[3]={0xDBFF,0xDC00,0xD7FF}; char b[16]; int k=vp_pick("k",4); memcpy(b,"\\uD83D\\uDe00",12); if(k==0||k==1) hv(b+2,vp_u16("u")); if(k==0){ strgo(b,6); return; } if(k==1) hv(b+8,vs[vp_pick("vs",4)]); if(k==2){ hv(b+2,us[vp_pick("us",3)]); hv(b+8,vp_u16("v")); } if(k<3){ strgo(b,12); return; } int c=vp_pick("cut",12); if(vp_pick("del",2)){ strgo(b,c); return; } b[c]=(char)vp_u8("x"); vp_assume(b[c]!=0); strgo(b,12); }
/* numbers */
static int refnum(const char *s, int n, int *dec, int *ex){ int i=0; *dec=0; *ex=0; if(i<n&&s[i]=='-') i++; if(i>=n||!isnum(s[i])) return 0; if(s[i]=='0'&&i+1<n&&isnum(s[i+1])) return 0; while(i<n&&isnum(s[i])) i++; if(i<n&&s[i]=='.'){ *dec=1; i++; if(i>=n||!isnum(s[i])) return 0; while(i<n&&isnum(s[i])) i++; } if(i<n&&(s[i]=='e'||s[i]=='E')){ *ex=1; i++; if(i<n&&(s[i]=='-'||s[i]=='+')) i++; if(i>=n||!isnum(s[i])) return 0; while(i<n&&isnum(s[i])) i++; } return i==n; }
void h_num(void){ int n=1+vp_pick("n",D); char t[24]; t[0]='['; char *s=vp_stra("s",(size_t)n,"0159-+.eE"); memcpy(t+1,s,(size_t)n); t[n+1]=']'; M_json_error_t e; M_json_node_t *j=M_json_read(t,(size_t)n+2,0,NULL,&e,NULL,NULL); int dec, ex, ok=refnum(s,n,&dec,&ex); if(!ok) vp_assert_msg(!j,"malformed number refused"); else if(!ex){ vp_assert_msg(j!=NULL,"number accepted"); const M_json_node_t *x=M_json_array_at(j,0); long long m=0; int nd_=0, dot=0; for(int i=0;i<n;i++){ if(s[i]=='.') dot=1; else if(s[i]!='-'){ m=m*10+(s[i]-'0'); if(dot) nd_++; } } if(s[0]=='-') m=-m; if(!dec) vp_assert_msg(M_json_node_type(x)==M_JSON_TYPE_INTEGER&&M_json_get_int(x)==m,"integer value"); else if(M_json_node_type(x)==M_JSON_TYPE_DECIMAL){ const M_decimal_t *d=M_json_get_decimal(x); long long g=M_decimal_to_int(d,(M_uint8)nd_); vp_assert_msg(g==m,"decimal value"); } else { while(nd_>0){ vp_assert_msg(m%10==0,"no digits lost"); m/=10; nd_--; } vp_assert_msg(M_json_node_type(x)==M_JSON_TYPE_INTEGER&&M_json_get_int(x)==m,"whole decimal"); } } if(j){ M_json_node_destroy(j); vp_reach("ok"); } else vp_reach("bad"); }
/* any bytes, any flags */
void h_mem(void){ int n=1+vp_pick("n",M); unsigned char *s=vp_buf("s",(size_t)n); int w=vp_pick("w",3); char *t=M_malloc((size_t)n+2); size_t l=0; if(w) t[l++]="[{"[w-1]; memcpy(t+l,s,(size_t)n); l+=(size_t)n; char *x=M_malloc(l); memcpy(x,t,l); M_free(t); M_uint32 fl=0; int f=vp_pick("f",4); if(f==1) fl=M_JSON_READER_REPLACE_BAD_CHARS; if(f==2) fl=M_JSON_READER_DISALLOW_COMMENTS|M_JSON_READER_ALLOW_DECIMAL_TRUNCATION; if(f==3) fl=M_JSON_READER_REPLACE_BAD_CHARS|M_JSON_READER_DONT_DECODE_UNICODE|M_JSON_READER_OBJECT_UNIQUE_KEYS; M_json_error_t e; size_t ln=99, ps=99, pl=0; int part=vp_pick("part",2); M_json_node_t *j=M_json_read(x,l,fl,part?&pl:NULL,&e,&ln,&ps); vp_assert_msg((j!=NULL)==(e==M_JSON_ERROR_SUCCESS),"result and error agree"); if(j){ if(part) vp_assert_msg(pl>=2&&pl<=l,"processed length inside the text"); M_json_node_destroy(j); vp_reach("ok"); } else { size_t nl=1; for(size_t i=0;i<l;i++) if(x[i]=='\n') nl++; vp_assert_msg(ln>=1&&ln<=nl&&ps>=1&&ps<=l+1,"error position inside the text"); vp_reach("bad"); } M_free(x); }
/* a text followed by more data */
void h_part(void){ static const char *tx[3]={"[1]","{\"a\":[]}","[ ]"}; const char *b=tx[vp_pick("tx",3)]; char t[40]; size_t l=strlen(b); int lead=vp_pick("lead",2); memcpy(t,"  ",2); memcpy(t+2*lead,b,l); l+=2*(size_t)lead; int n=vp_pick("n",N); char *s=vp_stra("s",(size_t)n," \n/*[x"); memcpy(t+l,s,(size_t)n); M_json_error_t e; size_t pl=77; M_json_node_t *j=M_json_read(t,l+(size_t)n,M_JSON_READER_DISALLOW_COMMENTS,&pl,&e,NULL,NULL); size_t w=0; while(w<(size_t)n&&vp_in(s[w]," \n")) w++; vp_assert_msg(j&&pl==l+w,"one text and the white space after it are processed"); M_json_node_destroy(j); vp_reach("part"); }
