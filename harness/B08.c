//@mods base
//@bounds destination sizes 0..N+1, source strings of up to N arbitrary bytes (quick 4, thorough 6); bracket and quote functions over every text of up to M characters drawn from brackets, quote, escape, two letters (quick 5, thorough 7), with and without a distinct escape character
//@bounds replacement: texts of up to 5 (thorough 6) characters, patterns 1..2, replacements 0..2
//@outside results of trim_max/unquote_max when max is smaller than the string (memory safety only); whether an empty replacement result is NULL or ""; justify with a source that overlaps the destination
//@H h_cpy q:N=4 t:N=6 reach=cut,fit
//@H h_cat q:N=4 t:N=6 reach=no,yes
//@H h_just q:N=4 t:N=6 jobs=2 reach=no,trunc,pad
//@H h_edit q:N=4 t:N=6 jobs=2 reach=t
//@H h_brack q:M=5 t:M=7 jobs=3 reach=ok,bad
//@H h_quoted q:M=5 t:M=7 jobs=3 reach=ok,bad
//@H h_quote q:N=4 t:N=6 jobs=2 reach=esc,need,none
//@H h_repl q:N=5 t:N=6 jobs=3 reach=hit,end
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 4
#endif
#ifndef M
#define M 5
#endif
static size_t slen(const char *s){ size_t n=0; while(s[n]) n++; return n; }
static void same(const void *a, const void *b, size_t n){ size_t i; for(i=0;i<n;i++) vp_assert(((const char*)a)[i]==((const char*)b)[i]); }
static void eqs(const char *a, const char *b){ size_t n=slen(b); vp_assert(a!=NULL); same(a,b,n+1); }
static int sp(char c){ return c==' '||(c>=9&&c<=13); }
void h_cpy(void){ size_t d=(size_t)vp_pick("d",N+2), l=(size_t)vp_pick("l",N+1), i, n; int mode=(int)vp_pick("mode",3); unsigned char *dst=vp_buf("dst",d), *old=(unsigned char*)vp_malloc(d+1); M_bool r; const char *s; memcpy(old,dst,d);
	if(mode==0){ s=vp_strn("s",l); r=M_str_cpy((char*)dst,d,s); } else if(mode==1){ s=(char*)vp_buf("s",l); r=M_str_cpy_max((char*)dst,d,s,l); } else { s=NULL; l=0; r=M_str_cpy((char*)dst,d,NULL); }
	vp_assert(r==(d!=0)); if(d==0) return; n=l<d-1?l:d-1; for(i=0;i<n;i++) vp_assert(dst[i]==(unsigned char)s[i]); vp_assert(dst[n]==0); if(n<l) vp_reach("cut"); else vp_reach("fit"); vp_assert(!M_str_cpy(NULL,d,"x")); }
void h_cat(void){ size_t d=(size_t)vp_range("d",1,N+2), a=(size_t)vp_pick("a",N+1), b=(size_t)vp_pick("b",N+1), i; char *dst=(char*)vp_malloc(d), *s=vp_strn("s",b), *p; M_bool r; vp_assume(a<d); p=vp_strn("p",a); memset(dst,'#',d); memcpy(dst,p,a+1);
	r=M_str_cat(dst,d,s); vp_assert(r==(a+b<d)); for(i=0;i<a;i++) vp_assert(dst[i]==p[i]); if(!r){ vp_assert(dst[a]==0); vp_reach("no"); } else { for(i=0;i<=b;i++) vp_assert(dst[a+i]==s[i]); vp_reach("yes"); } }
void h_just(void){ size_t d=(size_t)vp_pick("d",N+3), l=(size_t)vp_pick("l",N+1), j=(size_t)vp_pick("j",N+2), i, r, out, ll=0, off=0; int ty=(int)vp_pick("ty",12), nul=l==0?(int)vp_pick("nul",2):0; unsigned char pc=vp_u8("pc"); char *dst=(char*)vp_malloc(d), *s=nul?NULL:(char*)vp_buf("s",l); int hal, side, nt=ty==4||ty==5||ty==10, only=ty==6||ty==7; memset(dst,'#',d);
	r=M_str_justify_max(dst,d,s,l,(M_str_justify_type_t)ty,pc,j);
	if(ty>=11 || j>=d || (nt&&l>j)){ vp_assert(r==0); for(i=0;i<d;i++) vp_assert(dst[i]=='#'); vp_reach("no"); return; }
	hal=(ty==0||ty==2||ty==4)?1:(ty==8||ty==9||ty==10)?2:0; side=(ty==0||ty==1||ty==8||ty==7); out=only&&l<j?l:j;
	{ size_t take=l<out?l:out, pad=out-take; if(l>out){ vp_reach("trunc"); if(side) off=l-out; } if(hal==1) ll=pad; else if(hal==2) ll=(pad+1)/2; if(pad) vp_reach("pad");
	vp_assert(r==out); for(i=0;i<out;i++) vp_assert(i<ll||i>=ll+take ? (unsigned char)dst[i]==pc : dst[i]==s[off+i-ll]); vp_assert(dst[out]==0); } }
void h_edit(void){ size_t l=(size_t)vp_pick("l",N+1), i, k=0; int op=(int)vp_pick("op",7); char *s=vp_strn("s",l), *c=(char*)vp_malloc(l+1), *r, e[N+2]; char b=(char)vp_u8("b"), a=(char)vp_u8("a"); memcpy(c,s,l+1);
	switch(op){
	case 0: { size_t x=0,y=l; r=M_str_trim(s); while(x<l&&sp(c[x])) x++; while(y>x&&sp(c[y-1])) y--; vp_assert(r>=s&&r<=s+l); for(i=x;i<y;i++) e[k++]=c[i]; e[k]=0; eqs(r,e); vp_reach("t"); break; }
	case 1: r=M_str_delete_spaces(s); for(i=0;i<l;i++) if(!sp(c[i])) e[k++]=c[i]; e[k]=0; vp_assert(r==s); eqs(s,e); break;
	case 2: r=M_str_delete_newlines(s); for(i=0;i<l;i++) if(c[i]!='\n'&&c[i]!='\r') e[k++]=c[i]; e[k]=0; vp_assert(r==s); eqs(s,e); break;
	case 3: vp_assume(a!=0); r=M_str_replace_chr(s,b,a); vp_assert(r==s); for(i=0;i<=l;i++) vp_assert(s[i]==(i<l&&c[i]==b?a:c[i])); break;
	case 4: { size_t m=(size_t)vp_pick("m",N+2); int up=(int)vp_pick("up",2); if(m>N) r=up?M_str_upper(s):M_str_lower(s); else r=up?M_str_upper_max(s,m):M_str_lower_max(s,m); vp_assert(r==s); for(i=0;i<=l;i++){ char w=c[i]; if(i<m){ if(up&&w>='a'&&w<='z') w=(char)(w-32); if(!up&&w>='A'&&w<='Z') w=(char)(w+32); } vp_assert(s[i]==w); } break; }
	case 5: { int st=1; size_t m=(size_t)vp_pick("m",N+2); if(m>N) r=M_str_title(s); else r=M_str_title_max(s,m); vp_assert(r==s); for(i=0;i<=l;i++){ char w=c[i]; if(i<m){ if(st){ if(w>='a'&&w<='z') w=(char)(w-32); } else if(w>='A'&&w<='Z') w=(char)(w+32); } st=sp(w); vp_assert(s[i]==w); } break; }
	default: { size_t m=(size_t)vp_pick("m",N+1); r=M_str_trim_max(s,m); vp_assert(r>=s&&r<=s+l); vp_assert(slen(r)<=l); break; } } }
/* bracket functions against a direct reading of their definition */
void h_brack(void){ size_t l=(size_t)vp_pick("l",M+1), i, k=0, kk=0; int q=(int)vp_pick("q",2), depth=0, inq=0, ok=1, esc=0; char *s, *r, *r2, ro[M+2], ko[M+2];
	s=vp_stra("s",l,"()\"\\a"); for(i=0;i<l;i++) s[i]=(char)vp_conc((unsigned char)s[i]);
	for(i=0;i<l;i++){ char c=s[i]; if(q&&c=='"'&&!esc) inq=!inq; esc=(q&&c=='\\'&&!esc);
		if(!inq&&c=='('){ if(depth>0) ko[kk++]=c; depth++; } else if(!inq&&c==')'){ if(depth==0){ ok=0; break; } depth--; if(depth>0) ko[kk++]=c; } else { if(depth>0) ko[kk++]=c; else ro[k++]=c; } }
	if(depth||inq||l==0) ok=0; ro[k]=0; ko[kk]=0;
	if(q){ r=M_str_remove_bracketed_quoted(s,'(',')','"','\\'); r2=M_str_keep_bracketed_quoted(s,'(',')','"','\\'); } else { r=M_str_remove_bracketed(s,'(',')'); r2=M_str_keep_bracketed(s,'(',')'); }
	if(ok){ eqs(r,ro); eqs(r2,ko); vp_reach("ok"); } else { vp_assert(r==NULL&&r2==NULL); vp_reach("bad"); } M_free(r); M_free(r2); vp_assert(vp_heap_live()==1); vp_assert(M_str_keep_bracketed("a","x"[0],"x"[0])==NULL); }
void h_quoted(void){ size_t l=(size_t)vp_pick("l",M+1), i, k=0, kk=0; int eq=(int)vp_pick("eq",3); char *s, *r, *r2, ro[M+2], ko[M+2], e=eq==0?'\\':eq==1?0:'"'; int inq=0;
	s=vp_stra("s",l,"\"\\ab"); for(i=0;i<l;i++) s[i]=(char)vp_conc((unsigned char)s[i]);
	r=M_str_remove_quoted(s,'"',e); r2=M_str_keep_quoted(s,'"',e);
	if(eq==2){ /* quote doubles as escape: memory safety and size only */ if(r) vp_assert(slen(r)<=l); if(r2) vp_assert(slen(r2)<=l); M_free(r); M_free(r2); return; }
	for(i=0;i<l;i++){ if(e&&s[i]==e&&i+1<l&&(s[i+1]=='"'||s[i+1]==e)){ i++; if(inq) ko[kk++]=s[i]; else ro[k++]=s[i]; } else if(s[i]=='"') inq=!inq; else if(inq) ko[kk++]=s[i]; else ro[k++]=s[i]; } ro[k]=0; ko[kk]=0;
	if(l==0||inq){ vp_assert(r==NULL&&r2==NULL); vp_reach("bad"); } else { eqs(r,ro); eqs(r2,ko); vp_reach("ok"); } M_free(r); M_free(r2); vp_assert(vp_heap_live()==1); }
void h_quote(void){ size_t l=(size_t)vp_pick("l",N+1), i, k=0; char *s=vp_strn("s",l), *r, *o=(char*)1, e[2*N+4]; char esc=vp_pick("esc",2)?'\\':'"'; M_bool q; int need=0;
	r=M_str_quote(s,'"',(unsigned char)esc); if(l) e[k++]='"'; for(i=0;i<l;i++){ if(s[i]=='"'||s[i]==esc){ e[k++]=esc; vp_reach("esc"); } e[k++]=s[i]; } if(l) e[k++]='"'; e[k]=0; eqs(r,e);
	if(l==0) vp_assert(r[0]==0); else { char *u=(char*)vp_malloc(k+1); memcpy(u,r,k+1); vp_assert(M_str_unquote(u,'"',(unsigned char)esc)==u); eqs(u,s); }
	q=M_str_quote_if_necessary(&o,s,'"',(unsigned char)esc,','); if(l){ need=(s[0]==' ')|(s[l-1]==' '); for(i=0;i<l;i++) need|=(s[i]==',')|(s[i]=='"'); } vp_assert(q==need); if(q){ eqs(o,e); vp_reach("need"); M_free(o); } else { if(l) vp_assert(o==NULL); vp_reach("none"); }
	/* arbitrary text: in place and inside its storage */
	{ char *u=vp_str("u",l); size_t m=(size_t)vp_pick("m",2)?SIZE_MAX:l; char *v=M_str_unquote_max(u,'"',(unsigned char)esc,m); vp_assert(v>=u&&v<=u+l); vp_assert(slen(v)<=l); } M_free(r); }
void h_repl(void){ size_t l=(size_t)vp_pick("l",N+1), bl=(size_t)vp_range("bl",1,2), al=(size_t)vp_pick("al",3), i, j, k=0; char *s=vp_stra("s",l,"abc"), *b=vp_stra("b",bl,"ab"), *a=vp_strn("a",al), *r, e[2*N+4]; for(i=0;i<l;i++) s[i]=(char)vp_conc((unsigned char)s[i]); for(i=0;i<bl;i++) b[i]=(char)vp_conc((unsigned char)b[i]);
	for(i=0;i<l;){ int m=i+bl<=l; for(j=0;m&&j<bl;j++) m=s[i+j]==b[j]; if(m){ for(j=0;j<al;j++) e[k++]=a[j]; i+=bl; vp_reach("hit"); if(i==l) vp_reach("end"); } else e[k++]=s[i++]; } e[k]=0;
	r=M_strdup_replace_str(s,b,a); if(k) eqs(r,e); else vp_assert(r==NULL||*r==0); M_free(r); k=0; for(i=0;i<l;i++){ int m=0; for(j=0;j<bl;j++) m|=s[i]==b[j]; if(m) for(j=0;j<al;j++) e[k++]=a[j]; else e[k++]=s[i]; } e[k]=0; r=M_strdup_replace_charset(s,(unsigned char*)b,bl,a); if(k) eqs(r,e); else vp_assert(r==NULL||*r==0); M_free(r); }
