//@mods base
//@bounds every byte value for the character functions; whole strings of up to N arbitrary bytes with every limit (quick 3, thorough 4)
//@H h_chr reach=ok
//@H h_str q:N=3 t:N=4 jobs=3 reach=yes,no
//@H h_misc q:N=4 t:N=5 jobs=3 reach=money,str,true
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 3
#endif
enum { A=1,D=2,SP=4 };
static int cls(int k, unsigned char c){ int lo=c>='a'&&c<='z', up=c>='A'&&c<='Z', dg=c>='0'&&c<='9', al=lo||up, ws=c==' '||(c>=9&&c<=13), gr=c>32&&c<127;
	switch(k){ case 0: return al||dg; case 1: return al||dg||c==' '; case 2: return al; case 3: return al||c==' '; case 4: return ws; case 5: return gr; case 6: return gr||ws; case 7: return dg||(c>='a'&&c<='f')||(c>='A'&&c<='F'); case 8: return dg; case 9: return dg||c=='.'; case 10: return c<128; case 11: return c<32||c==127; case 12: return c==' '||c==9; case 13: return lo; case 14: return up; default: return gr&&!al&&!dg; } }
static M_bool impl(int k, char c){ switch(k){ case 0: return M_chr_isalnum(c); case 1: return M_chr_isalnumsp(c); case 2: return M_chr_isalpha(c); case 3: return M_chr_isalphasp(c); case 4: return M_chr_isspace(c); case 5: return M_chr_isgraph(c); case 6: return M_chr_isprint(c); case 7: return M_chr_ishex(c); case 8: return M_chr_isdigit(c); case 9: return M_chr_isdec(c); case 10: return M_chr_isascii(c); case 11: return M_chr_iscntrl(c); case 12: return M_chr_isblank(c); case 13: return M_chr_islower(c); case 14: return M_chr_isupper(c); default: return M_chr_ispunct(c); } }
void h_chr(void){ unsigned char c=vp_u8("c"); int k; char o; for(k=0;k<16;k++) vp_assert(impl(k,(char)c)==cls(k,c));
	vp_assert(M_chr_toupper((char)c)==(char)(cls(13,c)?c-32:c)); vp_assert(M_chr_tolower((char)c)==(char)(cls(14,c)?c+32:c)); vp_assert(M_chr_digit((char)c)==(cls(8,c)?c-'0':-1)); { int h=-1; if(c>='0'&&c<='9') h=c-'0'; else if(c>='a'&&c<='f') h=c-'a'+10; else if(c>='A'&&c<='F') h=c-'A'+10; vp_assert(M_chr_xdigit((char)c)==h); } (void)o; vp_reach("ok"); }
void h_str(void){ size_t l=(size_t)vp_pick("l",N+1), m=(size_t)vp_pick("m",N+2), i, n; int k=(int)vp_pick("k",11), e=1; M_bool r; char *s; if(m<=N&&m<=l){ s=(char*)vp_buf("s",l); for(i=0;i<l;i++) vp_assume(s[i]!=0); } else s=vp_strn("s",l); n=m<=N&&m<l?m:l; for(i=0;i<n;i++) e&=cls(k,(unsigned char)s[i]);
	if(m>N) switch(k){ case 0: r=M_str_isalnum(s); break; case 1: r=M_str_isalnumsp(s); break; case 2: r=M_str_isalpha(s); break; case 3: r=M_str_isalphasp(s); break; case 4: r=M_str_isspace(s); break; case 5: r=M_str_isgraph(s); break; case 6: r=M_str_isprint(s); break; case 7: r=M_str_ishex(s); break; case 8: r=M_str_isnum(s); break; case 9: r=M_str_isdec(s); break; default: r=M_str_isascii(s); }
	else switch(k){ case 0: r=M_str_isalnum_max(s,m); break; case 1: r=M_str_isalnumsp_max(s,m); break; case 2: r=M_str_isalpha_max(s,m); break; case 3: r=M_str_isalphasp_max(s,m); break; case 4: r=M_str_isspace_max(s,m); break; case 5: r=M_str_isgraph_max(s,m); break; case 6: r=M_str_isprint_max(s,m); break; case 7: r=M_str_ishex_max(s,m); break; case 8: r=M_str_isnum_max(s,m); break; case 9: r=M_str_isdec_max(s,m); break; default: r=M_str_ispredicate_max(s,m,M_chr_isascii); }
	vp_assert(r==e); if(e) vp_reach("yes"); else vp_reach("no"); }
void h_misc(void){ int op=(int)vp_pick("op",3); size_t l=(size_t)vp_pick("l",N+1), i; char *s;
	if(op==0){ int e=1, dots=0, dec=0; s=vp_strn("s",l); for(i=0;i<l;i++){ if(s[i]=='.') dots++; else if(s[i]>='0'&&s[i]<='9'){ if(dots) dec++; } else e=0; } if(dots>1||dec>2||l==0) e=0; vp_assert(M_str_ismoney(s)==e); if(e) vp_reach("money"); }
	else if(op==1){ int e; unsigned char *b=vp_buf("b",l); e=l>0&&b[l-1]==0; for(i=0;i+1<l;i++) if(!cls(6,b[i])) e=0; vp_assert(M_str_isstr(b,l)==e); if(e) vp_reach("str"); }
	else { static const char *t[]={"t","true","y","yes","1","on"}; int e=0; size_t j,k; s=vp_strn("s",l); for(k=0;k<6;k++){ int m=strlen(t[k])==l; for(j=0;m&&j<l;j++){ char c=s[j]; if(c>='A'&&c<='Z') c=(char)(c+32); m=c==t[k][j]; } e|=m; } vp_assert(M_str_istrue(s)==e); if(e) vp_reach("true"); } }
