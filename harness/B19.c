//@mods base
//@bounds every code point (0..0x10FFFF, one path per uniform range of the Unicode character database, the code point symbolic inside it): all nine class predicates against the database's general categories, and the three case mappings against its one-to-one mappings with idempotence; string forms for every two character sequence taken from 24 representative characters and for ill-formed bytes
//@outside characters without one-to-one mapping (only required to be stable), code points unassigned in the database version, Other_Lowercase and similar derived additions (the library uses general categories)
//@H h_class jobs=7 time=600 reach=lower,upper,alpha,num,punct,none
//@H h_case jobs=7 time=600 reach=up,low
//@H h_strs jobs=2 reach=bad,good
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include "ucd.h"
typedef unsigned char u8;
void h_class(void){ size_t r=vp_pick("range",UCDN); M_uint32 cp=vp_u32("cp"); const char *k=UCD[r].c; int C=k[0], v=C!='X', lo, up, al, nu, pu, cn, pr, an; vp_assume(cp>=UCD[r].a&&cp<=UCD[r].b); if(UCD[r].a==UCD[r].b) cp=UCD[r].a; if(k[0]=='C'&&(k[1]=='n'||k[1]=='o')) vp_end();
	lo=k[0]=='L'&&k[1]=='l'; up=k[0]=='L'&&k[1]=='u'; al=C=='L'||(C=='N'&&k[1]=='l'); nu=C=='N'; an=al||nu; pu=C=='P'; cn=C=='C'&&k[1]=='c'; pr=C=='L'||C=='N'||C=='P'||C=='M'||C=='S';
	vp_assert(M_utf8_is_valid_cp(cp)==v); vp_assert(M_utf8_islower_cp(cp)==lo); vp_assert(M_utf8_isupper_cp(cp)==up); vp_assert(M_utf8_isalpha_cp(cp)==al); vp_assert(M_utf8_isnum_cp(cp)==nu); vp_assert(M_utf8_isalnum_cp(cp)==an); vp_assert(M_utf8_ispunct_cp(cp)==pu); vp_assert(M_utf8_iscntrl_cp(cp)==cn); if(C!='Z'&&C!='C') vp_assert(M_utf8_isprint_cp(cp)==pr);
	if(lo) vp_reach("lower"); if(up) vp_reach("upper"); if(al) vp_reach("alpha"); if(nu) vp_reach("num"); if(pu) vp_reach("punct"); if(!pr) vp_reach("none"); }
void h_case(void){ size_t r=vp_pick("range",UCDN); M_uint32 cp=vp_u32("cp"), a=1, b=2; unsigned w=(unsigned)vp_pick("w",3); int d=w==0?UCD[r].u:w==1?UCD[r].l:UCD[r].t; M_utf8_error_t (*f)(M_uint32,M_uint32*)=w==0?M_utf8_toupper_cp:w==1?M_utf8_tolower_cp:M_utf8_totitle_cp, e; vp_assume(cp>=UCD[r].a&&cp<=UCD[r].b); if(UCD[r].a==UCD[r].b) cp=UCD[r].a; e=f(cp,&a); if(UCD[r].c[0]=='X'){ vp_assert(e==M_UTF8_ERROR_BAD_CODE_POINT); vp_end(); } vp_assert(e==0); if(d!=UD) vp_assert(a==(M_uint32)((int)cp+d)); vp_assert(f(a,&b)==0); vp_assert(a==b); if(a!=cp){ vp_reach(w==1?"low":"up"); vp_assert(w==1?!M_utf8_isupper_cp(a):!M_utf8_islower_cp(a)||w==2); } }
static const M_uint32 R[]={'a','Z','0','_',' ',9,0x7F,0xE9,0xC9,0x1C5,0x1C4,0x3B1,0x3A9,0x663,0x2160,0x4E01,0xAC01,0x2014,0x301,0x20AC,0x10428,0x10400,0x1F600,0x200B};
void h_strs(void){ char s[12], *q=NULL; size_t l=0, n=0, i; M_uint32 c[2], m; unsigned w=(unsigned)vp_pick("w",12); int bad=(int)vp_pick("bad",2), all=1, each; const char *next; for(i=0;i<2;i++){ c[i]=R[vp_pick(i?"c1":"c0",24)]; M_utf8_from_cp(s+n,4,&l,c[i]); n+=l; } if(bad) s[n++]=(char)0xC3; s[n]=0;
	if(w<3){ M_buf_t *b=M_buf_create(); M_utf8_error_t e=w==0?M_utf8_toupper(s,&q):w==1?M_utf8_tolower(s,&q):M_utf8_totitle(s,&q); for(i=0;i<2;i++){ if(w==0) M_utf8_toupper_cp(c[i],&m); else if(w==1) M_utf8_tolower_cp(c[i],&m); else M_utf8_totitle_cp(c[i],&m); M_utf8_from_cp_buf(b,m); } vp_assert((e==0)==!bad); if(e==0){ vp_assert(q&&M_str_eq(q,M_buf_peek(b))); vp_reach("good"); { char o[4]; l=9; vp_assert((w==0?M_utf8_toupper_chr(s,o,4,&l,&next):w==1?M_utf8_tolower_chr(s,o,4,&l,&next):M_utf8_totitle_chr(s,o,4,&l,&next))==0); vp_assert(l<=M_buf_len(b)&&M_mem_eq(o,M_buf_peek(b),l)); } } else vp_reach("bad"); M_free(q); M_buf_cancel(b); return; }
	{ static M_bool (*const P[])(M_uint32)={M_utf8_islower_cp,M_utf8_isupper_cp,M_utf8_isalpha_cp,M_utf8_isalnum_cp,M_utf8_isnum_cp,M_utf8_iscntrl_cp,M_utf8_ispunct_cp,M_utf8_isprint_cp,M_utf8_isunihan_cp}; static M_bool (*const S[])(const char*)={M_utf8_islower,M_utf8_isupper,M_utf8_isalpha,M_utf8_isalnum,M_utf8_isnum,M_utf8_iscntrl,M_utf8_ispunct,M_utf8_isprint,M_utf8_isunihan}; static M_bool (*const H[])(const char*,const char**)={M_utf8_islower_chr,M_utf8_isupper_chr,M_utf8_isalpha_chr,M_utf8_isalnum_chr,M_utf8_isnum_chr,M_utf8_iscntrl_chr,M_utf8_ispunct_chr,M_utf8_isprint_chr,M_utf8_isunihan_chr}; w-=3; for(i=0;i<2;i++) all&=P[w](c[i]); each=P[w](c[0]); vp_assert(S[w](s)==(all&&!bad)); vp_assert(H[w](s,&next)==each); } }
