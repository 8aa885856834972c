//@mods base
//@bounds every byte string of up to 5 bytes (one at a time decoding; thorough 6), whole string validation, counting and indexing of strings of up to N bytes (quick 4, thorough 5) with the index up to 5, every 32 bit value as a code point, output buffers of 0..4 bytes
//@outside longer strings (the code works on one sequence at a time)
//@H h_dec jobs=3 reach=ok2,ok3,ok4,bad
//@H h_enc jobs=2 reach=ok,bad,small
//@H h_str q:N=4 t:N=5 jobs=6 reach=valid,invalid,idx
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 4
#endif
typedef unsigned char u8;
/* Unicode Table 3-7 (well-formed byte sequences), noncharacters rejected as the library documents; 0 when ill-formed */
static size_t wf(const u8 *s, M_uint32 *cp){ u8 a=s[0]; M_uint32 c; size_t n;
	if(a<=0x7F){ *cp=a; return 1; }
	if(a>=0xC2&&a<=0xDF){ if((s[1]&0xC0)!=0x80) return 0; *cp=((a&0x1Fu)<<6)|(s[1]&0x3F); return 2; }
	if((a&0xF0)==0xE0){ if((s[1]&0xC0)!=0x80||(s[2]&0xC0)!=0x80) return 0; if(a==0xE0&&s[1]<0xA0) return 0; if(a==0xED&&s[1]>0x9F) return 0; c=((a&0xFu)<<12)|((s[1]&0x3Fu)<<6)|(s[2]&0x3F); n=3; }
	else if(a>=0xF0&&a<=0xF4){ if((s[1]&0xC0)!=0x80||(s[2]&0xC0)!=0x80||(s[3]&0xC0)!=0x80) return 0; if(a==0xF0&&s[1]<0x90) return 0; if(a==0xF4&&s[1]>0x8F) return 0; c=((a&7u)<<18)|((s[1]&0x3Fu)<<12)|((s[2]&0x3Fu)<<6)|(s[3]&0x3F); n=4; }
	else return 0;
	if((c&0xFFFE)==0xFFFE||(c>=0xFDD0&&c<=0xFDEF)) return 0; *cp=c; return n; }
void h_dec(void){ size_t n=vp_pick("n",5), w, l=99, bs; char *s=vp_strn("s",n), *b; const char *next=s; M_uint32 cp=1, e=0; M_utf8_error_t r=M_utf8_get_cp(s,&cp,&next); if(n==0){ vp_assert(r==0&&cp==0&&next==s); return; } w=wf((u8*)s,&e); vp_assert((r==M_UTF8_ERROR_SUCCESS)==(w>0)); bs=vp_pick("bs",5); b=(char*)vp_malloc(bs); if(!w){ vp_assert(next==NULL&&cp==0); vp_assert(M_utf8_get_chr(s,b,bs,&l,&next)!=0); vp_reach("bad"); } else { size_t i; vp_assert(cp==e); vp_assert(next==s+w); vp_assert(M_utf8_is_valid_cp(cp)); vp_assert(M_utf8_next_chr(s)==s+w||((u8)s[w]&0xC0)==0x80); r=M_utf8_get_chr(s,b,bs,&l,&next); vp_assert(r==(bs&&bs<w?M_UTF8_ERROR_TRUNCATED:0)); if(r==0&&bs){ vp_assert(l==w); for(i=0;i<w;i++) vp_assert(b[i]==s[i]); } if(w==2) vp_reach("ok2"); if(w==3) vp_reach("ok3"); if(w==4) vp_reach("ok4"); } }
void h_enc(void){ M_uint32 cp=vp_u32("cp"), c2=0; int ok=cp<=0x10FFFF&&!(cp>=0xD800&&cp<=0xDFFF)&&(cp&0xFFFE)!=0xFFFE&&!(cp>=0xFDD0&&cp<=0xFDEF); size_t w=cp<0x80?1:cp<0x800?2:cp<0x10000?3:4, bs=vp_pick("bs",5), l=99; char *b=(char*)vp_malloc(bs), t[5]; M_utf8_error_t r; const char *next; vp_assert(M_utf8_is_valid_cp(cp)==ok); r=M_utf8_from_cp(b,bs,&l,cp); if(!ok){ vp_assert(r==M_UTF8_ERROR_BAD_CODE_POINT); vp_reach("bad"); return; } if(w>bs){ vp_assert(r==M_UTF8_ERROR_TRUNCATED); vp_reach("small"); return; } vp_assert(r==0&&l==w); memset(t,0,5); memcpy(t,b,w); vp_assert(M_utf8_get_cp(t,&c2,&next)==0); vp_assert(c2==cp&&next==(cp?t+w:t)); vp_reach("ok"); { M_buf_t *q=M_buf_create(); vp_assert(M_utf8_from_cp_buf(q,cp)==0&&M_buf_len(q)==w); M_buf_cancel(q); } }
void h_str(void){ size_t n=vp_pick("n",N+1), i=0, cnt=0, w, idx=vp_pick("idx",N+1), bad=99; char *s=vp_strn("s",n); M_uint32 cp[8], c=7; const char *end=NULL; int ok=1; M_utf8_error_t r; while(i<n){ w=wf((u8*)s+i,&cp[cnt]); if(!w){ ok=0; bad=i; break; } i+=w; cnt++; } vp_assert(M_utf8_is_valid(s,&end)==ok); vp_assert(end==s+(ok?n:bad)); vp_assert(M_utf8_cnt(s)==(ok?cnt:0)); r=M_utf8_cp_at(s,idx,&c); vp_assert((r==0)==(idx<cnt)); if(r==0){ char b[4]; size_t l=0; vp_assert(c==cp[idx]); vp_assert(M_utf8_chr_at(s,b,4,&l,idx)==0); vp_assert(M_utf8_get_cp(b,&c,NULL)==0||l<4); vp_reach("idx"); } if(ok) vp_reach("valid"); else vp_reach("invalid"); }
