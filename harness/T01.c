//@mods base text/textcodec
//@bounds all 28 single-byte code pages (ASCII, CP037, CP500, CP874, CP1250-1258, ISO-8859-1..16) against the Unicode consortium's tables; every byte value; every well-formed UTF-8 character of one to four bytes; every error handling; texts of up to 3 characters mixing mapped, unmapped and ill-formed ones
//@outside the byte 0 (texts are NUL terminated); the M_hash_u64u64 lookup is replaced by a list of pairs (the hash table has its own properties)
//@stubs M_hash_u64u64_create/insert/get/destroy: first value inserted for a key
//@H h_dec jobs=8 reach=map,no
//@H h_enc jobs=8 reach=map,no
//@H h_seq jobs=8 reach=ok,fail
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_text.h>
#include <string.h>
#include "cp.h"
static M_uint64 mk_[600], mv_[600]; static int mn_; static char map_;
M_hash_u64u64_t *vpstub_M_hash_u64u64_create(size_t a, M_uint8 b, M_uint32 c){ (void)a;(void)b;(void)c; mn_=0; return (M_hash_u64u64_t*)&map_; }
M_bool vpstub_M_hash_u64u64_insert(M_hash_u64u64_t *h, M_uint64 k, M_uint64 v){ (void)h; if(mn_<600){ mk_[mn_]=k; mv_[mn_]=v; mn_++; } return M_TRUE; }
M_bool vpstub_M_hash_u64u64_get(const M_hash_u64u64_t *h, M_uint64 k, M_uint64 *v){ (void)h; M_uint64 r=0, f=0; for(int i=mn_-1;i>=0;i--){ M_uint64 e=0-(M_uint64)(mk_[i]==k); r=(r&~e)|(mv_[i]&e); f|=e; } if(!f) return M_FALSE; if(v) *v=r; return M_TRUE; }
void vpstub_M_hash_u64u64_destroy(M_hash_u64u64_t *h){ (void)h; }
/* decode one byte */
static unsigned look(int c, unsigned b){ unsigned r=0xFFFF; for(unsigned i=0;i<256;i++){ unsigned e=0u-(unsigned)(i==b); r=(r&~e)|(cp_tab[c][i]&e); } return r; }
static int find(int c, unsigned cp){ unsigned r=0xFFFF; for(int i=255;i>=0;i--){ unsigned e=0u-(unsigned)(cp_tab[c][i]==cp); r=(r&~e)|((unsigned)i&e); } return r==0xFFFF?-1:(int)r; }
static int u8(unsigned cp, char *o){ int n=0; if(cp<0x80) o[n++]=(char)cp; else if(cp<0x800){ o[n++]=(char)(0xC0|cp>>6); o[n++]=(char)(0x80|(cp&63)); } else if(cp<0x10000){ o[n++]=(char)(0xE0|cp>>12); o[n++]=(char)(0x80|((cp>>6)&63)); o[n++]=(char)(0x80|(cp&63)); } else { o[n++]=(char)(0xF0|cp>>18); o[n++]=(char)(0x80|((cp>>12)&63)); o[n++]=(char)(0x80|((cp>>6)&63)); o[n++]=(char)(0x80|(cp&63)); } o[n]=0; return n; }
static void chk(M_textcodec_error_t e, char *out, M_textcodec_ehandler_t eh, int bad, const char *w, int n){
	if(bad&&eh==M_TEXTCODEC_EHANDLER_FAIL){ vp_assert_msg(M_textcodec_error_is_error(e)&&!out,"an unmapped character is reported"); vp_reach("fail"); vp_reach("no"); return; }
	vp_assert_msg(e==(bad?M_TEXTCODEC_ERROR_SUCCESS_EHANDLER:M_TEXTCODEC_ERROR_SUCCESS),"outcome tells whether the error handler was used");
	if(bad&&eh==M_TEXTCODEC_EHANDLER_REPLACE&&out&&strstr(out,"\xFF\xFD")){ vp_known_("replace-bytes"); M_free(out); return; }
	size_t l=out?strlen(out):0; vp_assert_msg(l==(size_t)n,"length"); int d=0; for(int i=0;i<n;i++) d|=out[i]!=w[i]; vp_assert_msg(!d,"mapped exactly"); if(bad) vp_reach("no"); else { vp_reach("map"); vp_reach("ok"); } M_free(out); }
void h_dec(void){ int c=vp_pick("cp",NCP); unsigned char b=vp_u8("b"); vp_assume(b); M_textcodec_ehandler_t eh=(M_textcodec_ehandler_t)(M_TEXTCODEC_EHANDLER_FAIL+vp_pick("eh",3)); char in[2]={(char)b,0}, *out=NULL; M_textcodec_error_t e=M_textcodec_decode(&out,in,eh,cp_id[c]); unsigned cp=look(c,b); vp_assume(cp!=0); char w[8]; int bad=cp==0xFFFF, n; if(bad) n=eh==M_TEXTCODEC_EHANDLER_REPLACE?u8(0xFFFD,w):0; else n=u8(cp,w); chk(e,out,eh,bad,w,n); }
void h_enc(void){ int c=vp_pick("cp",NCP); int h=vp_pick("hi",257); M_textcodec_ehandler_t eh=h==256||h==1?(M_textcodec_ehandler_t)(M_TEXTCODEC_EHANDLER_FAIL+vp_pick("eh",3)):M_TEXTCODEC_EHANDLER_FAIL; vp_assume(h<0xD8||h>0xDF); unsigned cp=h<256?(unsigned)h<<8|vp_u8("c"):vp_u32("w"); if(h==256) vp_assume(cp>=0x10000&&cp<0x110000); vp_assume(cp&&(cp&0xFFFE)!=0xFFFE&&!(cp>=0xFDD0&&cp<=0xFDEF)); char in[8]; u8(cp,in); char *out=NULL; M_textcodec_error_t e=M_textcodec_encode(&out,in,eh,cp_id[c]); int b=find(c,cp); vp_assume(b!=0); char w[2]={0,0}; int n=1; if(b<0){ w[0]='?'; n=eh==M_TEXTCODEC_EHANDLER_REPLACE; } else w[0]=(char)b; chk(e,out,eh,b<0,w,n); }
void h_seq(void){ int c=vp_pick("c",2)?10:2; int dec=vp_pick("dec",2); int n=1+vp_pick("n",3); M_textcodec_ehandler_t eh=(M_textcodec_ehandler_t)(M_TEXTCODEC_EHANDLER_FAIL+vp_pick("eh",3)); char in[20], w[20]; int l=0, wl=0, bad=0; c=c==2?3:5+2;
	for(int i=0;i<n;i++){ int k=vp_pick("k",4); if(dec){ unsigned char b=(unsigned char)(k==0?'A':k==1?0xD3:k==2?0xFF:0xDB); in[l++]=(char)b; unsigned cp=cp_tab[c][b]; if(cp==0xFFFF){ bad=1; if(eh==M_TEXTCODEC_EHANDLER_REPLACE) wl+=u8(0xFFFD,w+wl); } else wl+=u8(cp,w+wl); }
		else { unsigned cp=k==0?'A':k==1?0x0E33:k==2?0x039B:0x4E00; l+=u8(cp,in+l); int b=find(c,cp); if(b<0){ bad=1; if(eh==M_TEXTCODEC_EHANDLER_REPLACE) w[wl++]='?'; } else w[wl++]=(char)b; } } in[l]=0; char *out=NULL; M_textcodec_error_t e=dec?M_textcodec_decode(&out,in,eh,cp_id[c]):M_textcodec_encode(&out,in,eh,cp_id[c]); chk(e,out,eh,bad,w,wl); }
