//@mods base
//@bounds ASCII integers: every text of up to N characters (quick 4, thorough 5) over digits, sign, hex letters, 'x' and a separator with every requested length and bases 0, 8, 10, 16; binary integers: every 1..9 requested bytes of every content up to 8 symbolic bytes in both byte orders; BCD: every content of up to 2 symbolic bytes and picked 10 byte ones; decimals: every text of up to N characters over digits, sign, point and a letter; numbers appended to a buffer with symbolic value
//@outside numbers in other bases, longer digit strings
//@H h_ascii q:N=4 t:N=5 jobs=4 reach=ok,neg,bad,exact
//@H h_bin jobs=2 reach=ok,short
//@H h_bcd jobs=2 reach=ok,bad
//@H h_dec q:N=4 t:N=5 jobs=4 reach=ok,bad
//@H h_round jobs=2 reach=bin,txt
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 4
#endif
typedef unsigned char u8;
static M_parser_t *mk(const char *s, size_t n){ u8 *q=(u8*)vp_malloc(n); memcpy(q,s,n); return M_parser_create_const(q,n,0); }
static int dig(char c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:99; }
void h_ascii(void){ static const u8 B[]={10,16,8,0}; size_t n=vp_pick("n",N+1), len=vp_pick("len",N+2), i=0, lim, st, d0; char *s=vp_stra("s",n,"07a x-"); unsigned base=B[vp_pick("b",4)], bb; int uns=(int)vp_pick("uns",2), neg=0, r; M_parser_t *p; M_int64 v=0; M_uint64 m=0;
	for(i=0;i<n;i++) s[i]=(char)vp_conc((u8)s[i]); i=0; p=mk(s,n); lim=len?len:n; r=uns?M_parser_read_uint(p,M_PARSER_INTEGER_ASCII,len,(u8)base,(M_uint64*)&v):M_parser_read_int(p,M_PARSER_INTEGER_ASCII,len,(u8)base,&v);
	if(!r){ vp_assert(M_parser_len(p)==n); vp_reach("bad"); } if(lim>n||n==0){ vp_assert(!r); vp_end(); }
	while(i<lim&&s[i]==' ') i++; st=i; if(i<lim&&s[i]=='-'){ neg=1; i++; } bb=base; if((base==16||base==0)&&i+1<lim&&s[i]=='0'&&s[i+1]=='x'){ bb=16; i+=2; } else if(base==0&&i<lim&&s[i]=='0') bb=8; else if(base==0) bb=10;
	d0=i; while(i<lim&&dig(s[i])<(int)bb){ m=m*bb+(unsigned)dig(s[i]); i++; }
	(void)st; if(r){ size_t c=n-M_parser_len(p); vp_assert(c==i||(d0==i&&d0>=2&&c==i-1)); vp_assert(v==(neg?-(M_int64)m:(M_int64)m)); if(len){ vp_assert(c==len); vp_reach("exact"); } if(neg) vp_reach("neg"); vp_reach("ok"); }
	else if(i>d0&&(len==0||i==lim)) vp_fail("number not read"); M_parser_destroy(p); }
void h_bin(void){ size_t n=vp_pick("n",10), len=vp_pick("len",11), i; u8 *d=vp_buf("d",n); int be=(int)vp_pick("be",2), uns=(int)vp_pick("uns",2), r, ok=len>0&&len<=8&&len<=n; M_parser_t *p=M_parser_create_const(d,n,0); M_uint64 v=7, e=0; r=uns?M_parser_read_uint(p,be?M_PARSER_INTEGER_BIGENDIAN:M_PARSER_INTEGER_LITTLEENDIAN,len,0,&v):M_parser_read_int(p,be?M_PARSER_INTEGER_BIGENDIAN:M_PARSER_INTEGER_LITTLEENDIAN,len,0,(M_int64*)&v); vp_assert(r==ok); vp_assert(M_parser_len(p)==(ok?n-len:n)); if(ok){ for(i=0;i<len;i++) e|=(M_uint64)d[i]<<(8*(be?len-1-i:i)); vp_assert(v==e); vp_reach("ok"); } else vp_reach("short"); M_parser_destroy(p); }
void h_bcd(void){ static const u8 P[]={0x00,0x99,0x18,0x84}; size_t n=vp_pick("n",12), len=vp_pick("len",12), i; u8 *d=vp_buf("d",n); int ok; M_parser_t *p; M_uint64 v=7, e=0; for(i=2;i<n;i++) d[i]=P[i%4]; if(n>2){ d[0]&=0x1F; d[1]=0x84; } p=M_parser_create_const(d,n,0); ok=len>0&&len<=n&&len<=10; if(ok) for(i=0;i<len;i++){ unsigned h=d[i]>>4,l=d[i]&15; if(h>9||l>9){ ok=0; break; } if(e>(M_UINT64_MAX-h*10-l)/100){ ok=0; break; } e=e*100+h*10+l; } vp_assert(M_parser_read_uint_bcd(p,len,&v)==ok); vp_assert(M_parser_len(p)==(ok?n-len:n)); if(ok){ vp_assert(v==e); vp_reach("ok"); } else vp_reach("bad"); M_parser_destroy(p); }
void h_dec(void){ size_t n=vp_pick("n",N+1), len=vp_pick("len",N+2), i, lim, c; char *s=vp_stra("s",n,"05.-x"); int neg=0; long m=0; int dp=0, nd=0, pt=0; M_parser_t *p; M_decimal_t d; enum M_DECIMAL_RETVAL r; for(i=0;i<n;i++) s[i]=(char)vp_conc((u8)s[i]); p=mk(s,n); M_decimal_create(&d); r=M_parser_read_decimal(p,len,vp_pick("tf",2),&d); lim=len?len:n; c=n-M_parser_len(p); if(lim>n||n==0){ vp_assert(r==M_DECIMAL_INVALID&&c==0); vp_end(); } i=0; if(s[0]=='-'){ neg=1; i=1; } for(;i<lim;i++){ if(s[i]=='.'&&!pt) pt=1; else if(s[i]=='0'||s[i]=='5'){ m=m*10+(s[i]-'0'); nd++; if(pt) dp++; } else break; }
	if(r!=M_DECIMAL_SUCCESS){ vp_assert(c==0); vp_reach("bad"); if(nd&&!(neg&&s[1]=='.')&&s[i-1]!='.'&&!(len&&i<lim)) vp_fail("number not read"); } else { M_decimal_t e; vp_assert(nd>0); vp_assert(c<=lim&&c<=i&&(c==i||s[c]=='.'||s[c-1]=='.'||s[i-1]=='.')); M_decimal_create(&e); M_decimal_from_int(&e,neg?-m:m,(M_uint8)dp); vp_assert(M_decimal_cmp(&d,&e)==0); vp_reach("ok"); } M_parser_destroy(p); }
void h_round(void){ M_buf_t *b=M_buf_create(); M_parser_t *p; M_uint64 v, w=0; size_t wd; switch(vp_pick("k",4)){ case 0: wd=1+vp_pick("w",8); v=vp_u64("v"); { int be=(int)vp_pick("be",2), r=M_buf_add_uintbin(b,v,wd,be?M_ENDIAN_BIG:M_ENDIAN_LITTLE); vp_assert(r==(wd==8||(v>>(8*(wd&7)))==0)); if(!r) vp_end(); p=mk(M_buf_peek(b),M_buf_len(b)); vp_assert(M_parser_read_uint(p,be?M_PARSER_INTEGER_BIGENDIAN:M_PARSER_INTEGER_LITTLEENDIAN,wd,0,&w)); vp_assert(w==v); vp_reach("bin"); } break;
	case 1: { static const M_int64 X[]={0,-1,9,-10,123456789,M_INT64_MAX,M_INT64_MIN}; M_int64 x=X[vp_pick("x",7)], y=5; M_buf_add_int(b,x); M_buf_add_byte(b,'z'); p=mk(M_buf_peek(b),M_buf_len(b)); vp_assert(M_parser_read_int(p,M_PARSER_INTEGER_ASCII,0,10,&y)); vp_assert(y==x&&M_parser_len(p)==1); vp_reach("txt"); break; }
	case 2: { static const M_uint64 X[]={0,1,9,10,12345678901234567890ULL,M_UINT64_MAX}; v=X[vp_pick("x",6)]; M_buf_add_uint(b,v); p=mk(M_buf_peek(b),M_buf_len(b)); vp_assert(M_parser_read_uint(p,M_PARSER_INTEGER_ASCII,0,10,&w)); vp_assert(w==v&&M_parser_len(p)==0); break; }
	default: v=vp_pick("bcd",130); if(vp_pick("big",2)) v=M_UINT64_MAX-v; wd=1+vp_pick("w",10); { int r=M_buf_add_uintbcd(b,v,wd); if(!r) vp_end(); p=mk(M_buf_peek(b),M_buf_len(b)); vp_assert(M_parser_len(p)==wd); vp_assert(M_parser_read_uint_bcd(p,wd,&w)); vp_assert(w==v); } } M_parser_destroy(p); M_buf_cancel(b); }
