//@mods base
//@bounds encoding of every byte string (decoding back: one arbitrary byte at every position of patterned strings) up to N bytes (base64 7, base32 6, hex 4; thorough 10/11/6), every line width 0..9; decoding of arbitrary text up to L characters (quick 5, thorough 6 for base64, 9 over a reduced alphabet for base32), not NUL terminated, into an exactly sized output; buffers of every smaller size
//@outside inputs longer than the bounds (the codecs work block by block); embedded NUL characters, non-zero unused bits in the last block
//@H h_rt q:C=0,N=7 t:C=0,N=10 jobs=4 reach=ok
//@H h_rt q:C=1,N=6 t:C=1,N=11 jobs=4 reach=ok
//@H h_rt q:C=2,N=4 t:C=2,N=6 jobs=2 reach=ok
//@H h_dec64 q:L=5 t:L=6 jobs=4 reach=ok,bad
//@H h_dec32 q:L=9 t:L=10 jobs=4 reach=ok,bad
//@H h_dechex q:L=5 t:L=6 jobs=2 reach=ok,bad
//@H h_auto q:L=4 t:L=5 jobs=2 reach=hex,b64
//@H h_conv jobs=2 reach=ok
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 4
#endif
#ifndef C
#define C 0
#endif
#ifndef L
#define L 5
#endif
typedef unsigned char u8;
static const M_bincodec_codec_t cs[]={M_BINCODEC_BASE64,M_BINCODEC_BASE32,M_BINCODEC_HEX};
/* value -> character by definition of the alphabets */
static const char *AL=C==0?"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/":C==1?"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567":"0123456789ABCDEF";
static unsigned bits(const u8 *d, size_t n, size_t pos, unsigned k){ unsigned v=0; unsigned i; for(i=0;i<k;i++){ size_t b=pos+i; v=v<<1; if(b/8<n) v|=(d[b/8]>>(7-b%8))&1u; } return v; }
void h_rt(void){ size_t n=vp_pick("n",N+1), w=vp_pick("w",10), i, j=0, chars, len, size, dl, bpc=C==0?6:C==1?5:4, blk=C==0?4:C==1?8:1; int full=(int)vp_pick("full",2); u8 *d, *o; char *e; if(full) d=vp_buf("d",n); else { d=(u8*)vp_malloc(n); memset(d,vp_pick("pat",2)?0xa7:0,n); if(n) d[vp_pick("at",n)]=vp_u8("x"); }
	size=M_bincodec_encode_size(n,w,cs[C]); e=(char*)vp_malloc(size); len=M_bincodec_encode(e,size,d,n,w,cs[C]); if(n==0){ vp_assert(len==0); return; } vp_assert(len>0&&len<=size);
	chars=(n*8+bpc-1)/bpc; 
	{ size_t tot=(chars+blk-1)/blk*blk; for(i=0;i<tot;i++){ if(w&&i&&i%w==0){ vp_assert(e[j]=='\n'); j++; } if(i<chars){ unsigned v=bits(d,n,i*bpc,(unsigned)bpc); vp_assert(e[j]==AL[v]); } else vp_assert(e[j]=='='); j++; } vp_assert(j==len); }
	if(len<size) vp_assert(e[len]==0); if(full) { vp_reach("ok"); return; } { char *x=(char*)vp_malloc(len); memcpy(x,e,len); dl=M_bincodec_decode_size(len,cs[C]); vp_assert(dl>=n); o=(u8*)vp_malloc(dl); vp_assert(M_bincodec_decode(o,dl,x,len,cs[C])==n); for(i=0;i<n;i++) vp_assert(o[i]==d[i]); { size_t ol=99; u8 *q=M_bincodec_decode_alloc(x,len,&ol,cs[C]); vp_assert(q&&ol==n&&q[n]==0); for(i=0;i<n;i++) vp_assert(q[i]==d[i]); M_free(q); } { char *q=M_bincodec_encode_alloc(d,n,w,cs[C]); vp_assert(M_str_len(q)==len&&M_mem_eq(q,x,len)); M_free(q); } }
	if(size>1) { char *sm=(char*)vp_malloc(size-2); vp_assert(M_bincodec_encode(sm,size-2,d,n,w,cs[C])==0||size-2>=len); }
	vp_reach("ok"); }
static int ws(char c){ return c==' '||(c>=9&&c<=13); }
static int v64(char c){ return c>='A'&&c<='Z'?c-'A':c>='a'&&c<='z'?c-'a'+26:c>='0'&&c<='9'?c-'0'+52:c=='+'?62:c=='/'?63:-1; }
static int v32(char c){ return c>='A'&&c<='Z'?c-'A':c>='a'&&c<='z'?c-'a':c>='2'&&c<='7'?c-'2'+26:-1; }
static int v16(char c){ return c>='0'&&c<='9'?c-'0':c>='A'&&c<='F'?c-'A'+10:c>='a'&&c<='f'?c-'a'+10:-1; }
/* reference decode: white space skipped; 0 = invalid, 1 = valid, 2 = lenient (padding split by white space) */
static int rdec(const char *s, size_t n, int (*val)(char), unsigned bpc, unsigned blk, u8 *out, size_t *ol){ size_t i, k=0, pad=0; unsigned acc=0, nb=0; int split=0; *ol=0; while(n&&ws(s[n-1])) n--; for(i=0;i<n;i++){ int v; if(ws(s[i])){ split|=pad>0; continue; } k++; if(s[i]=='='){ pad++; continue; } if(pad) return 0; v=val(s[i]); if(v<0) return 0; acc=acc<<bpc|(unsigned)v; nb+=bpc; if(nb>=8){ nb-=8; out[(*ol)++]=(u8)(acc>>nb); acc&=(1u<<nb)-1; } } if(k==0) return 0; if(k%blk) return 0; if(blk==1&&(k%2)) return 0; if(pad>=blk&&blk>1) return 0; if(blk==1&&pad) return 0; if(pad&&nb>=bpc) return 0; (void)split; return 1; }
static void dec(M_bincodec_codec_t c, const char *s, size_t n, int (*val)(char), unsigned bpc, unsigned blk){ u8 ref[16]; size_t rl, ds=M_bincodec_decode_size(n,c), r, i; u8 *o; int ok=rdec(s,n,val,bpc,blk,ref,&rl); o=(u8*)vp_malloc(ds); r=M_bincodec_decode(o,ds,s,n,c); vp_assert(r<=ds); if(ok==1){ vp_assert(r==rl); for(i=0;i<rl;i++) vp_assert(o[i]==ref[i]); vp_reach("ok"); } else if(ok==0){ vp_assert(r==0); vp_reach("bad"); } }
static char *txt(size_t n, const char *al){ char *s=(char*)vp_malloc(n); size_t i; vp_sym_bytes(s,n,"s"); for(i=0;i<n;i++){ vp_assume(vp_in(s[i],al)); s[i]=(char)vp_conc((u8)s[i]); } return s; }
void h_dec64(void){ size_t n=vp_pick("n",L+1), k=vp_pick("k",2), i; char *s; if(k){ s=txt(n,"Af/= \n*"); } else { s=(char*)vp_malloc(n=n<4?n:4); if(n) vp_sym_bytes(s,n,"s"); for(i=0;i<n;i++) vp_assume(s[i]!=' '&&!(s[i]>=9&&s[i]<=13)); for(i=0;i<n;i++) vp_assume(s[i]!=0); } dec(M_BINCODEC_BASE64,s,n,v64,6,4); }
void h_dec32(void){ size_t n=vp_pick("n",L+1), i; char *s; if(vp_pick("k",2)){ s=txt(n,n>6?"B=":"B7=\n1"); dec(M_BINCODEC_BASE32,s,n,v32,5,8); } else { s=(char*)vp_malloc(8); memset(s,'c',8); i=vp_pick("i",8); s[i]=(char)vp_u8("x"); vp_assume(s[i]!=0); dec(M_BINCODEC_BASE32,s,8,v32,5,8); } }
void h_dechex(void){ size_t n=vp_pick("n",L+1), i; char *s; if(vp_pick("k",2)) s=txt(n,"0aF g"); else { n=n>2?2:n; s=(char*)vp_malloc(n); if(n) vp_sym_bytes(s,n,"s"); } for(i=0;i<n;i++) vp_assume(s[i]!='='); dec(M_BINCODEC_HEX,s,n,v16,4,1); }
void h_auto(void){ size_t n=vp_pick("n",L+1), i, ds=M_bincodec_decode_size(n,M_BINCODEC_BASE64ORHEX), r, rl; char *s=txt(n,"0F/= "); u8 *o=(u8*)vp_malloc(ds), ref[16]; int hex=n%2==0&&n>0, ok; for(i=0;i<n;i++) hex&=v16(s[i])>=0; r=M_bincodec_decode(o,ds,s,n,M_BINCODEC_BASE64ORHEX); if(hex){ ok=rdec(s,n,v16,4,1,ref,&rl); vp_assert(ok&&r==rl); for(i=0;i<rl;i++) vp_assert(o[i]==ref[i]); vp_reach("hex"); } else { ok=rdec(s,n,v64,6,4,ref,&rl); if(ok==1&&n){ vp_assert(r==rl); for(i=0;i<rl;i++) vp_assert(o[i]==ref[i]); vp_reach("b64"); } } }
void h_conv(void){ size_t n=1+vp_pick("n",3), a=vp_pick("a",3), b=vp_pick("b",3), i, l; u8 *d=(u8*)vp_malloc(n), *q; char *e, *f; memset(d,0xe5,n); d[vp_pick("at",n)]=vp_u8("x"); e=M_bincodec_encode_alloc(d,n,0,cs[a]); f=M_bincodec_convert_alloc(e,M_str_len(e),0,cs[a],cs[b]); vp_assert(f!=NULL); q=M_bincodec_decode_alloc(f,M_str_len(f),&l,cs[b]); vp_assert(q&&l==n); for(i=0;i<n;i++) vp_assert(q[i]==d[i]); { char out[40]; size_t r=M_bincodec_convert(out,sizeof(out),0,cs[b],e,M_str_len(e),cs[a]); vp_assert(r==M_str_len(f)&&M_mem_eq(out,f,r)); } M_free(q); M_free(e); M_free(f); vp_reach("ok"); }
