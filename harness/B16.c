//@mods base
//@bounds bit buffers built by every sequence of K operations (quick 2, thorough 3) out of single bits, fields of 1..64 bits with every padding, byte runs at any alignment, bit strings, fills, set/update of any bit and truncation, all data bits symbolic; parsers over every content of up to 13 bits (thorough 24, plus a 9 byte one for 64 bit fields) at every offset and length in bits, const, copied and appended
//@outside longer data, allocation failure
//@H h_build q:K=2 t:K=3 jobs=4 reach=unal,trunc
//@H h_read q:NB=13 t:NB=24 jobs=4 reach=unal,short
//@H h_wide jobs=4 reach=ok,short
//@H h_range q:NB=10 t:NB=14 jobs=4 reach=hit,miss
//@H h_append jobs=2 reach=const,bad
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef K
#define K 2
#endif
#ifndef NB
#define NB 9
#endif
typedef unsigned char u8;
static u8 R[400]; static size_t rn;
static void same(M_bit_buf_t *b){ size_t i, nb=(rn+7)/8; const u8 *p=M_bit_buf_peek(b); vp_assert(M_bit_buf_len(b)==rn); vp_assert(M_bit_buf_len_bytes(b)==nb); for(i=0;i<nb*8;i++) vp_assert(((p[i/8]>>(7-i%8))&1)==(i<rn?R[i]:0)); }
static void padto(size_t n){ (void)n; while(rn%8) R[rn++]=0; }
static M_uint64 spread(M_uint64 k, size_t n){ u8 x=vp_u8("v")&7; return k^(x&1)^((M_uint64)((x>>1)&1)<<(n-1))^((M_uint64)((x>>2)&1)<<(n/2)); }
static u8 *vbuf(const char *nm, size_t n){ u8 *d=vp_buf(nm,n); size_t i; for(i=0;i<n;i++) d[i]=(d[i]&0x91)^0x26; return d; }
static void op(M_bit_buf_t *b){ size_t i, n, k; u8 *d; unsigned c; switch(vp_pick("op",7)){
	case 0: d=vp_buf("bit",1); d[0]&=1; M_bit_buf_add_bit(b,d[0]); R[rn++]=d[0]; vp_free(d); break;
	case 1: { static const size_t N1[]={1,3,8,13,64}; M_uint64 v; n=N1[vp_pick("nb",5)]; c=(unsigned)vp_pick("pad",3); v=spread(0xA53C960F12345A69ULL,n); if(c==M_BIT_BUF_PAD_BEFORE) while((rn+n)%8) R[rn++]=0; M_bit_buf_add(b,v,n,(M_bit_buf_pad_t)c); for(i=0;i<n;i++) R[rn++]=(u8)((v>>(n-1-i))&1); if(c==M_BIT_BUF_PAD_AFTER) padto(0); break; }
	case 2: { static const size_t N2[]={0,1,5,8,11,16}; n=N2[vp_pick("nb",6)]; d=vbuf("d",(n+7)/8); if(rn%8) vp_reach("unal"); M_bit_buf_add_bytes(b,d,n); for(i=0;i<n;i++) R[rn++]=(d[i/8]>>(7-i%8))&1; vp_free(d); break; }
	case 3: { static const char *S[]={"1","0 1\t1","10110011 1","2","01x"}; M_bool r; const char *s; size_t nb=0; k=vp_pick("bs",5); s=S[k]; c=(unsigned)vp_pick("pad",3); for(i=0;s[i];i++) nb+=(s[i]=='0'||s[i]=='1'); r=M_bit_buf_add_bitstr(b,s,(M_bit_buf_pad_t)c); vp_assert(r==(k<3)); if(!r) vp_end(); if(c==M_BIT_BUF_PAD_BEFORE) while((rn+nb)%8) R[rn++]=0; for(i=0;s[i];i++) if(s[i]=='0'||s[i]=='1') R[rn++]=(u8)(s[i]-'0'); if(c==M_BIT_BUF_PAD_AFTER) padto(0); break; }
	case 4: { static const size_t N4[]={0,1,7,8,17}; n=N4[vp_pick("nb",5)]; c=(unsigned)vp_pick("b",2); M_bit_buf_fill(b,(u8)c,n); for(i=0;i<n;i++) R[rn++]=(u8)c; break; }
	case 5: k=vp_pick("idx",12); c=(unsigned)vp_pick("b",2); if(vp_pick("upd",2)){ vp_assert(M_bit_buf_update_bit(b,k,(u8)c)==(k<rn)); if(k<rn) R[k]=(u8)c; } else { u8 f=(u8)vp_pick("fb",2); M_bit_buf_set_bit(b,(u8)c,k,f); while(rn<k) R[rn++]=f; if(rn==k) rn++; R[k]=(u8)c; } break;
	default: k=vp_pick("tr",12); M_bit_buf_truncate(b,k); if(k<rn){ rn=k; vp_reach("trunc"); } } }
void h_build(void){ size_t i; M_bit_buf_t *b=M_bit_buf_create(); rn=0; M_bit_buf_add(b,vp_u8("init"),0,M_BIT_BUF_PAD_NONE); { u8 *d=vbuf("p",1); i=vp_pick("pre",4)*3; M_bit_buf_add_bytes(b,d,i>8?8:i); for(;rn<i&&rn<8;rn++) R[rn]=(d[0]>>(7-rn))&1; vp_free(d); } for(i=0;i<K;i++){ op(b); same(b); } { size_t nb=0; u8 *f=M_bit_buf_finish(b,&nb); vp_assert(nb==(rn+7)/8); M_free(f); } vp_assert(vp_heap_live()==0||rn==0); }
static u8 *D; static size_t nb; static u8 bit(size_t i){ return (D[i/8]>>(7-i%8))&1; }
static int few;
static M_bit_parser_t *mk(size_t bits){ M_bit_parser_t *p; u8 *q; nb=bits; q=few?vbuf("d",(bits+7)/8):vp_buf("d",(bits+7)/8); D=vp_malloc((bits+7)/8+1); memcpy(D,q,(bits+7)/8); if(vp_pick("own",2)){ p=M_bit_parser_create(q,bits); vp_free(q); } else p=M_bit_parser_create_const(q,bits); return p; }
void h_read(void){ size_t off, n, i, l; M_bit_parser_t *p=mk(1+vp_pick("nb",NB)); u8 *o, x=9; M_uint64 v=77; int ok; off=vp_pick("off",nb+1); M_bit_parser_mark(p); vp_assert(M_bit_parser_consume(p,off)); vp_assert(!M_bit_parser_consume(p,nb-off+1)); if(off%8) vp_reach("unal"); vp_assert(M_bit_parser_len(p)==nb-off&&M_bit_parser_current_offset(p)==off&&M_bit_parser_mark_len(p)==off);
	n=vp_pick("n",nb-off+2); ok=n<=nb-off; if(!ok) vp_reach("short");
	switch(vp_pick("op",5)){
	case 0: l=(n+7)/8; o=vp_malloc(l); i=l; if(n==0){ vp_free(o); break; } vp_assert(M_bit_parser_read_bytes(p,o,&l,n)==ok); if(ok){ vp_assert(l==i); for(i=0;i<l*8;i++) vp_assert(((o[i/8]>>(7-i%8))&1)==(i<n?bit(off+i):0)); } break;
	case 1: { M_buf_t *b=M_buf_create(); M_buf_add_byte(b,'z'); vp_assert(M_bit_parser_read_buf(p,b,n)==ok); if(ok){ const u8 *c=(const u8*)M_buf_peek(b); vp_assert(M_buf_len(b)==1+(n+7)/8&&c[0]=='z'); for(i=0;i<(n+7)/8*8;i++) vp_assert(((c[1+i/8]>>(7-i%8))&1)==(i<n?bit(off+i):0)); } else vp_assert(M_buf_len(b)==1); M_buf_cancel(b); break; }
	case 2: vp_assert(M_bit_parser_read_uint(p,n,&v)==ok); if(ok){ M_uint64 w=0; for(i=0;i<n;i++) w=(w<<1)|bit(off+i); vp_assert(v==w); } break;
	case 3: { M_bit_buf_t *b=M_bit_buf_create(); M_bit_buf_add_bit(b,1); if(n>5) n=n>nb-off?n:5; ok=n<=nb-off; vp_assert(M_bit_parser_read_bit_buf(p,b,n)==ok); if(ok){ const u8 *c=M_bit_buf_peek(b); vp_assert(M_bit_buf_len(b)==n+1); for(i=0;i<n;i++) vp_assert(((c[(i+1)/8]>>(7-(i+1)%8))&1)==bit(off+i)); } M_bit_buf_destroy(b); break; }
	default: { size_t cnt=0; if(nb>9&&off<nb-8) vp_end(); u8 w=(u8)vp_pick("w",2); for(i=off;i<nb;i++) cnt+=bit(i)==w; vp_assert(M_bit_parser_count(p,w)==cnt); ok=off<nb; n=1; vp_assert(M_bit_parser_peek_bit(p,&x)==ok); if(ok) vp_assert(x==bit(off)); vp_assert(M_bit_parser_read_bit(p,&x)==ok); } }
	if(!ok||n==0) n=0; vp_assert(M_bit_parser_current_offset(p)==off+n); vp_assert(M_bit_parser_mark_rewind(p)==off+n); vp_assert(M_bit_parser_current_offset(p)==0); M_bit_parser_destroy(p); }
void h_wide(void){ static const size_t W[]={2,3,7,8,9,15,16,31,32,33,63,64,65,1}; size_t n=W[vp_pick("n",14)], off=vp_pick("off",9), i, tot=72; M_bit_parser_t *p; M_uint64 w=0, mag; M_int64 v=5, e; unsigned f=(unsigned)vp_pick("fmt",3); int ok; tot-=vp_pick("cut",4)*3; p=mk(tot); vp_assert(M_bit_parser_consume(p,off)); ok=n>=2&&n<=64&&off+n<=nb; vp_assert(M_bit_parser_read_int(p,n,(M_bit_parser_int_format_t)f,&v)==ok); vp_assert(M_bit_parser_current_offset(p)==off+(ok?n:0)); if(!ok){ vp_assert(v==0); vp_reach("short"); vp_end(); } for(i=0;i<n;i++) w=(w<<1)|bit(off+i); mag=w&(((M_uint64)1<<(n-1))-1); if(f==M_BIT_PARSER_SIGN_MAG) e=bit(off)?-(M_int64)mag:(M_int64)mag; else if(f==M_BIT_PARSER_ONES_COMP) e=bit(off)?-(M_int64)(mag^(((M_uint64)1<<(n-1))-1)):(M_int64)mag; else e=(M_int64)(bit(off)?mag-((M_uint64)1<<(n-1)):mag); vp_assert(v==e); vp_reach("ok"); M_bit_parser_destroy(p); }
void h_range(void){ size_t off, mx, i, k=0, got=9; M_bit_parser_t *p=mk(1+vp_pick("nb",NB)); u8 x=9; for(i=0;i<(nb+7)/8;i++){ D[i]=(u8)vp_conc(D[i]&(i==nb/8?(0xFF<<(8-nb%8)):0xFF)); } off=vp_pick("off",nb+1); mx=vp_pick("mx",nb+2); M_bit_parser_consume(p,off); if(vp_pick("next",2)){ u8 w=(u8)vp_pick("w",2); int f=0; while(off+k<nb&&k<mx){ k++; if(bit(off+k-1)==w){ f=1; break; } } vp_assert(M_bit_parser_consume_to_next(p,w,mx)==f); if(f) vp_reach("hit"); else vp_reach("miss"); } else { while(off+k<nb&&k<mx&&bit(off+k)==bit(off)) k++; vp_assert(M_bit_parser_read_range(p,&x,&got,mx)==(k>0)); vp_assert(got==k); if(k) vp_assert(x==bit(off)); } vp_assert(M_bit_parser_current_offset(p)==off+k); M_bit_parser_destroy(p); }
void h_append(void){ size_t off, i, n0, k; M_bit_parser_t *p; u8 *d; few=1; p=mk(1+vp_pick("nb",11)); n0=nb; off=vp_pick("off",nb+1); M_bit_parser_consume(p,off); memset(R,0,sizeof R); for(i=0;i<nb;i++) R[i]=bit(i); rn=nb; vp_reach("const");
	switch(vp_pick("w",4)){ case 0: k=vp_pick("k",10); d=vbuf("a",(k+7)/8); M_bit_parser_append(p,d,k); for(i=0;i<k;i++) R[rn++]=(d[i/8]>>(7-i%8))&1; break; case 1: { M_uint64 v; k=1+vp_pick("k",12); v=spread(0x5A69,k); M_bit_parser_append_uint(p,v,k); for(i=0;i<k;i++) R[rn++]=(v>>(k-1-i))&1; break; } case 2: vp_assert(M_bit_parser_append_bitstr(p,"1 01")); R[rn++]=1; R[rn++]=0; R[rn++]=1; break; default: vp_assert(!M_bit_parser_append_bitstr(p,"1z")); vp_reach("bad"); R[rn++]=1; }
	vp_assert(M_bit_parser_len(p)==rn-off); for(i=off;i<rn;i++){ u8 x=9; vp_assert(M_bit_parser_read_bit(p,&x)); vp_assert(x==R[i]); } { u8 x; vp_assert(!M_bit_parser_read_bit(p,&x)); } (void)n0; M_bit_parser_rewind_to_start(p); vp_assert(M_bit_parser_len(p)==rn); M_bit_parser_reset(p,D,3); vp_assert(M_bit_parser_len(p)==3&&M_bit_parser_current_offset(p)==0); M_bit_parser_destroy(p); }
