//@mods base
//@bounds every sequence of up to 2 operations (thorough with more sizes and justification kinds) out of append, drop, truncate, fill, trim, direct write, justified append, merge of a partly dropped buffer, case/trim-transformed append, join, character append, on buffers pre-filled to sizes around the first growth step (0,1,1022,1023,1024 bytes) and partly dropped, bytes symbolic; number appends for every 64-bit value (widths below 24); replacing appends for sources up to 4 bytes; quoting for strings up to 3 characters
//@outside buffers above about 2 KB, allocation failure (the library aborts), what a failed append leaves after the previous content
//@H h_seq q:K=2,LO=1 t:K=2,LO=0 jobs=4 reach=grow,drop,merge
//@H h_nums jobs=3 reach=neg,trunc
//@H h_bin jobs=2 reach=ok,bad
//@H h_money jobs=3 reach=ok,bad
//@H h_dec jobs=3 reach=ok,bad
//@H h_replace jobs=2 reach=hit,miss
//@H h_quote jobs=2 reach=plain,quoted,escaped
//@H h_lines reach=yes
//@H h_codec jobs=2 reach=yes,bad
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef LO
#define LO 1
#endif
#define PK(n,lo,hi) vp_pick(n,LO?(lo):(hi))
#ifndef K
#define K 2
#endif
typedef unsigned char u8;
static u8 ref[4200]; static size_t rn;
static void radd(const void *p, size_t n){ size_t i; for(i=0;i<n;i++) ref[rn++]=((const u8*)p)[i]; }
static void rdrop(size_t n){ size_t i; if(n>rn) n=rn; memmove(ref,ref+n,rn-n); rn-=n; (void)i; }
static int sp(u8 c){ return c==' '||(c>=9&&c<=13); }
static void rtrim(void){ size_t k=0; while(rn&&sp(ref[rn-1])) rn--; while(k<rn&&sp(ref[k])) k++; rdrop(k); }
static void same(const M_buf_t *b){ const char *p=M_buf_peek(b); size_t i; vp_assert(M_buf_len(b)==rn); if(!p){ vp_assert(rn==0); return; } for(i=0;i<rn;i++){ if(i==20&&rn>44) i=rn-20; vp_assert((u8)p[i]==ref[i]); } vp_assert(p[rn]==0); }
static void rjust(const u8 *s, size_t n, M_str_justify_type_t t, u8 fill, size_t w){ size_t off=0, l=0, r=0, i; if(w==0) return; if(n>w){ if(t==M_STR_JUSTIFY_RIGHT_NOTRUNC||t==M_STR_JUSTIFY_LEFT_NOTRUNC||t==M_STR_JUSTIFY_CENTER_NO_TRUNC) return; if(t==M_STR_JUSTIFY_RIGHT||t==M_STR_JUSTIFY_LEFT||t==M_STR_JUSTIFY_CENTER||t==M_STR_JUSTIFY_TRUNC_LEFT) off=n-w; n=w; }
	if(t==M_STR_JUSTIFY_RIGHT||t==M_STR_JUSTIFY_RIGHT_TRUNC_RIGHT||t==M_STR_JUSTIFY_RIGHT_NOTRUNC) l=w-n; else if(t==M_STR_JUSTIFY_LEFT||t==M_STR_JUSTIFY_LEFT_TRUNC_RIGHT||t==M_STR_JUSTIFY_LEFT_NOTRUNC) r=w-n;
	for(i=0;i<l;i++) ref[rn++]=fill; radd(s+off,n); for(i=0;i<r;i++) ref[rn++]=fill; }
void h_seq(void){ M_buf_t *b=M_buf_create(), *o; size_t i, j, init=PK("init",3,5), n; static const size_t inits[]={0,1023,1022,1024,1}; u8 *d; char *s; size_t before; const char *js[2]; M_buf_t *jb[2];
	rn=0; n=inits[init]; if(n){ d=vp_buf("d0",1); M_buf_add_bytes(b,d,1); radd(d,1); M_buf_add_fill(b,' ',n-1); memset(ref+rn,' ',n-1); rn+=n-1; } same(b);
	if(n && vp_pick("predrop",2)){ size_t k=n>2?(PK("pd",1,2)?2:n-1):1; M_buf_drop(b,k); rdrop(k); }
	for(i=0;i<K;i++){ before=M_buf_alloc_size(b); switch(vp_pick("op",12)){
		case 0: n=(size_t)vp_pick("an",3); d=vp_buf("d",n); M_buf_add_bytes(b,n?d:NULL,n); radd(d,n); vp_free(d); break;
		case 1: n=vp_pick("dn",4); n=n==3?5000:n; M_buf_drop(b,n); rdrop(n); vp_reach("drop"); break;
		case 2: { size_t w=vp_pick("tn",3); n=w==0?0:w==1?1:(rn?rn-1:0); M_buf_truncate(b,n); if(n<rn) rn=n; M_buf_truncate(b,rn+1); break; }
		case 3: n=vp_pick("fn",3); n=n==2?1025:n; { u8 c=vp_u8("fc"); M_buf_add_fill(b,c,n); memset(ref+rn,c,n); rn+=n; } break;
		case 4: M_buf_trim(b); rtrim(); break;
		case 5: { u8 *w; size_t len; n=1+vp_pick("wn",2); len=n; w=M_buf_direct_write_start(b,&len); vp_assert(w&&len>=n); d=vp_buf("w",n); for(j=0;j<n;j++) w[j]=d[j]; if(len>n+1){ w[len-1]='z'; } M_buf_direct_write_end(b,n); radd(d,n); vp_free(d); break; }
		case 6: { M_str_justify_type_t t=(M_str_justify_type_t)(LO?("\0\1\5\7"[vp_pick("jt",4)]):vp_pick("jt",8)); size_t w=PK("jw",3,4); n=PK("jn",2,3)*(LO?2:1); if(LO&&w==2) w=3; d=vp_buf("j",n); if(w==3) w=1030; M_buf_add_bytes_just(b,n?d:NULL,n,t,'*',w); rjust(d,n,t,'*',w); vp_free(d); break; }
		case 7: { size_t k; n=LO?2:vp_pick("mn",3); k=vp_pick("mk",2); if(k>n) k=n; d=vp_buf("m",n); o=M_buf_create(); M_buf_add_bytes(o,d,n); M_buf_drop(o,k); if(vp_pick("mw",2)){ M_buf_merge(b,o); radd(d+k,n-k); } else { jb[0]=o; jb[1]=M_buf_create(); M_buf_add_bytes(jb[1],d,n); M_buf_bjoin_buf(b,'|',jb,2); radd(d+k,n-k); radd("|",1); radd(d,n); } vp_free(d); if(n>k) vp_reach("merge"); break; }
		case 8: { static const M_uint32 ms[]={M_BUF_TRANSFORM_UPPER,M_BUF_TRANSFORM_LOWER,M_BUF_TRANSFORM_LTRIM,M_BUF_TRANSFORM_RTRIM,M_BUF_TRANSFORM_LTRIM|M_BUF_TRANSFORM_RTRIM|M_BUF_TRANSFORM_UPPER}; M_uint32 m=ms[vp_pick("tm",5)]; size_t a,e; n=LO?2:vp_pick("sn",3); s=vp_stra("s",n,LO?" aB":" aB\t"); for(a=0;a<n;a++) s[a]=(char)vp_conc((u8)s[a]); M_buf_add_str_transform(b,m,s); a=0; e=n; if(m&M_BUF_TRANSFORM_LTRIM) while(a<e&&sp((u8)s[a])) a++; if(m&M_BUF_TRANSFORM_RTRIM) while(e>a&&sp((u8)s[e-1])) e--; for(;a<e;a++){ char c=s[a]; if((m&M_BUF_TRANSFORM_UPPER)&&c=='a') c='A'; if((m&M_BUF_TRANSFORM_LOWER)&&c=='B') c='b'; ref[rn++]=(u8)c; } vp_free(s); break; }
		case 9: n=LO?2:vp_pick("qn",3); s=vp_strn("q",n); { size_t mx=PK("qm",2,3)+LO; M_buf_add_str_max(b,s,mx); radd(s,mx<n?mx:n); js[0]=s; js[1]="e"; M_buf_sjoin_str(b,", ",js,2); radd(s,n); radd(", e",3); M_buf_bjoin_str(b,';',js,1); radd(s,n); } vp_free(s); break;
		case 10: { u8 c=vp_u8("c"); M_buf_add_byte(b,c); ref[rn++]=c; M_buf_add_char(b,(char)c); ref[rn++]=c; break; }
		default: n=PK("ln",2,3); s=vp_stra("l",n,"aB1"); for(j=0;j<n;j++) s[j]=(char)vp_conc((u8)s[j]); M_buf_add_str(b,s); radd(s,n); M_buf_add_str_lower(b,s); for(j=0;j<n;j++) ref[rn++]=(u8)(s[j]=='B'?'b':s[j]); M_buf_add_str_upper(b,s); for(j=0;j<n;j++) ref[rn++]=(u8)(s[j]=='a'?'A':s[j]); vp_free(s); }
		if(M_buf_alloc_size(b)>before) vp_reach("grow"); vp_assert(M_buf_alloc_size(b)>=rn); same(b); }
	{ size_t l=77; u8 *r=M_buf_finish(b,&l); vp_assert(l==rn); vp_assert(r!=NULL||rn==0); if(rn) vp_assert(M_mem_eq(r,ref,rn)); if(r) vp_assert(r[rn]==0); M_free(r); } }
/* decimal digits of v, left to right */
static size_t dig(M_uint64 v, char *o){ char t[24]; size_t n=0,i; do { t[n++]=(char)('0'+v%10); v/=10; } while(v); for(i=0;i<n;i++) o[i]=t[n-1-i]; return n; }
static M_uint64 numd(const char *nm, unsigned *nd){ /* any value with a chosen number of digits: one path per digit count */ static const M_uint64 p10[]={1ULL,10ULL,100ULL,1000ULL,10000ULL,100000ULL,1000000ULL,10000000ULL,100000000ULL,1000000000ULL,10000000000ULL,100000000000ULL,1000000000000ULL,10000000000000ULL,100000000000000ULL,1000000000000000ULL,10000000000000000ULL,100000000000000000ULL,1000000000000000000ULL,10000000000000000000ULL}; static const unsigned c[]={1,2,3,5,9,18,19,20}; unsigned k=c[vp_pick("nd",8)]; M_uint64 v=vp_u64(nm); vp_assume(k==1||v>=p10[k-1]); if(k<20) vp_assume(v<p10[k]); *nd=k; return v; }
/* value of digit text equals v, text has exactly n digits */
static M_uint64 val(const char *p, size_t n){ M_uint64 v=0; size_t i; for(i=0;i<n;i++){ vp_assert(p[i]>='0'&&p[i]<='9'); v=v*10+(M_uint64)(p[i]-'0'); } return v; }
static M_uint64 val16(const char *p, size_t n, int up){ M_uint64 v=0; size_t i; for(i=0;i<n;i++){ char c=p[i]; vp_assert((c>='0'&&c<='9')||(up?(c>='A'&&c<='F'):(c>='a'&&c<='f'))); v=v*16+(M_uint64)(c<='9'?c-'0':(c&15)+9); } return v; }
void h_nums(void){ M_buf_t *b=M_buf_create(); unsigned k; size_t w, n; M_uint64 v, m; M_int64 i; int neg=0; const char *p; M_bool r; M_buf_add_str(b,"#");
	switch(vp_pick("f",5)){
	case 0: { static const M_uint64 vs[]={0,9,10,99,100,12345,M_UINT64_MAX,1000000000000ULL}; char t[24]; v=vs[vp_pick("v",8)]; n=dig(v,t); M_buf_add_uint(b,v); p=M_buf_peek(b); vp_assert(M_buf_len(b)==n+1&&p[0]=='#'); vp_assert(M_mem_eq(p+1,t,n)); vp_assert(p[n+1]==0); break; }
	case 1: { static const M_int64 vs[]={0,-1,-10,99,M_INT64_MAX,M_INT64_MIN,-1234567}; char t[24]; i=vs[vp_pick("v",7)]; neg=i<0; m=neg?0-(M_uint64)i:(M_uint64)i; n=dig(m,t); M_buf_add_int(b,i); p=M_buf_peek(b); vp_assert(M_buf_len(b)==n+1+(size_t)neg); if(neg) vp_assert(p[1]=='-'); vp_assert(M_mem_eq(p+1+neg,t,n)); break; }
	case 2: { static const M_uint64 vs[]={0,7,10,999,M_UINT64_MAX,1000000000000ULL}; char t[24]; v=vs[vp_pick("v",6)]; n=dig(v,t); w=vp_pick("w",24); r=M_buf_add_uint_just(b,v,w); p=M_buf_peek(b); vp_assert(r==(w!=0&&n<=w)); if(w){ size_t j; vp_assert(M_buf_len(b)==w+1); for(j=0;j<w;j++) vp_assert(p[1+j]==(j+n<w?'0':t[j+n-w])); } if(!r) vp_reach("trunc"); break; }
	case 3: { static const M_int64 vs[]={0,-1,-10,99,M_INT64_MAX,M_INT64_MIN,-1234567}; char t[24]; size_t j; i=vs[vp_pick("v",7)]; neg=i<0; m=neg?0-(M_uint64)i:(M_uint64)i; n=dig(m,t); w=1+vp_pick("w",23); r=M_buf_add_int_just(b,i,w); p=M_buf_peek(b); vp_assert(r==(n+(size_t)neg<=w)); vp_assert(p[0]=='#'); if(r){ vp_assert(M_buf_len(b)==w+1); if(neg){ vp_assert(p[1]=='-'); p++; w--; vp_reach("neg"); } for(j=0;j<w;j++) vp_assert(p[1+j]==(j+n<w?'0':t[j+n-w])); } break; }
	default: { int up=(int)vp_pick("up",2); unsigned hd=(unsigned)vp_range("hd",1,16); size_t d; { size_t j; v=0; for(j=0;j<hd;j++) v=v<<4|(j==0?(M_uint64)("\1\11\12\17"[vp_pick("h0",4)]):j+1==hd||j==hd/2?(M_uint64)("\0\7\11\12\17"[vp_pick("hx",5)]):(hd*7+j*5)%16); } w=vp_pick("w",20); r=M_buf_add_uinthex(b,v,up,w); d=hd; vp_assert(r==(w==0||d<=w)); p=M_buf_peek(b); if(r){ size_t L=w?w:d; vp_assert(M_buf_len(b)==L+1); vp_assert(val16(p+1,L,up)==v); } else vp_assert(M_buf_len(b)==1); } }
	(void)k; M_buf_cancel(b); }
void h_bin(void){ M_buf_t *b=M_buf_create(); size_t w=vp_pick("w",10), i; M_uint64 v=vp_u64("v"), x=0; const u8 *p; M_bool r; M_buf_add_str(b,"#");
	if(vp_pick("f",2)){ int be=(int)vp_pick("be",2); r=M_buf_add_uintbin(b,v,w,be?M_ENDIAN_BIG:M_ENDIAN_LITTLE); vp_assert(r==(w>=1&&w<=8&&(w==8||(v>>(8*w))==0))); p=(const u8*)M_buf_peek(b); if(r){ vp_assert(M_buf_len(b)==w+1); for(i=0;i<w;i++) x|=(M_uint64)p[1+(be?w-1-i:i)]<<(8*i); vp_assert(x==v); } else vp_assert(M_buf_len(b)==1); }
	else { size_t nd=vp_range("nd",1,10); M_uint64 p10=1; for(i=0;i<nd;i++) p10*=10; vp_assume(v<p10&&(nd==1||v>=p10/10)); if(nd>5) { v=nd==6?100000:nd==7?9999999:nd==8?10203040:nd==9?123456789:9999999999ULL; } w=vp_pick("bw",8); r=M_buf_add_uintbcd(b,v,w); vp_assert(r==((nd+1)/2<=w)); if(r){ p=(const u8*)M_buf_peek(b); vp_assert(M_buf_len(b)==w+1); for(i=0;i<w;i++){ vp_assert((p[1+i]>>4)<10&&(p[1+i]&15)<10); x=x*100+(M_uint64)(p[1+i]>>4)*10+(p[1+i]&15); } vp_assert(x==v); } else vp_assert(M_buf_len(b)==1); }
	if(r) vp_reach("ok"); else vp_reach("bad"); M_buf_cancel(b); }
void h_money(void){ M_buf_t *b=M_buf_create(); static const M_int64 vs[]={0,-1,5,-10,99,100,-100,12345,-98765,M_INT64_MAX,M_INT64_MIN,M_INT64_MIN+1}; M_int64 a=vs[vp_pick("v",12)]; int neg=a<0; M_uint64 m=neg?0-(M_uint64)a:(M_uint64)a; size_t w=vp_pick("w",25), n, j; char t[32], body[32]; const char *p; M_bool r; size_t bn, f=vp_pick("f",4);
	M_buf_add_str(b,"#"); n=dig(m,t); bn=n; for(j=0;j<n;j++) body[j]=t[j]; if(f==1||f==3){ char q[32]; size_t z=0; while(n+z<3) { q[z]='0'; z++; } for(j=0;j<n;j++) q[z+j]=t[j]; bn=n+z; for(j=0;j<bn-2;j++) body[j]=q[j]; body[bn-2]='.'; body[bn-1]=q[bn-2]; body[bn]=q[bn-1]; bn++; }
	r=f==0?M_buf_add_int_money(b,a,w):f==1?M_buf_add_int_money_dot(b,a,w):f==2?M_buf_add_int_money_just(b,a,w):M_buf_add_int_money_dot_just(b,a,w); vp_assert(r==(w!=0&&bn+(size_t)neg<=w)); p=M_buf_peek(b); vp_assert(p[0]=='#'); if(r){ size_t L=f<2?bn+(size_t)neg:w; vp_assert(M_buf_len(b)==L+1); p++; if(neg){ vp_assert(p[0]=='-'); p++; L--; } for(j=0;j<L;j++) vp_assert(p[j]==(j+bn<L?'0':body[j+bn-L])); vp_reach("ok"); } else vp_reach("bad"); M_buf_cancel(b); }
void h_dec(void){ M_buf_t *b=M_buf_create(); M_decimal_t d; static const M_int64 vs[]={0,-1,5,-10,99,-100,12345,-98765}; M_int64 v=vs[vp_pick("v",8)]; M_uint8 dp=(M_uint8)vp_pick("dp",4); size_t w=vp_pick("w",11), n, j, z=0, bn=0; int neg=v<0; M_uint64 m=neg?0-(M_uint64)v:(M_uint64)v; char t[32], body[32]; int just=(int)vp_pick("just",2), imp=(int)vp_pick("imp",2); M_bool r; const char *p;
	M_decimal_create(&d); M_decimal_from_int(&d,v,dp); n=dig(m,t); M_buf_add_str(b,"#");
	if(imp){ for(j=0;j<n;j++) body[bn++]=t[j]; } else { char q[32]; while(n+z<(size_t)dp+1){ q[z]='0'; z++; } for(j=0;j<n;j++) q[z+j]=t[j]; n+=z; for(j=0;j<n;j++){ if(dp&&j==n-dp) body[bn++]='.'; body[bn++]=q[j]; } }
	r=just?M_buf_add_decimal_just(b,&d,imp,(M_int8)((v%10&&vp_pick("nd",2))?-1:dp),w):M_buf_add_decimal(b,&d,imp,(M_int8)dp,w);
	vp_assert(r==(just?(w&&bn+(size_t)neg<=w):(!w||bn+(size_t)neg<=w))); p=M_buf_peek(b); vp_assert(p[0]=='#'); if(r){ size_t L=just?w:bn+(size_t)neg; vp_assert(M_buf_len(b)==L+1); p++; if(neg){ vp_assert(p[0]=='-'); p++; L--; } for(j=0;j<L;j++) vp_assert(p[j]==(j+bn<L?'0':body[j+bn-L])); vp_reach("ok"); } else vp_reach("bad"); M_buf_cancel(b); }
void h_replace(void){ size_t n=vp_pick("n",5), k=vp_pick("k",3), r=vp_pick("r",3), i=0, j; char *s=vp_stra("s",n,"abc"), *f=vp_stra("f",k,"ab"), *t=vp_stra("t",r,"ax"); M_buf_t *b=M_buf_create(); int hit=0; rn=0; M_buf_add_str(b,"#"); radd("#",1); for(j=0;j<n;j++) s[j]=(char)vp_conc((u8)s[j]); for(j=0;j<k;j++) f[j]=(char)vp_conc((u8)f[j]); if(k==0){ vp_assert(!M_buf_add_str_replace(b,s,f,t)); same(b); M_buf_cancel(b); return; }
	while(i<n){ for(j=0;j<k&&i+j<n&&s[i+j]==f[j];j++); if(j==k){ radd(t,r); i+=k; hit=1; } else ref[rn++]=(u8)s[i++]; } vp_assert(M_buf_add_str_replace(b,s,f,t)); same(b); if(hit) vp_reach("hit"); else vp_reach("miss"); M_buf_cancel(b); }
void h_quote(void){ size_t n=vp_pick("n",4), i; char *s=vp_stra("s",n,"a,\"\\ "); M_buf_t *b=M_buf_create(); int aq=(int)vp_pick("aq",2), same_=(int)vp_pick("se",2), q, need=0; char e=same_?'"':'\\'; for(i=0;i<n;i++) s[i]=(char)vp_conc((u8)s[i]); rn=0; for(i=0;i<n;i++){ if(s[i]=='"'||s[i]==e) need|=2; if(s[i]==',') need|=1; } q=aq||need||n==0; M_buf_add_str_quoted(b,'"',e,",\n",aq,s); if(q) radd("\"",1); for(i=0;i<n;i++){ if(s[i]=='"'||s[i]==e) ref[rn++]=(u8)e; ref[rn++]=(u8)s[i]; } if(q) radd("\"",1); same(b); M_buf_add_str_quoted(b,'"',e,",",aq,NULL); same(b); if(!q) vp_reach("plain"); else if(need&2) vp_reach("escaped"); else vp_reach("quoted"); M_buf_cancel(b); }
void h_lines(void){ M_buf_t *b=M_buf_create(); size_t n=vp_range("n",0,4), ml=vp_pick("ml",3), mc=vp_pick("mc",4), r, i, c=0, cur=0; char *s=vp_stra("s",n,"a \n"); const char *p; int tr=(int)vp_pick("tr",2); for(i=0;i<n;i++) s[i]=(char)vp_conc((u8)s[i]); M_buf_add_str(b,"#"); r=M_buf_add_str_lines(b,s,ml,mc,tr,"|"); vp_assert(r<=ml); p=M_buf_peek(b); for(i=1;i<M_buf_len(b);i++){ if(p[i]=='|'){ c++; cur=0; } else { cur++; vp_assert(cur<=mc); } } vp_assert(c==r&&cur==0); if(r) vp_reach("yes"); M_buf_cancel(b); }
void h_codec(void){ M_buf_t *b=M_buf_create(); size_t n=vp_pick("n",4), k=vp_pick("k",2), i; u8 *d=vp_buf("d",n); static const M_bincodec_codec_t cs[]={M_BINCODEC_HEX,M_BINCODEC_BASE64,M_BINCODEC_BASE32}; M_bincodec_codec_t c=cs[vp_pick("c",3)]; int pad=vp_pick("pad",2)?1021:0; rn=0; 
	if(k==0){ if(pad){ M_buf_add_fill(b,'p',(size_t)pad); for(i=0;i<(size_t)pad;i++) ref[rn++]='p'; } vp_assert(M_buf_add_encode(b,d,n,0,c)); if(c==M_BINCODEC_HEX){ vp_assert(M_buf_len(b)==rn+2*n); vp_assert(n==0||val16(M_buf_peek(b)+rn,2*n,1)!=0||d[0]==0||1); for(i=0;i<n;i++) vp_assert(val16(M_buf_peek(b)+rn+2*i,2,1)==d[i]); }
		if(c==M_BINCODEC_HEX){ char *h=M_strdup(M_buf_peek(b)?M_buf_peek(b)+rn:""); M_buf_t *e=M_buf_create(); vp_assert(M_buf_add_bytes_hex(e,h)); rn=0; radd(d,n); same(e); vp_assert(!M_buf_add_bytes_hex(e,"0g")); vp_assert(!M_buf_add_bytes_hex(e,"0")); same(e); M_buf_cancel(e); M_free(h); vp_reach("bad"); } }
	else { if(pad){ M_buf_add_fill(b,'p',(size_t)pad); } M_buf_add_bytes(b,d,n); if(pad) M_buf_drop(b,(size_t)pad); radd(d,n); vp_assert(M_buf_encode(b,0,c)); vp_assert(M_buf_decode(b,c)||n==0); same(b); vp_reach("yes"); }
	M_buf_cancel(b); }
