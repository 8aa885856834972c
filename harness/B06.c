//@mods base
//@bounds every string of N arbitrary bytes (quick 3-4, thorough 4-5) for bases 0,2,8,10,16,36 (thorough: all of 0..37) and every length argument 0..N+1
//@bounds near the type limits: lead digit and last two digits arbitrary, middle digits 0 / limit digits / max digit, lengths limit-1..limit+2 digits, optional sign
//@outside strings longer than the limit digits + 2
//@H h_any64 q:N=3,LO=0,HI=37,QS=1 t:N=4,LO=0,HI=37,QS=0 reach=ok,inv jobs=2
//@H h_any64s q:N=3,LO=0,HI=37,QS=1 t:N=4,LO=0,HI=37,QS=0 reach=ok,inv jobs=2
//@H h_any32 q:N=3,LO=10,HI=10,QS=0 t:N=4,LO=10,HI=10,QS=0 reach=ok,inv
//@H h_any32s q:N=3,LO=10,HI=10,QS=0 t:N=4,LO=10,HI=10,QS=0 reach=ok,inv
//@H h_lim64 q:QS=1 t:QS=0 reach=ok,over jobs=4
//@H h_lim64s q:QS=1 t:QS=0 reach=ok,over jobs=2
//@H h_lim32 q:QS=1 t:QS=0 reach=ok,over
//@H h_lim32s q:QS=1 t:QS=0 reach=ok,over
//@H h_simple q:N=3 t:N=4 reach=ok
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef LO
#define LO 0
#define HI 37
#endif
#ifndef QS
#define QS 1
#endif
#ifndef N
#define N 3
#endif
/* reference: exact magnitude with overflow detection, first unused position */
typedef struct { int valid, neg, over; M_uint64 mag; size_t end; } ref_t;
static int rspace(unsigned char c){ return c==' '||(c>=9&&c<=13); }
static int rdig(unsigned char c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='z'?c-'a'+10:c>='A'&&c<='Z'?c-'A'+10:99; }
static ref_t ref(const char *s, size_t len, unsigned base){
	ref_t r; size_t i=0, st; r.valid=r.neg=r.over=0; r.mag=0; r.end=0;
	while(i<len && s[i] && rspace((unsigned char)s[i])) i++;
	if(i<len && (s[i]=='-'||s[i]=='+')){ r.neg=s[i]=='-'; i++; }
	if(base==0){ if(i+1<len && s[i]=='0' && (s[i+1]=='x'||s[i+1]=='X')) base=16; else if(i<len && s[i]=='0') base=8; else base=10; }
	if(base==16 && i+1<len && s[i]=='0' && (s[i+1]=='x'||s[i+1]=='X')) i+=2;
	r.end=i; if(base<2||base>36) return r;
	st=i;
	for(;i<len && s[i] && rdig((unsigned char)s[i])<(int)base;i++){ M_uint64 d=(M_uint64)rdig((unsigned char)s[i]); if(r.mag>0xffffffffffffffffull/base || (r.mag==0xffffffffffffffffull/base && d>0xffffffffffffffffull%base)) r.over=1; r.mag=r.mag*base+d; }
	r.end=i; r.valid=i>st; return r; }
static unsigned pickbase(void){
#if QS
	static const unsigned char b[]={0,2,8,10,16,36,1,37}; 
	return LO==HI?LO:b[vp_pick("base",8)];
#else
	return (unsigned)vp_range("base",LO,HI);
#endif
}
static void chk64(const char *s, size_t len, unsigned base){
	M_uint64 v=77; const char *end=NULL; ref_t r; M_str_int_retval_t rv=M_str_to_uint64_ex(s,len,(unsigned char)base,&v,&end);
	if(len==0){ vp_assert(rv==M_STR_INT_INVALID); return; }
	r=ref(s,len,base); vp_assert(end==s+r.end);
	if(r.over){ vp_reach("over"); vp_assert(rv==M_STR_INT_OVERFLOW); vp_assert(v==M_UINT64_MAX); }
	else if(!r.valid){ vp_reach("inv"); vp_assert(rv==M_STR_INT_INVALID); vp_assert(v==0); }
	else { vp_reach("ok"); vp_assert(rv==M_STR_INT_SUCCESS); vp_assert(v==(r.neg?0-r.mag:r.mag)); } }
static void chk64s(const char *s, size_t len, unsigned base){
	M_int64 v=77; const char *end=NULL; ref_t r; M_str_int_retval_t rv=M_str_to_int64_ex(s,len,(unsigned char)base,&v,&end);
	if(len==0){ vp_assert(rv==M_STR_INT_INVALID); return; }
	r=ref(s,len,base); vp_assert(end==s+r.end);
	if(r.over || r.mag>(r.neg?(M_uint64)1<<63:((M_uint64)1<<63)-1)){ vp_reach("over"); vp_assert(rv==M_STR_INT_OVERFLOW); vp_assert(v==(r.neg?M_INT64_MIN:M_INT64_MAX)); }
	else if(!r.valid){ vp_reach("inv"); vp_assert(rv==M_STR_INT_INVALID); vp_assert(v==0); }
	else { vp_reach("ok"); vp_assert(rv==M_STR_INT_SUCCESS); vp_assert((M_uint64)v==(r.neg?0-r.mag:r.mag)); } }
static void chk32(const char *s, size_t len, unsigned base){
	M_uint32 v=77; const char *end=NULL; ref_t r; M_str_int_retval_t rv=M_str_to_uint32_ex(s,len,(unsigned char)base,&v,&end);
	if(len==0){ vp_assert(rv==M_STR_INT_INVALID); return; }
	r=ref(s,len,base); vp_assert(end==s+r.end);
	if(r.over || (r.neg?0-r.mag:r.mag)>M_UINT32_MAX){ vp_reach("over"); vp_assert(rv==M_STR_INT_OVERFLOW); vp_assert(v==M_UINT32_MAX); }
	else if(!r.valid){ vp_reach("inv"); vp_assert(rv==M_STR_INT_INVALID); vp_assert(v==0); }
	else { vp_reach("ok"); vp_assert(rv==M_STR_INT_SUCCESS); vp_assert(v==(M_uint32)(r.neg?0-r.mag:r.mag)); } }
static void chk32s(const char *s, size_t len, unsigned base){
	M_int32 v=77; const char *end=NULL; ref_t r; M_str_int_retval_t rv=M_str_to_int32_ex(s,len,(unsigned char)base,&v,&end);
	if(len==0){ vp_assert(rv==M_STR_INT_INVALID); return; }
	r=ref(s,len,base); vp_assert(end==s+r.end);
	if(r.over || r.mag>(r.neg?0x80000000ull:0x7fffffffull)){ vp_reach("over"); vp_assert(rv==M_STR_INT_OVERFLOW); vp_assert(v==(r.neg?M_INT32_MIN:M_INT32_MAX)); }
	else if(!r.valid){ vp_reach("inv"); vp_assert(rv==M_STR_INT_INVALID); vp_assert(v==0); }
	else { vp_reach("ok"); vp_assert(rv==M_STR_INT_SUCCESS); vp_assert((M_uint32)v==(M_uint32)(r.neg?0-r.mag:r.mag)); } }
/* arbitrary bytes, exact-size buffer without terminator: nothing beyond len may be read */
#define ANY(name,chk) void name(void){ size_t len=(size_t)vp_pick("len",N+2); unsigned base=pickbase(); char *s; \
	if(len<=N){ s=(char*)vp_buf("s",len); chk(s,len,base); } else { s=vp_str("s",N); chk(s,len,base); chk(s,SIZE_MAX,base); } }
ANY(h_any64,chk64) ANY(h_any64s,chk64s) ANY(h_any32,chk32) ANY(h_any32s,chk32s)
/* digits around the limit of a type with `bits` magnitude bits */
static int ndig(M_uint64 m, unsigned base, unsigned char *d){ unsigned char t[72]; int n=0,i; while(m){ t[n++]=(unsigned char)(m%base); m/=base; } for(i=0;i<n;i++) d[i]=t[n-1-i]; return n; }
static void limit(M_uint64 lim, void (*chk)(const char*,size_t,unsigned)){
#if QS
	static const unsigned char b[]={2,8,10,16,36,7}; unsigned base=b[vp_pick("base",6)];
#else
	unsigned base=(unsigned)vp_range("base",2,36);
#endif
	unsigned char d[72]; int n=ndig(lim,base,d), len=n-1+(int)vp_pick("dl",3), mid=(int)vp_pick("mid",3), neg=(int)vp_pick("neg",2), i; char s[80]; size_t k=0;
	if(neg) s[k++]='-';
	for(i=0;i<len;i++){ char c; unsigned v;
		if(i==0||i>=len-2){ unsigned char x=vp_u8("d"); vp_assume(x<base); c=(char)(x<10?'0'+x:(i==0?'a':'A')+x-10); }
		else { v=mid==0?0:mid==1?(i<n?d[i]:d[n-1]):base-1; c=(char)(v<10?'0'+v:'a'+v-10); }
		s[k++]=c; }
	s[k]=0; chk(s,k,base); }
void h_lim64(void){ limit(0xffffffffffffffffull,chk64); }
void h_lim64s(void){ limit(0x7fffffffffffffffull+vp_pick("l",2),chk64s); }
void h_lim32(void){ limit(0xffffffffull,chk32); }
void h_lim32s(void){ limit(0x7fffffffull+vp_pick("l",2),chk32s); }
/* the one-argument forms */
void h_simple(void){ char *s=vp_str("s",N); ref_t r=ref(s,N+1,10); M_int32 a=M_str_to_int32(s); M_uint32 b=M_str_to_uint32(s); M_int64 c=M_str_to_int64(s); M_uint64 d=M_str_to_uint64(s);
	M_int64 e=r.valid?(r.neg?-(M_int64)r.mag:(M_int64)r.mag):0;
	vp_assert(a==e); vp_assert(c==e); vp_assert(d==(M_uint64)e); vp_assert(b==(r.valid&&r.neg&&r.mag?M_UINT32_MAX:(M_uint32)e));
	vp_assert(M_str_to_int32(NULL)==0 && M_str_to_uint64("")==0); if(r.valid) vp_reach("ok"); }
