//@mods base
//@bounds operands: 9 base magnitudes (0, 1, 10, 15, 95, 10^9, 9.2*10^17, 2^63-1, -2^63 and negatives) plus/minus an arbitrary 5-bit delta, decimal places 0,1,2,9,17,18,19,25,130 (quick: 5 of them)
//@bounds parsing: every string of N characters over "0159.-+e " (quick 4, thorough 5) with every length argument, plus structured long inputs (runs of zeros or nines of 0..25, around 255 and 300 digits before/after the point, exponents around the limits)
//@outside end pointer of a number ending in '.'; the value of the last place of an inexact quotient beyond +-2 units; whether an exactly representable result is always found
//@H h_addsub q:QS=1 t:QS=0 jobs=4 reach=exact,trunc,over
//@H h_mul q:QS=1 t:QS=0 jobs=4 reach=exact,trunc,over
//@H h_div q:QS=1,DB=4 t:QS=0 jobs=8 reach=exact,trunc
//@H h_conv q:QS=1 t:QS=0 jobs=2 reach=exact,trunc,up
//@H h_cmp q:QS=1 t:QS=0 jobs=2 reach=lt,eq,gt
//@H h_text q:QS=1 t:QS=0 jobs=2 reach=rt
//@H h_parse q:N=4,QS=1 t:N=5,QS=1 jobs=4 reach=ok,inv,exp
//@H h_long q:QS=1 t:QS=1 jobs=2 reach=ok,trunc,over
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 4
#endif
#ifndef DB
#define DB 0
#endif
#ifndef QS
#define QS 1
#endif
typedef struct { M_uint64 hi, lo; } u128; 
static u128 mul64(M_uint64 a, M_uint64 b){ u128 r; M_uint64 al=a&0xffffffff,ah=a>>32,bl=b&0xffffffff,bh=b>>32, p=al*bl, q=al*bh, s=ah*bl, m=(p>>32)+(q&0xffffffff)+(s&0xffffffff); r.lo=(p&0xffffffff)|(m<<32); r.hi=ah*bh+(q>>32)+(s>>32)+(m>>32); return r; }
static int eq128(u128 a, u128 b){ return a.hi==b.hi && a.lo==b.lo; }
static int lt128(u128 a, u128 b){ return a.hi<b.hi || (a.hi==b.hi && a.lo<b.lo); }
static u128 add128(u128 a, u128 b){ u128 r; r.lo=a.lo+b.lo; r.hi=a.hi+b.hi+(r.lo<a.lo); return r; }
static u128 sub128(u128 a, u128 b){ u128 r; r.lo=a.lo-b.lo; r.hi=a.hi-b.hi-(a.lo<b.lo); return r; }
static M_uint64 p10(int k){ M_uint64 r=1; while(k-->0) r*=10; return r; }
static u128 from64(M_uint64 a){ u128 r; r.hi=0; r.lo=a; return r; }
static u128 sc10(u128 a, int k){ u128 z; z.hi=z.lo=0; while(k-->0){ if(a.hi>0xffffffffffffffffull/10){ z.hi=z.lo=~(M_uint64)0; return z; } a=add128(mul64(a.lo,10),(u128){a.hi*10,0}); } return a; }
static M_uint64 mag(M_int64 v){ return v<0?0-(M_uint64)v:(M_uint64)v; }
static M_int64 gen(const char *nm){ static const M_int64 B[]={0,1,95,M_INT64_MAX-40,M_INT64_MIN+40,-16,920000000000000000,10,1000000000,-95,-1000000000000000000}; M_int64 b=B[vp_pick(nm,QS?7:11)]; return b+(M_int64)vp_below(nm,DB?DB:QS?16:64)-(DB?DB/2:QS?8:24); }
static int gdec(const char *nm){ static const unsigned char D[]={0,2,18,1,25,9,17,19,130}; return D[vp_pick(nm,QS?3:9)]; }
static M_decimal_t mk(M_int64 n, int d){ M_decimal_t x; M_decimal_create(&x); x.num=n; x.num_dec=(M_uint8)d; return x; }
/* reference three-way compare of a*10^-p and b*10^-q */
static int rcmp(M_int64 a, int p, M_int64 b, int q){ int d; u128 x,y; int r; if(a==0||b==0||(a<0)!=(b<0)) return (a>b)-(a<b); d=p-q; if(d>19) r=-1; else if(d<-19) r=1; else { x=from64(mag(a)); y=from64(mag(b)); if(d>0) y=mul64(y.lo,p10(d)); else x=mul64(x.lo,p10(-d)); r=lt128(x,y)?-1:eq128(x,y)?0:1; } return a<0?-r:r; }
typedef struct { int neg; u128 m; } s128;
static s128 sadd(s128 a, s128 b){ s128 r; if(a.neg==b.neg){ r.neg=a.neg; r.m=add128(a.m,b.m); } else if(lt128(a.m,b.m)){ r.neg=b.neg; r.m=sub128(b.m,a.m); } else { r.neg=a.neg; r.m=sub128(a.m,b.m); } if(!r.m.hi&&!r.m.lo) r.neg=0; return r; }
static s128 mks(M_int64 a, int k){ s128 r; r.neg=a<0; r.m=mul64(mag(a),p10(k)); return r; }
static void strip(M_int64 *a, int *d){ while(*d>0 && *a%10==0){ *a/=10; (*d)--; } }
void h_addsub(void){ M_int64 a=gen("a"), b=gen("b"); int p=gdec("p"), q=gdec("q"), m, sub=(int)vp_pick("sub",2); M_decimal_t x, y, r; enum M_DECIMAL_RETVAL rv; s128 s; r=mk(77,3);
	if(p>20||q>20){ vp_assume(a>-100&&a<100&&b>-100&&b<100); }
	x=mk(a,p); y=mk(b,q); rv=sub?M_decimal_subtract(&r,&x,&y):M_decimal_add(&r,&x,&y);
	vp_assert(x.num==a&&y.num==b);
	strip(&a,&p); strip(&b,&q); m=p>q?p:q;
	if((m-p>19&&a)||(m-q>19&&b)){ vp_assert(rv!=M_DECIMAL_SUCCESS); vp_reach("trunc"); return; }
	if(m-p>19) p=m; if(m-q>19) q=m;
	s=mks(b,m-q); if(sub) s.neg=!s.neg; s=sadd(mks(a,m-p),s);
	if(rv==M_DECIMAL_SUCCESS){ vp_reach("exact"); vp_assert(r.num_dec<=m); vp_assert(eq128(sc10(from64(mag(r.num)),m-r.num_dec),s.m)); vp_assert(r.num==0||(r.num<0)==s.neg); }
	else { int fa=mul64(mag(a),p10(m-p)).hi==0 && mul64(mag(a),p10(m-p)).lo<=(M_uint64)M_INT64_MAX, fb=mul64(mag(b),p10(m-q)).hi==0 && mul64(mag(b),p10(m-q)).lo<=(M_uint64)M_INT64_MAX, fr=s.m.hi==0 && s.m.lo<=(M_uint64)M_INT64_MAX; vp_assert(!(fa&&fb&&fr));
		vp_assert(rv==M_DECIMAL_TRUNCATION||rv==M_DECIMAL_OVERFLOW); if(rv==M_DECIMAL_TRUNCATION){ vp_reach("trunc"); 
			/* the rounded result is within one unit of its own last place per rounded operand */
			{ int k=m-r.num_dec; s128 e; vp_assert(k>=0); if(k<=19){ s.neg=!s.neg; e=sadd(mks(r.num,k),s); vp_assert(!lt128(from64(p10(k)),e.m)); } } }
		else vp_reach("over"); } }
void h_mul(void){ M_int64 a=gen("a"), b=gen("b"); int p=gdec("p"), q=gdec("q"), i; M_decimal_t x, y, r; enum M_DECIMAL_RETVAL rv; u128 e; r=mk(77,3);
	if(p>20||q>20){ vp_assume(a>-100&&a<100&&b>-100&&b<100); }
	x=mk(a,p); y=mk(b,q); rv=M_decimal_multiply(&r,&x,&y); e=mul64(mag(a),mag(b));
	if(rv==M_DECIMAL_SUCCESS){ vp_reach("exact"); if(a==0||b==0){ vp_assert(r.num==0); return; } vp_assert(r.num_dec<=p+q); i=p+q-r.num_dec; vp_assert(i<=38); vp_assert(eq128(sc10(from64(mag(r.num)),i),e)); vp_assert((r.num<0)==((a<0)!=(b<0))); }
	else if(rv==M_DECIMAL_TRUNCATION) vp_reach("trunc"); else { vp_reach("over"); vp_assert(a!=0&&b!=0); strip(&a,&p); strip(&b,&q); if(p==q && p<64) vp_assert(e.hi||e.lo>(M_uint64)M_INT64_MAX); } }
void h_div(void){ M_int64 a=gen("a"), b=gen("b"); int p=gdec("p"), q=gdec("q"), k; M_decimal_t x, y, r; enum M_DECIMAL_RETVAL rv; M_decimal_round_t rd=(M_decimal_round_t)vp_pick("rd",3); r=mk(77,3);
	if(p>20||q>20){ vp_assume(a>-100&&a<100&&b>-100&&b<100); }
	x=mk(a,p); y=mk(b,q); rv=M_decimal_divide(&r,&x,&y,rd);
	if(b==0){ vp_assert(rv==M_DECIMAL_INVALID); return; }
	if(rv!=M_DECIMAL_SUCCESS&&rv!=M_DECIMAL_TRUNCATION) return;
	if(rv==M_DECIMAL_SUCCESS){ u128 l,rr; vp_reach("exact"); if(a==0){ vp_assert(r.num==0); return; } vp_assert(r.num!=0); vp_assert((r.num<0)==((a<0)!=(b<0)));
		k=(int)r.num_dec+q-p; l=mul64(mag(r.num),mag(b)); rr=from64(mag(a)); if(k>0) rr=sc10(rr,k); else l=sc10(l,-k); vp_assert(eq128(l,rr)); }
	else if(p==q && r.num_dec<=18){ /* |r*b - a*10^dec| <= 2|b| */ s128 l, t; vp_reach("trunc"); l.neg=(r.num<0)!=(b<0); l.m=mul64(mag(r.num),mag(b)); t=mks(a,r.num_dec); t.neg=!t.neg; l=sadd(l,t); vp_assert(!lt128(mul64(mag(b),2),l.m)); } }
void h_conv(void){ M_int64 a=gen("a"); int p=gdec("p"), w=gdec("w"), k; M_decimal_round_t rd=(M_decimal_round_t)vp_pick("rd",3); M_decimal_t x=mk(a,p), y, z; enum M_DECIMAL_RETVAL rv;
	M_decimal_duplicate(&y,&x); vp_assert(y.num==a&&y.num_dec==p&&M_decimal_num_decimals(&y)==p); M_decimal_reduce(&y); vp_assert(rcmp(y.num,y.num_dec,a,p)==0); vp_assert(y.num_dec==0||y.num%10!=0||y.num==0);
	M_decimal_from_int(&z,a,(M_uint8)p); vp_assert(rcmp(z.num,z.num_dec,a,p)==0);
	rv=M_decimal_transform(&x,(M_uint8)w,rd);
	if(rv==M_DECIMAL_SUCCESS){ vp_reach("exact"); vp_assert(x.num_dec==w); vp_assert(rcmp(x.num,w,a,p)==0); }
	else if(rv==M_DECIMAL_TRUNCATION){ M_uint64 q, rem, h; vp_reach("trunc"); vp_assert(x.num_dec==w); k=p-w; vp_assert(k>0&&k<=18); q=mag(a)/p10(k); rem=mag(a)%p10(k); h=p10(k)/2; vp_assert(rem!=0);
		if(rd==M_DECIMAL_ROUND_TRADITIONAL && rem>=h) { q++; vp_reach("up"); } if(rd==M_DECIMAL_ROUND_BANKERS){ if(rem>=h+p10(k-1)||(rem==h&&(q&1))) q++; else if(rem>h){ vp_assert(mag(x.num)==q||mag(x.num)==q+1); q=mag(x.num); } } vp_assert(mag(x.num)==q); vp_assert(q==0||(x.num<0)==(a<0)); }
	else { vp_assert(rv==M_DECIMAL_OVERFLOW); if(w>p && w-p<=19) vp_assert(mul64(mag(a),p10(w-p)).hi||mul64(mag(a),p10(w-p)).lo>(M_uint64)M_INT64_MAX); if(w<p) vp_assert(p-w>=19); vp_assert(w!=p); }
	x=mk(a,p); { M_int64 t=M_decimal_to_int(&x,(M_uint8)w); vp_assert(x.num==a&&x.num_dec==p); if(rv==M_DECIMAL_SUCCESS) vp_assert(rcmp(t,w,a,p)==0); if(rv==M_DECIMAL_OVERFLOW) vp_assert(t==0); if(rv==M_DECIMAL_TRUNCATION){ M_uint64 q=mag(a)/p10(p-w); if(mag(a)%p10(p-w)>=p10(p-w)/2) q++; vp_assert(mag(t)==q); } } }
void h_cmp(void){ M_int64 a=gen("a"), b=gen("b"); int p=gdec("p"), q=gdec("q"), e; M_decimal_t x=mk(a,p), y=mk(b,q); e=rcmp(a,p,b,q); vp_assert(M_decimal_cmp(&x,&y)==e); if(e<0) vp_reach("lt"); else if(e>0) vp_reach("gt"); else vp_reach("eq"); vp_assert(M_decimal_cmp(&x,NULL)==1&&M_decimal_cmp(NULL,&x)==-1); }
/* rendering is the exact decimal text, and reads back as the same value */
void h_text(void){ M_int64 a=gen("a"); int p=gdec("p"), n=0, i; unsigned char d[160]; char e[200]; M_uint64 v=mag(a); M_decimal_t x=mk(a,p), y; char *b; const char *end; size_t len, sz; enum M_DECIMAL_RETVAL rv;
	do { d[n++]=(unsigned char)(v%10); v/=10; } while(v); while(n<=p) d[n++]=0; i=0; if(a<0) e[i++]='-'; while(n-->0){ e[i++]=(char)('0'+d[n]); if(n==p&&p) e[i++]='.'; } e[i]=0; len=(size_t)i;
	sz=len+(size_t)vp_pick("short",3)-1; b=(char*)vp_malloc(sz); rv=M_decimal_to_str(&x,b,sz);
	if(sz<len+1){ vp_assert(rv==M_DECIMAL_INVALID); return; }
	if(sz<2) return;
	vp_assert(rv==M_DECIMAL_SUCCESS); for(i=0;i<=(int)len;i++) vp_assert(b[i]==e[i]); vp_reach("rt");
	if(p>18) return; { char *t=(char*)vp_malloc(len); memcpy(t,b,len); rv=M_decimal_from_str(t,len,&y,&end); vp_assert(rv==M_DECIMAL_SUCCESS); vp_assert(end==t+len); vp_assert(rcmp(y.num,y.num_dec,a,p)==0); } }
static int rsp(char c){ return c==' '||(c>=9&&c<=13); }
void h_parse(void){ size_t len=(size_t)vp_range("len",1,N), i=0; char *s=(char*)vp_buf("s",len); M_decimal_t x; const char *end=s+99; enum M_DECIMAL_RETVAL rv; int neg=0, any=0, dec=0, ok=1, ex=0, eneg=0, eany=0; M_int64 v=0; size_t e;
	for(i=0;i<len;i++) vp_assume(vp_in(s[i],"0159.-+e ")); i=0;
	rv=M_decimal_from_str(s,len,&x,&end);
	if(s[0]!='.'){ while(i<len&&rsp(s[i])) i++; if(i<len&&(s[i]=='-'||s[i]=='+')){ neg=s[i]=='-'; i++; } while(i<len&&s[i]>='0'&&s[i]<='9'){ v=v*10+(s[i]-'0'); any=1; i++; } if(!any) ok=0; }
	if(ok && i<len && s[i]=='.'){ size_t st=++i; while(i<len&&s[i]>='0'&&s[i]<='9'){ v=v*10+(s[i]-'0'); dec++; i++; } if(!dec&&(st<len||!any)) ok=0; }
	e=i; if(ok && i<len && s[i]=='e'){ i++; while(i<len&&rsp(s[i])) i++; if(i<len&&(s[i]=='-'||s[i]=='+')){ eneg=s[i]=='-'; i++; } while(i<len&&s[i]>='0'&&s[i]<='9'){ ex=ex*10+(s[i]-'0'); eany=1; i++; } if(!eany) ok=0; e=i; }
	if(!ok){ vp_assert(rv==M_DECIMAL_INVALID); vp_reach("inv"); return; }
	if(neg) v=-v; if(eany) vp_reach("exp");
	vp_assert(rv!=M_DECIMAL_INVALID);
	if(rv==M_DECIMAL_SUCCESS){ int k=dec-(eneg?-ex:ex); vp_reach("ok"); if(s[e-1]!='.') vp_assert(end==s+e); if(v==0) vp_assert(x.num==0); else { vp_assert(x.num!=0); if(k>=0) vp_assert(rcmp(x.num,x.num_dec,v,k)==0); else { vp_assert(x.num_dec==0); vp_assert(-k<=18); vp_assert(eq128(mul64(mag(v),p10(-k)),from64(mag(x.num)))&&(x.num<0)==(v<0)); } } }
	else vp_assert(ex>17); }
static size_t run(char *o, const char *nm, char c, size_t n){ size_t i; (void)nm; for(i=0;i<n;i++) o[i]=c; return n; }
/* long inputs: value checked when the exact value fits; otherwise it has to be reported */
void h_long(void){ static const unsigned short R[]={0,1,17,18,19,20,25,37,254,255,256,300}; char *s=(char*)vp_malloc(700); size_t k=0, z1=R[vp_pick("z1",12)], z2; char c1="09"[vp_pick("c1",2)]; const char *end; M_decimal_t x; enum M_DECIMAL_RETVAL rv; int lead=(int)vp_pick("lead",3), form=(int)vp_pick("form",4); unsigned char d1=vp_u8("d1"), d2=vp_u8("d2"); char *t; vp_assume(d1<10&&d2<10);
	if(form>=2){ /* d1 e [-]k */ static const char *E[]={"0","1","18","19","20","37","40","100","200","255","256","300","9223372036854775807","9223372036854775808","99999999999999999999"}; const char *ee=E[vp_pick("e",15)]; int ev=0; size_t j; M_uint64 big=0; s[k++]=(char)('0'+d1); s[k++]=(char)(lead?'e':'E'); if(form==3) s[k++]='-'; for(j=0;ee[j];j++){ s[k++]=ee[j]; big=big*10+(M_uint64)(ee[j]-'0'); } ev=j>3?9999:(int)big; t=(char*)vp_malloc(k); memcpy(t,s,k); rv=M_decimal_from_str(t,k,&x,&end);
		if(rv==M_DECIMAL_SUCCESS){ vp_reach("ok"); if(d1==0){ vp_assert(x.num==0); return; } if(form==3){ vp_assert(rcmp(x.num,x.num_dec,d1,ev)==0); } else { vp_assert(ev<=18&&x.num_dec==0); vp_assert(eq128(mul64(d1,p10(ev)),from64(mag(x.num)))&&x.num>0); } } else { vp_reach("over"); vp_assert(d1==0||ev>17); } return; }
	if(form==0){ /* lead . z1*c1 d2 */ s[k++]=(char)(lead==2?'9':lead==1?'0'+d1:'0'); s[k++]='.'; k+=run(s+k,"",c1,z1); s[k++]=(char)('0'+d2); t=(char*)vp_malloc(k); memcpy(t,s,k); rv=M_decimal_from_str(t,k,&x,&end);
		if(c1=='0'){ M_int64 ip=s[0]-'0'; vp_assert(rv==M_DECIMAL_SUCCESS||rv==M_DECIMAL_TRUNCATION); vp_assert(end==t+k);
			if(rv==M_DECIMAL_SUCCESS){ vp_reach("ok"); if(d2==0) vp_assert(rcmp(x.num,x.num_dec,ip,0)==0); else if(ip==0) vp_assert(rcmp(x.num,x.num_dec,d2,(int)z1+1)==0); else { vp_assert(z1<=17); vp_assert(rcmp(x.num,x.num_dec,ip*(M_int64)p10((int)z1+1)+d2,(int)z1+1)==0); } }
			else { vp_reach("trunc"); vp_assert(x.num_dec<=255); vp_assert(rcmp(x.num,x.num_dec,ip,0)>=0); vp_assert(rcmp(x.num,x.num_dec,ip+1,0)<=0); if(ip>0&&z1>=18) vp_assert(rcmp(x.num,x.num_dec,ip,0)==0); } }
		else if(z1>=19){ vp_assert(rv==M_DECIMAL_TRUNCATION); vp_reach("trunc"); vp_assert(rcmp(x.num,x.num_dec,s[0]-'0',0)>0); vp_assert(rcmp(x.num,x.num_dec,s[0]-'0'+1,0)<=0); } return; }
	/* integer part long */ s[k++]=(char)('1'+(d1%9)); k+=run(s+k,"",c1,z1); z2=k; s[k++]='.'; s[k++]=(char)('0'+d2); t=(char*)vp_malloc(k); memcpy(t,s,k); rv=M_decimal_from_str(t,k,&x,&end);
	if(z1>=19){ vp_assert(rv==M_DECIMAL_OVERFLOW); vp_reach("over"); } else if(z1<=17){ M_int64 v=0; size_t j; for(j=0;j<z2;j++) v=v*10+(s[j]-'0'); vp_assert(rv==M_DECIMAL_SUCCESS||rv==M_DECIMAL_TRUNCATION); vp_assert(end==t+k); if(rv==M_DECIMAL_SUCCESS){ u128 f=add128(mul64((M_uint64)v,10),from64(d2)); vp_assert(eq128(sc10(from64(mag(x.num)),1-(int)x.num_dec),f)); } else { vp_assert(rcmp(x.num,x.num_dec,v,0)>=0); } } }
