//@mods base
//@bounds integer conversions d i u o x X with every flag subset, widths 0,1,4,9 and given by '*', every 8-bit magnitude of either sign; every length modifier with values at the limits of each type (+-arbitrary 6-bit delta)
//@bounds strings of up to 4 arbitrary bytes with every width/precision 0..5 and '-' flag; characters; formats of up to N arbitrary characters over "%d ux-0+ #.*lhzc12q" (quick 3, thorough 4) with every buffer size
//@bounds file descriptor output: literal and %s runs of 0,1,510..514,1023..1025 bytes
//@outside floating point conversions; integer precision (documented as not supported); '#' with value 0 in hexadecimal; negative '*' arguments
//@stubs write() collects into memory in the descriptor harness
//@H h_flags q:W=0 t:W=1 jobs=4 reach=neg,pos,pad
//@H h_mods q: t: jobs=2 reach=ok
//@H h_str q:N=2,P=3 t:N=4,P=5 jobs=2 reach=cut,pad
//@H h_bound q:N=3 t:N=4 jobs=4 reach=cut,full
//@H h_fd q: t: reach=ok
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 3
#endif
#ifndef P
#define P 3
#endif
#ifndef W
#define W 0
#endif
static size_t rdigits(M_uint64 v, unsigned base, int up, char *o){ char t[70]; size_t n=0,i; do { unsigned d=(unsigned)(v%base); t[n++]=(char)(d<10?'0'+d:(up?'A':'a')+d-10); v/=base; } while(v); for(i=0;i<n;i++) o[i]=t[n-1-i]; return n; }
/* the C rules for [flags][width]conv */
static size_t rfmt(char *o, char conv, M_uint64 mg, int neg, int fl, size_t width){ char d[70]; size_t n, k=0, i; const char *pre=""; size_t pl; unsigned base=conv=='x'||conv=='X'?16:conv=='o'?8:10; char body[80]; int left=fl&1, plus=fl&2, sp=fl&4, alt=fl&8, zero=(fl&16)&&!left; char pb[4]; size_t tot;
	n=rdigits(mg,base,conv=='X',d);
	pl=0; if(conv=='d'||conv=='i'){ if(neg) pb[pl++]='-'; else if(plus) pb[pl++]='+'; else if(sp) pb[pl++]=' '; }
	if(alt && base==16){ pb[pl++]='0'; pb[pl++]=conv; } if(alt && base==8 && d[0]!='0' ){ pb[pl++]='0'; } (void)pre; (void)body;
	tot=n+pl; if(alt&&base==8&&zero&&width>n+pl) { }
	if(!left&&!zero) for(i=tot;i<width;i++) o[k++]=' ';
	for(i=0;i<pl;i++) o[k++]=pb[i]; if(zero) for(i=tot;i<width;i++) o[k++]='0';
	for(i=0;i<n;i++) o[k++]=d[i]; if(left) for(i=tot;i<width;i++) o[k++]=' '; o[k]=0; return k; }
static void same(const char *a, const char *b, size_t n){ size_t i; int e=1; for(i=0;i<=n;i++) e&=(a[i]==b[i]); vp_assert(e); }
void h_flags(void){ char conv="duxXoi"[vp_pick("c",W?6:5)], f[24], e[64], *b, *as=NULL; int fl=(int)vp_pick("fl",32), neg=(conv=='d'||conv=='i')?(int)vp_pick("neg",2):0, star=(int)vp_pick("star",2); static const unsigned char ws[]={0,1,4,9,12}; size_t w=ws[vp_pick("w",W?5:4)], k=0, n, r; unsigned char v=vp_u8("v"); M_int64 arg;
	if((fl&8)&&(conv=='x'||conv=='X'||neg)) vp_assume(v!=0); if(neg) vp_assume(v!=0);
	f[k++]='%'; if(fl&16) f[k++]='0'; if(fl&1) f[k++]='-'; if(fl&4) f[k++]=' '; if(fl&2) f[k++]='+'; if(fl&8) f[k++]='#'; if(star) f[k++]='*'; else if(w){ if(w>9) f[k++]='1'; f[k++]=(char)('0'+w%10); } f[k++]=conv; f[k]=0;
	n=rfmt(e,conv,v,neg,fl,w); arg=neg?-(M_int64)v:(M_int64)v; b=(char*)vp_malloc(n+1);
	if(star) r=M_snprintf(b,n+1,f,(int)w,(int)arg); else r=M_snprintf(b,n+1,f,(int)arg);
	vp_assert(r==n); same(b,e,n); r=star?M_asprintf(&as,f,(int)w,(int)arg):M_asprintf(&as,f,(int)arg); vp_assert(r==n); same(as,e,n); M_free(as); if(neg) vp_reach("neg"); else vp_reach("pos"); if(w==9) vp_reach("pad"); }
void h_mods(void){ static const char *ms[]={"","h","hh","l","ll","z","I64"}; int m=(int)vp_pick("m",7), w=m==0?32:m==1?16:m==2?8:64, shape=(int)vp_pick("s",5); char conv="diuxo"[vp_pick("c",5)], f[16], e[80], *b; size_t n,k=0,r,i; unsigned d=(unsigned)vp_below("d",64); M_uint64 v, mask=w==64?~(M_uint64)0:((M_uint64)1<<w)-1, mg; int neg=0;
	switch(shape){ case 0: v=d; break; case 1: v=0-(M_uint64)d; break; case 2: v=((M_uint64)1<<(w-1))-32+d; break; case 3: v=mask-d; break; default: v=mask+1+d; break; }
	f[k++]='%'; for(i=0;ms[m][i];i++) f[k++]=ms[m][i]; f[k++]=conv; f[k]=0; mg=v&mask; if((conv=='d'||conv=='i') && (mg>>(w-1))){ neg=1; mg=(0-mg)&mask; }
	n=rfmt(e,conv,mg,neg,0,0); b=(char*)vp_malloc(n+1); r=w==64?M_snprintf(b,n+1,f,v):M_snprintf(b,n+1,f,(int)v); vp_assert(r==n); same(b,e,n); vp_reach("ok"); }
void h_str(void){ size_t l=(size_t)vp_pick("l",N+1), i, w=(size_t)vp_pick("w",P+1), pr=(size_t)vp_pick("p",P+2), n, k=0, r, len; char *s, f[16], e[40], *b; int left=(int)vp_pick("left",2), isc=(int)vp_pick("isc",2);
	if(isc){ unsigned char c=vp_u8("c"); vp_assume(pr==0&&l==0); f[k++]='%'; if(left) f[k++]='-'; if(w) f[k++]=(char)('0'+w); f[k++]='c'; f[k]=0; n=0; if(!left) for(i=1;i<w;i++) e[n++]=' '; e[n++]=(char)c; if(left) for(i=1;i<w;i++) e[n++]=' '; e[n]=0; b=(char*)vp_malloc(n+1); r=M_snprintf(b,n+1,f,c); vp_assert(r==n); for(i=0;i<=n;i++) vp_assert(b[i]==e[i]); return; }
	/* with a precision the argument need not be terminated */
	if(pr<=P && pr<=l){ s=(char*)vp_buf("s",l); for(i=0;i<l;i++) vp_assume(s[i]!=0); } else s=vp_strn("s",l);
	f[k++]='%'; if(left) f[k++]='-'; if(w) f[k++]=(char)('0'+w); if(pr<=P){ f[k++]='.'; f[k++]=(char)('0'+pr); } f[k++]='s'; f[k++]='!'; f[k]=0; len=pr<=P&&pr<l?pr:l; if(pr<l) vp_reach("cut"); if(w>len) vp_reach("pad");
	n=0; if(!left) for(i=len;i<w;i++) e[n++]=' '; for(i=0;i<len;i++) e[n++]=s[i]; if(left) for(i=len;i<w;i++) e[n++]=' '; e[n++]='!'; e[n]=0; b=(char*)vp_malloc(n+1); r=M_snprintf(b,n+1,f,s); vp_assert(r==n); same(b,e,n); }
/* arbitrary formats: bounded, terminated, full length reported, growing and fixed buffers agree */
void h_bound(void){ size_t l=(size_t)vp_range("l",1,N), i, r, sz; char *f=vp_strn("f",l), *as=NULL, *b; M_buf_t *mb; M_int64 a=1234; for(i=0;i<l;i++) vp_assume(vp_in(f[i],"%dux-0+ #.*lhzc12q"));
	r=M_asprintf(&as,f,a,a+1,a+2,a+3); vp_assert(as!=NULL||r==0); vp_assert(r<=20000); mb=M_buf_create(); vp_assert(M_bprintf(mb,f,a,a+1,a+2,a+3)==r); vp_assert(M_buf_len(mb)==r); vp_assert(M_mem_eq(M_buf_peek(mb),as,r)); M_buf_cancel(mb);
	vp_assert(M_snprintf(NULL,0,f,a,a+1,a+2,a+3)==r);
	if(r>6) sz=vp_pick("sz",2)?r+1:r-1; else sz=(size_t)vp_pick("sz2",r+2); b=(char*)vp_malloc(sz); vp_assert(M_snprintf(b,sz,f,a,a+1,a+2,a+3)==r);
	if(sz){ size_t m=sz-1<r?sz-1:r; vp_assert(b[m]==0); vp_assert(M_mem_eq(b,as,m)); if(m<r) vp_reach("cut"); else vp_reach("full"); } M_free(as); }
static unsigned char wb[4096]; static size_t wn; static int wbad;
ssize_t vpstub_write(int fd, const void *p, size_t n){ if(fd!=7||wn+n>sizeof(wb)) wbad=1; else { memcpy(wb+wn,p,n); wn+=n; } return (ssize_t)n; }
void h_fd(void){ static const unsigned short L[]={0,1,510,511,512,513,514,1023,1024,1025}; size_t a=L[vp_pick("a",10)], b=L[vp_pick("b",10)], i; char *s=(char*)vp_malloc(a+1), *t=(char*)vp_malloc(b+1); for(i=0;i<a;i++) s[i]=(char)('a'+i%23); s[a]=0; for(i=0;i<b;i++) t[i]=(char)('A'+i%19); t[b]=0; wn=0;
	vp_assert(M_dprintf(7,"%s|%s",s,t)==(ssize_t)(a+b+1)); vp_assert(!wbad); vp_assert(wn==a+b+1); vp_assert(memcmp(wb,s,a)==0&&wb[a]=='|'&&memcmp(wb+a+1,t,b)==0); vp_reach("ok"); }
