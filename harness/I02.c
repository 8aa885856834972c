//@mods base io/net/m_io_net.c io/net/m_dns.c
//@env env_time
//@bounds any 4 byte address and any 16 byte address written as text and read back; every text of up to N characters from an address alphabet; every output buffer size from 0 to 48; the convert wrappers against a reference conversion
//@outside the text forms the c-ares library itself accepts (a reference conversion stands in for it)
//@stubs ares_inet_pton and ares_inet_ntop are a reference conversion (dotted quad; eight groups, "::"), which like the library's never writes past the size it is given
//@H h_round reach=four,six
//@H h_text q:N=5 t:N=7 jobs=8 reach=four,six,not
//@H h_sizes reach=small,fits
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_io.h>
#include <sys/socket.h>
#ifndef N
#define N 5
#endif
static int hexv(char c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:-1; }
static int p4(const char *s, unsigned char *o){ for(int i=0;i<4;i++){ int v=0,k=0; while(*s>='0'&&*s<='9'&&k<3){ v=v*10+(*s++-'0'); k++; } if(!k||v>255) return 0; o[i]=(unsigned char)v; if(i<3&&*s++!='.') return 0; } return *s==0; }
static int p6(const char *s, unsigned char *o){ unsigned char b[16]; int n=0, gap=-1; if(s[0]==':'&&s[1]==':'){ gap=0; s+=2; } while(*s){ int v=0,k=0; while(hexv(*s)>=0&&k<4){ v=v*16+hexv(*s++); k++; } if(!k||n>14) return 0; b[n++]=(unsigned char)(v>>8); b[n++]=(unsigned char)v; if(!*s) break; if(*s!=':') return 0; s++; if(*s==':'){ if(gap>=0) return 0; gap=n; s++; } else if(!*s) return 0; } if(gap<0&&n!=16) return 0; if(gap>=0&&n==16) return 0; for(int i=0;i<16;i++) o[i]=0; if(gap<0) gap=16; for(int i=0;i<gap;i++) if(i<n) o[i]=b[i]; for(int i=gap;i<n;i++) o[16-n+i]=b[i]; return 1; }
int vpstub_ares_inet_pton(int af, const char *s, void *d){ return af==AF_INET?p4(s,d):af==AF_INET6?p6(s,d):-1; }
const char *vpstub_ares_inet_ntop(int af, const void *v, char *d, unsigned sz){ const unsigned char *b=v; char t[64]; int n=0; static const char H[]="0123456789abcdef"; if(af==AF_INET) for(int i=0;i<4;i++){ if(i) t[n++]='.'; if(b[i]>99) t[n++]=(char)('0'+b[i]/100); if(b[i]>9) t[n++]=(char)('0'+b[i]/10%10); t[n++]=(char)('0'+b[i]%10); } else for(int i=0;i<16;i++){ if(i&&!(i&1)) t[n++]=':'; t[n++]=H[b[i]>>4]; t[n++]=H[b[i]&15]; } t[n]=0; if((unsigned)n+1>sz) return NULL; for(int i=0;i<=n;i++) d[i]=t[i]; return d; }
void h_round(void){ int six=vp_pick("six",2); size_t n=six?16:4, m=99; unsigned char b[16], o[16]; for(size_t i=0;i<n;i++) b[i]=0; size_t k=(size_t)vp_range("k",0,(M_int64)n-1); b[k]=(unsigned char)vp_conc(vp_u8("b")); b[(k+1)%n]=255; char t[48]; vp_assert_msg(M_io_net_bin_to_ipaddr(t,sizeof(t),b,n),"written as text"); vp_assert_msg(M_io_net_ipaddr_to_bin(o,sizeof(o),t,&m)&&m==n&&M_mem_eq(o,b,n),"read back as the same address"); if(six) vp_reach("six"); else vp_reach("four"); }
void h_text(void){ static char s[16]; { int q=vp_pick("pre",3); const char *pre=q==1?"1.1.":q==2?"f:1:2:":""; const char *t=vp_strm("s",N,"1.:f2"); size_t a=0; for(;pre[a];a++) s[a]=pre[a]; for(size_t i=0;t[i];i++) s[a++]=(char)vp_conc(t[i]); s[a]=0; } unsigned char o[16], w[16]; size_t m=99; int f=p4(s,w)?4:p6(s,w)?16:0; if(!*s) f=0; M_bool ok=M_io_net_ipaddr_to_bin(o,sizeof(o),s,&m); vp_assert_msg(ok==(f!=0),"text is taken exactly when it is an address"); if(ok){ vp_assert_msg(m==(size_t)f&&M_mem_eq(o,w,m),"the address denoted"); if(f==4) vp_reach("four"); else vp_reach("six"); } else vp_reach("not"); }
void h_sizes(void){ size_t sz=(size_t)vp_range("sz",0,48), n; int k=vp_pick("n",4); n=k==0?4:k==1?16:k==2?0:6; unsigned char b[16]; for(int i=0;i<16;i++) b[i]=(unsigned char)(200+i); char *t=M_malloc(sz?sz:1); M_bool ok=M_io_net_bin_to_ipaddr(t,sz,b,n); size_t need=k==0?16:k==1?40:1000; if(sz>=need){ vp_assert_msg(ok&&t[0],"an output of full size is enough"); vp_reach("fits"); } else if(k>1||sz<8){ vp_assert_msg(!ok,"refused"); vp_reach("small"); } M_free(t); size_t bs=(size_t)vp_range("bs",0,18), m=7; unsigned char *o=M_malloc(bs?bs:1); ok=M_io_net_ipaddr_to_bin(o,bs,vp_pick("which",2)?"1.2.3.4":"1:2::3",&m); if(bs>=16) vp_assert_msg(ok,"taken"); M_free(o); vp_assert_msg(!M_io_net_ipaddr_to_bin(NULL,16,"1.2.3.4",&m)&&!M_io_net_bin_to_ipaddr(NULL,40,b,4),"NULL output refused"); }
