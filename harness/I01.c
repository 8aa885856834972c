//@mods base io/m_io_proxy_protocol.c
//@env env_time
//@bounds headers of both versions for IPv4, IPv6 and local endpoints, addresses of several lengths, any two ports (v1: ports of every digit count), written in up to three parts, read back in up to three pieces cut anywhere, two application bytes behind; any K+1 characters (alone or behind two digits) in the place of a version 1 port; any version/command, family and length bytes of a version 2 header with up to 40 bytes behind, cut anywhere
//@outside more than three pieces; the text form of addresses (I02); TLV contents; timeouts
//@stubs the layer below, the layer bookkeeping, timers and the address conversion are stand-ins
//@H h_round jobs=8 reach=v1,v2,local,six
//@H h_port q:K=1 t:K=2 jobs=8 reach=good,bad
//@H h_v2raw q:ND=8 t:ND=10 jobs=8 reach=proxied,local,refused,waiting
//@H h_ends reach=set,refused
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_io.h>
#include <mstdlib/io/m_io_layer.h>
#ifndef ND
#define ND 8
#endif
#ifndef K
#define K 1
#endif
struct M_io_callbacks { M_bool (*init)(M_io_layer_t*); M_io_error_t (*read)(M_io_layer_t*,unsigned char*,size_t*,M_io_meta_t*); M_bool (*pe)(M_io_layer_t*,M_event_type_t*); M_bool (*reset)(M_io_layer_t*); void (*destroy)(M_io_layer_t*); M_io_state_t (*state)(M_io_layer_t*); };
struct M_io_layer { M_io_handle_t *h; struct M_io_callbacks cb; };
static struct M_io_layer LY[2]; static int cur; static int held;
M_io_callbacks_t *M_io_callbacks_create(void){ return M_malloc_zero(sizeof(struct M_io_callbacks)); }
void M_io_callbacks_destroy(M_io_callbacks_t *c){ M_free(c); }
M_bool M_io_callbacks_reg_init(M_io_callbacks_t *c, M_bool (*f)(M_io_layer_t*)){ c->init=f; return M_TRUE; }
M_bool M_io_callbacks_reg_read(M_io_callbacks_t *c, M_io_error_t (*f)(M_io_layer_t*,unsigned char*,size_t*,M_io_meta_t*)){ c->read=f; return M_TRUE; }
M_bool M_io_callbacks_reg_processevent(M_io_callbacks_t *c, M_bool (*f)(M_io_layer_t*,M_event_type_t*)){ c->pe=f; return M_TRUE; }
M_bool M_io_callbacks_reg_accept(M_io_callbacks_t *c, M_io_error_t (*f)(M_io_t*,M_io_layer_t*)){ (void)c;(void)f; return M_TRUE; }
M_bool M_io_callbacks_reg_unregister(M_io_callbacks_t *c, void (*f)(M_io_layer_t*)){ (void)c;(void)f; return M_TRUE; }
M_bool M_io_callbacks_reg_reset(M_io_callbacks_t *c, M_bool (*f)(M_io_layer_t*)){ c->reset=f; return M_TRUE; }
M_bool M_io_callbacks_reg_destroy(M_io_callbacks_t *c, void (*f)(M_io_layer_t*)){ c->destroy=f; return M_TRUE; }
M_bool M_io_callbacks_reg_state(M_io_callbacks_t *c, M_io_state_t (*f)(M_io_layer_t*)){ c->state=f; return M_TRUE; }
M_bool M_io_callbacks_reg_errormsg(M_io_callbacks_t *c, M_bool (*f)(M_io_layer_t*,char*,size_t)){ (void)c;(void)f; return M_TRUE; }
M_io_layer_t *M_io_layer_add(M_io_t *io, const char *n, M_io_handle_t *h, const M_io_callbacks_t *cb){ (void)io;(void)n; LY[cur].h=h; LY[cur].cb=*cb; return &LY[cur]; }
M_io_handle_t *M_io_layer_get_handle(M_io_layer_t *l){ return l?l->h:NULL; }
M_io_t *M_io_layer_get_io(M_io_layer_t *l){ (void)l; return (M_io_t*)&LY[0]; }
size_t M_io_layer_get_index(M_io_layer_t *l){ (void)l; return 1; }
size_t M_io_layer_count(M_io_t *io){ (void)io; return 1; }
M_io_layer_t *M_io_layer_acquire(M_io_t *io, size_t i, const char *n){ (void)io;(void)i;(void)n; held++; return &LY[cur]; }
void M_io_layer_release(M_io_layer_t *l){ if(l) held--; }
M_event_t *M_io_get_event(M_io_t *io){ (void)io; return NULL; }
static int soft_conn, soft_read;
void M_io_layer_softevent_add(M_io_layer_t *l, M_bool sib, M_event_type_t t, M_io_error_t e){ (void)l;(void)sib;(void)e; if(t==M_EVENT_TYPE_CONNECTED) soft_conn++; if(t==M_EVENT_TYPE_READ) soft_read++; }
M_event_timer_t *M_event_timer_add(M_event_t *e, M_event_callback_t cb, void *d){ (void)e;(void)cb;(void)d; return NULL; }
M_bool M_event_timer_remove(M_event_timer_t *t){ (void)t; return M_TRUE; }
M_bool M_event_timer_stop(M_event_timer_t *t){ (void)t; return M_TRUE; }
M_bool M_event_timer_reset(M_event_timer_t *t, M_uint64 x){ (void)t;(void)x; return M_TRUE; }
M_bool M_event_timer_set_firecount(M_event_timer_t *t, size_t x){ (void)t;(void)x; return M_TRUE; }
const char *M_io_net_get_ipaddr(M_io_t *io){ (void)io; return "direct"; }
M_bool M_io_error_is_critical(M_io_error_t e){ return e!=M_IO_ERROR_SUCCESS&&e!=M_IO_ERROR_WOULDBLOCK; }
static const char *A4[]={"1.2.3.4","255.255.255.255","10.0.0.1"}, *A6[]={"::1","2001:db8:1:2:3:4:5:6","ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"};
static const unsigned char B4[][4]={{1,2,3,4},{255,255,255,255},{10,0,0,1}}; static const unsigned char B6[][16]={{0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1},{0x20,1,0xd,0xb8,0,1,0,2,0,3,0,4,0,5,0,6},{255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255}};
M_bool M_io_net_ipaddr_to_bin(unsigned char *o, size_t sz, const char *s, size_t *n){ if(!s||!*s||sz<16) return M_FALSE; for(int i=0;i<3;i++){ if(M_str_eq(s,A4[i])){ M_mem_copy(o,B4[i],4); *n=4; return M_TRUE; } if(M_str_eq(s,A6[i])){ M_mem_copy(o,B6[i],16); *n=16; return M_TRUE; } } *n=0; return M_FALSE; }
M_bool M_io_net_bin_to_ipaddr(char *o, size_t sz, const unsigned char *b, size_t n){ if(sz<40) return M_FALSE; for(int i=0;i<3;i++){ if(n==4&&M_mem_eq(b,B4[i],4)) return M_str_cpy(o,sz,A4[i]); if(n==16&&M_mem_eq(b,B6[i],16)) return M_str_cpy(o,sz,A6[i]); } return M_str_cpy(o,sz,n==4?"other4":"other6"); }
/* the layer below */
static unsigned char W[256]; static size_t wn, cap[4]; static int wi;
M_io_error_t M_io_layer_write(M_io_t *io, size_t l, const unsigned char *b, size_t *n, M_io_meta_t *m){ (void)io;(void)l;(void)m; size_t c=wi<2?cap[wi]:250; if(c==0){ wi++; return M_IO_ERROR_WOULDBLOCK; } wi++; if(*n>c) *n=c; M_mem_copy(W+wn,b,*n); wn+=*n; return M_IO_ERROR_SUCCESS; }
static unsigned char R[256]; static size_t rp, rlim;
M_io_error_t M_io_layer_read(M_io_t *io, size_t l, unsigned char *b, size_t *n, M_io_meta_t *m){ (void)io;(void)l;(void)m; if(rp>=rlim) return M_IO_ERROR_WOULDBLOCK; size_t k=rlim-rp; if(k>*n) k=*n; M_mem_copy(b,R+rp,k); rp+=k; *n=k; return M_IO_ERROR_SUCCESS; }
typedef struct { int st; int relayed; char src[48], dst[48]; unsigned sp, dp, kind; char tail[64]; size_t tn; } res_t;
/* read the n bytes of R in pieces ending at c1<=c2<=n */
static void rd(size_t n, size_t c1, size_t c2, M_uint32 fl, res_t *r){ cur=1; M_mem_set(r,0,sizeof(*r)); rp=0; soft_conn=0; M_io_t *io=(M_io_t*)&LY[1]; size_t id; vp_assert_msg(M_io_proxy_protocol_inbound_add(io,&id,fl)==M_IO_ERROR_SUCCESS,"layer added"); M_event_type_t e=M_EVENT_TYPE_CONNECTED; vp_assert_msg(LY[1].cb.pe(&LY[1],&e),"connection is announced only after the header"); size_t c[3]={c1,c2,n}; r->st=0;
 for(int i=0;i<3&&r->st==0;i++){ rlim=c[i]; e=M_EVENT_TYPE_READ; M_bool rv=LY[1].cb.pe(&LY[1],&e); if(e==M_EVENT_TYPE_CONNECTED) r->st=1; else if(e==M_EVENT_TYPE_ERROR) r->st=2; else vp_assert_msg(rv,"the read is kept back while waiting"); }
 rlim=n; vp_assert_msg(soft_conn==(r->st==1),"announced once"); vp_assert_msg(LY[1].cb.state(&LY[1])==(r->st==0?M_IO_STATE_CONNECTING:r->st==1?M_IO_STATE_CONNECTED:M_IO_STATE_ERROR),"state");
 if(r->st==1){ r->relayed=M_io_proxy_protocol_relayed(io); const char *s=M_io_proxy_protocol_source_ipaddr(io); if(s) M_str_cpy(r->src,48,s); s=M_io_proxy_protocol_dest_ipaddr(io); if(s) M_str_cpy(r->dst,48,s); r->sp=M_io_proxy_protocol_source_port(io); r->dp=M_io_proxy_protocol_dest_port(io); r->kind=(unsigned)M_io_proxy_protocol_proxied_type(io);
  for(int i=0;i<6;i++){ size_t k=i==0?1:40; if(r->tn+k>60) break; if(LY[1].cb.read(&LY[1],(unsigned char*)r->tail+r->tn,&k,NULL)==M_IO_ERROR_SUCCESS) r->tn+=k; else break; } }
 LY[1].cb.destroy(&LY[1]); vp_assert_msg(held==0,"every layer acquired is released"); }
static void wr(M_uint32 fl, int six, int a, int b, unsigned sp, unsigned dp, int local){ cur=0; wn=0; wi=0; soft_conn=0; M_io_t *io=(M_io_t*)&LY[0]; size_t id; M_io_proxy_protocol_outbound_add(io,&id,fl); if(!local) vp_assert_msg(M_io_proxy_protocol_set_source_endpoints(io,six?A6[a]:A4[a],six?A6[b]:A4[b],(M_uint16)sp,(M_uint16)dp),"set"); M_event_type_t e=M_EVENT_TYPE_CONNECTED; LY[0].cb.pe(&LY[0],&e); for(int i=0;i<3&&!soft_conn;i++){ e=M_EVENT_TYPE_WRITE; LY[0].cb.pe(&LY[0],&e); } vp_assert_msg(soft_conn==1,"header written and announced once"); LY[0].cb.destroy(&LY[0]); }
static const unsigned PT[]={1,23,456,7890,12345,65535};
void h_round(void){ int local=vp_pick("local",2), v1=vp_pick("v1",2), six=local?0:vp_pick("six",2), a=local?0:vp_pick("a",3), b=(a+1)%3; unsigned sp, dp; if(v1){ int q=vp_pick("sp",6); sp=PT[q]; dp=PT[(q*5+3)%6]; } else { sp=vp_u16("sport"); dp=vp_u16("dport"); vp_assume(sp!=0&&dp!=0); }
 { int q=vp_pick("cap",3); cap[0]=q?7:250; cap[1]=q==1?0:5; } wr(v1?M_IO_PROXY_PROTOCOL_FLAG_V1:M_IO_PROXY_PROTOCOL_FLAG_V2,six,a,b,sp,dp,local); M_mem_copy(R,W,wn); R[wn]='G'; R[wn+1]=vp_u8("tail"); unsigned char t1=R[wn+1]; size_t n=wn+2; size_t c1=(size_t)vp_range("c1",0,(M_int64)n), c2=(c1*7+3)%(n+1)>c1?(c1*7+3)%(n+1):n; res_t r; rd(n,c1,c2,a==1?0:v1?M_IO_PROXY_PROTOCOL_FLAG_V1:M_IO_PROXY_PROTOCOL_FLAG_V2,&r);
 vp_assert_msg(r.st==1,"a written header is read back"); vp_assert_msg(r.relayed==!local,"kind of connection"); if(!local){ vp_assert_msg(M_str_eq(r.src,six?A6[a]:A4[a])&&M_str_eq(r.dst,six?A6[b]:A4[b]),"addresses"); vp_assert_msg(r.sp==sp&&r.dp==dp,"ports"); vp_assert_msg(r.kind==(six?M_IO_NET_IPV6:M_IO_NET_IPV4),"address family"); if(six) vp_reach("six"); } else { vp_assert_msg(r.src[0]==0&&r.sp==0,"nothing relayed"); vp_reach("local"); }
 vp_assert_msg(r.tn==2&&r.tail[0]=='G'&&(unsigned char)r.tail[1]==t1,"the bytes behind are left for the application"); if(v1) vp_reach("v1"); else vp_reach("v2"); }
static char PC[]="0159 ax+-\r\n";
void h_port(void){ int dst=vp_pick("which",2); M_uint32 n=0; const char *pre=dst?"PROXY TCP4 1.2.3.4 10.0.0.1 80 ":"PROXY TCP4 1.2.3.4 10.0.0.1 "; while(pre[n]){ R[n]=(unsigned char)pre[n]; n++; } char p[12]; int k=(int)vp_range("k",1,K+1), sat=vp_pick("five",2); int m=0; if(sat){ p[m++]='1'; p[m++]='5'; } for(int i=0;i<k&&m<7;i++) p[m++]=PC[vp_pick("ch",11)]; p[m]=0; for(int i=0;i<m;i++) R[n++]=(unsigned char)p[i]; const char *post=dst?"\r\nGE":" 80\r\nGE"; for(int i=0;post[i];i++) R[n++]=(unsigned char)post[i];
 int ok=m<=5; unsigned v=0; for(int i=0;i<m;i++){ if(p[i]<'0'||p[i]>'9') ok=0; else v=v*10+(unsigned)(p[i]-'0'); } if(v<1||v>65535) ok=0; int clean=1; for(int i=0;i<m;i++) if(p[i]==' '||p[i]=='\r'||p[i]=='\n') clean=0;
 res_t a; rd(n,n,n,0,&a); if(ok){ vp_assert_msg(a.st==1&&(dst?a.dp:a.sp)==v&&(dst?a.sp:a.dp)==80&&a.tn==2,"a decimal port is taken"); vp_reach("good"); } else if(clean){ vp_assert_msg(a.st==2,"anything else in the place of a port is rejected"); vp_reach("bad"); }
 size_t c=(size_t)vp_range("c",n-(size_t)m-8,n); res_t b; rd(n,c,n,0,&b); vp_assert_msg(b.st==a.st,"the same outcome however the bytes arrive"); if(a.st==1) vp_assert_msg(a.sp==b.sp&&a.dp==b.dp&&a.tn==b.tn,"the same ports"); }
void h_v2raw(void){ static const unsigned char id[12]={0x0D,0x0A,0x0D,0x0A,0,0x0D,0x0A,0x51,0x55,0x49,0x54,0x0A}; M_mem_copy(R,id,12); unsigned vc=vp_u8("vercmd"), fam=vp_u8("fam"); R[12]=(unsigned char)vc; R[13]=(unsigned char)fam; static const unsigned DL[]={0,1,11,12,13,35,36,37,24,40}; unsigned dl=DL[vp_pick("dlen",ND)]; R[14]=0; R[15]=(unsigned char)dl; for(int i=16;i<60;i++) R[i]=(unsigned char)(i+1); int full=vp_pick("have",3); size_t n=16+(full==0?dl+2:full==1?dl:dl?dl-1:0); size_t c=full?n:(size_t)vp_range("c",12,(M_int64)n); res_t r; rd(n,c,n,0,&r);
 int bad=0; if((vc>>4)!=2||(vc&15)>1) bad=1; int six=fam==0x21, four=fam==0x11; if(!bad&&!six&&!four&&fam!=0) bad=1; if(!bad&&four&&dl<12) bad=1; if(!bad&&six&&dl<36) bad=1;
 if(bad){ vp_assert_msg(r.st==2,"an unknown or short header is rejected"); vp_reach("refused"); return; }
 if(n<16+(size_t)dl){ vp_assert_msg(r.st==0,"a header is not complete before its whole length arrived"); vp_reach("waiting"); return; }
 vp_assert_msg(r.st==1,"a complete header is accepted"); vp_assert_msg(r.tn==n-16-dl&&(r.tn<1||(unsigned char)r.tail[0]==R[16+dl]),"exactly the bytes behind the header are left"); if((vc&15)==0){ vp_assert_msg(!r.relayed,"a local header relays nothing"); vp_reach("local"); } else if(fam){ unsigned o=16+(four?8:32); vp_assert_msg(r.relayed&&r.sp==(unsigned)R[o]*256+R[o+1]&&r.dp==(unsigned)R[o+2]*256+R[o+3],"ports"); vp_reach("proxied"); } }
void h_ends(void){ cur=0; M_io_t *io=(M_io_t*)&LY[0]; size_t id; int inb=vp_pick("inbound",2); if(inb) M_io_proxy_protocol_inbound_add(io,&id,0); else M_io_proxy_protocol_outbound_add(io,&id,0); const char *S[]={NULL,"","1.2.3.4","::1","nonsense"}; int a=vp_pick("s",5), b=vp_pick("d",5); unsigned sp=vp_u16("sp"), dp=vp_u16("dp"); M_bool ok=M_io_proxy_protocol_set_source_endpoints(io,S[a],S[b],(M_uint16)sp,(M_uint16)dp); int want= inb?0: (a<2&&b<2)?1: (a==b&&a<4&&sp&&dp)?1:0; if(a<2&&b>=2) want=0; vp_assert_msg(ok==want,"endpoints are taken when both addresses are of one family and both ports are set"); vp_assert_msg(held==0,"the layer is released on every way out"); if(want&&a>=2){ vp_assert_msg(M_io_proxy_protocol_relayed(io)&&M_io_proxy_protocol_source_port(io)==sp,"kept"); vp_reach("set"); } else if(!want) vp_reach("refused"); vp_assert_msg(held==0,"released"); LY[0].cb.destroy(&LY[0]); }
