//@mods base tls/m_tls_hostvalidate.c
//@bounds every host of up to H bytes over dot, star and letters against every certificate name of up to N bytes over dot, star, letters and NUL, as subject alternative name, common name or both, for every flag combination; host names of up to 9 bytes against three wildcard names; two alternative names and two common names; IP address entries; names longer than the library's buffers; no memory leaks
//@outside wildcards against hosts that are IP addresses; internationalised names; the OpenSSL parsing that produces the names
//@stubs OpenSSL accessors: a certificate with the chosen names; M_io_net_bin_to_ipaddr: fixed text
//@H h_san q:H=4,NN=4 t:H=5,NN=5 jobs=8 reach=yes,no
//@H h_wild q:H=7 t:H=9 jobs=8 reach=yes,no
//@H h_multi q:H=3,NN=3 t:H=4,NN=4 jobs=8 reach=yes,no
//@H h_fuzzy q:H=4,NN=4 t:H=5,NN=5 jobs=8 reach=yes,no
//@H h_long jobs=1 reach=end
//@H h_ip jobs=2 reach=end
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_io.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include "tls/m_tls_hostvalidate.h"
#include <string.h>
#ifndef H
#define H 4
#endif
#ifndef NN
#define NN 4
#endif
typedef struct { char *p; int len; int type; } nm;
static nm san[3], cn[3]; static int nsan, ncn; static int live; static GENERAL_NAME gn[3];
void *vpstub_X509_get_ext_d2i(const X509 *x, int nid, int *crit, int *idx){ (void)x; (void)crit; vp_assert(nid==NID_subject_alt_name); if(!nsan||*idx>=0){ *idx=-1; return NULL; } *idx=0; live++; return (void*)san; }
int vpstub_OPENSSL_sk_num(const OPENSSL_STACK *s){ (void)s; return nsan; }
void *vpstub_OPENSSL_sk_value(const OPENSSL_STACK *s, int i){ (void)s; vp_assert(i>=0&&i<nsan); gn[i].type=san[i].type; gn[i].d.dNSName=(ASN1_STRING*)(void*)&san[i]; return &gn[i]; }
void vpstub_OPENSSL_sk_pop_free(OPENSSL_STACK *s, void(*f)(void*)){ (void)s; (void)f; live--; }
void vpstub_GENERAL_NAME_free(GENERAL_NAME *g){ (void)g; }
int vpstub_ASN1_STRING_to_UTF8(unsigned char **o, const ASN1_STRING *a){ const nm *n=(const nm*)(const void*)a; if(n->len<0) return -1; unsigned char *p=vp_malloc((size_t)n->len+1); memcpy(p,n->p,(size_t)n->len); p[n->len]=0; *o=p; live++; return n->len; }
const unsigned char *vpstub_ASN1_STRING_get0_data(const ASN1_STRING *a){ return (const unsigned char*)((const nm*)(const void*)a)->p; }
int vpstub_ASN1_STRING_length(const ASN1_STRING *a){ return ((const nm*)(const void*)a)->len; }
void vpstub_CRYPTO_free(void *p, const char *f, int l){ (void)f; (void)l; if(p){ live--; vp_free(p); } }
X509_NAME *vpstub_X509_get_subject_name(const X509 *x){ (void)x; return (X509_NAME*)(void*)cn; }
int vpstub_X509_NAME_get_index_by_NID(const X509_NAME *n, int nid, int last){ (void)n; vp_assert(nid==NID_commonName); return last+1<ncn?last+1:-1; }
X509_NAME_ENTRY *vpstub_X509_NAME_get_entry(const X509_NAME *n, int i){ (void)n; return (X509_NAME_ENTRY*)(void*)&cn[i]; }
ASN1_STRING *vpstub_X509_NAME_ENTRY_get_data(const X509_NAME_ENTRY *e){ return (ASN1_STRING*)(void*)e; }
M_bool vpstub_M_io_net_bin_to_ipaddr(char *b, size_t n, const unsigned char *bin, size_t l){ (void)n; if(l!=4&&l!=16) return M_FALSE; strcpy(b,l==4?"1.2.3.4":"a::b"); vp_assert(bin!=NULL); return M_TRUE; }
static int lo(int c){ return c>='A'&&c<='Z'?c+32:c; }
static int cieq(const char *a, const char *b){ size_t i, la=strlen(a); if(la!=strlen(b)) return 0; int r=1; for(i=0;i<la;i++) r&=lo(a[i])==lo(b[i]); return r; }
static int ref(const char *h, const char *n, unsigned f){ if(!*h||!*n) return 0; if(cieq(h,n)) return 1;
	if((f&M_TLS_VERIFY_HOST_FLAG_ALLOW_WILDCARD)&&n[0]=='*'&&n[1]=='.'){ const char *d=strchr(h,'.'); if(d&&d!=h){ if(cieq(d,n+1)) return 1; if(f&M_TLS_VERIFY_HOST_FLAG_MULTILEVEL_WILDCARD) for(d=strchr(d+1,'.');d;d=strchr(d+1,'.')) if(cieq(d,n+1)) return 1; } }
	return 0; }
static void addn(nm *a, const char *s, int len, int type){ a->p=(char*)s; a->len=len; a->type=type; }
static int bad(const char *s, int n){ for(int i=0;i<n;i++) if(!s[i]) return 1; return n==0; }
static X509 *X=(X509*)(void*)san;
static unsigned wf(void){ static const unsigned w[3]={0,M_TLS_VERIFY_HOST_FLAG_ALLOW_WILDCARD,M_TLS_VERIFY_HOST_FLAG_ALLOW_WILDCARD|M_TLS_VERIFY_HOST_FLAG_MULTILEVEL_WILDCARD}; return w[vp_pick("wild",3)]; }
static char *host(int n, const char *al){ char *h=vp_strm("h",(uint64_t)n,al); return h; }
static char *name(int n, int *len){ int l=(int)vp_pick("namelen",(uint64_t)n+1); char *p=vp_str("n",(uint64_t)l); for(int i=0;i<l;i++) vp_assume(p[i]==0||vp_in(p[i],"*.aA")); *len=l; return p; }
#define DONE(got,want) do{ vp_assert_msg((got)==((want)?M_TRUE:M_FALSE),"accepted exactly when covered"); vp_assert_msg(live==0,"everything released"); if(want) vp_reach("yes"); else vp_reach("no"); }while(0)
void h_san(void){ char *h=host(H,"*.aA"); int l; char *n=name(NN,&l); int where=vp_pick("where",2); unsigned f=wf(); unsigned v=(unsigned)vp_range("val",1,3); if(where==0){ nsan=1; addn(&san[0],n,l,GEN_DNS); } else { ncn=1; addn(&cn[0],n,l,0); }
	M_bool got=M_tls_verify_host(X,h,(M_tls_verify_host_flags_t)(f|v)); int want=0; if((v&(where==0?M_TLS_VERIFY_HOST_FLAG_VALIDATE_SAN:M_TLS_VERIFY_HOST_FLAG_VALIDATE_CN))&&!bad(n,l)) want=ref(h,n,f); DONE(got,want); }
void h_wild(void){ static const char *ns[3]={"*.a.b","*.aa","*.*.a"}; char *h=host(H,".ab*"); const char *n=ns[vp_pick("name",3)]; unsigned f=wf()|M_TLS_VERIFY_HOST_FLAG_VALIDATE_SAN; nsan=1; addn(&san[0],n,(int)strlen(n),GEN_DNS); M_bool got=M_tls_verify_host(X,h,(M_tls_verify_host_flags_t)f); int want=ref(h,n,f); DONE(got,want); }
void h_multi(void){ char *h=host(H,".aA"); int l; char *n=name(NN,&l); unsigned f=wf()|M_TLS_VERIFY_HOST_FLAG_NORMAL; int at=vp_pick("at",4); static const char *o="zz"; nsan=2; ncn=2; for(int i=0;i<2;i++){ addn(&san[i],o,2,GEN_DNS); addn(&cn[i],o,2,0); } if(at<2) addn(&san[at],n,l,GEN_DNS); else addn(&cn[at-2],n,l,0);
	int k=vp_pick("odd",3); int odd=(at+1)%4; if(k==1){ if(odd<2) san[odd].type=GEN_EMAIL; else cn[odd-2].len=-1; } if(k==2){ if(odd<2) san[odd].len=-1; else addn(&cn[odd-2],"a\0",2,0); }
	M_bool got=M_tls_verify_host(X,h,(M_tls_verify_host_flags_t)f); int want=!bad(n,l)&&ref(h,n,f); DONE(got,want); }
static void basedom(const char *s, char *o){ const char *d[12]; int n=0; d[n++]=s; for(const char *q=s;*q;q++) if(*q=='.') d[n++]=q+1; int want=strlen(d[n-1])==2?3:2; strcpy(o,want>=n?s:d[n-want]); }
void h_fuzzy(void){ char *h=host(H,".aAb"); int l; char *n=name(NN,&l); nsan=1; addn(&san[0],n,l,GEN_DNS); unsigned f=M_TLS_VERIFY_HOST_FLAG_VALIDATE_SAN|M_TLS_VERIFY_HOST_FLAG_FUZZY_BASE_DOMAIN; if(!*h) return; M_bool got=M_tls_verify_host(X,h,(M_tls_verify_host_flags_t)f); char a[16], b[16]; int want=0; if(!bad(n,l)){ basedom(h,a); basedom(n,b); want=cieq(h,n)||cieq(a,b); } DONE(got,want); }
void h_long(void){ static char n[270], h[270]; int L=(int)vp_range("len",254,262); for(int i=0;i<L;i++) n[i]='a'; n[L]=0; int hl=(int)vp_range("hlen",253,262); for(int i=0;i<hl;i++) h[i]='a'; h[hl]=0; nsan=1; addn(&san[0],n,L,GEN_DNS); ncn=0; vp_assert_msg(!M_tls_verify_host(X,h,M_TLS_VERIFY_HOST_FLAG_NORMAL)||hl==L,"a truncated name is no match"); vp_assert(live==0); vp_reach("end"); }
void h_ip(void){ static unsigned char ip[16]; int k=vp_pick("k",3); nsan=1; addn(&san[0],(char*)ip,k==0?4:k==1?16:5,GEN_IPADD); static const char *hs[3]={"1.2.3.4","A::B","2.3.4"}; int w=vp_pick("w",3); M_bool got=M_tls_verify_host(X,hs[w],M_TLS_VERIFY_HOST_FLAG_NORMAL); vp_assert(got==((k<2&&k==w)?M_TRUE:M_FALSE)); vp_assert(live==0); vp_reach("end"); }
