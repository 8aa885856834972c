//@mods base
//@env env_time
//@bounds two entries (one key with a space, plus a NULL or second value) whose value is every string of up to N (3, thorough 4) characters over delimiters, quote, escape, space, CR, LF, a letter and a non-ASCII byte, for five delimiter sets, all quoting flags and both trimming modes; the exact text of hex encoding for every byte; every text of up to M (5, thorough 6) characters in a buffer of exactly its length, compared with a reference splitter when it has no quote or escape
//@outside keys containing delimiters or quotes (they are written as is), NULL values with ALWAYS_QUOTE
//@H h_rt q:N=3 t:N=4 jobs=6 reach=plain,quoted,escaped
//@H h_hex reach=hex,asis
//@H h_any q:M=5 t:M=6 jobs=4 reach=dict,fail,ref
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 3
#endif
#ifndef M
#define M 5
#endif
static const char DS[5][5]={";=\"\\",";=\"\"",",:''","\n=\"\\","&:'/"};
void h_rt(void){ const char *d=DS[vp_pick("ds",5)]; size_t n=(size_t)vp_pick("n",N+2), i; char al[9], *v=NULL, *s; unsigned fl=(unsigned)vp_pick("fl",4), df=vp_pick("trim",2)?M_HASH_DICT_DESER_TRIM_WHITESPACE:0; static const unsigned F[4]={0,M_HASH_DICT_SER_FLAG_ALWAYS_QUOTE,M_HASH_DICT_SER_FLAG_QUOTE_NON_ANS,M_HASH_DICT_SER_FLAG_LF_TO_CRLF}; M_hash_dict_t *a, *b; const char *r, *k; M_hash_dict_enum_t *e; M_uint64 live; int sp=0,dq=0;
	fl=F[fl]; if(fl==M_HASH_DICT_SER_FLAG_LF_TO_CRLF&&d[0]=='\n'&&!df) return; memcpy(al,d,4); memcpy(al+4," a\n\x80",5); if(n<=N){ v=vp_stra("v",n,al); for(i=0;i<n;i++){ v[i]=(char)vp_conc((unsigned char)v[i]); if(v[i]==d[0]||v[i]==d[1]) dq=1; if(v[i]==d[2]||v[i]==d[3]) sp=1; } } else if(fl&M_HASH_DICT_SER_FLAG_ALWAYS_QUOTE) return;
	M_rand_range(NULL,1,3); live=vp_heap_live(); k="x y"; a=M_hash_dict_create(8,75,M_HASH_DICT_KEYS_ORDERED); vp_assert(M_hash_dict_insert(a,k,v)); vp_assert(M_hash_dict_insert(a,"z",v&&n?"a":"")); s=M_hash_dict_serialize(a,d[0],d[1],d[2],d[3],fl); vp_assert(s!=NULL); vp_reach(sp?"escaped":dq?"quoted":"plain");
	b=M_hash_dict_deserialize(s,M_str_len(s),d[0],d[1],d[2],d[3],df|M_HASH_DICT_KEYS_ORDERED); vp_assert_msg(b!=NULL,"parses its own output"); vp_assert(M_hash_dict_num_keys(b)==2); vp_assert(M_hash_dict_get(b,k,&r)); vp_assert_msg((r==NULL)==(v==NULL)&&(v==NULL||M_str_eq(r,v)),"same value"); vp_assert(M_hash_dict_get(b,"z",&r)&&M_str_eq(r,v&&n?"a":"")&&r!=NULL); vp_assert(M_hash_dict_enumerate(b,&e)==2&&M_hash_dict_enumerate_next(b,e,&r,NULL)&&M_str_eq(r,k)); M_hash_dict_enumerate_free(e);
	M_free(s); M_hash_dict_destroy(a); M_hash_dict_destroy(b); vp_assert_msg(vp_heap_live()==live,"nothing leaks"); }
void h_hex(void){ static const char hx[]="0123456789ABCDEF"; char v[2], w[16], *s; size_t n=0; unsigned char c=(unsigned char)vp_u8("c"); M_hash_dict_t *a; vp_assume(c!=0); c=(unsigned char)vp_conc(c); v[0]=(char)c; v[1]=0; a=M_hash_dict_create(8,75,0); M_hash_dict_insert(a,"k",v); s=M_hash_dict_serialize(a,';','=','"','\\',M_HASH_DICT_SER_FLAG_HEXENCODE_NONPRINT); w[n++]='k'; w[n++]='=';
	if((c<32&&!(c>=9&&c<=13))||c>126){ vp_reach("hex"); w[n++]='"'; w[n++]='['; w[n++]=hx[c>>4]; w[n++]=hx[c&15]; w[n++]=']'; w[n++]='"'; } else { int q=c==';'||c=='='||c==' '||(c>=9&&c<=13)||c=='"'||c=='\\'; vp_reach("asis"); if(q) w[n++]='"'; if(c=='"'||c=='\\') w[n++]='\\'; w[n++]=(char)c; if(q) w[n++]='"'; } w[n++]=';'; w[n]=0; vp_assert_msg(M_str_eq(s,w),"hex text"); M_free(s); M_hash_dict_destroy(a); }
void h_any(void){ size_t n=(size_t)vp_pick("n",M+1), i; char *s=(char*)vp_buf("s",n); static const char al[8]=";=\"\\ ab"; int q=0, ok=1; M_hash_dict_t *b; M_uint64 live; unsigned tr=vp_pick("tr",2)?M_HASH_DICT_DESER_TRIM_WHITESPACE:0; for(i=0;i<n;i++){ vp_assume(vp_in((unsigned char)s[i],";=\"\\ a")); s[i]=(char)vp_conc((unsigned char)s[i]); if(s[i]=='"'||s[i]=='\\') q=1; } (void)al; M_rand_range(NULL,1,3); live=vp_heap_live();
	b=M_hash_dict_deserialize(s,n,';','=','"','\\',tr|M_HASH_DICT_KEYS_ORDERED); vp_reach(b?"dict":"fail");
	if(!q&&n){ size_t st=0; char key[8], val[8], exp[8][2][8]; int ne=0, j; vp_reach("ref"); for(i=0;i<=n&&ok;i++) if(i==n||s[i]==';'){ size_t x=st, y=i, m; st=i+1; if(tr){ while(x<y&&s[x]==' ') x++; while(y>x&&s[y-1]==' ') y--; } if(x==y) continue; for(m=x;m<y&&s[m]!='=';m++); if(m==y){ ok=0; break; } { size_t p=x,r=m,u=m+1,w=y; if(tr){ while(r>p&&s[r-1]==' ') r--; while(u<w&&s[u]==' ') u++; } memcpy(key,s+p,r-p); key[r-p]=0; memcpy(val,s+u,w-u); val[w-u]=0; for(j=0;j<ne;j++) if(!strcmp(exp[j][0],key)) break; if(key[0]==0) continue; strcpy(exp[j][0],key); strcpy(exp[j][1],val); if(j==ne) ne++; } }
		vp_assert_msg((b!=NULL)==ok,"accepts exactly lists of pairs"); if(ok){ vp_assert_msg(M_hash_dict_num_keys(b)==(size_t)ne,"pairs"); for(j=0;j<ne;j++){ const char *r; vp_assert(M_hash_dict_get(b,exp[j][0],&r)); vp_assert_msg(M_str_eq(r,exp[j][1]),"value"); } } }
	M_hash_dict_destroy(b); vp_assert_msg(vp_heap_live()==live,"nothing leaks"); }
