//@mods base
//@env env_time
//@bounds every 64-bit mask against three tables (four single bits including bit 63, a table with an aggregate first, a table with a zero entry) under every flag set; every text of up to N (4, thorough 6) characters over names in both cases, delimiter, space and an unknown letter, parsed through the array and through the hashtable form; every table of two entries with arbitrary ids (4 bits) for the table checks
//@outside longer names and tables
//@H h_list jobs=2 reach=ok,unknown,rt
//@H h_parse q:N=4 t:N=6 jobs=4 reach=ok,bad
//@H h_table jobs=3 reach=dup,pow,ok
//@H h_single reach=hit,miss
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 5
#endif
static const M_bitlist_t T0[]={{1,"a"},{4,"Bc"},{0x100000000ULL,"d"},{0x8000000000000000ULL,"e"},{0,NULL}}, T1[]={{3,"ab"},{1,"a"},{2,"b"},{8,"c"},{0,NULL}}, T2[]={{0,"none"},{1,"a"},{2,"b"},{0,NULL}};
static const M_bitlist_t *TT[]={T0,T1,T2};
void h_list(void){ unsigned t=(unsigned)vp_pick("t",3), fl=(unsigned)vp_pick("ign",2)?M_BITLIST_FLAG_IGNORE_UNKNOWN:0, i; M_uint64 bits=vp_u64("bits"), known=0, rem=bits, back=7; char *out=(char*)1, err[64]; char want[32]; size_t w=0; M_bool rv; const M_bitlist_t *T=TT[t]; if(t==1) fl|=M_BITLIST_FLAG_DONT_REQUIRE_POWEROF2;
	rv=M_bitlist_list(&out,(M_bitlist_flags_t)fl,T,bits,'|',err,sizeof(err)); for(i=0;T[i].name;i++) known|=T[i].id;
	if((bits&~known)&&!(fl&M_BITLIST_FLAG_IGNORE_UNKNOWN)){ vp_assert(!rv); vp_reach("unknown"); return; } vp_assert(rv); vp_reach("ok");
	for(i=0;T[i].name;i++) if((rem&T[i].id)==T[i].id){ const char *c=T[i].name; if(w) want[w++]='|'; while(*c) want[w++]=*c++; rem&=~T[i].id; } want[w]=0; vp_assert(M_str_eq(out,want));
	vp_assert(M_bitlist_parse(&back,(M_bitlist_flags_t)fl,T,out,'|',err,sizeof(err))); vp_assert(back==(bits&known)); vp_reach("rt"); M_free(out); }
static int lc(int c){ return c>='A'&&c<='Z'?c+32:c; }
void h_parse(void){ static const M_bitlist_t T[]={{1,"a"},{4,"aB"},{16,"b a"},{6,"x"},{0,NULL}}; size_t n=(size_t)vp_pick("n",N+1), i, st=0; char *s=vp_stra("s",n,"aAb| Bxy"); unsigned fl=0; M_uint64 out=9, o2=8, want=0; M_bool rv, ok=M_TRUE, r2; char err[96]; M_hash_stru64_t *hi=NULL; M_hash_u64str_t *hs=NULL;
	if(vp_pick("cs",2)) fl|=M_BITLIST_FLAG_CASE_SENSITIVE; if(vp_pick("ign",2)) fl|=M_BITLIST_FLAG_IGNORE_UNKNOWN; if(vp_pick("nt",2)) fl|=M_BITLIST_FLAG_DONT_TRIM_WHITESPACE; if(vp_pick("p2",2)) fl|=M_BITLIST_FLAG_DONT_REQUIRE_POWEROF2;
	for(i=0;i<n;i++) s[i]=(char)vp_conc((unsigned char)s[i]);
	rv=M_bitlist_parse(&out,(M_bitlist_flags_t)fl,T,s,'|',err,sizeof(err));
	for(i=0;i<=n&&ok;i++) if(i==n||s[i]=='|'){ size_t a=st, b=i, k; int f=0; st=i+1; if(!(fl&M_BITLIST_FLAG_DONT_TRIM_WHITESPACE)){ while(a<b&&s[a]==' ') a++; while(b>a&&s[b-1]==' ') b--; } if(a==b) continue;
		for(k=0;T[k].name&&!f;k++){ size_t j=0; while(a+j<b&&T[k].name[j]&&(fl&M_BITLIST_FLAG_CASE_SENSITIVE?s[a+j]==T[k].name[j]:lc(s[a+j])==lc(T[k].name[j]))) j++; if(a+j==b&&!T[k].name[j]){ f=1; if(T[k].id==6&&!(fl&M_BITLIST_FLAG_DONT_REQUIRE_POWEROF2)) ok=M_FALSE; else want|=T[k].id; } } if(!f&&!(fl&M_BITLIST_FLAG_IGNORE_UNKNOWN)) ok=M_FALSE; }
	vp_assert(rv==ok); vp_assert(out==(ok?want:0)); vp_reach(ok?"ok":"bad");
	r2=M_bitlist_tohash(&hi,&hs,(M_bitlist_flags_t)(fl|M_BITLIST_FLAG_DONT_REQUIRE_POWEROF2),T,err,sizeof(err)); vp_assert(r2); r2=M_bitlist_hash_parse(&o2,(M_bitlist_flags_t)fl,hi,s,'|',err,sizeof(err)); vp_assert(r2==rv&&o2==out); M_hash_stru64_destroy(hi); M_hash_u64str_destroy(hs); }
void h_table(void){ M_bitlist_t T[3]; unsigned fl=0; M_uint64 x=vp_below("x",16), y=vp_below("y",16), v=0; int same=(int)vp_pick("same",3), px, py, dn; M_hash_stru64_t *hi=NULL; M_hash_u64str_t *hs=NULL; M_bool rv, ok; char err[96]; const char *nm=NULL;
	if(vp_pick("cs",2)) fl|=M_BITLIST_FLAG_CASE_SENSITIVE; if(vp_pick("dup",2)) fl|=M_BITLIST_FLAG_IGNORE_DUPLICATE_ID; if(vp_pick("p2",2)) fl|=M_BITLIST_FLAG_DONT_REQUIRE_POWEROF2; x=vp_conc(x); y=vp_conc(y);
	T[0].id=x; T[0].name="ab"; T[1].id=y; T[1].name=same==0?"cd":same==1?"ab":"AB"; T[2].name=NULL; px=(x&(x-1))!=0; py=(y&(y-1))!=0; dn=same==1||(same==2&&!(fl&M_BITLIST_FLAG_CASE_SENSITIVE));
	rv=M_bitlist_tohash(&hi,&hs,(M_bitlist_flags_t)fl,T,err,sizeof(err)); ok=!dn&&(x!=y||(fl&M_BITLIST_FLAG_IGNORE_DUPLICATE_ID))&&((fl&M_BITLIST_FLAG_DONT_REQUIRE_POWEROF2)||(!px&&!py)); vp_assert(rv==ok); if(dn) vp_reach("dup"); if(px) vp_reach("pow"); vp_assert((hi!=NULL)==rv&&(hs!=NULL)==rv); if(!rv) return; vp_reach("ok");
	vp_assert(M_hash_stru64_get(hi,"ab",&v)&&v==x); vp_assert(M_hash_stru64_get(hi,T[1].name,&v)&&v==y); vp_assert(M_hash_u64str_get(hs,x,&nm)&&M_str_eq(nm,"ab")); vp_assert(M_hash_u64str_get(hs,y,&nm)&&M_str_eq(nm,x==y?"ab":T[1].name)); M_hash_stru64_destroy(hi); M_hash_u64str_destroy(hs); }
void h_single(void){ M_uint64 id=vp_u64("id"); size_t i; const char *n=M_bitlist_single_tostr(T1,id); for(i=0;T1[i].name;i++) if(T1[i].id==id) break; vp_assert(n==T1[i].name); if(n){ vp_reach("hit"); vp_assert(M_bitlist_single_toint(T1,n)==id); } else vp_reach("miss"); { char *s=vp_stra("s",2,"aAbBc"); M_uint64 w=0; size_t l=0; s[0]=(char)vp_conc((unsigned char)s[0]); s[1]=(char)vp_conc((unsigned char)s[1]); if(lc(s[0])=='a'&&lc(s[1])=='b') w=3; (void)l; vp_assert(M_bitlist_single_toint(T1,s)==w); s[1]=0; w=lc(s[0])=='a'?1:lc(s[0])=='b'?2:8; vp_assert(M_bitlist_single_toint(T1,s)==w); } }
