//@mods base formats/json
//@env env_time
//@bounds strings and keys of up to K characters, one of them any Unicode scalar value (low byte symbolic, the rest picked in the quick run and symbolic in the thorough one) and the others picked from control characters, quote, backslash, slash, DEL and 1-4 byte characters, in every writer style; arbitrary string bytes with and without replacement; all 64-bit integers near every power of two and of ten (symbolic offset) and small ones; decimals of up to 4 digits; every tree of up to T nodes; histories of E edits (insert, insert at, take, destroy, replace, change value) against a list model
//@outside Unicode noncharacters; empty member names; integers outside +/-2^53 are written as strings unless NUMBER_NOCOMPAT is given (checked as such)
//@H h_str q:K=1 t:K=1,FULL=1 jobs=8 reach=str
//@H h_bytes q:B=3 t:B=4 jobs=8 reach=ok,bad
//@H h_int jobs=8 reach=int
//@H h_dec jobs=8 reach=dec
//@H h_tree q:T=4 t:T=6 jobs=8 reach=tree
//@H h_edit q:E=3 t:E=4 jobs=8 reach=edit
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_formats.h>
#include <string.h>
#ifndef K
#define K 1
#endif
#ifndef FULL
#define FULL 0
#endif
#ifndef B
#define B 3
#endif
#ifndef T
#define T 5
#endif
#ifndef E
#define E 3
#endif
static M_uint32 style(void){ static const M_uint32 st[4]={0,M_JSON_WRITER_PRETTYPRINT_SPACE,M_JSON_WRITER_PRETTYPRINT_TAB,M_JSON_WRITER_PRETTYPRINT_SPACE|M_JSON_WRITER_PRETTYPRINT_WINLINEEND}; return st[vp_pick("style",4)]; }
static int enc(char *o, unsigned c){ if(c<0x80){ o[0]=(char)c; return 1; } if(c<0x800){ o[0]=(char)(0xC0|c>>6); o[1]=(char)(0x80|(c&63)); return 2; } if(c<0x10000){ o[0]=(char)(0xE0|c>>12); o[1]=(char)(0x80|(c>>6&63)); o[2]=(char)(0x80|(c&63)); return 3; } o[0]=(char)(0xF0|c>>18); o[1]=(char)(0x80|(c>>12&63)); o[2]=(char)(0x80|(c>>6&63)); o[3]=(char)(0x80|(c&63)); return 4; }
static M_json_node_t *rd(const char *s, size_t l){ M_json_error_t e; return M_json_read(s,l,0,NULL,&e,NULL,NULL); }
static int some(char *o, const char *nm){ static const unsigned cs[12]={1,'"','\\','u',0xe9,0x1F600,10,'/'}; int n=vp_pick(nm,K+1), l=0; for(int i=0;i<n;i++) l+=enc(o+l,cs[vp_pick("c",8)]); return l; }
void h_str(void){ char s[32]; int l=0, ctx=vp_pick("ctx",3); if(ctx==1) l=some(s,"before"); unsigned c; int cl=vp_pick("class",4); if(ctx){ static const unsigned pc[4]={0x41,0xff,0x20ac,0x10ffff-2}; c=pc[cl]; } else if(cl==0) c=vp_u8("c8"); else if(cl==1&&!FULL) c=0x80+vp_u8("lo")+0x1e0u*(unsigned)vp_pick("hi",2); else if(cl==1) c=vp_u16("cp"); else if(FULL) c=vp_u32("cp"); else { static const unsigned h2[4]={8,0xd7,0xe0,0xfe}, h3[4]={0x100,0x1f6,0x10ff,0x3a5}; c=(cl==2?h2:h3)[vp_pick("hi",2)]<<8|vp_u8("lo"); } if(ctx) ; else if(cl==0) vp_assume(c>0&&c<0x80); else if(cl==1) vp_assume(c>=0x80&&c<0x800); else if(cl==2){ vp_assume(c>=0x800&&c<0x10000&&!(c>=0xD800&&c<0xE000)&&!(c>=0xFDD0&&c<=0xFDEF)&&c<0xFFFE); } else { vp_assume(c>=0x10000&&c<0x110000&&(c&0xFFFE)!=0xFFFE); } l+=enc(s+l,c); if(ctx==2) l+=some(s+l,"after"); s[l]=0; int key=vp_pick("key",2); M_uint32 st=ctx||key?0:style(); if(ctx?ctx==1:vp_pick("raw",2)) st|=M_JSON_WRITER_DONT_ENCODE_UNICODE; M_json_node_t *j=M_json_node_create(M_JSON_TYPE_OBJECT); vp_assert_msg(M_json_object_insert_string(j,key?s:"k",key?"v":s),"inserted"); size_t n; char *t=M_json_write(j,st,&n); vp_assert_msg(t&&n==strlen(t),"written"); if(!(st&M_JSON_WRITER_DONT_ENCODE_UNICODE)) for(size_t i=0;i<n;i++) vp_assert_msg((unsigned char)t[i]<0x80,"escaped text is ASCII"); M_json_node_t *r=rd(t,n); vp_assert_msg(r&&M_json_node_type(r)==M_JSON_TYPE_OBJECT&&M_json_object_num_children(r)==1,"written text reads back"); const char *g=M_json_object_value_string(r,key?s:"k"); vp_assert_msg(g&&!strcmp(g,key?"v":s),"the same string"); M_json_node_destroy(r); M_json_node_destroy(j); M_free(t); vp_reach("str"); }
/* arbitrary bytes: either refused or written as something that reads back (equal when it was UTF-8) */
void h_bytes(void){ int n=1+vp_pick("n",B); char *s=vp_strn("s",(size_t)n); int f=vp_pick("f",4); M_uint32 st=(f&1?M_JSON_WRITER_REPLACE_BAD_CHARS:0)|(f&2?M_JSON_WRITER_DONT_ENCODE_UNICODE:0); M_json_node_t *j=M_json_node_create(M_JSON_TYPE_ARRAY); M_json_array_insert_string(j,s); size_t l; char *t=M_json_write(j,st,&l); M_bool u=M_utf8_is_valid(s,NULL); vp_assert_msg((t!=NULL)==(u||(f&1)),"invalid UTF-8 is refused unless replaced"); if(!t){ M_json_node_destroy(j); vp_reach("bad"); return; } M_json_node_t *r=rd(t,l); vp_assert_msg(r&&M_json_array_len(r)==1,"written text reads back"); const char *g=M_json_array_at_string(r,0); if(u) vp_assert_msg(!strcmp(g,s),"the same string"); else vp_assert_msg(M_utf8_is_valid(g,NULL)&&strlen(g)<=(size_t)n,"replaced"); M_json_node_destroy(r); M_json_node_destroy(j); M_free(t); vp_reach("ok"); }
void h_int(void){ static const M_int64 b[]={0,1000,-1000,2147483647LL,-2147483648LL,4294967296LL,9007199254740991LL,-9007199254740991LL,M_INT64_MAX,M_INT64_MIN,1000000000000000000LL}; M_int64 v=b[vp_pick("b",11)]; int d=vp_pick("d",7)-3; if((v==M_INT64_MAX&&d>0)||(v==M_INT64_MIN&&d<0)) return; v+=d; int nc=vp_pick("nc",2); M_uint32 st=style()|(nc?M_JSON_WRITER_NUMBER_NOCOMPAT:0); int ob=vp_pick("ob",2); M_json_node_t *j=M_json_node_create(ob?M_JSON_TYPE_OBJECT:M_JSON_TYPE_ARRAY); if(ob) M_json_object_insert_int(j,"n",v); else M_json_array_insert_int(j,v); size_t l; char *t=M_json_write(j,st,&l); M_json_node_t *r=rd(t,l); vp_assert_msg(r!=NULL,"written text reads back"); M_json_node_t *x=ob?M_json_object_value(r,"n"):M_json_array_at(r,0); vp_assert_msg(M_json_get_int(x)==v,"the same integer"); int safe=v>=-9007199254740991LL&&v<=9007199254740991LL; vp_assert_msg(M_json_node_type(x)==(nc||safe?M_JSON_TYPE_INTEGER:M_JSON_TYPE_STRING),"quoted only when a reader could lose digits"); M_json_node_destroy(r); M_json_node_destroy(j); M_free(t); vp_reach("int"); }
void h_dec(void){ int v=vp_pick("v",2400)-1200, p=vp_pick("p",5); M_decimal_t d; M_decimal_from_int(&d,v*7,(M_uint8)p); M_json_node_t *j=M_json_node_create(M_JSON_TYPE_ARRAY); M_json_array_insert_decimal(j,&d); size_t l; char *t=M_json_write(j,0,&l); M_json_node_t *r=rd(t,l); vp_assert_msg(r!=NULL,"written text reads back"); const M_json_node_t *x=M_json_array_at(r,0); if(M_json_node_type(x)==M_JSON_TYPE_DECIMAL) vp_assert_msg(M_decimal_cmp(M_json_get_decimal(x),&d)==0,"the same decimal"); else { M_decimal_t k; M_decimal_from_int(&k,M_json_get_int(x),0); vp_assert_msg(M_json_node_type(x)==M_JSON_TYPE_INTEGER&&M_decimal_cmp(&k,&d)==0,"the same whole number"); } M_json_node_destroy(r); M_json_node_destroy(j); M_free(t); vp_reach("dec"); }
static int eq(const M_json_node_t *a, const M_json_node_t *b){ if(M_json_node_type(a)!=M_json_node_type(b)) return 0; switch(M_json_node_type(a)){ case M_JSON_TYPE_STRING: return !strcmp(M_json_get_string(a),M_json_get_string(b)); case M_JSON_TYPE_INTEGER: return M_json_get_int(a)==M_json_get_int(b); case M_JSON_TYPE_BOOL: return M_json_get_bool(a)==M_json_get_bool(b); case M_JSON_TYPE_ARRAY: { size_t n=M_json_array_len(a); if(n!=M_json_array_len(b)) return 0; for(size_t i=0;i<n;i++) if(!eq(M_json_array_at(a,i),M_json_array_at(b,i))||M_json_get_parent(M_json_array_at(a,i))!=a) return 0; return 1; } case M_JSON_TYPE_OBJECT: { M_list_str_t *k=M_json_object_keys(a); size_t n=M_list_str_len(k); if(n!=M_json_object_num_children(b)) return 0; for(size_t i=0;i<n;i++){ const char *q=M_list_str_at(k,i); if(!M_json_object_value(b,q)||!eq(M_json_object_value(a,q),M_json_object_value(b,q))) return 0; } M_list_str_destroy(k); return 1; } default: return 1; } }
static int left; static M_json_node_t *gen(int top){ left--; int k=vp_pick("k",top?2:(left>0?7:7)); M_json_node_t *j=NULL; switch(k){ case 0: j=M_json_node_create(M_JSON_TYPE_ARRAY); while(left>0&&vp_pick("more",2)) M_json_array_insert(j,gen(0)); break; case 1: j=M_json_node_create(M_JSON_TYPE_OBJECT); { int i=0; static const char *nm[8]={"a","b\"","c\\","d","e","f","g","h"}; while(left>0&&vp_pick("more",2)) M_json_object_insert(j,nm[i++],gen(0)); } break; case 2: j=M_json_node_create(M_JSON_TYPE_STRING); M_json_set_string(j,",]}"); break; case 3: j=M_json_node_create(M_JSON_TYPE_STRING); M_json_set_string(j,""); break; case 4: j=M_json_node_create(M_JSON_TYPE_INTEGER); M_json_set_int(j,-12); break; case 5: j=M_json_node_create(M_JSON_TYPE_BOOL); M_json_set_bool(j,(M_bool)vp_pick("b",2)); break; default: j=M_json_node_create(M_JSON_TYPE_NULL); } return j; }
void h_tree(void){ left=T; M_json_node_t *j=gen(1); M_uint32 st=style(); size_t l; char *t=M_json_write(j,st,&l); M_json_node_t *r=rd(t,l); vp_assert_msg(r&&eq(j,r)&&eq(r,j),"reading the written text gives an equal tree"); size_t l2; char *t2=M_json_write(r,st,&l2); vp_assert_msg(l==l2&&!strcmp(t,t2),"written the same again"); M_free(t); M_free(t2); M_json_node_destroy(j); M_json_node_destroy(r); vp_reach("tree"); }
/* edits of an array of integers inside an object, with an object beside it */
void h_edit(void){ M_json_node_t *o=M_json_node_create(M_JSON_TYPE_OBJECT), *a=M_json_node_create(M_JSON_TYPE_ARRAY); M_json_object_insert(o,"a",a); M_json_object_insert_int(o,"b",7); M_json_object_insert_string(o,"c","x"); M_int64 m[16]; int n=0, bv=7, hasc=1; const char *cv="x"; for(int i=0;i<3;i++){ m[n++]=i; M_json_array_insert_int(a,i); }
	for(int i=0;i<E;i++){ M_int64 v=100+i; int p=n?vp_pick("p",n+1):0; switch(vp_pick("op",8)){ case 0: M_json_array_insert_int(a,v); m[n++]=v; break; case 1: vp_assert_msg(M_json_array_insert_at_int(a,v,(size_t)p),"inserted at"); for(int k=n;k>p;k--) m[k]=m[k-1]; m[p]=v; n++; break; case 2: if(p>=n) break; { M_json_node_t *x=M_json_array_at(a,(size_t)p); M_json_take_from_parent(x); vp_assert_msg(M_json_get_parent(x)==NULL&&M_json_get_int(x)==m[p],"taken node keeps its value"); M_int64 w=m[p]; for(int k=p;k+1<n;k++) m[k]=m[k+1]; n--; if(vp_pick("back",2)){ vp_assert_msg(M_json_array_insert(a,x)&&!M_json_array_insert(a,x)&&!M_json_object_insert(o,"zz",x),"a node has one parent"); m[n++]=w; } else M_json_node_destroy(x); } break; case 3: if(p>=n) break; M_json_node_destroy(M_json_array_at(a,(size_t)p)); for(int k=p;k+1<n;k++) m[k]=m[k+1]; n--; break; case 4: if(p>=n) break; M_json_set_int(M_json_array_at(a,(size_t)p),v); m[p]=v; break; case 5: M_json_object_insert_int(o,"b",v); bv=(int)v; break; case 6: if(hasc){ M_json_node_destroy(M_json_object_value(o,"c")); hasc=0; } else { M_json_object_insert_string(o,"c","y"); hasc=1; cv="y"; } break; default: if(p<n){ M_json_node_t *x=M_json_array_at(a,(size_t)p); M_json_set_string(x,"s"); M_json_set_null(x); M_json_set_bool(x,M_TRUE); M_json_set_int(x,v); m[p]=v; } }
		vp_assert_msg(M_json_array_len(a)==(size_t)n&&M_json_object_value(o,"a")==a&&M_json_get_parent(a)==o,"array in place"); for(int k=0;k<n;k++) vp_assert_msg(M_json_array_at_int(a,(size_t)k)==m[k]&&M_json_get_parent(M_json_array_at(a,(size_t)k))==a,"every other element as it was"); vp_assert_msg(M_json_array_at(a,(size_t)n)==NULL,"nothing beyond"); vp_assert_msg(M_json_object_value_int(o,"b")==bv&&M_json_object_num_children(o)==(size_t)(2+hasc),"members as they were"); const char *c=M_json_object_value_string(o,"c"); vp_assert_msg(hasc?c&&!strcmp(c,cv):!c,"string member"); }
	M_json_node_destroy(o); vp_reach("edit"); }
