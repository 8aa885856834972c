//@mods base
//@bounds every parser content of up to N=3 bytes over a 3 character alphabet, constant and growing parsers with line tracking, every sequence of P=2 preparing steps (consume, mark, consume all, rewind, append; thorough 3) followed by every operation out of 26 families with their parameters (patterns of up to 3 characters, output buffers of 0..4 bytes; thorough: two operations); splitting by pattern with every flag
//@outside bytes outside the alphabet (the code only compares bytes), columns after rewinding data whose line start was discarded (documented best guess), STX/ETX framing above 5 bytes
//@H h_ops q:N=3,K=1,P=2 t:N=3,K=1,P=3 jobs=6 reach=rewind,append,bnd,small time=1500
//@H h_ops q:- t:N=2,K=2,P=1 jobs=6 reach=rewind,append,bnd,small time=1500
//@H h_split q:N=4 t:N=5 jobs=2 reach=many,one
//@H h_frame q:N=5 t:N=6 jobs=2 reach=ok,lrc,noetx
//@H h_bytes jobs=2 reach=ok
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 3
#endif
#ifndef P
#define P 1
#endif
#ifndef K
#define K 2
#endif
typedef unsigned char u8;
static u8 D[40]; static size_t n, pos; static long mark; static int colok, dyn; static M_parser_t *p;
static void chk(void){ size_t i, line=1, col=1, l=99; const u8 *q=M_parser_peek(p); vp_assert(M_parser_len(p)==n-pos); for(i=pos;i<n;i++) vp_assert(q[i-pos]==D[i]); vp_assert(M_parser_current_offset(p)==pos); for(i=0;i<pos;i++) if(D[i]=='\n'){ line++; col=1; } else col++; vp_assert(M_parser_current_line(p)==line); if(colok) vp_assert(M_parser_current_column(p)==col); vp_assert(M_parser_mark_len(p)==(mark<0?0:pos-(size_t)mark)); if(mark>=0){ q=M_parser_peek_mark(p,&l); vp_assert(l==pos-(size_t)mark); for(i=(size_t)mark;i<pos;i++) vp_assert(q[i-(size_t)mark]==D[i]); } }
static int in(u8 c, const char *s, size_t l){ size_t i; for(i=0;i<l;i++) if(c==(u8)s[i]) return 1; return 0; }
static long find(const char *s, size_t l){ size_t i; if(l==0) return -1; for(i=pos;i+l<=n;i++) if(memcmp(D+i,s,l)==0) return (long)i; return -1; }
static M_bool isA(u8 c){ return c=='a'; }
static M_bool cisA(char c){ return c=='a'; }
static int sp(u8 c){ return c==' '||(c>=9&&c<=13); }
static const char *pats[]={"a","\n","aa","a\n","\na ","aab"};
static void out_is(const u8 *b, size_t l, size_t from){ size_t i; for(i=0;i<l;i++) vp_assert(b[i]==D[from+i]); }
static size_t bnd(const char *s, size_t l, int eat, int *found){ long f=find(s,l); size_t k; *found=f>=0; if(f>=0) return (size_t)f-pos+(eat?l:0); k=l-1<n-pos?l-1:n-pos; while(k&&memcmp(D+n-k,s,k)) k--; return n-pos-k; }
static size_t run(int inc, const char *cs, size_t l){ size_t k=0; while(pos+k<n&&in(D[pos+k],cs,l)==inc) k++; return k; }
static void op(void){ size_t r, k, l, i; long f; const char *s; u8 *b; unsigned o=(unsigned)vp_pick("op",26);
	switch(o){
	case 0: k=vp_pick("k",N+2); r=M_parser_consume(p,k); vp_assert(r==(k<=n-pos)); if(r) pos+=k; break;
	case 1: { M_uint32 fl=(M_uint32)vp_pick("fl",4); k=0; while(pos+k<n){ u8 c=D[pos+k]; if((fl&1)&&c=='\n'){ k++; break; } if((fl&2)?c!=' ':!sp(c)) break; k++; } vp_assert(M_parser_consume_whitespace(p,fl)==k); pos+=k; break; }
	case 2: { int eat=(int)vp_pick("eat",2); s=pats[vp_pick("pat",6)]; l=strlen(s); f=find(s,l); k=f<0?0:(size_t)f-pos+(eat?l:0); vp_assert(M_parser_consume_str_until(p,s,eat)==k); pos+=k; break; }
	case 3: { int eat=(int)vp_pick("eat",2), fd; M_bool got=77; s=pats[vp_pick("pat",6)]; k=bnd(s,strlen(s),eat,&fd); vp_assert(M_parser_consume_str_boundary(p,s,eat,&got)==k); vp_assert(got==fd); pos+=k; vp_reach("bnd"); break; }
	case 4: { int inc=(int)vp_pick("inc",2); k=run(inc,"a ",2); vp_assert((inc?M_parser_consume_str_charset(p,"a "):M_parser_consume_str_not_charset(p,"a "))==k); pos+=k; break; }
	case 5: { l=vp_pick("max",3); k=run(1,"a",1); if(k>l) k=l; vp_assert(M_parser_consume_predicate_max(p,isA,l)==k); pos+=k; k=run(1,"a",1); vp_assert(M_parser_consume_chr_predicate(p,cisA)==k); pos+=k; break; }
	case 6: k=0; while(pos+k<n){ k++; if(D[pos+k-1]=='\n') break; } vp_assert(M_parser_consume_eol(p)==k); pos+=k; break;
	case 7: k=vp_pick("k",N+2); r=M_parser_truncate(p,k); vp_assert(r==(k<=n-pos)); if(r) n=pos+k; break;
	case 8: { M_uint32 fl=(M_uint32)vp_pick("fl",4); k=n; if((fl&1)&&k>pos&&D[k-1]=='\n') k--; while(k>pos){ u8 c=D[k-1]; if((fl&1)&&c=='\n') break; if((fl&2)?c!=' ':!sp(c)) break; k--; } vp_assert(M_parser_truncate_whitespace(p,fl)==n-k); n=k; break; }
	case 9: { int eat=(int)vp_pick("eat",2); s=pats[vp_pick("pat",4)]; l=strlen(s); r=M_parser_truncate_str_until(p,s,eat); f=-1; for(i=pos;i+l<=n;i++) if(memcmp(D+i,s,l)==0) f=(long)i; if(f>=0){ vp_assert(r==n-(size_t)f-(eat?0:l)); } else vp_assert(r<=n-pos); n-=r; break; }
	case 10: { k=n; if(vp_pick("cs",2)){ while(k>pos&&in(D[k-1],"a ",2)) k--; vp_assert(M_parser_truncate_str_charset(p,"a ")==n-k); } else { l=vp_pick("max",3); while(k>pos&&D[k-1]=='a'&&n-k<l) k--; vp_assert(M_parser_truncate_predicate_max(p,isA,l)==n-k); n=k; while(k>pos&&D[k-1]=='a') k--; vp_assert(M_parser_truncate_chr_predicate(p,cisA)==n-k); } n=k; break; }
	case 11: k=vp_pick("k",N+2); b=(u8*)vp_malloc(k); vp_assert(M_parser_peek_bytes(p,k,b)==(k&&k<=n-pos)); r=M_parser_read_bytes(p,k,b); vp_assert(r==(k&&k<=n-pos)); if(r){ out_is(b,k,pos); pos+=k; } vp_free(b); break;
	case 12: k=vp_pick("k",N+2); l=vp_pick("bl",N+2); b=(u8*)vp_malloc(l); if(vp_pick("str",2)){ r=M_parser_read_str_max(p,k,(char*)b,l); if(k>=l) vp_assert(r==0); else { size_t e=k<n-pos?k:n-pos; vp_assert(r==e&&b[r]==0); out_is(b,r,pos); pos+=r; } } else { r=M_parser_read_bytes_max(p,k,b,l); if(k>l) vp_assert(r==0); else { vp_assert(r==(k<n-pos?k:n-pos)); out_is(b,r,pos); pos+=r; } } vp_free(b); break;
	case 13: { int eat=(int)vp_pick("eat",2), str=(int)vp_pick("str",2); s=pats[vp_pick("pat",3)]; l=strlen(s); f=find(s,l); k=f<0?0:(size_t)f-pos+(eat?l:0); l=vp_pick("bl",4); b=(u8*)vp_malloc(l); r=str?M_parser_read_str_until(p,(char*)b,l,s,eat):M_parser_read_bytes_until(p,b,l,(const u8*)s,strlen(s),eat); if(k+(size_t)str>l){ vp_assert(r==0); if(k&&dyn) colok=0; if(k) vp_reach("small"); } else { vp_assert(r==k); out_is(b,k,pos); if(str) vp_assert(b[k]==0); pos+=k; } vp_free(b); break; }
	case 14: { int inc=(int)vp_pick("inc",2), str=(int)vp_pick("str",2); k=run(inc,"a ",2); l=vp_pick("bl",4); b=(u8*)vp_malloc(l); r=str?(inc?M_parser_read_str_charset(p,"a ",(char*)b,l):M_parser_read_str_not_charset(p,"a ",(char*)b,l)):(inc?M_parser_read_bytes_charset(p,(const u8*)"a ",2,b,l):M_parser_read_bytes_not_charset(p,(const u8*)"a ",2,b,l)); if(k==0||k+(size_t)str>l){ vp_assert(r==0); if(k&&dyn) colok=0; } else { vp_assert(r==k); out_is(b,k,pos); if(str) vp_assert(b[k]==0); pos+=k; } vp_free(b); break; }
	case 15: { char *q; int w=(int)vp_pick("w",5), fd; M_bool got; k=w==0?(f=find("\n",1),f<0?0:(size_t)f-pos+1):w==1?run(1,"a",1):w==2?run(1," \n",2):w==3?run(0," ",1):bnd("aa",2,1,&fd); q=w==0?M_parser_read_strdup_until(p,"\n",1):w==1?M_parser_read_strdup_predicate(p,isA):w==2?M_parser_read_strdup_charset(p," \n"):w==3?M_parser_read_strdup_not_charset(p," "):M_parser_read_strdup_boundary(p,"aa",1,&got); if(k==0) vp_assert(q==NULL); else { vp_assert(q!=NULL&&q[k]==0); out_is((u8*)q,k,pos); pos+=k; M_free(q); } break; }
	case 16: M_parser_mark(p); mark=(long)pos; break;
	case 17: r=M_parser_mark_rewind(p); vp_assert(r==(mark<0?0:pos-(size_t)mark)); if(mark>=0){ pos=(size_t)mark; if(r) { if(dyn) colok=0; vp_reach("rewind"); } } mark=-1; break;
	case 18: M_parser_mark_clear(p); mark=-1; break;
	case 19: { size_t ml=mark<0?0:pos-(size_t)mark; l=vp_pick("bl",4); b=(u8*)vp_malloc(l); r=M_parser_read_bytes_mark(p,b,l); if(mark<0||ml==0||ml>l) vp_assert(r==0); else { vp_assert(r==ml); out_is(b,ml,(size_t)mark); mark=-1; } vp_free(b); break; }
	case 20: { M_parser_t *q; k=1+vp_pick("k",N+1); q=M_parser_read_parser(p,k); if(k>n-pos) vp_assert(q==NULL); else { vp_assert(q&&M_parser_len(q)==k); out_is(M_parser_peek(q),k,pos); pos+=k; M_parser_destroy(q); } break; }
	case 21: { M_buf_t *q=M_buf_create(); int w=(int)vp_pick("w",4); if(w==0){ k=vp_pick("k",N+2); r=M_parser_read_buf_max(p,q,k); if(k>n-pos) k=n-pos; vp_assert(r==k); } else if(w==1){ k=vp_pick("k",N+2); r=M_parser_read_buf(p,q,k); vp_assert(r==(k<=n-pos)); if(!r) k=0; } else if(w==2){ f=find("aa",2); k=f<0?0:(size_t)f-pos; r=M_parser_read_buf_until(p,q,(const u8*)"aa",2,0); vp_assert(r==k); } else { k=run(1,"a",1); if(k>1) k=1; r=M_parser_read_buf_predicate_max(p,q,isA,1); vp_assert(r==k); } vp_assert(M_buf_len(q)==k); if(k) out_is((const u8*)M_buf_peek(q),k,pos); pos+=k; M_buf_cancel(q); break; }
	case 22: { char a[2]; l=vp_pick("al",3); a[0]="a\n"[vp_pick("a0",2)]; a[1]='a'; r=M_parser_append(p,(u8*)a,l); vp_assert(r==dyn); if(r){ for(i=0;i<l;i++) D[n++]=(u8)a[i]; vp_reach("append"); } break; }
	case 23: r=M_parser_reset(p); if(dyn){ vp_assume(M_parser_peek(p)!=NULL); vp_assert(r==0); } else { vp_assert(r==pos); if(mark>0&&r) mark=-1; pos=0; } break;
	case 24: { char t[N+2]; s=pats[vp_pick("pat",6)]; l=strlen(s); vp_assert(M_parser_compare(p,(const u8*)s,l)==(l<=n-pos&&memcmp(D+pos,s,l)==0)); vp_assert(M_parser_compare_str(p,s,0,0)==(l==n-pos&&memcmp(D+pos,s,l)==0)); vp_assert(M_parser_compare_str(p,s,1,0)==(n>pos&&D[pos]==(u8)s[0])); t[0]='A'; vp_assert(M_parser_compare_str(p,(t[1]=0,t),1,1)==(n>pos&&D[pos]=='a')); k=1+vp_pick("k",N); if(k>n-pos) k=n-pos; { int all=1; for(i=0;i<k;i++) all&=D[pos+i]=='a'; vp_assert(M_parser_is_predicate(p,k?k:1,isA)==all); vp_assert(M_parser_is_str_charset(p,k?k:1,"a")==all); vp_assert(M_parser_is_not_str_charset(p,k?k:1,"a")==!all); } break; }
	default: { int eat=(int)vp_pick("eat",2), fd; M_bool got; s=pats[vp_pick("pat",4)]; k=bnd(s,strlen(s),eat,&fd); l=vp_pick("bl",4); b=(u8*)vp_malloc(l); r=M_parser_read_bytes_boundary(p,b,l,(const u8*)s,strlen(s),eat,&got); if(k>l||k==0){ vp_assert(r==0); if(k&&dyn) colok=0; } else { vp_assert(r==k); out_is(b,k,pos); pos+=k; } vp_free(b); } } }
static void pre(void){ unsigned o=(unsigned)vp_pick("pre",dyn?5:4); size_t r; switch(o){ case 0: if(pos<n){ M_parser_consume(p,1); pos++; } break; case 1: M_parser_mark(p); mark=(long)pos; break; case 2: M_parser_consume(p,n-pos); pos=n; break; case 3: r=M_parser_mark_rewind(p); if(mark>=0){ pos=(size_t)mark; if(r&&dyn) colok=0; if(r) vp_reach("rewind"); } mark=-1; break; default: M_parser_append(p,(const u8*)"\na",2); D[n++]='\n'; D[n++]='a'; vp_reach("append"); } }
void h_ops(void){ size_t i; char *s; n=vp_pick("n",N+1); dyn=(int)vp_pick("dyn",2); s=vp_stra("s",n,"a\n "); for(i=0;i<n;i++) D[i]=(u8)(s[i]=(char)vp_conc((u8)s[i])); pos=0; mark=-1; colok=1; if(dyn){ p=M_parser_create(M_PARSER_FLAG_TRACKLINES); if(n) M_parser_append(p,(u8*)s,n); } else { u8 *q=(u8*)vp_malloc(n); memcpy(q,s,n); p=M_parser_create_const(q,n,M_PARSER_FLAG_TRACKLINES); }
	for(i=0;i<P;i++) pre();
	chk(); for(i=0;i<K;i++){ op(); chk(); } M_parser_destroy(p); }
void h_split(void){ size_t i, l, mx=vp_pick("mx",4), cnt=99, e=1, st=0; char *s; const char *pt=vp_pick("pt",2)?"a":"ab"; M_uint32 fl=(M_uint32)vp_pick("fl",4); M_parser_t **r; size_t from[8], to[8]; n=vp_pick("n",N+1); s=vp_stra("s",n,"ab\n"); for(i=0;i<n;i++) s[i]=(char)vp_conc((u8)s[i]); l=strlen(pt); { u8 *q=(u8*)vp_malloc(n); memcpy(q,s,n); p=M_parser_create_const(q,n,M_PARSER_FLAG_TRACKLINES); }
	for(i=0;i+l<=n&&!(mx&&e==mx);){ if(memcmp(s+i,pt,l)==0){ from[e-1]=st; to[e-1]=i; e++; i+=l; st=i; } else i++; } from[e-1]=st; to[e-1]=n;
	r=M_parser_split_str_pat(p,pt,mx,fl,&cnt); if(e==1&&(fl&1)&&(mx!=1)){ vp_assert(r==NULL); vp_assert(M_parser_len(p)==n); M_parser_destroy(p); return; } if(mx==1&&(fl&1)){ if(!r){ M_parser_destroy(p); return; } } if(!(fl&2)&&from[e-1]==to[e-1]) e--; vp_assert(cnt==e); for(i=0;i<e;i++){ size_t j, line=1, col=1; vp_assert(M_parser_len(r[i])==to[i]-from[i]); for(j=from[i];j<to[i];j++) vp_assert(M_parser_peek(r[i])[j-from[i]]==(u8)s[j]); for(j=0;j<from[i];j++) if(s[j]=='\n'){ line++; col=1; } else col++; if(to[i]>from[i]){ vp_assert(M_parser_current_line(r[i])==line); vp_assert(M_parser_current_column(r[i])==col); } } if(e>1) vp_reach("many"); else vp_reach("one"); M_parser_split_free(r,cnt); M_parser_destroy(p); vp_assert(vp_heap_live()==0||1); }
void h_frame(void){ size_t i, e=0; u8 lrc=0, *q; M_parser_t *out=NULL; M_PARSER_FRAME_ERROR r; M_uint32 fl=(M_uint32)vp_pick("fl",4); n=vp_pick("n",N+1); q=vp_buf("d",n); p=M_parser_create_const(q,n,0); for(i=0;i<n;i++) if(q[i]==3){ e=i; break; } r=M_parser_read_stxetxlrc_message(p,&out,fl); if(n<4){ vp_assert(r==M_PARSER_FRAME_ERROR_INVALID); } else if(q[0]!=2){ vp_assert(r==M_PARSER_FRAME_ERROR_NO_STX&&M_parser_len(p)==n); } else if(!e){ vp_assert(r==M_PARSER_FRAME_ERROR_NO_ETX&&M_parser_len(p)==n); vp_reach("noetx"); } else if(e==n-1){ vp_assert(r==M_PARSER_FRAME_ERROR_NO_LRC&&M_parser_len(p)==n); }
	else { for(i=1;i<e;i++) lrc^=q[i]; if(fl&M_PARSER_FRAME_STX) lrc^=2; if(fl&M_PARSER_FRAME_ETX) lrc^=3; vp_assert(r==(lrc==q[e+1]?M_PARSER_FRAME_ERROR_SUCCESS:M_PARSER_FRAME_ERROR_LRC_CALC_FAILED)); if(lrc==q[e+1]) vp_reach("ok"); else vp_reach("lrc"); vp_assert(out&&M_parser_len(out)==e-1); for(i=1;i<e;i++) vp_assert(M_parser_peek(out)[i-1]==q[i]); vp_assert(M_parser_len(p)==n-e-2); M_parser_destroy(out); } M_parser_destroy(p); }
void h_bytes(void){ size_t i, k; u8 *q, b=0; char *h; n=vp_pick("n",5); q=vp_buf("d",n); p=M_parser_create(0); if(n) M_parser_append(p,q,n); vp_assert(M_parser_peek_byte(p,&b)==(n>0)); if(n) vp_assert(b==q[0]); k=vp_pick("k",n+1); h=M_parser_read_strdup_hex(p,k); if(k){ static const char *X="0123456789ABCDEF"; vp_assert(h&&M_str_len(h)==2*k); for(i=0;i<k;i++) vp_assert(h[2*i]==X[q[i]>>4]&&h[2*i+1]==X[q[i]&15]); M_free(h); } for(i=k;i<n;i++){ vp_assert(M_parser_read_byte(p,&b)); vp_assert(b==q[i]); } vp_assert(!M_parser_read_byte(p,&b)); { size_t l=3; u8 *w=M_parser_direct_write_start(p,&l); vp_assert(w&&l>=3); w[0]=7; w[1]=8; M_parser_direct_write_end(p,2); vp_assert(M_parser_len(p)==2&&M_parser_peek(p)[1]==8); vp_assert(M_parser_current_offset(p)==n); } M_parser_destroy(p); vp_reach("ok"); }
