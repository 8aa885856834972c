//@mods base formats/csv
//@env env_time
//@bounds every text of up to C symbolic characters over delimiter, quote, CR, LF, space and a letter, with and without trimming, against an RFC 4180 reference; tables of up to 2x2 cells of up to K characters written and parsed back; column selection, row filter and cell writer callbacks; parsing with added headers
//@outside a CR outside quotes that is not followed by LF; an empty cell is read back as NULL
//@H h_parse q:C=6 t:C=7 jobs=8 reach=quoted,short,long
//@H h_any q:NB=2 t:NB=3 jobs=8 reach=any
//@H h_rt q:K=2 t:K=3 jobs=8 reach=rt
//@H h_sel jobs=8 reach=sel
//@H h_hdr jobs=8 reach=hdr
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include <mstdlib/mstdlib_formats.h>
#include <string.h>
#ifndef C
#define C 6
#endif
#ifndef K
#define K 2
#endif
#ifndef NB
#define NB 2
#endif
static void cc(char *s){ for(;;s++){ *s=(char)vp_conc((M_uint8)*s); if(!*s) return; } }
#define MR 10
static char cell[MR][MR][20]; static int cnul[MR][MR], ncol[MR], nrow;
static void fin(char *t, int *l, int hadq, int trim){ int r=nrow, c=ncol[r]; char *o=cell[r][c]; int a=0,b=*l; if(!hadq&&trim){ while(a<b&&vp_in(t[a]," \t\r\n\v\f")) a++; while(b>a&&vp_in(t[b-1]," \t\r\n\v\f")) b--; } int n=0; for(int i=a;i<b;i++) o[n++]=t[i]; o[n]=0; cnul[r][c]=!hadq&&n==0; ncol[r]++; *l=0; }
static void ref(const char *s, int n, char d, char q, int trim){ char t[20]; int l=0, on=0, hadq=0, seen=0; nrow=0; ncol[0]=0; for(int i=0;i<n;i++){ char c=s[i]; if(c==q){ hadq=1; seen=1; if(on&&i+1<n&&s[i+1]==q){ t[l++]=q; i++; } else on=!on; } else if(on){ t[l++]=c; seen=1; } else if(c==d){ fin(t,&l,hadq,trim); hadq=0; seen=1; } else if(c=='\n'){ fin(t,&l,hadq,trim); nrow++; ncol[nrow]=0; hadq=seen=0; } else if(c!='\r'){ t[l++]=c; seen=1; } } if(seen){ fin(t,&l,hadq,trim); nrow++; } }
static void same(M_csv_t *v){ if(nrow==0){ vp_assert_msg(!v,"no rows"); return; } vp_assert_msg(v&&M_csv_raw_num_rows(v)==(size_t)nrow&&M_csv_raw_num_cols(v)==(size_t)ncol[0],"rows and columns"); for(int r=0;r<nrow;r++) for(int c=0;c<ncol[0];c++){ const char *g=M_csv_raw_cell(v,(size_t)r,(size_t)c); if(c>=ncol[r]){ vp_assert_msg(!g,"missing cell"); vp_reach("short"); continue; } if(ncol[r]>ncol[0]) vp_reach("long"); vp_assert_msg((g==NULL)==(cnul[r][c]!=0),"an unquoted empty cell is NULL"); if(g){ vp_assert_msg(!strcmp(g,cell[r][c]),"cell text"); } }
	vp_assert_msg(M_csv_raw_cell(v,(size_t)nrow,0)==NULL&&M_csv_raw_cell(v,0,(size_t)ncol[0])==NULL,"nothing beyond"); vp_assert_msg(M_csv_get_numrows(v)==(size_t)nrow-1&&M_csv_get_header(v,0)==M_csv_raw_cell(v,0,0)&&M_csv_get_cellbynum(v,0,0)==M_csv_raw_cell(v,1,0),"first row is the header"); }
void h_parse(void){ int trim=vp_pick("trim",2); char *s=vp_strm("s",C,",\"\r\n a"); cc(s); int n=(int)strlen(s); int on=0; for(int i=0;i<n;i++){ if(s[i]=='"') on=!on; if(!on&&s[i]=='\r') vp_assume(i+1<n&&s[i+1]=='\n'); } if(strchr(s,'"')) vp_reach("quoted"); M_csv_t *v=M_csv_parse(s,(size_t)n,',','"',trim?M_CSV_FLAG_TRIM_WHITESPACE:0); ref(s,n,',','"',trim); same(v); M_csv_destroy(v); }
/* any bytes and any delimiter and quote */
void h_any(void){ char d=(char)vp_u8("d"), q=(char)vp_u8("q"); vp_assume(d&&q&&d!=q&&d!='\n'&&d!='\r'&&q!='\n'&&q!='\r'); int n=1+vp_pick("n",NB); char *s=vp_strn("s",(size_t)n); for(int i=0;i<n;i++) vp_assume(s[i]!='\r'); M_csv_t *v=M_csv_parse(s,(size_t)n,d,q,0); ref(s,n,d,q,0); same(v); M_csv_destroy(v); vp_reach("any"); }
static void put(M_buf_t *b, const char *s){ M_buf_add_byte(b,'"'); for(;*s;s++){ if(*s=='"') M_buf_add_byte(b,'"'); M_buf_add_byte(b,(unsigned char)*s); } M_buf_add_byte(b,'"'); }
static M_csv_t *mk(char g[2][2][8], int rows, int cols){ M_buf_t *b=M_buf_create(); for(int r=0;r<rows;r++){ for(int c=0;c<cols;c++){ if(c) M_buf_add_byte(b,','); put(b,g[r][c]); } M_buf_add_byte(b,'\n'); } size_t l; char *t=M_buf_finish_str(b,&l); M_csv_t *v=M_csv_parse(t,l,',','"',0); M_free(t); return v; }
static void eqc(const char *a, const char *b){ vp_assert_msg(!strcmp(a?a:"",b),"cell text"); }
void h_rt(void){ char g[2][2][8]={{"h","i"},{"x","y"}}; int w=vp_pick("w",4); char *s=vp_strm("s",K+1,",\"\r\n a"); cc(s); char *u=vp_strm("u",K-1,",\"\r\n a"); cc(u); strcpy(g[w>>1][w&1],s); strcpy(g[1-(w>>1)][1-(w&1)],u); M_csv_t *v=mk(g,2,2); vp_assert_msg(v&&M_csv_raw_num_rows(v)==2&&M_csv_raw_num_cols(v)==2,"parsed"); for(int r=0;r<2;r++) for(int c=0;c<2;c++) eqc(M_csv_raw_cell(v,(size_t)r,(size_t)c),g[r][c]);
	static const char dl[3]={',',';','\t'}; char d=dl[vp_pick("d",3)], q="\"'"[vp_pick("q",2)]; M_csv_output_set_control_chars(v,d,q); M_buf_t *b=M_buf_create(); M_csv_output_headers_buf(b,v,NULL); M_csv_output_rows_buf(b,v,NULL,NULL,NULL,NULL,NULL); size_t l; char *t=M_buf_finish_str(b,&l); M_csv_t *x=M_csv_parse(t,l,d,q,vp_pick("trim",2)?M_CSV_FLAG_TRIM_WHITESPACE:0); vp_assert_msg(x&&M_csv_raw_num_rows(x)==2&&M_csv_raw_num_cols(x)==2,"written table parses"); for(int r=0;r<2;r++) for(int c=0;c<2;c++) eqc(M_csv_raw_cell(x,(size_t)r,(size_t)c),g[r][c]); M_free(t); M_csv_destroy(v); M_csv_destroy(x); vp_reach("rt"); }
static M_bool filt(const M_csv_t *c, size_t row, void *t){ (void)c; return (*(unsigned*)t>>row&1)?M_TRUE:M_FALSE; }
static M_bool wr(M_buf_t *b, const char *cell_, const char *header, void *t){ int k=*(int*)t; if(M_str_caseeq(header,"B")&&k==1){ M_buf_add_str(b,"<"); M_buf_add_str(b,cell_); M_buf_add_str(b,">"); return M_TRUE; } if(k==2) return M_TRUE; M_buf_add_str(b,"junk"); return M_FALSE; }
void h_sel(void){ const char *t="a,b,c\n1,2,3\n4,5,6\n7,8,9\n"; M_csv_t *v=M_csv_parse(t,strlen(t),',','"',0); M_list_str_t *h=M_list_str_create(M_LIST_STR_NONE); int n=1+vp_pick("n",3), ix[3]; static const char *nm[4]={"a","B","c","zz"}; for(int i=0;i<n;i++){ ix[i]=vp_pick("i",4); M_list_str_insert(h,nm[ix[i]]); } unsigned keep=(unsigned)vp_pick("keep",8); int k=vp_pick("k",3); M_buf_t *b=M_buf_create(); M_csv_output_headers_buf(b,v,h); M_csv_output_rows_buf(b,v,h,filt,&keep,wr,&k); char w[200]; int l=0; for(int i=0;i<n;i++){ if(i) w[l++]=','; strcpy(w+l,nm[ix[i]]); l+=(int)strlen(nm[ix[i]]); } w[l++]='\r'; w[l++]='\n'; for(int r=0;r<3;r++) if(keep>>r&1){ for(int i=0;i<n;i++){ if(i) w[l++]=','; if(k==2) continue; int c=ix[i]; if(k==1&&c==1) w[l++]='<'; if(c<3) w[l++]=(char)('1'+r*3+c); if(k==1&&c==1) w[l++]='>'; } w[l++]='\r'; w[l++]='\n'; } w[l]=0; vp_assert_msg(M_buf_len(b)==(size_t)l&&!memcmp(M_buf_peek(b),w,(size_t)l),"selected columns, rows and rewritten cells"); M_buf_cancel(b); M_list_str_destroy(h); M_csv_destroy(v); vp_reach("sel"); }
void h_hdr(void){ char *s=vp_strm("s",3,",\"\na"); cc(s); char *hd=vp_strm("h",2,",\"a "); cc(hd); vp_assume(*s); M_list_str_t *h=M_list_str_create(M_LIST_STR_NONE); int two=vp_pick("two",2); M_list_str_insert(h,hd); if(two) M_list_str_insert(h,"Q"); M_csv_t *v=M_csv_parse_add_headers(s,strlen(s),',','"',0,h); vp_assert_msg(v&&M_csv_raw_num_cols(v)==(size_t)(1+two),"as many columns as headers"); eqc(M_csv_get_header(v,0),hd); if(two){ vp_assert_msg(M_csv_get_cell_num(v,"q")==1,"looked up without case"); } ref(s,(int)strlen(s),',','"',0); vp_assert_msg(M_csv_get_numrows(v)==(size_t)nrow,"all rows follow"); for(int r=0;r<nrow;r++) for(int c=0;c<1+two;c++){ const char *g=M_csv_get_cellbynum(v,(size_t)r,(size_t)c); vp_assert_msg((g==NULL)==(c>=ncol[r]||cnul[r][c])&&(!g||!strcmp(g,cell[r][c])),"cells"); } M_csv_destroy(v); M_list_str_destroy(h); vp_reach("hdr"); }
