//@mods base
//@env env_time
//@bounds every Unix path of up to N bytes over slash, backslash, dot and a name character (plus templates with longer dot-dot chains) for dirname, basename and normalisation; every pair of texts of up to J bytes for joining; every list of up to 3 parts; absolute normalisation below a fixed working directory; symbolic links with every target of up to 3 bytes in eight path shapes, including loops
//@outside environment variable and home directory expansion, Windows drive and UNC paths (only their memory safety and idempotence are explored), paths longer than the bounds (except the length limit itself)
//@stubs getcwd: /w/x; M_fs_path_readlink_int: one symbolic link with a chosen target
//@H h_norm q:N=5 t:N=6 jobs=8 reach=end
//@H h_split q:N=6 t:N=7 jobs=8 reach=end
//@H h_join q:J=3 t:J=4 jobs=8 reach=end
//@H h_parts jobs=8 reach=end
//@H h_abs q:N=5 t:N=6 jobs=8 reach=end
//@H h_link jobs=8 reach=end,loop
//@H h_win q:N=4 t:N=6 jobs=8 reach=end
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include "fs/m_fs_int.h"
#include <string.h>
#ifndef N
#define N 5
#endif
#ifndef J
#define J 4
#endif
char *vpstub_getcwd(char *b, size_t n){ vp_assert_msg(n>4,"room for the working directory"); memcpy(b,"/w/x",5); return b; }
static void cc(char *s){ for(;;s++){ *s=(char)vp_conc((M_uint8)*s); if(!*s) return; } }
static const char *lk_at, *lk_to;
M_fs_error_t vpstub_M_fs_path_readlink_int(char **out, const char *path, M_bool last, M_fs_path_norm_t flags, M_fs_system_t st){ (void)last; (void)flags; (void)st; *out=NULL; if(lk_at&&strcmp(path,lk_at)==0) *out=M_strdup(lk_to); return M_FS_ERROR_SUCCESS; }
typedef struct { char v[24][24]; int n; int abs; } comps;
static int sep(char c){ return c=='/'||c=='\\'; }
static void split(const char *p, comps *c){ c->n=0; c->abs=*p=='/'; while(*p){ if(sep(*p)){ p++; continue; } int k=0; while(*p&&!sep(*p)) c->v[c->n][k++]=*p++; c->v[c->n][k]=0; c->n++; } }
static void join(const comps *c, int n, char *o){ int k=0; if(c->abs) o[k++]='/'; for(int i=0;i<n;i++){ if(i) o[k++]='/'; for(int j=0;c->v[i][j];j++) o[k++]=c->v[i][j]; } o[k]=0; }
static void refnorm(const comps *c, comps *r, int noparent){ r->n=0; r->abs=c->abs; for(int i=0;i<c->n;i++){ const char *x=c->v[i]; if(!strcmp(x,".")) continue;
	if(!strcmp(x,"..")&&!noparent){ if(r->n==0){ if(r->abs) continue; } else if(strcmp(r->v[r->n-1],"..")){ r->n--; continue; } }
	strcpy(r->v[r->n++],x); } }
static char *input(int n){ if(vp_pick("tmpl",2)){ static const char *t[6]={"/a/b/../../../../c","a/b/c/../../../../d/..","../../a/./../b//c/..","/..//./..\\a\\..\\..\\b","a..b/..c/.../c..","/a/.hid/../.."}; return M_strdup(t[vp_pick("which",6)]); }
	return vp_strm("p",n,"/\\.a"); }
static void okcomps(const char *o){ for(const char *q=o;*q;q++) vp_assert_msg(!(q[0]=='/'&&q[1]=='/'),"no doubled separator"); }
void h_norm(void){ char *p=input(N), *o=NULL, *o2=NULL, e[64]; comps c, r; int np=vp_pick("noparent",2); M_uint32 f=np?M_FS_PATH_NORM_NOPARENT:M_FS_PATH_NORM_NONE;
	M_fs_error_t er=M_fs_path_norm(&o,p,f,M_FS_SYSTEM_UNIX);
	if(!*p){ vp_assert(er!=M_FS_ERROR_SUCCESS&&o==NULL);  return; }
	split(p,&c); if(c.n==0&&!c.abs){ M_free(o); return; } /* only backslashes */
	vp_assert_msg(er==M_FS_ERROR_SUCCESS&&o!=NULL,"normalises");
	split(p,&c); refnorm(&c,&r,np); join(&r,r.n,e); if(!*e) strcpy(e,".");
	vp_assert_msg(strcmp(o,e)==0,"normalised as the file system would"); okcomps(o);
	vp_assert_msg(M_fs_path_norm(&o2,o,f,M_FS_SYSTEM_UNIX)==M_FS_ERROR_SUCCESS&&strcmp(o2,o)==0,"normalising twice equals once");
	 M_free(o); M_free(o2); vp_reach("end"); }
void h_split(void){ char *p=input(N), e[64]; comps c; char *d=M_fs_path_dirname(p,M_FS_SYSTEM_UNIX), *b=M_fs_path_basename(p,M_FS_SYSTEM_UNIX);
	split(p,&c);
	if(!*p){ vp_assert(d&&!strcmp(d,".")); vp_assert(b==NULL); }
	else if(c.n==0){ vp_assert_msg(b==NULL,"root has no name"); vp_assert_msg(c.abs?(d&&!strcmp(d,"/")):(d==NULL),"root directory"); }
	else { vp_assert_msg(b&&!strcmp(b,c.v[c.n-1]),"base name is the last component"); join(&c,c.n-1,e); vp_assert_msg(*e?(d&&!strcmp(d,e)):(d==NULL),"directory is everything before"); }
	vp_assert_msg(M_fs_path_isabs(p,M_FS_SYSTEM_UNIX)==(c.abs?M_TRUE:M_FALSE),"absolute exactly when it starts at the root");
	vp_assert_msg(M_fs_path_ishidden(p,NULL)==(c.n&&c.v[c.n-1][0]=='.'?M_TRUE:M_FALSE),"hidden exactly when the last component starts with a dot");
	M_list_str_t *l=M_fs_path_componentize_path(p,M_FS_SYSTEM_UNIX); vp_assert_msg((int)M_list_str_len(l)==c.n+c.abs,"component count");
	for(int i=0;i<c.n;i++) vp_assert_msg(!strcmp(M_list_str_at(l,(size_t)(i+c.abs)),c.v[i]),"component"); if(c.abs) vp_assert(!*M_list_str_at(l,0));
	char *j=M_fs_path_join_parts(l,M_FS_SYSTEM_UNIX); join(&c,c.n,e); vp_assert_msg(*e?(j&&!strcmp(j,e)):j==NULL,"joining the components gives the path"); M_list_str_destroy(l);
	 M_free(d); M_free(b); M_free(j); vp_reach("end"); }
void h_join(void){ char *a=vp_strm("a",J,"/.b"), *b=vp_strm("b",J,"/.b"), e[32]; int nul=vp_pick("null",3); size_t la=strlen(a), lb=strlen(b); char *o=M_fs_path_join(nul==1?NULL:a,nul==2?NULL:b,M_FS_SYSTEM_UNIX);
	if(nul==1){ la=0; } if(nul==2) lb=0; e[0]=0; if(lb&&b[0]=='/') strcpy(e,b); else { if(la) strcat(e,a); if(la&&lb&&a[la-1]!='/') strcat(e,"/"); if(lb) strcat(e,b); }
	vp_assert_msg(*e?(o&&!strcmp(o,e)):(o==NULL||!*o),"joined");
	char *r=M_fs_path_join_resolved(nul==1?NULL:a,NULL,b,M_FS_SYSTEM_UNIX); if(lb&&b[0]=='/'&&nul!=2) vp_assert_msg(r&&!strcmp(r,b),"absolute link targets stand alone");
	else if(nul==0&&la&&lb){ comps c; char x[64], y[64]; split(a,&c); if(c.n){ c.n--; } join(&c,c.n,x); strcpy(y,x); if(*x&&x[strlen(x)-1]!='/') strcat(y,"/"); strcat(y,b); vp_assert_msg(r&&!strcmp(r,y),"relative link targets are below the directory of the link"); }
	M_free(o); M_free(r);  vp_reach("end"); }
void h_parts(void){ M_list_str_t *l=M_list_str_create(M_LIST_STR_NONE); int n=vp_pick("n",4); char *s[3]; char e[40]; int k=0, w=0; for(int i=0;i<n;i++){ s[i]=vp_strm(i==0?"s0":i==1?"s1":"s2",2,"ab"); M_list_str_insert(l,s[i]); }
	char *o=M_fs_path_join_parts(l,M_FS_SYSTEM_UNIX);
	if(n==0) vp_assert(o==NULL); else { if(!*s[0]) e[k++]='/'; for(int i=0;i<n;i++) if(*s[i]){ if(w) e[k++]='/'; strcpy(e+k,s[i]); k+=(int)strlen(s[i]); w++; } e[k]=0; vp_assert_msg(o&&!strcmp(o,e),"parts joined by single separators, empty parts dropped"); }
	char *v=NULL; if(n==2){ v=M_fs_path_join_vparts(M_FS_SYSTEM_UNIX,2,s[0],s[1]); vp_assert_msg(v&&!strcmp(v,o),"same for a list of arguments"); }
	M_free(o); M_free(v); M_list_str_destroy(l); vp_reach("end"); }
void h_abs(void){ char *p=input(N), *o=NULL, e[64]; comps c, r, w; if(!*p){  return; } split(p,&c);
	M_fs_error_t er=M_fs_path_norm(&o,p,M_FS_PATH_NORM_ABSOLUTE,M_FS_SYSTEM_UNIX);
	if(c.n==0&&!c.abs){  M_free(o); return; } /* only backslashes */
	vp_assert_msg(er==M_FS_ERROR_SUCCESS&&o,"normalises");
	if(!c.abs){ split("/w/x",&w); for(int i=0;i<c.n;i++) strcpy(w.v[w.n++],c.v[i]); refnorm(&w,&r,0); } else refnorm(&c,&r,0);
	join(&r,r.n,e); vp_assert_msg(o[0]=='/',"absolute"); vp_assert_msg(!strcmp(o,e),"relative to the working directory");  M_free(o); vp_reach("end"); }
/* walk like the kernel does: a link named X at path lk_at */
void h_link(void){ static const char *pt[8]={"a","a/b","/a","./a/..","a/../a","/a/../..//a/b","a/a","../a"}; char *p=M_strdup(pt[vp_pick("p",8)]); char *t=vp_strm("t",3,"/.ab"); if(!*t){   return; } cc(t); int ab=vp_pick("at",2); lk_at=ab?"/a":"a"; lk_to=t; char *o=NULL, e[64];
	M_fs_error_t er=M_fs_path_norm(&o,p,M_FS_PATH_NORM_FOLLOWSYMLINKS,M_FS_SYSTEM_UNIX);
	comps c, r, tc; split(p,&c); int hops=0, i=0; r.n=0; r.abs=c.abs; char cur[64];
	while(i<c.n){ const char *x=c.v[i++]; if(!strcmp(x,".")) continue; if(!strcmp(x,"..")){ if(r.n==0){ if(!r.abs) strcpy(r.v[r.n++],".."); } else if(!strcmp(r.v[r.n-1],"..")) strcpy(r.v[r.n++],".."); else r.n--; continue; }
		strcpy(r.v[r.n++],x); join(&r,r.n,cur); if(!strcmp(cur,lk_at)){ if(++hops>30) break; r.n--; split(t,&tc); if(tc.abs){ r.abs=1; r.n=0; }
			comps q; q.n=0; for(int k=0;k<tc.n;k++) strcpy(q.v[q.n++],tc.v[k]); for(int k=i;k<c.n;k++) strcpy(q.v[q.n++],c.v[k]); vp_assume(q.n<20); c.n=q.n; for(int k=0;k<q.n;k++) strcpy(c.v[k],q.v[k]); i=0; } }
	if(hops>30){ vp_assert_msg(er==M_FS_ERROR_LINK_LOOP&&o==NULL,"link loops are reported"); vp_reach("loop"); }
	else { join(&r,r.n,e); if(!*e) strcpy(e,"."); vp_assert_msg(er==M_FS_ERROR_SUCCESS&&o&&!strcmp(o,e),"links resolved where they stand"); vp_reach("end"); }
	  M_free(o); }
void h_win(void){ char *p=vp_strm("p",N,"/\\.:C"), *o=NULL, *o2=NULL; M_fs_error_t er=M_fs_path_norm(&o,p,M_FS_PATH_NORM_NONE,M_FS_SYSTEM_WINDOWS); if(er==M_FS_ERROR_SUCCESS){ vp_assert(o!=NULL); vp_assert(M_fs_path_norm(&o2,o,M_FS_PATH_NORM_NONE,M_FS_SYSTEM_WINDOWS)==M_FS_ERROR_SUCCESS); vp_assert_msg(!strcmp(o,o2),"normalising twice equals once");
	for(char *q=o;*q;q++) vp_assert_msg(*q!='/',"one kind of separator"); }
	char *d=M_fs_path_dirname(p,M_FS_SYSTEM_WINDOWS), *b=M_fs_path_basename(p,M_FS_SYSTEM_WINDOWS); M_free(d); M_free(b);  M_free(o); M_free(o2); vp_reach("end"); }
