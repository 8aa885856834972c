//@mods base
//@bounds every file mode (12 permission bits) against every permission object: for user, group and other any of unset, exact, add, remove with any bit set, with and without directory overrides, on files and directories; merging and duplicating every pair of such objects per subject
//@outside Windows ACLs, setuid, setgid and sticky bits (the library does not carry them), lookup of account names
//@stubs fstat, fchmod, fchown, getpwuid_r, getgrgid_r: any file mode and owner; recorded
//@H h_set jobs=8 reach=file,dir
//@H h_round jobs=4 reach=end
//@H h_edit jobs=8 reach=end
//@H h_merge jobs=8 reach=end
//@H h_owner jobs=2 reach=end
#include "vp.h"
#include <mstdlib/mstdlib.h>
#include "fs/m_fs_int.h"
#include "fs/m_fs_int_unx.h"
#include <sys/stat.h>
#include <pwd.h>
#include <grp.h>
#include <string.h>
static mode_t st_mode; static mode_t got; static int nset; static int own_u, own_g, nown;
int vpstub_fstat(int fd, struct stat *b){ (void)fd; b->st_mode=st_mode; b->st_uid=7; b->st_gid=9; return 0; }
int vpstub_fchmod(int fd, mode_t m){ (void)fd; got=m; nset++; return 0; }
int vpstub_fchown(int fd, uid_t u, gid_t g){ (void)fd; own_u=(int)u; own_g=(int)g; nown++; return 0; }
int vpstub_getpwuid_r(uid_t u, struct passwd *p, char *b, size_t n, struct passwd **r){ (void)u; (void)n; b[0]='u'; b[1]=0; p->pw_name=b; p->pw_uid=u; *r=p; return 0; }
int vpstub_getgrgid_r(gid_t g, struct group *p, char *b, size_t n, struct group **r){ (void)n; b[0]='g'; b[1]=0; p->gr_name=b; p->gr_gid=g; *r=p; return 0; }
int vpstub_getpwnam_r(const char *u, struct passwd *p, char *b, size_t n, struct passwd **r){ (void)b; (void)n; if(u[0]!='u'){ *r=NULL; return 0; } p->pw_uid=(uid_t)(100+u[1]); *r=p; return 0; }
int vpstub_getgrnam_r(const char *u, struct group *p, char *b, size_t n, struct group **r){ (void)b; (void)n; if(u[0]!='g'){ *r=NULL; return 0; } p->gr_gid=(gid_t)(200+u[1]); *r=p; return 0; }
long vpstub_sysconf(int n){ (void)n; return 64; }
typedef struct { int set; M_uint32 mode; M_fs_perms_type_t type; } part;
static const M_fs_perms_who_t who[3]={M_FS_PERMS_WHO_USER,M_FS_PERMS_WHO_GROUP,M_FS_PERMS_WHO_OTHER};
static M_uint32 bits(const char *n){ return vp_below(n,8)&7u; }
/* library bits: check the numeric meaning once */
static M_uint32 unx(M_uint32 m){ return ((m&M_FS_PERMS_MODE_READ)?4u:0u)|((m&M_FS_PERMS_MODE_WRITE)?2u:0u)|((m&M_FS_PERMS_MODE_EXEC)?1u:0u); }
static M_uint32 lib(M_uint32 m){ return ((m&4)?M_FS_PERMS_MODE_READ:0u)|((m&2)?M_FS_PERMS_MODE_WRITE:0u)|((m&1)?M_FS_PERMS_MODE_EXEC:0u); }
static M_uint32 apply(M_uint32 cur, const part *p){ if(!p->set) return cur; switch(p->type){ case M_FS_PERMS_TYPE_EXACT: return p->mode; case M_FS_PERMS_TYPE_ADD: return cur|p->mode; default: return cur&~p->mode; } }
static part mk(const char *n, const char *b){ part p; int k=vp_pick(n,4); p.set=k!=3; p.type=k==1?M_FS_PERMS_TYPE_ADD:k==2?M_FS_PERMS_TYPE_REMOVE:M_FS_PERMS_TYPE_EXACT; p.mode=p.set?bits(b):0; return p; }
static const char *nm[3]={"u","g","o"}, *nb[3]={"ub","gb","ob"}, *dn[3]={"du","dg","do"}, *db[3]={"dub","dgb","dob"};
void h_set(void){ part p[3], d[3]; M_fs_perms_t *x=M_fs_perms_create(); M_fs_file_t f; memset(&f,0,sizeof f); f.fd=3; int dir=vp_pick("dir",2), hasd=vp_pick("over",3);
	for(int i=0;i<3;i++){ p[i]=mk(nm[i],nb[i]); if(p[i].set) M_fs_perms_set_mode(x,lib(p[i].mode),who[i],p[i].type); d[i].set=0; if(hasd==i+1||(hasd==2&&i==2)){ d[i].set=1; d[i].type=(M_fs_perms_type_t)vp_pick(dn[i],3); d[i].mode=bits(db[i]); M_fs_perms_set_dir_mode(x,lib(d[i].mode),who[i],d[i].type); } }
	M_uint32 m=vp_u32("mode")&0777; st_mode=m|(dir?S_IFDIR:S_IFREG); nset=0;
	vp_assert(M_fs_perms_set_perms_file(x,&f)==M_FS_ERROR_SUCCESS); vp_assert_msg(nset==1,"mode set once");
	for(int i=0;i<3;i++){ M_uint32 sh=(M_uint32)(6-3*i), cur=(m>>sh)&7; const part *a=(dir&&d[i].set)?&d[i]:&p[i]; vp_assert_msg(((got>>sh)&7)==apply(cur,a),"exactly the named bits changed"); }
	vp_assert_msg((got&~0777u)==0,"no other bits"); M_fs_perms_destroy(x); if(dir) vp_reach("dir"); else vp_reach("file"); }
void h_round(void){ M_fs_file_t f; memset(&f,0,sizeof f); f.fd=3; M_uint32 m=vp_u32("mode")&0777; int k=vp_pick("kind",4); st_mode=m|(k==0?S_IFREG:k==1?S_IFDIR:k==2?S_IFLNK:S_IFIFO); M_fs_info_t *in=NULL; vp_assert(M_fs_info_file(&in,&f,M_FS_PATH_INFO_FLAGS_NONE)==M_FS_ERROR_SUCCESS);
	vp_assert_msg(M_fs_info_get_type(in)==(k==0?M_FS_TYPE_FILE:k==1?M_FS_TYPE_DIR:k==2?M_FS_TYPE_SYMLINK:M_FS_TYPE_PIPE),"type");
	const M_fs_perms_t *p=M_fs_info_get_perms(in); for(int i=0;i<3;i++){ vp_assert_msg(unx(M_fs_perms_get_mode(p,who[i]))==((m>>(6-3*i))&7),"bits of the subject"); vp_assert(M_fs_perms_get_type(p,who[i])==M_FS_PERMS_TYPE_EXACT); vp_assert(M_fs_perms_get_isset(p,who[i])); vp_assert(!M_fs_perms_get_dir_isset(p,who[i])); }
	vp_assert_msg(M_fs_perms_to_mode(p,k==1)==m,"conversion to a system mode is inverse"); vp_assert(!strcmp(M_fs_perms_get_user(p),"u")&&!strcmp(M_fs_perms_get_group(p),"g"));
	M_fs_perms_t *q=M_fs_perms_dup(p); vp_assert_msg(M_fs_perms_to_mode(q,k==1)==m,"duplicate has the same mode"); vp_assert(!strcmp(M_fs_perms_get_user(q),"u")&&!strcmp(M_fs_perms_get_group(q),"g")); M_fs_perms_destroy(q); M_fs_info_destroy(in); vp_reach("end"); }
static void same(const M_fs_perms_t *x, const part *p, const part *d){ for(int i=0;i<3;i++){ vp_assert_msg(M_fs_perms_get_isset(x,who[i])==(p[i].set?M_TRUE:M_FALSE),"set or not"); vp_assert_msg(unx(M_fs_perms_get_mode(x,who[i]))==(p[i].set?p[i].mode:0),"mode as given"); vp_assert_msg(M_fs_perms_get_type(x,who[i])==(p[i].set?p[i].type:M_FS_PERMS_TYPE_EXACT),"type as given");
	vp_assert_msg(M_fs_perms_get_dir_isset(x,who[i])==(d[i].set?M_TRUE:M_FALSE),"directory override set or not"); vp_assert_msg(unx(M_fs_perms_get_dir_mode(x,who[i]))==(d[i].set?d[i].mode:0),"directory mode as given"); vp_assert_msg(M_fs_perms_get_dir_type(x,who[i])==(d[i].set?d[i].type:M_FS_PERMS_TYPE_EXACT),"directory type as given"); } }
void h_edit(void){ part p[3], d[3]; memset(p,0,sizeof p); memset(d,0,sizeof d); M_fs_perms_t *x=M_fs_perms_create(); same(x,p,d);
	static const char *on[3]={"op0","op1","op2"}, *wn[3]={"w0","w1","w2"}, *bn[3]={"b0","b1","b2"}, *tn[3]={"t0","t1","t2"};
	for(int s=0;s<3;s++){ int w=vp_pick(wn[s],3), op=vp_pick(on[s],4); if(op<2){ part v; v.set=1; v.type=(M_fs_perms_type_t)vp_pick(tn[s],3); v.mode=bits(bn[s]); if(op==0){ M_fs_perms_set_mode(x,lib(v.mode),who[w],v.type); p[w]=v; } else { M_fs_perms_set_dir_mode(x,lib(v.mode),who[w],v.type); d[w]=v; } }
		else if(op==2){ M_fs_perms_unset_mode(x,who[w]); p[w].set=0; d[w].set=0; } else { M_fs_perms_unset_dir_mode(x,who[w]); d[w].set=0; }
		same(x,p,d); }
	M_fs_perms_t *y=M_fs_perms_dup(x); same(y,p,d); M_fs_perms_destroy(y); M_fs_perms_destroy(x); vp_reach("end"); }
void h_merge(void){ part a[3], b[3], da[3], db_[3]; memset(a,0,sizeof a); memset(b,0,sizeof b); memset(da,0,sizeof da); memset(db_,0,sizeof db_); int w=vp_pick("who",3), dir=vp_pick("dir",2); part *pa=dir?da:a, *pb=dir?db_:b;
	pa[w]=mk("A","Ab"); pb[w]=mk("B","Bb"); int o=(w+1)%3; pa[o]=mk("C","Cb"); long h0=(long)vp_heap_live(); M_fs_perms_t *x=M_fs_perms_create(), *y=M_fs_perms_create(); int nu=vp_pick("owner",4); if(nu&1){ vp_assert(M_fs_perms_set_user(y,"u1")==M_FS_ERROR_SUCCESS); } if(nu&2){ vp_assert(M_fs_perms_set_group(y,"g1")==M_FS_ERROR_SUCCESS); }
	for(int i=0;i<3;i++){ if(a[i].set) M_fs_perms_set_mode(x,lib(a[i].mode),who[i],a[i].type); if(b[i].set) M_fs_perms_set_mode(y,lib(b[i].mode),who[i],b[i].type); if(da[i].set) M_fs_perms_set_dir_mode(x,lib(da[i].mode),who[i],da[i].type); if(db_[i].set) M_fs_perms_set_dir_mode(y,lib(db_[i].mode),who[i],db_[i].type); }
	M_fs_perms_merge(&x,y);
	if(pb[w].set){ if(pa[w].set&&pa[w].type==M_FS_PERMS_TYPE_EXACT&&pb[w].type!=M_FS_PERMS_TYPE_EXACT){ pa[w].mode=apply(pa[w].mode,&pb[w]); } else pa[w]=pb[w]; }
	same(x,a,da);
	vp_assert_msg((nu&1)?(M_fs_perms_get_user(x)&&!strcmp(M_fs_perms_get_user(x),"u1")):M_fs_perms_get_user(x)==NULL,"owner taken over"); vp_assert_msg((nu&2)?(M_fs_perms_get_group(x)&&!strcmp(M_fs_perms_get_group(x),"g1")):M_fs_perms_get_group(x)==NULL,"group taken over");
	M_fs_perms_destroy(x); vp_assert_msg((long)vp_heap_live()==h0,"nothing leaks"); vp_reach("end"); }
void h_owner(void){ M_fs_perms_t *x=M_fs_perms_create(); M_fs_file_t f; memset(&f,0,sizeof f); f.fd=3; st_mode=S_IFREG|0644; int u=vp_pick("u",3), g=vp_pick("g",3); static const char *un[3]={NULL,"u1","zz"}, *gn[3]={NULL,"g1","zz"};
	vp_assert((M_fs_perms_set_user(x,un[u])==M_FS_ERROR_SUCCESS)==(u!=2)); vp_assert((M_fs_perms_set_group(x,gn[g])==M_FS_ERROR_SUCCESS)==(g!=2)); nown=0; nset=0;
	vp_assert(M_fs_perms_set_perms_file(x,&f)==M_FS_ERROR_SUCCESS); vp_assert(nset==1&&got==0644);
	if(u==1||g==1){ vp_assert_msg(nown==1,"owner changed once"); vp_assert_msg(own_u==(u==1?149:-1)&&own_g==(g==1?249:-1),"owner and group as named"); } else vp_assert_msg(nown==0,"owner left alone"); M_fs_perms_destroy(x); vp_reach("end"); }
