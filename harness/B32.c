//@mods base
//@env env_time
//@bounds 13 zones given as POSIX rule strings (west, east, half hour, southern, week 5, counted backwards, transition times beyond a day and before midnight, explicit DST offset, default transition time, no DST); every second within 65 minutes (thorough 5 hours) of each transition and of midnight, new year and mid-season instants, in 2 (thorough 8) years; every week, weekday and month of a rule in those years; every malformed string made of a valid one by replacing one byte
//@outside zoneinfo and Windows zone databases and the system's own zone (localtime_r, mktime); the Julian forms of POSIX rules; the library's sign convention for offsets (only '+' is east) is taken as given; local times inside the repeated or skipped hour
//@H h_zone q:W=3900,NY=2 t:W=18000,NY=8 jobs=8 reach=dst,std,near,far
//@H h_rule q:NY=2 t:NY=8 jobs=8 reach=end
//@H h_bad jobs=8 reach=end
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef W
#define W 7200
#endif
#ifndef NY
#define NY 3
#endif
static M_int64 fdiv(M_int64 a, M_int64 b){ M_int64 q=a/b; if(a%b<0) q--; return q; }
static int leap(M_int64 y){ return (y%4==0&&y%100!=0)||y%400==0; }
static const int CUM[13]={0,31,59,90,120,151,181,212,243,273,304,334,365};
static M_int64 dfirst(M_int64 y, M_int64 m){ M_int64 p=y-1; return 365*(y-1970)+(fdiv(p,4)-fdiv(p,100)+fdiv(p,400))-477+CUM[m-1]+(m>2&&leap(y)?1:0); }
static M_int64 dim(M_int64 y, M_int64 m){ return CUM[m]-CUM[m-1]+(m==2&&leap(y)?1:0); }
/* day number of the w-th (5 or -1: last, -2: last but one) weekday d of a month, from the definition: walk the month */
static M_int64 nth(M_int64 y, M_int64 m, int w, int d){ M_int64 f=dfirst(y,m), n=dim(y,m), i, l[6]; int c=0; for(i=0;i<n;i++) if((f+i+4+7*100000)%7==d) l[c++]=f+i; if(w==5) return l[c-1]; if(w>0) return l[w-1]; return l[c+w]; }
typedef struct { const char *s; const char *n; M_int64 std, dst; int m1,w1,d1; M_int64 t1; int m2,w2,d2; M_int64 t2; const char *a, *b; } zone_t;
static const zone_t Z[]={
 {"EST5EDT,M3.2.0/02:00:00,M11.1.0/02:00:00","EST5EDT",-18000,-14400,3,2,0,7200,11,1,0,7200,"EST","EDT"},
 {"CET+1CEST,M3.5.0,M10.5.0/3","CET+1CEST",3600,7200,3,5,0,7200,10,5,0,10800,"CET","CEST"},
 {"AEST+10AEDT,M10.1.0,M4.1.0/3","AEST+10AEDT",36000,39600,10,1,0,7200,4,1,0,10800,"AEST","AEDT"},
 {"GMT0BST+1,M3.5.0/1,M10.5.0","GMT0BST+1",0,3600,3,5,0,3600,10,5,0,7200,"GMT","BST"},
 {"LHST+10:30LHDT+11,M10.1.0,M4.1.0","LHST+10:30LHDT+11",37800,39600,10,1,0,7200,4,1,0,7200,"LHST","LHDT"},
 {"IST+2IDT,M3.4.4/26,M10.5.0","IST+2IDT",7200,10800,3,4,4,93600,10,5,0,7200,"IST","IDT"},
 {"NST3:30NDT,M3.2.0,M11.1.0","NST3:30NDT",-12600,-9000,3,2,0,7200,11,1,0,7200,"NST","NDT"},
 {"XST4XDT,M3.-1.0,M10.-2.6/0","XST4XDT",-14400,-10800,3,-1,0,7200,10,-2,6,0,"XST","XDT"},
 {"CLT4CLST,M9.1.6/24,M4.1.6/24","CLT4CLST",-14400,-10800,9,1,6,86400,4,1,6,86400,"CLT","CLST"},
 {"JST+9","JST+9",32400,32400,0,0,0,0,0,0,0,0,"JST",""},
 {"CVT1","CVT1",-3600,-3600,0,0,0,0,0,0,0,0,"CVT",""},
 {"NZST+12NZDT,M9.5.0,M4.1.0/3","NZST+12NZDT",43200,46800,9,5,0,7200,4,1,0,10800,"NZST","NZDT"},
 {"AST1:00:30ADT,M3.1.3/1:02:03,M11.3.5/4:05:06","AST1:00:30ADT",-3630,-30,3,1,3,3723,11,3,5,14706,"AST","ADT"},
};
#define NZ (sizeof(Z)/sizeof(*Z))
static const int YS[]={1971,1972,1976,1977,1969,1980,2000,2023};
static int is(const char *a, const char *b){ size_t i; for(i=0;a[i]&&a[i]==b[i];i++){} return a[i]==b[i]; }
static M_int64 on(const zone_t *z, M_int64 y){ return nth(y,z->m1,z->w1,z->d1)*86400+z->t1-z->std; }
static M_int64 off(const zone_t *z, M_int64 y){ return nth(y,z->m2,z->w2,z->d2)*86400+z->t2-z->dst; }
static M_int64 blk(M_int64 lo, M_int64 hi){ M_int64 v=lo+256*(M_int64)vp_pick("blk",(M_uint64)(hi-lo)/256+1)+(M_int64)vp_u8("low"); vp_assume(v<=hi); return v; }
static void check(const zone_t *z, M_time_tzs_t *zs, M_int64 t, M_int64 y){ const M_time_tz_t *tz=M_time_tzs_get_tz(zs,z->n); M_time_localtm_t l; M_time_gmtm_t g; M_int64 k, o; int d=0, amb=0; vp_assert_msg(tz!=NULL,"zone found");
	if(z->m1){ for(k=y-1;k<=y+1;k++){ M_int64 a=on(z,k), b=off(z,k); if(b<a) b=off(z,k+1); if(t>=a&&t<b) d=1; if(t>=off(z,k)-(z->dst-z->std)&&t<off(z,k)+(z->dst-z->std)) amb=1; } }
	o=d?z->dst:z->std; M_time_tolocal(t,&l,tz); vp_assert_msg(l.gmtoff==o,"offset"); vp_assert_msg(l.isdst==d,"DST flag"); vp_assert_msg(is(l.abbr,d?z->b:z->a),"abbreviation"); M_time_togm(t+o,&g); vp_assert_msg(g.year==l.year&&g.month==l.month&&g.day==l.day&&g.hour==l.hour&&g.min==l.min&&g.sec==l.sec&&g.wday==l.wday&&g.yday==l.yday,"fields of the local time");
	vp_assert_msg(M_time_fromlocal(&l,tz)==t,"local time back"); vp_assert_msg(l.gmtoff==o&&l.isdst==d&&l.hour==g.hour,"normalised local time"); if(!amb){ l.isdst=!d; vp_assert_msg(M_time_fromlocal(&l,tz)==t,"unambiguous whatever the flag"); } if(d) vp_reach("dst"); else vp_reach("std"); }
void h_zone(void){ const zone_t *z=&Z[vp_pick("z",NZ)]; M_int64 y=YS[vp_pick("y",NY)], c; M_time_tzs_t *zs=M_time_tzs_create(); unsigned k=(unsigned)vp_pick("at",z->m1?5:3); vp_assert_msg(M_time_tzs_add_posix_str(zs,z->s)==M_TIME_RESULT_SUCCESS,"zone accepted");
	switch(k){ case 0: c=dfirst(y,1)*86400-z->std; break; case 1: c=dfirst(y,7)*86400; break; case 2: c=dfirst(y,1)*86400; break; case 3: c=on(z,y); break; default: c=off(z,y); }
	{ M_int64 dl=k>=3?blk(-W,W):blk(-255,255); if(k>=3) vp_reach("near"); else vp_reach("far"); check(z,zs,c+dl,y); } M_time_tzs_destroy(zs); }
/* every month, week and weekday of the start rule */
static char *num(char *p, int v){ if(v<0){ *p++='-'; v=-v; } if(v>9) *p++=(char)('0'+v/10); *p++=(char)('0'+v%10); return p; }
static const int WK[]={1,2,3,4,5,-1,-2,-3,-4};
void h_rule(void){ char b[64], *p=b; const char *q; zone_t z=Z[0]; M_int64 y=YS[vp_pick("y",NY)]; M_time_tzs_t *zs=M_time_tzs_create(); z.m1=1+(int)vp_pick("m",10); z.w1=WK[vp_pick("w",9)]; z.d1=(int)vp_pick("d",7); z.m2=12; z.w2=2; z.d2=3; z.t1=7200; z.t2=3600; for(q="EST5EDT,M";*q;q++) *p++=*q; p=num(p,z.m1); *p++='.'; p=num(p,z.w1); *p++='.'; p=num(p,z.d1); for(q=",M12.2.3/1";*q;q++) *p++=*q; *p=0;
	vp_assert_msg(M_time_tzs_add_posix_str(zs,b)==M_TIME_RESULT_SUCCESS,"rule accepted"); check(&z,zs,on(&z,y)+(M_int64)vp_u8("t")-128,y); M_time_tzs_destroy(zs); vp_reach("end"); }
void h_bad(void){ char b[64]; size_t i, n=0, at; const zone_t *z=&Z[vp_pick("z",2)*7]; M_time_tzs_t *zs=M_time_tzs_create(); M_time_result_t r; M_time_localtm_t l; const M_time_tz_t *tz; for(i=0;z->s[i];i++) b[n++]=z->s[i]; b[n]=0; at=vp_pick("at",n); { static const char A[]="0159.,/:+-MxA"; b[at]=A[vp_pick("c",13)]; }
	r=M_time_tzs_add_posix_str(zs,b); for(i=0;b[i]&&b[i]!=',';i++){} b[i]=0; tz=M_time_tzs_get_tz(zs,b); vp_assert_msg((r==M_TIME_RESULT_SUCCESS)==(tz!=NULL),"a zone is added exactly on success"); if(tz) M_time_tolocal((M_int64)vp_u8("t")*100000,&l,tz); M_time_tzs_destroy(zs); vp_reach("end"); }
