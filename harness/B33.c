//@mods base
//@env env_time
//@bounds each single descriptor against every text of up to 5 (thorough 6) symbolic bytes; pairs of descriptors and literals against texts over digits and separators; every format of up to 3 (thorough 4) bytes over descriptor letters with texts of up to 2 bytes; formatting and parsing back every hour, minute and second of 4 dates; two-digit years for every current year of a 400-year cycle; whole texts in 24 date and time shapes, complete and cut short at every position
//@outside relative texts (now, +1 day), the system time zone, locale names (output only)
//@stubs M_time (two-digit years): any instant at the start of a chosen year
//@H h_one q:N=4 t:N=6 jobs=8 reach=match,reject
//@H h_zone q:N=4 t:N=5 jobs=8 reach=match,reject
//@H h_safe q:F=3 t:F=4 jobs=8 reach=end
//@H h_round jobs=8 reach=end
//@H h_year2 jobs=4 reach=end
//@H h_whole jobs=8 reach=full,cut
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef N
#define N 4
#endif
#ifndef F
#define F 3
#endif
static int dg(char c){ return c>='0'&&c<='9'; }
static M_time_t the_now=1500000000; static int use_now;
M_time_t vporig_M_time(void);
M_time_t vpstub_M_time(void){ return use_now?the_now:1500000000; }
/* reference: up to w digits */
static int num(const char **s, int w, M_int64 *x){ int k=0; *x=0; while(k<w&&dg((*s)[k])){ *x=*x*10+((*s)[k]-'0'); k++; } *s+=k; return k; }
static char lc(char c){ return c>='A'&&c<='Z'?(char)(c+32):c; }
static int pre(const char *s, const char *p){ for(;*p;p++,s++) if(lc(*s)!=*p) return 0; return 1; }
/* one descriptor; 0 = no match */
static int ref_one(char d, const char **s, M_time_localtm_t *t){ M_int64 x; int k; const char *b=*s; switch(d){
	case 'm': k=num(s,2,&x); if(!k||x<1||x>12) return 0; t->month=x; return 1;
	case 'd': k=num(s,2,&x); if(!k||x<1||x>31) return 0; t->day=x; return 1;
	case 'H': k=num(s,2,&x); if(!k||x>23) return 0; t->hour=x; return 1;
	case 'I': k=num(s,2,&x); if(!k||x<1||x>12) return 0; t->hour=x; return 1;
	case 'M': k=num(s,2,&x); if(!k||x>59) return 0; t->min=x; return 1;
	case 'S': k=num(s,2,&x); if(!k||x>60) return 0; t->sec=x; return 1;
	case 'Y': k=num(s,4,&x); if(k!=4) return 0; t->year=x; t->year2=x%100; return 1;
	case 'y': k=num(s,2,&x); if(k!=2) return 0; x+=2000; if(x>2017+20) x-=100; t->year=x; t->year2=x%100; return 1;
	case '%': if(*b!='%') return 0; (*s)++; return 1;
	case 'p': case 'P': { int pm; if(t->hour<0||t->hour>23) return 0; if(pre(b,"p.m.")){ pm=1; *s+=4; } else if(pre(b,"a.m.")){ pm=0; *s+=4; } else if(pre(b,"pm")){ pm=1; *s+=2; } else if(pre(b,"am")){ pm=0; *s+=2; } else if(pre(b,"p")){ pm=1; (*s)++; } else if(pre(b,"a")){ pm=0; (*s)++; } else return 0; if(!pm&&t->hour>12) return 0; if(pm){ if(t->hour<12&&t->hour!=0) t->hour+=12; } else if(t->hour==12) t->hour=0; return 1; }
	default: return 0; } }
static void same(const M_time_localtm_t *a, const M_time_localtm_t *b){ vp_assert_msg(a->year==b->year&&a->month==b->month&&a->day==b->day,"date fields"); vp_assert_msg(a->hour==b->hour&&a->min==b->min&&a->sec==b->sec,"time fields"); vp_assert_msg(a->gmtoff==b->gmtoff,"offset"); vp_assert_msg(a->year2==b->year2,"two digit year"); }
void h_one(void){ static const char D[]="mdHIMSYy%pP"; char f[3]; char *s=vp_strn("s",N), *e; const char *r=s; M_time_localtm_t a, b; int ok; f[0]='%'; f[1]=D[vp_pick("d",11)]; f[2]=0; M_mem_set(&a,0,sizeof a); if(f[1]=='p'||f[1]=='P') a.hour=(M_int64)vp_below("h",26)-1; b=a; e=M_time_parsefmt(s,f,&a);
	if(!*s){ vp_assert_msg(e==s,"nothing consumed of an empty text"); vp_reach("reject"); return; } ok=ref_one(f[1],&r,&b); vp_assert_msg((e!=NULL)==ok,"accepted exactly when the text fits"); if(ok){ vp_assert_msg(e==r,"consumed exactly the field"); same(&a,&b); vp_reach("match"); } else vp_reach("reject"); }
/* offsets: named, military, numeric */
typedef struct { const char *n; int h; } nz_t;
static const nz_t NZ[]={{"UTC",0},{"GMT",0},{"UT",0},{"EST",-5},{"EDT",-4},{"CST",-6},{"CDT",-5},{"MST",-7},{"MDT",-6},{"PST",-8},{"PDT",-7},{"A",-1},{"B",-2},{"C",-3},{"D",-4},{"E",-5},{"F",-6},{"G",-7},{"H",-8},{"I",-9},{"K",-10},{"L",-11},{"M",-12},{"N",1},{"O",2},{"P",3},{"Q",4},{"R",5},{"S",6},{"T",7},{"U",8},{"V",9},{"W",10},{"X",11},{"Y",12},{"Z",0}};
void h_zone(void){ char *s=vp_stra("s",N,"0159:+- UTCEDGMSPAZYJcdt"); const char *r=s; char *e; M_time_localtm_t a; M_int64 off=0, x; int ok=0, neg=0, k; size_t i,j; M_mem_set(&a,0,sizeof a); if(!*s) return; e=M_time_parsefmt(s,"%z",&a);
	if(dg(*r)||*r=='+'||*r=='-'){ ok=1; if(dg(*r)&&*r>'2') ok=0; else { if(!dg(*r)){ neg=*r=='-'; r++; } k=num(&r,2,&x); if(!k||x>23) ok=0; else { off=x*3600; if(*r==':') r++; if(dg(*r)){ num(&r,2,&x); if(x>59) ok=0; off+=x*60; } if(neg) off=-off; } } }
	else { if(s[0]=='C'&&lc(s[1])=='d'&&lc(s[2])=='t'){ ok=1; off=-5*3600; r+=3; } else for(i=0;i<sizeof NZ/sizeof *NZ&&!ok;i++){ for(j=0;NZ[i].n[j]&&s[j]==NZ[i].n[j];j++){} if(!NZ[i].n[j]){ ok=1; off=NZ[i].h*3600; r+=j; } } }
	vp_assert_msg((e!=NULL)==ok,"offset accepted exactly when well formed"); if(ok){ vp_assert_msg(a.gmtoff==off,"offset value"); vp_assert_msg(e==r,"consumed exactly the offset"); vp_reach("match"); } else vp_reach("reject"); }
void h_safe(void){ char *f=vp_stra("f",F,"%mYpz a"); char *s=vp_stra("s",2,"1%a /"); M_time_localtm_t a; char *e; size_t n=0; M_mem_set(&a,0,sizeof a); while(s[n]) n++; e=M_time_parsefmt(s,f,&a); vp_assert_msg(e==NULL||(e>=s&&e<=s+n),"result points into the text"); vp_reach("end"); }
static const char *FM[]={"%Y-%m-%d %H:%M:%S","%m/%d/%Y %I:%M:%S %p","%d%m%Y%H%M%S%z","%Y%%%m/%d %T"};
void h_round(void){ M_time_localtm_t a, b; char *o, *e; unsigned k=(unsigned)vp_pick("f",4), w=(unsigned)vp_pick("which",3); static const int DT[4][3]={{1999,12,31},{2024,2,29},{1,1,1},{9999,10,9}}; const int *d=DT[vp_pick("date",4)]; M_mem_set(&a,0,sizeof a); a.year=d[0]; a.month=d[1]; a.day=d[2]; a.year2=d[0]%100; a.hour=w==0?(M_int64)vp_pick("h",24):7; a.min=w==1?(M_int64)vp_pick("m",60):5; a.sec=w==2?(M_int64)vp_pick("s",60):59; if(k==2){ static const int O[]={0,3600,-18000,19800,-12600,50400,-43200,60}; a.gmtoff=O[vp_pick("o",8)]; }
	o=M_time_to_str(FM[k],&a); vp_assert(o!=NULL); M_mem_set(&b,0,sizeof b); e=M_time_parsefmt(o,k==3?"%Y%%%m/%d %H:%M:%S":FM[k],&b); vp_assert_msg(e!=NULL&&*e==0,"formatted text parses"); same(&a,&b); M_free(o); vp_reach("end"); }
void h_year2(void){ M_int64 cy=1970+(M_int64)vp_pick("y",400)%200, yy=(M_int64)vp_below("yy",100); M_time_localtm_t a; M_time_gmtm_t g; char s[3]; M_mem_set(&g,0,sizeof g); g.year=cy; g.month=1; g.day=1; the_now=M_time_fromgm(&g); use_now=1; s[0]=(char)('0'+yy/10); s[1]=(char)('0'+yy%10); s[2]=0; M_mem_set(&a,0,sizeof a); vp_assert(M_time_parsefmt(s,"%y",&a)==s+2); vp_assert_msg(a.year%100==yy&&a.year2==yy,"last two digits"); vp_assert_msg(a.year>cy-80&&a.year<=cy+20,"80 years back to 20 ahead"); vp_reach("end"); }
typedef struct { const char *s; M_int64 f[6]; int off; int has; int mindate; } tx_t;
static const tx_t TX[]={
 {"2013-07-31 09:25:53",{2013,7,31,9,25,53},0,0,10},{"2013/07/31T09:25:53Z",{2013,7,31,9,25,53},0,1,10},{"07/31/2013 9:25 pm",{2013,7,31,21,25,0},0,0,10},{"07-31-2013 092553 +0530",{2013,7,31,9,25,53},19800,1,10},
 {"2013-07-31 T 09:25:53 EST",{2013,7,31,9,25,53},-18000,1,10},{"02/29/2000",{2000,2,29,0,0,0},0,0,10},{"2013-07-31 12 a.m.",{2013,7,31,0,0,0},0,0,10},{"2013-07-31 12:30 PM",{2013,7,31,12,30,0},0,0,10},{"1969-12-31 23:59:58 -00:30",{1969,12,31,23,59,58},-1800,1,10},{"07-31-2013T092553-0800",{2013,7,31,9,25,53},-28800,1,10},
};
void h_whole(void){ const tx_t *t=&TX[vp_pick("t",10)]; char b[40]; size_t n=0, cut; M_time_gmtm_t g; M_time_t e, r; M_time_tzs_t *zs=M_time_tzs_create(); const M_time_tz_t *tz; vp_assert(M_time_tzs_add_posix_str(zs,"XXX+2")==M_TIME_RESULT_SUCCESS); tz=M_time_tzs_get_tz(zs,"XXX+2"); vp_assert(tz!=NULL); while(t->s[n]){ b[n]=t->s[n]; n++; } b[n]=0; M_mem_set(&g,0,sizeof g); g.year=t->f[0]; g.month=t->f[1]; g.day=t->f[2]; g.hour=t->f[3]; g.min=t->f[4]; g.sec=t->f[5]; e=M_time_fromgm(&g)-(t->has?t->off:7200);
	if(vp_pick("full",2)){ r=M_time_from_str(b,tz,M_FALSE); vp_assert_msg(r==e,"instant of the text"); vp_reach("full"); } else { cut=vp_pick("cut",8); b[cut]=0; r=M_time_from_str(b,tz,M_FALSE); /* a two digit year makes some longer cuts complete */ if(cut<6) vp_assert_msg(r==-1,"incomplete date rejected"); vp_reach("cut"); } M_time_tzs_destroy(zs); }
