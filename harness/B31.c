//@mods base
//@bounds every second of every day: each day of years 1974 to 2016 (thorough 1600 to 2400) with every symbolic hour, minute and second field on the way back; every second of 4 (thorough 24) hours of 6 chosen days; out-of-range fields: months -40 to 40, days -1200 to 1200, hours, minutes and seconds -4000 to 4000 in 6 (thorough 10) leap, common and century years; the 24 years around each of 0001, 3000, 9999 for the thorough tier
//@outside instants whose year does not fit the loops (more than some thousand years from 1970); overflow of 64-bit fields
//@H h_day q:Y0=1974,Y1=2016 t:Y0=1600,Y1=2400 jobs=8 reach=end
//@H h_far q:- t:A=1 jobs=8 reach=end
//@H h_sec q:NHS=4 t:NHS=24 jobs=8 reach=end
//@H h_over_day q:R=800,NYS=6 t:R=1200,NYS=10 jobs=8 reach=end
//@H h_over_month q:NYS=6 t:NYS=10 jobs=8 reach=end
//@H h_over_time jobs=8 reach=end
//@H h_month reach=end
#include "vp.h"
#include <mstdlib/mstdlib.h>
#ifndef Y0
#define Y0 1800
#define Y1 2200
#endif
#ifndef R
#define R 800
#endif
#define SR(nm,lo,hi) ((lo)+vp_below(nm,(hi)-(lo)+1))
M_bool M_time_is_valid_day(M_int64 year, M_int64 month, M_int64 day);
int M_time_days_in_month(M_int64 year, M_int64 month);
/* [lo,hi] as a choice of 256-blocks and a symbolic low byte */
static M_int64 blk(M_int64 lo, M_int64 hi){ M_int64 v=lo+256*(M_int64)vp_pick("blk",(M_uint64)(hi-lo)/256+1)+(M_int64)vp_u8("low"); vp_assume(v<=hi); return v; }
static M_int64 fdiv(M_int64 a, M_int64 b){ M_int64 q=a/b; if(a%b<0) q--; return q; }
static int leap(M_int64 y){ return (y%4==0&&y%100!=0)||y%400==0; }
static const int CUM[13]={0,31,59,90,120,151,181,212,243,273,304,334,365};
/* days from 1970-01-01 to the first of the month, from the calendar's definition */
static M_int64 dfirst(M_int64 y, M_int64 m){ M_int64 p=y-1; return 365*(y-1970)+(fdiv(p,4)-fdiv(p,100)+fdiv(p,400))-477+CUM[m-1]+(m>2&&leap(y)?1:0); }
static void verify(const M_time_gmtm_t *g, M_int64 day, M_int64 sod){ M_int64 y, m, wd; y=(M_int64)vp_conc((M_uint64)g->year); m=(M_int64)vp_conc((M_uint64)g->month); vp_assert_msg(m>=1&&m<=12,"month range"); { M_int64 f=dfirst(y,m), l=CUM[m]-CUM[m-1]+(m==2&&leap(y)?1:0); vp_assert_msg(g->day>=1&&g->day<=l,"day range"); vp_assert_msg(f+g->day-1==day,"date"); vp_assert_msg(g->yday==day-dfirst(y,1),"day of year"); wd=((day%7)+11)%7; vp_assert_msg(g->wday==wd,"weekday"); }
	vp_assert_msg(g->hour>=0&&g->hour<24&&g->min>=0&&g->min<60&&g->sec>=0&&g->sec<60,"time range"); vp_assert_msg(g->hour*3600+g->min*60+g->sec==sod,"time of day"); if(y>=0) vp_assert_msg(g->year2==y%100,"two digit year"); vp_assert(g->isdst==0&&g->gmtoff==0); }
static void day_of(M_int64 y){ M_int64 base=dfirst(y,1), d=blk(0,364+leap(y)), sod=vp_pick("last",2)?86399:0; M_time_t t=(base+d)*86400+sod; M_time_gmtm_t g, h; M_time_togm(t,&g); verify(&g,base+d,sod); h=g; vp_assert_msg(M_time_fromgm(&h)==t,"back"); vp_assert_msg(h.year==g.year&&h.month==g.month&&h.day==g.day&&h.hour==g.hour&&h.min==g.min&&h.sec==g.sec&&h.wday==g.wday&&h.yday==g.yday&&h.year2==g.year2,"fields kept"); vp_reach("end"); }
void h_day(void){ day_of(Y0+(M_int64)vp_pick("y",Y1-Y0+1)); }
void h_far(void){ static const int C[]={1,988,2988,9976}; day_of(C[vp_pick("c",4)]+(M_int64)vp_pick("y",24)); }
#ifndef NHS
#define NHS 6
#endif
static const int HS[24]={0,23,1,11,12,22,2,3,4,5,6,7,8,9,10,13,14,15,16,17,18,19,20,21};
void h_sec(void){ static const M_int64 D[]={0,-1,59,-25567,11016,24106,-719000,2932000}; M_int64 d=D[vp_pick("d",6)], h=HS[vp_pick("h",NHS)], m=(M_int64)vp_pick("m",60), s=(M_int64)SR("s",0,59); M_time_gmtm_t g; M_int64 sod=h*3600+m*60+s; M_time_togm(d*86400+sod,&g); verify(&g,d,sod); vp_assert_msg(g.hour==h&&g.min==m&&g.sec==s,"h:m:s"); vp_assert_msg(M_time_fromgm(&g)==d*86400+sod,"back"); vp_reach("end"); }
static M_int64 ref(M_int64 y, M_int64 mo, M_int64 d, M_int64 h, M_int64 mi, M_int64 s){ y+=fdiv(mo-1,12); mo=mo-1-12*fdiv(mo-1,12)+1; return (dfirst(y,mo)+d-1)*86400+h*3600+mi*60+s; }
static void over(M_int64 y, M_int64 mo, M_int64 d, M_int64 h, M_int64 mi, M_int64 s){ M_time_gmtm_t g; M_int64 e=ref(y,mo,d,h,mi,s); M_time_t t; M_mem_set(&g,0,sizeof g); g.year=y; g.month=mo; g.day=d; g.hour=h; g.min=mi; g.sec=s; t=M_time_fromgm(&g); vp_assert_msg(t==e,"same instant"); vp_reach("end"); }
#ifndef NYS
#define NYS 6
#endif
static const int YS[]={1970,1999,2000,2003,2004,1900,2001,2005,2100,1896};
void h_over_day(void){ M_int64 y=YS[vp_pick("y",NYS)], mo=1+(M_int64)vp_pick("m",12), d=blk(-R,R); over(y,mo,d,0,0,0); }
void h_over_month(void){ M_int64 y=YS[vp_pick("y",NYS)], mo=(M_int64)vp_pick("m",81)-40, d=vp_pick("dd",2)?(M_int64)SR("d",1,31):(M_int64)SR("d",0,60)+360; over(y,mo,d,0,0,0); }
void h_over_time(void){ M_int64 y=YS[vp_pick("y",4)], v=blk(-4000,4000); unsigned k=(unsigned)vp_pick("k",3); over(y,vp_pick("m",2)?1:3,1,k==0?v/16:5,k==1?v:7,k==2?v:9); }
void h_month(void){ M_int64 y=(M_int64)SR("y",0,4000)-800, m=(M_int64)vp_pick("m",14), d=(M_int64)SR("d",0,40)-4; int n=m>=1&&m<=12?CUM[m]-CUM[m-1]+(m==2&&leap(y)?1:0):0; vp_assert_msg(M_time_days_in_month(y,m)==n,"days in month"); vp_assert_msg((M_time_is_valid_day(y,m,d)==M_TRUE)==(d>=1&&d<=n),"valid day"); vp_reach("end"); }
