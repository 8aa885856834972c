/* the clock: a value the harness sets (vp_clock_sec, vp_clock_usec), constant between its changes */
#include <time.h>
#include <sys/time.h>
#include <stddef.h>
long vp_clock_sec=1700000000, vp_clock_usec=123456;
int vpstub_gettimeofday(struct timeval *tv, void *tz){ (void)tz; tv->tv_sec=vp_clock_sec; tv->tv_usec=vp_clock_usec; return 0; }
int vpstub_clock_gettime(int id, struct timespec *ts){ (void)id; ts->tv_sec=vp_clock_sec; ts->tv_nsec=vp_clock_usec*1000; return 0; }
time_t vpstub_time(time_t *t){ if(t) *t=vp_clock_sec; return vp_clock_sec; }
