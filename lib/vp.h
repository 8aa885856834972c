/* Harness interface. The same harness runs symbolically (symx) and natively (replay). */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t vp_sym(const char *name, uint64_t bits);             /* arbitrary value of that width */
void     vp_sym_bytes(void *p, uint64_t n, const char *name); /* n arbitrary bytes */
void     vp_assume(int c);
void     vp_assert_(int c, const char *msg);
void     vp_fail_(const char *msg);
void     vp_reach(const char *tag);                           /* vacuity witness */
void     vp_known_(const char *id);                           /* listed finding: ends the path */
uint64_t vp_conc(uint64_t v);                                 /* split into one path per value */
uint64_t vp_heap_live(void);
void     vp_end(void);
void     vp_readable(const void *p, uint64_t n);
uint64_t vp_obj_size(const void *p);
void    *vp_malloc(uint64_t n);
void     vp_free(void *p);
uint64_t vp_thread_spawn(void *(*fn)(void *), void *arg);
void     vp_yield(void);
void     vp_block(uint64_t key);
void     vp_wake(uint64_t key, uint64_t n);
uint64_t vp_self(void);
void     vp_sched_bound(uint64_t k);
#define VP_S2(x) #x
#define VP_S(x) VP_S2(x)
#define vp_assert(c) vp_assert_(!!(c), #c " at line " VP_S(__LINE__))
#define vp_assert_msg(c,m) vp_assert_(!!(c), m " at line " VP_S(__LINE__))
#define vp_fail(m) vp_fail_(m " at line " VP_S(__LINE__))
static inline uint8_t  vp_u8(const char *n){ return (uint8_t)vp_sym(n,8); }
static inline uint16_t vp_u16(const char *n){ return (uint16_t)vp_sym(n,16); }
static inline uint32_t vp_u32(const char *n){ return (uint32_t)vp_sym(n,32); }
static inline uint64_t vp_u64(const char *n){ return vp_sym(n,64); }
/* symbolic value in [0,n), not split */
static inline uint64_t vp_below(const char *nm, uint64_t n){ uint64_t v = n<=256 ? vp_sym(nm,8) : n<=65536 ? vp_sym(nm,16) : vp_sym(nm,64); vp_assume(v < n); return v; }
/* one path per value in [0,n) */
static inline uint64_t vp_pick(const char *nm, uint64_t n){ return vp_conc(vp_below(nm,n)); }
static inline uint64_t vp_range(const char *nm, uint64_t lo, uint64_t hi){ return lo + vp_pick(nm, hi-lo+1); }
/* exact-size heap buffer of n arbitrary bytes (n==0 allowed) */
static inline unsigned char *vp_buf(const char *nm, uint64_t n){ unsigned char *p=(unsigned char*)vp_malloc(n); if(n) vp_sym_bytes(p,n,nm); return p; }
/* string of at most n arbitrary bytes (may contain an earlier NUL), exactly n+1 bytes long */
static inline char *vp_str(const char *nm, uint64_t n){ char *p=(char*)vp_malloc(n+1); if(n) vp_sym_bytes(p,n,nm); p[n]=0; return p; }
/* string of exactly n arbitrary non-NUL bytes */
static inline char *vp_strn(const char *nm, uint64_t n){ char *p=vp_str(nm,n); uint64_t i; for(i=0;i<n;i++) vp_assume(p[i]!=0); return p; }
/* string over an alphabet, exactly n characters; each character is one symbolic choice */
static inline int vp_in(char c, const char *alpha){ int r=0; for(;*alpha;alpha++) r|=(c==*alpha); return r; }
static inline char *vp_stra(const char *nm, uint64_t n, const char *alpha){ char *p=vp_str(nm,n); uint64_t i; for(i=0;i<n;i++) vp_assume(vp_in(p[i],alpha)); return p; }
/* string over an alphabet, at most n characters */
static inline char *vp_strm(const char *nm, uint64_t n, const char *alpha){ char *p=vp_str(nm,n); uint64_t i, l=vp_pick("length",n+1); for(i=0;i<l;i++) vp_assume(vp_in(p[i],alpha)); for(;i<=n;i++) p[i]=0; return p; }
#ifdef __cplusplus
}
#endif
#endif
