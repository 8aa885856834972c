/* Preemption points: files listed under //@tsan are compiled with -fsanitize=thread, which turns every access to
   memory that may be shared into a call. The calls here let the scheduler switch threads first, then do the access. */
#include <stdint.h>
#include <string.h>
#include "vp.h"
int vp_tsan_on;
static void pt(void){ if(vp_tsan_on) vp_yield(); }
void __tsan_init(void){}
void __tsan_func_entry(void*p){ (void)p; }
void __tsan_func_exit(void){}
#define RW(n) void __tsan_read##n(void*p){ (void)p; pt(); } void __tsan_write##n(void*p){ (void)p; pt(); } void __tsan_read_write##n(void*p){ (void)p; pt(); } \
 void __tsan_unaligned_read##n(void*p){ (void)p; pt(); } void __tsan_unaligned_write##n(void*p){ (void)p; pt(); } void __tsan_unaligned_read_write##n(void*p){ (void)p; pt(); } \
 void __tsan_volatile_read##n(void*p){ (void)p; pt(); } void __tsan_volatile_write##n(void*p){ (void)p; pt(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,unsigned long n){ (void)p;(void)n; pt(); }
void __tsan_write_range(void*p,unsigned long n){ (void)p;(void)n; pt(); }
void __tsan_vptr_update(void*p,void*v){ (void)p;(void)v; }
void __tsan_vptr_read(void*p){ (void)p; }
void*__tsan_memcpy(void*d,const void*s,unsigned long n){ pt(); return memcpy(d,s,n); }
void*__tsan_memmove(void*d,const void*s,unsigned long n){ pt(); return memmove(d,s,n); }
void*__tsan_memset(void*d,int c,unsigned long n){ pt(); return memset(d,c,n); }
#define AT(w) typedef uint##w##_t a##w; \
 a##w __tsan_atomic##w##_load(const volatile a##w*p,int m){ (void)m; pt(); return *p; } void __tsan_atomic##w##_store(volatile a##w*p,a##w v,int m){ (void)m; pt(); *p=v; } \
 a##w __tsan_atomic##w##_exchange(volatile a##w*p,a##w v,int m){ a##w o; (void)m; pt(); o=*p; *p=v; return o; } a##w __tsan_atomic##w##_fetch_add(volatile a##w*p,a##w v,int m){ a##w o; (void)m; pt(); o=*p; *p=(a##w)(o+v); return o; } \
 a##w __tsan_atomic##w##_fetch_sub(volatile a##w*p,a##w v,int m){ a##w o; (void)m; pt(); o=*p; *p=(a##w)(o-v); return o; } a##w __tsan_atomic##w##_fetch_and(volatile a##w*p,a##w v,int m){ a##w o; (void)m; pt(); o=*p; *p=o&v; return o; } \
 a##w __tsan_atomic##w##_fetch_or(volatile a##w*p,a##w v,int m){ a##w o; (void)m; pt(); o=*p; *p=o|v; return o; } a##w __tsan_atomic##w##_fetch_xor(volatile a##w*p,a##w v,int m){ a##w o; (void)m; pt(); o=*p; *p=o^v; return o; } \
 int __tsan_atomic##w##_compare_exchange_strong(volatile a##w*p,a##w*c,a##w v,int m,int f){ a##w o; (void)m;(void)f; pt(); o=*p; if(o==*c){ *p=v; return 1; } *c=o; return 0; } \
 int __tsan_atomic##w##_compare_exchange_weak(volatile a##w*p,a##w*c,a##w v,int m,int f){ return __tsan_atomic##w##_compare_exchange_strong(p,c,v,m,f); } \
 a##w __tsan_atomic##w##_compare_exchange_val(volatile a##w*p,a##w c,a##w v,int m,int f){ __tsan_atomic##w##_compare_exchange_strong(p,&c,v,m,f); return c; }
AT(8) AT(16) AT(32) AT(64)
void __tsan_atomic_thread_fence(int m){ (void)m; pt(); }
void __tsan_atomic_signal_fence(int m){ (void)m; }
