/* Model of the few C library functions the code calls (symbolic side only; the native replay uses the real ones). */
#include <stddef.h>
#include <stdint.h>
static int vp_errno; int *__errno_location(void){ return &vp_errno; }
size_t strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
size_t strnlen(const char*s,size_t m){ size_t n=0; while(n<m&&s[n]) n++; return n; }
int memcmp(const void*a,const void*b,size_t n){ const unsigned char*x=a,*y=b; int r=0; while(n--){ int d=(int)x[n]-(int)y[n]; r=(r&-(int)(d==0))|d; } return r; }
int bcmp(const void*a,const void*b,size_t n){ return memcmp(a,b,n); }
void*memchr(const void*a,int c,size_t n){ const unsigned char*x=a; size_t i; for(i=0;i<n;i++) if(x[i]==(unsigned char)c) return (void*)(x+i); return NULL; }
char*strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return NULL; } }
char*strrchr(const char*s,int c){ const char*r=NULL; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
int strcmp(const char*a,const char*b){ while(*a&&*a==*b){a++;b++;} return (int)(unsigned char)*a-(int)(unsigned char)*b; }
int strncmp(const char*a,const char*b,size_t n){ while(n&&*a&&*a==*b){a++;b++;n--;} if(!n) return 0; return (int)(unsigned char)*a-(int)(unsigned char)*b; }
static int lc(unsigned char c){ return c+((c>='A')&(c<='Z'))*32; }
int strcasecmp(const char*a,const char*b){ while(*a&&lc((unsigned char)*a)==lc((unsigned char)*b)){a++;b++;} return lc((unsigned char)*a)-lc((unsigned char)*b); }
int strncasecmp(const char*a,const char*b,size_t n){ while(n&&*a&&lc((unsigned char)*a)==lc((unsigned char)*b)){a++;b++;n--;} if(!n) return 0; return lc((unsigned char)*a)-lc((unsigned char)*b); }
size_t strspn(const char*s,const char*k){ size_t n=0; for(;s[n];n++){ const char*p=k; while(*p&&*p!=s[n])p++; if(!*p)break; } return n; }
size_t strcspn(const char*s,const char*k){ size_t n=0; for(;s[n];n++){ const char*p=k; while(*p&&*p!=s[n])p++; if(*p)break; } return n; }
char*strpbrk(const char*s,const char*k){ s+=strcspn(s,k); return *s?(char*)s:NULL; }
char*strstr(const char*h,const char*n){ size_t i; if(!*n) return (char*)h; for(;*h;h++){ for(i=0;n[i]&&h[i]==n[i];i++); if(!n[i]) return (char*)h; } return NULL; }
char*strcpy(char*d,const char*s){ size_t i=0; do d[i]=s[i]; while(s[i++]); return d; }
char*strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char*strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; }
int fputs(const char*s,void*f){ (void)s;(void)f; return 0; }
int puts(const char*s){ (void)s; return 0; }
int fflush(void*f){ (void)f; return 0; }
size_t fwrite(const void*p,size_t a,size_t n,void*f){ (void)p;(void)a;(void)f; return n; }
long sysconf(int n){ (void)n; return 4096; }
int getpid(void){ return 4242; }
static char vp_f1,vp_f2; void*stderr=&vp_f1,*stdout=&vp_f2;
