#define _GNU_SOURCE
#define VT_NO_WRAP
#include "prelude.h"
#include "alloc.h"
#include <stdarg.h>
#include <errno.h>

long vt_live, vt_calls, vt_failed;
int (*vt_should_fail)(void);

static void **tab; static size_t cap, used, dead;
#define TOMB ((void*)1)
static size_t slot(void *p){ uintptr_t x=(uintptr_t)p; x^=x>>17; x*=0x9E3779B97F4A7C15ull; return x>>20; }
static void put(void **t,size_t c,void *p){ size_t i=slot(p)&(c-1); while(t[i]&&t[i]!=TOMB) i=(i+1)&(c-1); t[i]=p; }
static void add(void *p){
	if((used+dead+1)*2>cap){ size_t nc=cap?cap:1024; if(used*4>cap) nc=cap*2; if(nc<1024)nc=1024;
		void **n=calloc(nc,sizeof(void*)); for(size_t i=0;i<cap;i++) if(tab[i]&&tab[i]!=TOMB) put(n,nc,tab[i]);
		free(tab); tab=n; cap=nc; dead=0; }
	put(tab,cap,p); used++; vt_live++;
}
static int del(void *p){ if(!cap) return 0; size_t i=slot(p)&(cap-1);
	while(tab[i]){ if(tab[i]==p){ tab[i]=TOMB; used--; dead++; vt_live--; return 1; } i=(i+1)&(cap-1);} return 0; }
static int bad(void){ vt_calls++; if(vt_should_fail&&vt_should_fail()){ vt_failed++; errno=ENOMEM; return 1;} return 0; }
void *vt_malloc(size_t n){ if(bad()) return NULL; void*p=malloc(n?n:1); if(p){ memset(p,0xA5,n); add(p);} return p; }
void *vt_calloc(size_t n,size_t s){ if(bad()) return NULL; size_t t; if(__builtin_mul_overflow(n,s,&t)){ errno=ENOMEM; return NULL; } void*p=calloc(1,t?t:1); if(p) add(p); return p; }
void *vt_realloc(void *o,size_t n){ if(bad()) return NULL; 
	/* always move, so stale pointers into the old block are caught */
	int own=o?del(o):0; void *p=realloc(o,n?n:1); if(p) add(p); else if(own) add(o); return p; }
void *vt_reallocarray(void *o,size_t n,size_t s){ size_t t; if(__builtin_mul_overflow(n,s,&t)){errno=ENOMEM;return NULL;} return vt_realloc(o,t); }
void vt_free(void *p){ if(p) del(p); free(p); }
char *vt_strdup(const char*s){ size_t n=strlen(s)+1; char*p=vt_malloc(n); if(p) memcpy(p,s,n); return p; }
char *vt_strndup(const char*s,size_t n){ size_t l=strnlen(s,n); char*p=vt_malloc(l+1); if(p){ memcpy(p,s,l); p[l]=0;} return p; }
int vt_asprintf(char **out,const char*fmt,...){ va_list a; va_start(a,fmt); int n=vsnprintf(NULL,0,fmt,a); va_end(a); if(n<0) return n;
	*out=vt_malloc(n+1); if(!*out) return -1; va_start(a,fmt); vsnprintf(*out,n+1,fmt,a); va_end(a); return n; }
