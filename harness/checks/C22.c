#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include "shl-htable.h"
#include "../alloc.h"
size_t g_size(void){ return sizeof(struct shl_htable); }
void g_init_ulong(struct shl_htable*h){ shl_htable_init_ulong(h); }
void g_clear_ulong(struct shl_htable*h,void(*cb)(unsigned long*,void*),void*c){ shl_htable_clear_ulong(h,cb,c); }
void g_visit_ulong(struct shl_htable*h,void(*cb)(unsigned long*,void*),void*c){ shl_htable_visit_ulong(h,cb,c); }
bool g_lookup_ulong(struct shl_htable*h,unsigned long k,unsigned long**o){ return shl_htable_lookup_ulong(h,k,o); }
int g_insert_ulong(struct shl_htable*h,const unsigned long*k){ return shl_htable_insert_ulong(h,k); }
bool g_remove_ulong(struct shl_htable*h,unsigned long k,unsigned long**o){ return shl_htable_remove_ulong(h,k,o); }
void g_init_str(struct shl_htable*h){ shl_htable_init_str(h); }
bool g_lookup_str(struct shl_htable*h,const char*k,size_t*hash,char***o){ return shl_htable_lookup_str(h,k,hash,o); }
int g_insert_str(struct shl_htable*h,char**k,size_t*hash){ return shl_htable_insert_str(h,k,hash); }
bool g_remove_str(struct shl_htable*h,const char*k,size_t*hash,char***o){ return shl_htable_remove_str(h,k,hash,o); }
void g_clear_str(struct shl_htable*h,void(*cb)(char**,void*),void*c){ shl_htable_clear_str(h,cb,c); }
void g_visit_str(struct shl_htable*h,void(*cb)(char**,void*),void*c){ shl_htable_visit_str(h,cb,c); }
void g_static_ulong(struct shl_htable*h){ memset(h,0xa5,sizeof *h); *h=(struct shl_htable)SHL_HTABLE_INIT_ULONG(*h); }
void g_static_str(struct shl_htable*h){ memset(h,0xa5,sizeof *h); *h=(struct shl_htable)SHL_HTABLE_INIT_STR(*h); }
