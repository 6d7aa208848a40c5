#include "prelude.h"
#include <errno.h>
#include <string.h>
#include "shl-array.h"
#include "../alloc.h"
int g_new(struct shl_array**o,size_t e,size_t n){ return shl_array_new(o,e,n); }
void g_free(struct shl_array*a){ shl_array_free(a); }
int g_zresize(struct shl_array*a,size_t n){ return shl_array_zresize(a,n); }
int g_push(struct shl_array*a,const void*d){ return shl_array_push(a,d); }
void g_pop(struct shl_array*a){ shl_array_pop(a); }
void*g_data(struct shl_array*a){ return shl_array_get_array(a); }
size_t g_len(struct shl_array*a){ return shl_array_get_length(a); }
size_t g_bsize(struct shl_array*a){ return shl_array_get_bsize(a); }
size_t g_esize(struct shl_array*a){ return shl_array_get_element_size(a); }
