#include "shl-ring.h"
#include "../alloc.h"
size_t g_size(void){ return sizeof(struct shl_ring); }
size_t g_used(struct shl_ring*r){ return shl_ring_get_size(r); }
