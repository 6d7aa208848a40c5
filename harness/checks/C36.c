#define VT_COUNT
#include "../widget.c"
#include "libtsm-int.h"
uint32_t g_append(struct tsm_screen*s,uint32_t sym,uint32_t c){ return tsm_symbol_append(s->sym_table,sym,c); }
