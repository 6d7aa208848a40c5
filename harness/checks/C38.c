#define VT_COUNT
#include "../app.c"
