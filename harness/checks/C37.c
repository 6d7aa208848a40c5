#define VT_COUNT
#include "../widget.c"
