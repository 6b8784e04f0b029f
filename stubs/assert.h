#include "__vcg.h"
#undef assert
#define assert(x) ((void)0)
