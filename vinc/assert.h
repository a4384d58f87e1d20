#ifndef _VAS
#define _VAS
#include <stdlib.h>
#define assert(x) ((x)?(void)0:abort())
#endif
