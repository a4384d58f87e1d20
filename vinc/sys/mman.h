#ifndef _VMM
#define _VMM
#endif
