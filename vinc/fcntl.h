#ifndef _VFC
#define _VFC
#endif
