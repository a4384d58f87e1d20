#ifndef _VUN
#define _VUN
#include <sys/types.h>
int unlink(const char*); int close(int); int getpid(void); int access(const char*, int); int isatty(int);
#endif
