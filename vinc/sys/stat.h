#ifndef _VSS
#define _VSS
#include <sys/types.h>
struct stat { mode_t st_mode; off_t st_size; };
int stat(const char*, struct stat*); int chmod(const char*, mode_t);
#endif
