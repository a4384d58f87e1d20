#ifndef _VERRNO
#define _VERRNO
extern int errno;
#define ENOENT 2
#define ERANGE 34
#define EINVAL 22
#define ENOMEM 12
#define EDOM 33
#endif
