#ifndef _VSTDLIB
#define _VSTDLIB
#include <stddef.h>
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
#define RAND_MAX 32767
#define MB_CUR_MAX 1
typedef struct { int quot, rem; } div_t; typedef struct { long quot, rem; } ldiv_t;
void* malloc(size_t); void* calloc(size_t, size_t); void* realloc(void*, size_t); void free(void*); void exit(int) __attribute__((noreturn)); void abort(void) __attribute__((noreturn)); int atexit(void (*)(void)); char* getenv(const char*); int system(const char*);
long strtol(const char*, char**, int); unsigned long strtoul(const char*, char**, int); long long strtoll(const char*, char**, int); unsigned long long strtoull(const char*, char**, int); double strtod(const char*, char**); float strtof(const char*, char**); int atoi(const char*); long atol(const char*); double atof(const char*);
void qsort(void*, size_t, size_t, int (*)(const void*, const void*)); void* bsearch(const void*, const void*, size_t, size_t, int (*)(const void*, const void*)); int abs(int); long labs(long); int rand(void); void srand(unsigned); div_t div(int, int); ldiv_t ldiv(long, long); int mkstemp(char*);
#endif
