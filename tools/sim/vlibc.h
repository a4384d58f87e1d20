#ifndef VLIBC_H
#define VLIBC_H
#include <stddef.h>
/* in-memory file system shared by the harnesses */
struct h_file { const char* name; unsigned char* data; size_t size, cap; int exists; int isdir; };
extern struct h_file h_files[]; extern int h_nfiles; extern int h_use_ph; extern int h_exit_code;
struct h_file* h_find(const char* name);
struct h_file* h_put(const char* name, const void* data, size_t n);
/* fault injection: if set, decides whether an fopen/fwrite/... fails */
extern int (*h_fault)(const char* op, const char* name);
extern int (*h_system)(const char* cmd);
int h_run(int (*mainf)(int, char**), int argc, char** argv); /* runs a main(), returns exit status (256+n never) */
extern char h_out[]; extern int h_outn; /* text written to stdout/stderr */
extern unsigned long h_now;
void h_fmt(char* out, const char* fmt, ...);
#define PH_OPEN 1
#define PH_CLOSE 2
#endif
