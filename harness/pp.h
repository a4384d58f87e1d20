/* Shared by the preprocessor harnesses: run the real smlrpp on an in-memory file. */
#ifndef PP_H
#define PP_H
#include "vs.h"
#include "vlibc.h"
#include <string.h>
#include <stdlib.h>
int ucpp_main(int, char**);
static char ps[32768]; static int pn;
static void pstr(const char* s) { while (*s) ps[pn++] = *s++; ps[pn] = 0; }
static void pch(int c) { ps[pn++] = (char)c; ps[pn] = 0; }
static void pdec(unsigned v) { char t[12]; int n = 12; t[--n] = 0; do t[--n] = '0' + v % 10; while (v /= 10); pstr(t + n); }
static char* po; static unsigned pon; /* output */
static const char* pp_extra[8]; static int pp_nextra;
static int pp_run(void) { static char* av[16]; int n = 0; av[n++] = (char*)"smlrpp"; av[n++] = (char*)"-U"; av[n++] = (char*)"__STDC_VERSION__"; av[n++] = (char*)"-zI"; for (int i = 0; i < pp_nextra; i++) av[n++] = (char*)pp_extra[i]; av[n++] = (char*)"a.c"; av[n++] = (char*)"-o"; av[n++] = (char*)"a.i"; av[n] = 0;
  h_put("a.c", ps, pn); int rc = h_run(ucpp_main, n, av); struct h_file* f = h_find("a.i"); po = f ? (char*)f->data : 0; pon = f ? (unsigned)f->size : 0; return rc; }
#endif
