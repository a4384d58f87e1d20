/* sim TARGET a.asm func args... : interprets smlrc's assembly output natively and prints the returned value (for demos on
   targets this sandbox cannot execute). TARGET: 0 32-bit, 1 16-bit, 2 huge, 3 unreal, 4 mips */
#include "cc.h"
#ifdef USE_MIPS
#include "cc.h"
#endif
#include <stdio.h>
#include <stdlib.h>
static unsigned rs = 0x9e3779b9; static unsigned rnd(void) { return rs = rs * 1664525 + 1013904223; }
vu8 vs_u8(const char* n) { return rnd() >> 16 | 1; } vu16 vs_u16(const char* n) { return rnd() >> 12 | 1; } vu32 vs_u32(const char* n) { return rnd() ^ rnd() << 13 | 0x80010001; } vu64 vs_u64(const char* n) { return vs_u32(n); }
void vs_assume(int c) {} void vs_assert(int c, const char* m) { if (!c) { printf("SIM: %s\n", m); exit(3); } } void vs_stop(void) { exit(4); } void vs_log(const char* m) { printf("SIM note: %s\n", m); }
int vs_is_symbolic(vu64 v) { return 0; } unsigned vs_concretize(unsigned v) { return v; } vu64 vs_ph_get(unsigned i) { return 0; } unsigned vs_ph_new(vu64 v) { return 0; } int vs_param(const char* n, int d) { return d; } void vs_cover(const char* n) {} vu32 vs_ite(int c, vu32 a, vu32 b) { return c ? a : b; }
char h_out[8]; int h_outn, h_use_ph; struct h_file* h_find(const char* n) { return 0; } struct h_file* h_put(const char* n, const void* d, size_t k) { return 0; } int h_run(int (*m)(int, char**), int c, char** v) { return 1; } int smlrc_main(int c, char** v) { return 1; }
void x_external(const char* name, vu32 addr) { printf("SIM: call of %s\n", name); exit(5); }
#ifdef USE_MIPS
#endif
int main(int c, char** v) { tgt = atoi(v[1]); W = tgt == 1 ? 2 : 4; FILE* f = fopen(v[2], "r"); static char buf[1 << 20]; casmn = fread(buf, 1, sizeof buf - 1, f); casm = buf; vu32 a[8]; int n = 0; for (int i = 4; i < c; i++) a[n++] = (vu32)strtol(v[i], 0, 0); m_load(); printf("%d\n", (int)conv(m_call(v[3], n, a), T_INT)); return 0; }
