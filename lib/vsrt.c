/* Native replay runtime: the vs_* functions read the recorded values; raw syscalls only. */
#include "vs.h"
#include <stddef.h>
struct vs_rec { const char* name; int w; vu64 v; };
extern const struct vs_rec vs_recs[]; extern const int vs_nrecs; extern const struct vs_rec vs_params[]; extern const int vs_nparams;
static int pos;
#ifdef __x86_64__
static long sys3(long n, long a, long b, long c) { long r; __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory"); return r; }
#define SYS_write 1
#define SYS_exit 60
__asm__(".globl _start\n_start: xor %ebp,%ebp\n and $-16,%rsp\n call vs_start\n");
__asm__(".globl setjmp\n.globl _setjmp\nsetjmp:\n_setjmp: mov %rbx,(%rdi)\n mov %rbp,8(%rdi)\n mov %r12,16(%rdi)\n mov %r13,24(%rdi)\n mov %r14,32(%rdi)\n mov %r15,40(%rdi)\n lea 8(%rsp),%rdx\n mov %rdx,48(%rdi)\n mov (%rsp),%rdx\n mov %rdx,56(%rdi)\n xor %eax,%eax\n ret\n"
 ".globl longjmp\nlongjmp: mov %esi,%eax\n test %eax,%eax\n jnz 1f\n inc %eax\n1: mov (%rdi),%rbx\n mov 8(%rdi),%rbp\n mov 16(%rdi),%r12\n mov 24(%rdi),%r13\n mov 32(%rdi),%r14\n mov 40(%rdi),%r15\n mov 48(%rdi),%rsp\n jmp *56(%rdi)\n");
#else
static long sys3(long n, long a, long b, long c) { long r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r; }
#define SYS_write 4
#define SYS_exit 1
__asm__(".globl _start\n_start: xor %ebp,%ebp\n and $-16,%esp\n call vs_start\n");
__asm__(".globl setjmp\n.globl _setjmp\nsetjmp:\n_setjmp: mov 4(%esp),%eax\n mov %ebx,(%eax)\n mov %esi,4(%eax)\n mov %edi,8(%eax)\n mov %ebp,12(%eax)\n lea 4(%esp),%ecx\n mov %ecx,16(%eax)\n mov (%esp),%ecx\n mov %ecx,20(%eax)\n xor %eax,%eax\n ret\n"
 ".globl longjmp\nlongjmp: mov 4(%esp),%edx\n mov 8(%esp),%eax\n test %eax,%eax\n jnz 1f\n inc %eax\n1: mov (%edx),%ebx\n mov 4(%edx),%esi\n mov 8(%edx),%edi\n mov 12(%edx),%ebp\n mov 16(%edx),%esp\n jmp *20(%edx)\n");
#endif
int setjmp(long*) __attribute__((returns_twice)); void longjmp(long*, int) __attribute__((noreturn));
static size_t sl(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
static int eq(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static void put(const char* s) { sys3(SYS_write, 1, (long)s, sl(s)); }
static void putn(vu64 v) { char t[24]; int n = 23; t[n] = 0; do t[--n] = '0' + (int)(v % 10), v = v / 10; while (v && n > 0); put(t + n); }
static void fin(int c) { sys3(SYS_exit, c, 0, 0); for (;;) {} }
static vu64 next(const char* n, int w) { if (pos >= vs_nrecs) { put("REPLAY: out of values at "); put(n); put("\n"); fin(4); } if (!eq(n, vs_recs[pos].name)) { put("REPLAY: diverged at "); put(n); put(" expected "); put(vs_recs[pos].name); put("\n"); fin(4); } (void)w; vu64 v = vs_recs[pos++].v; put("  "); put(n); put(" = "); putn(v); put("\n"); return v; }
vu8 vs_u8(const char* n) { return (vu8)next(n, 8); } vu16 vs_u16(const char* n) { return (vu16)next(n, 16); } vu32 vs_u32(const char* n) { return (vu32)next(n, 32); } vu64 vs_u64(const char* n) { return next(n, 64); }
unsigned vs_range(unsigned lo, unsigned hi, const char* n) { return (unsigned)next(n, 32); } unsigned vs_choice(unsigned c, const char* n) { return (unsigned)next(n, 32); }
void vs_assume(int c) { if (!c) { put("REPLAY: assumption not satisfied\n"); fin(5); } }
void vs_assert(int c, const char* m) { if (!c) { put("REPLAY: ASSERTION VIOLATED: "); put(m); put("\n"); fin(1); } }
void vs_cover(const char* n) {} int vs_is_symbolic(vu64 v) { return 0; }
static vu64 ph[4096]; static unsigned nph; unsigned vs_ph_new(vu64 v) { ph[nph] = v; return nph++; } vu64 vs_ph_get(unsigned i) { return ph[i]; }
static char heap[96 << 20]; static size_t hp; void* vs_alloc(size_t n) { hp = (hp + 31) & ~(size_t)15; void* p = heap + hp; hp += n; if (hp > sizeof heap) { put("REPLAY: heap\n"); fin(6); } return p; } void vs_free(void* p, size_t n) {}
static long jb[64][32]; static int jn; static int jv;
int vs_catch(int (*f)(void*), void* a) { int k = jn++; int r; if (setjmp(jb[k])) r = jv; else r = f(a); jn = k; return r; }
void vs_throw(int c) { if (!jn) { put("REPLAY: exit\n"); fin(0); } jv = c; longjmp(jb[jn - 1], 1); }
void vs_log(const char* s) { put(s); put("\n"); } int vs_param(const char* n, int d) { for (int i = 0; i < vs_nparams; i++) if (eq(n, vs_params[i].name)) return (int)vs_params[i].v; return d; }
void vs_stop(void) { put("REPLAY: finished without violation\n"); fin(0); for (;;) {} }
unsigned vs_concretize(unsigned x) { return x; } vu32 vs_ite(int c, vu32 a, vu32 b) { return c ? a : b; } void vs_poison(void* p, size_t n) {} void vs_unpoison(void* p, size_t n) {} int vs_valid(const void* p, size_t n) { return 1; }
void vs_sample(const char* s) { put("sample: "); put(s); put("\n"); } void vs_show(const char* s, vu64 v) { put(s); put(" = "); putn(v); put("\n"); } int vs_feasible(int c) { return c; }
int main(void);
void vs_start(void) { main(); put("REPLAY: finished without violation\n"); fin(0); }
#ifndef __x86_64__
vu64 __udivmoddi4(vu64 n, vu64 d, vu64* r) { vu64 q = 0, m = 0; for (int i = 63; i >= 0; i--) { m = m << 1 | ((n >> i) & 1); if (m >= d) { m -= d; q |= (vu64)1 << i; } } if (r) *r = m; return q; }
vu64 __udivdi3(vu64 a, vu64 b) { return __udivmoddi4(a, b, 0); } vu64 __umoddi3(vu64 a, vu64 b) { vu64 r; __udivmoddi4(a, b, &r); return r; }
vs64 __divdi3(vs64 a, vs64 b) { int s = (a < 0) != (b < 0); vu64 q = __udivmoddi4(a < 0 ? -(vu64)a : a, b < 0 ? -(vu64)b : b, 0); return s ? -q : q; } vs64 __moddi3(vs64 a, vs64 b) { vu64 r; __udivmoddi4(a < 0 ? -(vu64)a : a, b < 0 ? -(vu64)b : b, &r); return a < 0 ? -r : r; }
#endif
