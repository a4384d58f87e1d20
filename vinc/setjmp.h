#ifndef _VSETJMP
#define _VSETJMP
typedef long jmp_buf[32];
int setjmp(jmp_buf) __attribute__((returns_twice)); void longjmp(jmp_buf, int) __attribute__((noreturn));
#endif
