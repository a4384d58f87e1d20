/* S12: program start (argv, environment), getenv, atexit and exit: __start__/_start of the library calls the program below.
   V=0 Linux, 1 DPMI, 2 Windows, 3 real-mode DOS (16-bit); system services and the heap are modelled here. */
#include "vs.h"
#ifndef V
#define V 0
#endif
typedef __SIZE_TYPE__ Z;
int s_atexit(void (*)(void)); void s_exit(int); void s__Exit(int); char* s_getenv(char*);
extern void (*__pFileCloser)(void);
/* ------------------------------------------------------------------ heap and string functions for the code under check */
static int live, mfail; static struct { void* p; Z n; } blk[64]; static int bn;
void* s_malloc(Z n) { if (mfail && vs_choice(2, "no memory")) { vs_cover("no memory"); return 0; } if (!n) n = 1; void* p = vs_alloc(n); vs_assert(bn < 64, "too many blocks"); blk[bn].p = p; blk[bn++].n = n; live++; return p; }
void s_free(void* p) { if (!p) return; for (int i = 0; i < bn; i++) if (blk[i].p == p) { vs_free(p, blk[i].n); blk[i].p = 0; live--; return; } VS_FAIL("a block is freed twice or was never allocated"); }
void* s_realloc(void* p, Z n) { unsigned char* q = s_malloc(n); if (!q) return 0; if (p) { Z m = 0; for (int i = 0; i < bn; i++) if (blk[i].p == p) m = blk[i].n; for (Z i = 0; i < m && i < n; i++) q[i] = ((unsigned char*)p)[i]; s_free(p); } return q; }
Z s_strlen(const char* s) { Z n = 0; while (s[n]) n++; return n; }
int s_strncmp(const char* a, const char* b, Z n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) break; } return 0; }
void* s_memcpy(void* d, const void* s, Z n) { for (Z i = 0; i < n; i++) ((char*)d)[i] = ((const char*)s)[i]; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return *a == *b ? 0 : (unsigned char)*a < (unsigned char)*b ? -1 : 1; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
int memcmp(const void* a, const void* b, Z n) { const unsigned char *p = a, *q = b; for (; n; n--, p++, q++) if (*p != *q) return *p < *q ? -1 : 1; return 0; }
void* s_calloc(Z a, Z b) { unsigned char* p = s_malloc(a * b); if (p) for (Z i = 0; i < a * b; i++) p[i] = 0; return p; }
void __x87init(void) {} long s_clock(void) { return 0; } int __write(int f, void* p, unsigned n) { return (int)n; }
/* ------------------------------------------------------------------ what happened, in order */
static int ev[48], en; static void rec(int e) { if (en < 48) ev[en++] = e; }
static char F0, F1, F2; struct __stream; 
int s_fclose(void* f) { rec(f == &F0 ? 201 : f == &F1 ? 202 : f == &F2 ? 203 : 299); return 0; }
#if V == 2
static struct { void* a[2]; int fd; char r[64]; } SF[3]; void *__stdin = &SF[0], *__stdout = &SF[1], *__stderr = &SF[2];
#define ISF(f, k) ((void*)(f) == &SF[k])
#else
void *__stdin = &F0, *__stdout = &F1, *__stderr = &F2;
#endif
static void closer(void) { rec(200); }
static int nh, want_status, way, done, nester;
static void finish(int status) { int i = 0, k; vs_assert(!done, "the program ends twice"); done = 1; 
  if (way != 2) { for (k = nh; k > 0; k--) { vs_assert(i < en && ev[i] == k, "the registered functions are not called once each in reverse order"); i++; if (k == nester) { vs_assert(i < en && ev[i] == 100, "a function registered while the program ends is not called next"); i++; } } int s = 0; 
#if V != 2
    for (; i < en; i++) { vs_assert(ev[i] >= 200 && ev[i] < 204 && !(s >> (ev[i] - 200) & 1), "streams are closed wrongly at exit"); s |= 1 << (ev[i] - 200); } vs_assert(s == 15, "not every stream is closed at exit");
#else
    int c = 0; for (; i < en; i++) c++; vs_assert(c == 4, "not every stream is closed at exit");
#endif
    vs_cover("exit"); }
  else { vs_assert(en == 0, "_Exit calls functions or closes streams"); vs_cover("_Exit"); }
  vs_assert((status & 255) == (want_status & 255), "the exit status is wrong"); vs_stop(); }
/* ------------------------------------------------------------------ command line */
static unsigned char cmd[300]; static int cn; static unsigned char prog[100]; static int pn;
static char xo[600]; static int xi[140], xc; /* expected arguments */
static void parse(const unsigned char* s, int i) { int o = 0; xc = 0; for (;;) { while (s[i] == ' ' || s[i] == 9) i++; if (!s[i]) return; xi[xc++] = o; int q = 0;
    for (;;) { int b = 0; while (s[i] == '\\') b++, i++; if (s[i] == '"') { for (int k = 0; k < b / 2; k++) xo[o++] = '\\'; if (b & 1) { xo[o++] = '"'; i++; } else if (q && s[i + 1] == '"') { xo[o++] = '"'; i += 2; } else { q = !q; i++; } continue; }
      for (int k = 0; k < b; k++) xo[o++] = '\\'; if (!s[i] || (!q && (s[i] == ' ' || s[i] == 9))) break; xo[o++] = (char)s[i++]; } xo[o++] = 0; } }
/* ------------------------------------------------------------------ environment: entries of symbolic names and values */
static unsigned char envb[V == 2 ? 34000 : 900]; static unsigned eno; static struct { int n, v, nl, vl; } E[8]; static int ec;
static unsigned char evb[8][80];
static void mkenv(void) { int k = vs_param("env", 2), nl = vs_param("namelen", 2), vl = vs_param("vallen", 2); ec = k ? vs_choice(k + 1, "variables") : 0; eno = 0;
  for (int i = 0; i < ec; i++) { int a = 1 + vs_choice(nl, "name length"), b = vs_param("longval", 0) ? ((const int[]){1, 2, 3, 6, 7, 8, 30, 31, 32, 255, 24576, 32766})[vs_choice(12, "value length")] : vs_choice(vl + 1, "value length"); E[i].nl = a; E[i].vl = b; E[i].n = (int)eno;
    for (int j = 0; j < a; j++) { unsigned char c = vs_u8("name"); vs_assume(c != 0 && c != '='); envb[eno++] = c; }
    int noeq = vs_param("noeq", 0) && vs_choice(2, "no equals sign"); if (noeq) { E[i].vl = -1; envb[eno++] = 0; continue; } envb[eno++] = '='; E[i].v = (int)eno;
    for (int j = 0; j < b; j++) { unsigned char c = 'v'; if (j < 32 || j == b - 1) { c = vs_u8("value"); vs_assume(c != 0); } envb[eno++] = c; } envb[eno++] = 0; } }
static int lookup(const unsigned char* nm, int n) { for (int i = 0; i < ec; i++) if (E[i].vl >= 0 && E[i].nl == n) { int eq = 1; for (int j = 0; j < n; j++) if (envb[E[i].n + j] != nm[j]) { eq = 0; break; } if (eq) return i; } return -1; }
static void get(void) { unsigned char nm[4]; int n = 1 + vs_choice(vs_param("namelen", 2), "queried length"); for (int j = 0; j < n; j++) { nm[j] = vs_u8("queried"); vs_assume(nm[j] != 0 && nm[j] != '='); } nm[n] = 0;
  int k = lookup(nm, n); char* r = s_getenv((char*)nm);
  if (k < 0) { vs_assert(r == 0, "getenv finds a variable that is not there"); vs_cover("absent"); return; }
  if (!r) { vs_assert(mfail || (V == 2 && E[k].vl == 0), "getenv does not find the variable"); return; }
  for (int j = 0; j < E[k].vl; j++) vs_assert((unsigned char)r[j] == envb[E[k].v + j], "getenv returns the wrong value"); vs_assert(r[E[k].vl] == 0, "getenv returns the wrong value"); vs_cover("found"); }
/* ------------------------------------------------------------------ the program */
static void late(void) { rec(100); }
#define H(n) static void h##n(void) { rec(n); if (n == nester) vs_assert(s_atexit(late) == 0, "atexit refuses a function while the program ends"); }
H(1) H(2) H(3) H(4) H(5) H(6) H(7) H(8) H(9) H(10) H(11) H(12) H(13) H(14) H(15) H(16) H(17) H(18) H(19) H(20) H(21) H(22) H(23) H(24) H(25) H(26) H(27) H(28) H(29) H(30) H(31) H(32) H(33) H(34)
static void (*const HT[])(void) = {h1, h2, h3, h4, h5, h6, h7, h8, h9, h10, h11, h12, h13, h14, h15, h16, h17, h18, h19, h20, h21, h22, h23, h24, h25, h26, h27, h28, h29, h30, h31, h32, h33, h34};
static int hasprog;
int user_main(int argc, char** argv) { int i, k, first = 0; 
#if V == 1 || V == 3
  vs_assert(argc >= 1, "argc is wrong"); for (i = 0; i < pn; i++) vs_assert((unsigned char)argv[0][i] == prog[i], "argv[0] is wrong"); vs_assert(argv[0][pn] == 0, "argv[0] is wrong"); first = 1;
#endif
#if V == 2
  if (xc == 0) { vs_assert(argc == 1 && argv[0][0] == 0 && argv[1] == 0, "an empty command line gives wrong arguments"); vs_cover("empty"); } else
#endif
  if (mfail && argc == 1 && argv[0][0] == 0) { } else
  { vs_assert(argc == first + xc, "argc is wrong"); for (k = 0; k < xc; k++) { const char *a = argv[first + k], *e = xo + xi[k]; for (i = 0; ; i++) { vs_assert(a[i] == e[i], "an argument is wrong"); if (!e[i]) break; } } vs_assert(argv[argc] == 0, "argv[argc] is not a null pointer"); vs_cover("arguments"); }
  for (k = vs_param("gets", 0); k > 0; k--) get();
  if (V && !mfail) vs_assert(live <= (V == 2 ? 3 : 1), "getenv leaks memory");
  nh = vs_param("handlers", 0); if (nh == 99) { nh = 30 + vs_choice(5, "functions"); } else if (nh) nh = vs_choice(nh + 1, "functions");
  for (k = 0; k < nh; k++) { int r = s_atexit(HT[k]); if (k < 32) vs_assert(r == 0, "atexit refuses a function"); else if (r != 0) { nh = k; vs_cover("refused"); break; } }
  if (vs_param("nest", 0)) nester = vs_choice(nh + 1, "registers another");
  __pFileCloser = closer; want_status = (int)vs_u8("status"); if (vs_param("anystatus", 0)) want_status = (int)vs_u16("status"); way = vs_param("gets", 0) ? 0 : vs_choice(3, "way to end");
  if (way == 1) s_exit(want_status); else if (way == 2) s__Exit(want_status); return want_status; }
/* ------------------------------------------------------------------ systems */
static void mkcmd(int max) { int alt = vs_param("alt", 0); cn = vs_param("n", 4); if (vs_param("anylen", 0)) cn = vs_choice(cn + 1, "length");
  for (int i = 0; i < cn; i++) { if (alt) cmd[i] = alt == 1 ? (i & 1 ? ' ' : 'a') : alt == 2 ? '\\' : i & 1 ? '"' : '\\'; else cmd[i] = vs_u8("command line"); vs_assume(cmd[i] != 0); if (V == 1 || V == 3) vs_assume(cmd[i] != 13); } if (alt) cmd[cn - 1] = vs_u8("last"), vs_assume(cmd[cn - 1] != 0 && cmd[cn - 1] != 13); cmd[cn] = 0; parse(cmd, 0); }
#if V == 0
void __start__(int, char**);
void SysExit(int s) { finish(s); }
int main(void) { static char a0[] = "prog", a1[] = "x y", a2[] = ""; char** v; int n = vs_choice(4, "arguments"), i; mfail = 0; mkenv(); v = vs_alloc((n + 1 + ec + 1) * sizeof *v); char* const A[] = {a0, a1, a2}; int o = 0; xc = 0; for (i = 0; i < n; i++) { v[i] = A[i]; xi[xc++] = o; for (const char* p = A[i]; ; p++) { xo[o++] = *p; if (!*p) break; } } v[n] = 0;
  for (i = 0; i < ec; i++) { int l = 0; while (envb[E[i].n + l]) l++; char* s = vs_alloc(l + 1); for (int j = 0; j <= l; j++) s[j] = (char)envb[E[i].n + j]; v[n + 1 + i] = s; } v[n + 1 + ec] = 0; __start__(n, v); VS_FAIL("start-up returns"); return 0; }
#elif V == 1
void s_start(unsigned long, void*, void*, char*, void*, void*, void*, void*);
unsigned long __dpmi_exit_addr; void *__dpmi_psp, *__dpmi_env, *__dpmi_stubInfo, *__dpmi_iobuf, *__dpmi_heap_start, *__dpmi_heap_stop;
void __dpmi_terminate(int s) { finish(s); }
int main(void) { unsigned char* psp = vs_alloc(256); mfail = vs_param("nomem", 0); mkcmd(127); psp[0x80] = (unsigned char)cn; for (int i = 0; i < cn; i++) psp[0x81 + i] = cmd[i]; if (cn < 127) psp[0x81 + cn] = 13; mkenv(); unsigned char* e = vs_alloc(eno + 1 + !eno); for (unsigned i = 0; i < eno; i++) e[i] = envb[i]; e[eno] = 0; if (!eno) e[1] = 0;
  pn = vs_choice(3, "program name"); for (int i = 0; i < pn; i++) prog[i] = 'p'; char* a0 = vs_alloc(pn + 1); for (int i = 0; i <= pn; i++) a0[i] = (char)prog[i]; s_start(0, psp, e, a0, 0, 0, 0, 0); VS_FAIL("start-up returns"); return 0; }
#elif V == 2
void __start__(void); int UnhandledExceptionHandler(void* p) { return 0; }
static char* gcl; char* __GetCommandLineA(void) { return gcl; } unsigned __GetStdHandle(unsigned k) { return 100 + k; } void* __SetUnhandledExceptionFilter(void* f) { return 0; } unsigned __WriteFile(unsigned h, void* p, unsigned n, unsigned* d, void* o) { *d = n; return 1; }
int __msvcrt_abs(int x) { return x < 0 ? -x : x; } void __ExitProcess(unsigned s) { finish((int)s); }
unsigned __GetEnvironmentVariableA(char* nm, char* b, unsigned sz) { int n = 0; while (nm[n]) n++; int k = lookup((unsigned char*)nm, n); if (k < 0) return 0; unsigned L = (unsigned)E[k].vl; if (sz < L + 1) return L + 1; for (unsigned i = 0; i <= L; i++) b[i] = (char)envb[E[k].v + (int)i]; return L; }
int main(void) { mfail = vs_param("nomem", 0); mkcmd(200); gcl = vs_alloc(cn + 1); for (int i = 0; i <= cn; i++) gcl[i] = (char)cmd[i]; mkenv(); __start__(); VS_FAIL("start-up returns"); return 0; }
#else
void __start__(void); unsigned short __getCS(void) { return 0x1234; } void __ExcIsr(void) {} void __CtrlCIsr(void) {}
static unsigned short vec[4]; static int vget, vset; void __DosGetVect(int n, unsigned short* p) { p[0] = (unsigned short)(n * 3 + 1); p[1] = (unsigned short)(n * 5 + 2); } void __DosSetVect(int n, unsigned short* p) { vset++; }
static unsigned char pspb[256]; static unsigned char* env; static unsigned envn;
static unsigned char rd(unsigned seg, unsigned o) { if (seg == 0x111) { vs_assert(o < 256, "read outside the program segment prefix"); return pspb[o]; } vs_assert(seg == 0x222 && o < envn, "read outside the environment"); return env[o]; }
unsigned char peekb(unsigned seg, unsigned o) { return rd(seg, o); } unsigned peek(unsigned seg, unsigned o) { return rd(seg, o) | (unsigned)rd(seg, o + 1) << 8; } void pokeb(unsigned seg, unsigned o, unsigned char v) { VS_FAIL("unexpected write"); } void poke(unsigned seg, unsigned o, unsigned v) { VS_FAIL("unexpected write"); }
unsigned DosGetPspSeg(void) { return 0x111; } void DosTerminate(int s) { finish(s); }
int main(void) { mfail = vs_param("nomem", 0); mkcmd(127); pspb[0x80] = (unsigned char)cn; for (int i = 0; i < cn; i++) pspb[0x81 + i] = cmd[i]; if (cn < 127) pspb[0x81 + cn] = 13; pspb[0x2c] = 0x22; pspb[0x2d] = 2; mkenv();
  pn = ((const int[]){0, 1, 5, 79})[vs_choice(4, "program name")]; hasprog = pn > 0; env = vs_alloc(eno + 110); for (unsigned i = 0; i < eno; i++) env[i] = envb[i]; envn = eno; env[envn++] = 0; if (!eno) { int two = vs_choice(2, "zeros"); (void)two; }
  env[envn++] = (unsigned char)hasprog; env[envn++] = 0; if (hasprog) { for (int i = 0; i < pn; i++) env[envn++] = prog[i] = (unsigned char)('p' + i % 7); env[envn++] = 0; }
  __start__(); VS_FAIL("start-up returns"); return 0; }
#endif
