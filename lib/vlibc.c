/* Freestanding libc for the tools under symbolic execution: strings, an in-memory file system, stdio. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <limits.h>
#include <time.h>
#include <errno.h>
#include "vs.h"
#include "vlibc.h"

#ifdef VS_BC
void* memcpy(void* d, const void* s, size_t n) { __builtin_memcpy(d, s, n); return d; }
void* memmove(void* d, const void* s, size_t n) { __builtin_memmove(d, s, n); return d; }
void* memset(void* d, int c, size_t n) { __builtin_memset(d, c, n); return d; }
#else
void* memcpy(void* d, const void* s, size_t n) { unsigned char* a = d; const unsigned char* b = s; while (n--) *a++ = *b++; return d; }
void* memmove(void* d, const void* s, size_t n) { unsigned char* a = d; const unsigned char* b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void* memset(void* d, int c, size_t n) { unsigned char* a = d; while (n--) *a++ = (unsigned char)c; return d; }
#endif
int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = x, *b = y; for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
void* memchr(const void* x, int c, size_t n) { const unsigned char* a = x; for (; n; n--, a++) if (*a == (unsigned char)c) return (void*)a; return 0; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); while (n-- && *s) *e++ = *s++; *e = 0; return d; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
int strcasecmp(const char* a, const char* b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) a++, b++; return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
char* strchr(const char* s, int c) { if (vs_is_symbolic(c)) { size_t i = strlen(s) + 1; unsigned long r = 0; while (i--) { unsigned long m = -(unsigned long)(s[i] == (char)c); r = (r & ~m) | ((unsigned long)(s + i) & m); } return (char*)r; } for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strtok(char* s, const char* d) { static char* p; if (s) p = s; if (!p) return 0; p += strspn(p, d); if (!*p) { p = 0; return 0; } s = p; p += strcspn(p, d); if (*p) *p++ = 0; else p = 0; return s; }
char* strdup(const char* s) { char* r = malloc(strlen(s) + 1); strcpy(r, s); return r; }
char* strerror(int e) { return "error"; }
int isdigit(int c) { return c >= '0' && c <= '9'; } int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); } int isalnum(int c) { return isalpha(c) || isdigit(c); } int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isblank(int c) { return c == ' ' || c == 9; } int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; } int isprint(int c) { return c >= 32 && c < 127; } int isgraph(int c) { return c > 32 && c < 127; } int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; } int toupper(int c) { return islower(c) ? c - 32 : c; }
int errno;
/* heap */
void* malloc(size_t n) { size_t* p = vs_alloc(n + 16); p[0] = n; return (char*)p + 16; }
void free(void* q) { if (q) { size_t* p = (size_t*)((char*)q - 16); vs_free(p, p[0] + 16); } }
void* calloc(size_t a, size_t b) { void* p = malloc(a * b); memset(p, 0, a * b); return p; }
void* realloc(void* q, size_t n) { if (!q) return malloc(n); size_t o = *(size_t*)((char*)q - 16); void* p = malloc(n); memcpy(p, q, o < n ? o : n); free(q); return p; }
void exit(int c) { vs_throw(c & 0xff); } void abort(void) { vs_throw(134); } int atexit(void (*f)(void)) { return 0; }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
static int dig(int c) { return isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99; }
unsigned long long strtoull(const char* s, char** e, int b) { const char* s0 = s; int neg = 0, any = 0, ov = 0; unsigned long long r = 0; while (isspace((unsigned char)*s)) s++; if (*s == '+' || *s == '-') neg = *s++ == '-';
  if ((b == 0 || b == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && dig((unsigned char)s[2]) < 16) s += 2, b = 16; if (b == 0) b = s[0] == '0' ? 8 : 10;
  for (; dig((unsigned char)*s) < b; s++) { unsigned long long n; if (__builtin_mul_overflow(r, (unsigned long long)b, &n) || __builtin_add_overflow(n, (unsigned long long)dig((unsigned char)*s), &n)) ov = 1; r = n; any = 1; }
  if (e) *e = (char*)(any ? s : s0); if (ov) { errno = ERANGE; return ULLONG_MAX; } return neg ? 0 - r : r; }
unsigned long strtoul(const char* s, char** e, int b) { unsigned long long r = strtoull(s, e, b); if (sizeof(long) < 8 && r > ULONG_MAX && (long long)r > 0) { errno = ERANGE; return ULONG_MAX; } return (unsigned long)r; }
long strtol(const char* s, char** e, int b) { const char* p = s; while (isspace((unsigned char)*p)) p++; int neg = *p == '-'; int e0 = errno; errno = 0; unsigned long long r = strtoull(s, e, b); unsigned long long m = neg ? 0 - r : r; if (errno == ERANGE || m > (unsigned long long)LONG_MAX + neg) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; } errno = e0; return neg ? (long)(0 - m) : (long)m; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); } long atol(const char* s) { return strtol(s, 0, 10); }
void qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) { char* a = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(a + (j - 1) * sz, a + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = a[(j - 1) * sz + k]; a[(j - 1) * sz + k] = a[j * sz + k]; a[j * sz + k] = t; } }
unsigned long h_now = 1700000000; time_t time(time_t* t) { if (t) *t = h_now; return h_now; } clock_t clock(void) { return 0; }
static struct tm vtm; struct tm* localtime(const time_t* t) { vtm.tm_mday = 1; vtm.tm_year = 124; return &vtm; } struct tm* gmtime(const time_t* t) { return localtime(t); }
size_t strftime(char* b, size_t n, const char* f, const struct tm* t) { const char* r = strstr(f, "%H") ? "\"01:02:03\"" : "\"Jan  1 2024\""; if (n <= strlen(r)) return 0; strcpy(b, r); return strlen(r); }
char* getenv(const char* n) { return 0; }
int (*h_system)(const char*); int system(const char* c) { return h_system ? h_system(c) : 0; }
int (*h_fault)(const char*, const char*);
/* files */
#define MAXF 64
struct h_file h_files[MAXF]; int h_nfiles;
struct vFILE { struct h_file* hf; int used, fd, rd, wr, app, eof, err, un; long pos; };
static struct vFILE vf[24] = {{0, 1, -1, 1, 0, 0, 0, 0, -1, 0}, {0, 1, -1, 0, 1, 0, 0, 0, -1, 0}, {0, 1, -1, 0, 1, 0, 0, 0, -1, 0}};
FILE *stdin = &vf[0], *stdout = &vf[1], *stderr = &vf[2];
#define OUTMAX 65536
char h_out[OUTMAX]; int h_outn;
struct h_file* h_find(const char* n) { while (n[0] == '.' && n[1] == '/') n += 2; for (int i = 0; i < h_nfiles; i++) if (h_files[i].exists && !strcmp(h_files[i].name, n)) return &h_files[i]; return 0; }
static struct h_file* fcreate(const char* n) { while (n[0] == '.' && n[1] == '/') n += 2; struct h_file* f = h_find(n); if (!f) { for (int i = 0; i < h_nfiles && !f; i++) if (!h_files[i].exists) f = &h_files[i]; if (!f) f = &h_files[h_nfiles++]; f->name = strdup(n); f->data = 0; f->cap = 0; f->exists = 1; f->isdir = 0; } f->size = 0; return f; }
static void fgrow(struct h_file* f, size_t n) { if (n > f->cap) { size_t c = f->cap ? f->cap * 2 : 256; while (c < n) c *= 2; unsigned char* d = vs_alloc(c); for (size_t i = 0; i < f->size; i++) d[i] = f->data[i]; f->data = d; f->cap = c; } }
struct h_file* h_put(const char* n, const void* d, size_t sz) { struct h_file* f = fcreate(n); fgrow(f, sz + 1); memcpy(f->data, d, sz); f->size = sz; return f; }
FILE* fopen(const char* n, const char* m) {
  if (h_fault && h_fault(m[0] == 'r' ? "open" : "create", n)) { errno = ENOENT; return 0; }
  struct h_file* f = h_find(n); if (m[0] == 'r') { if (!f || f->isdir) { errno = ENOENT; return 0; } } else if (m[0] == 'w') f = fcreate(n); else if (!f) f = fcreate(n);
  for (int i = 3; i < 24; i++) if (!vf[i].used) { struct vFILE* v = &vf[i]; v->used = 1; v->hf = f; v->fd = (int)(f - h_files); int plus = strchr(m, '+') != 0; v->rd = m[0] == 'r' || plus; v->wr = m[0] != 'r' || plus; v->app = m[0] == 'a'; v->eof = v->err = 0; v->un = -1; v->pos = m[0] == 'a' ? (long)f->size : 0; return v; }
  return 0; }
int fclose(FILE* f) { if (!f->used) { VS_FAIL("fclose of a closed stream"); } int bad = h_fault && f->fd >= 0 && f->wr && h_fault("close", h_files[f->fd].name); f->used = 0; return bad || f->err ? EOF : 0; }
FILE* freopen(const char* n, const char* m, FILE* f) { return fopen(n, m); }
int fgetc(FILE* f) { if (f->un >= 0) { int c = f->un; f->un = -1; return c; } if (f->fd < 0) { f->eof = 1; return EOF; } struct h_file* h = &h_files[f->fd]; if (f->pos < 0 || (size_t)f->pos >= h->size) { f->eof = 1; return EOF; } return h->data[f->pos++]; }
int getc(FILE* f) { return fgetc(f); } int getchar(void) { return fgetc(stdin); } int ungetc(int c, FILE* f) { if (c == EOF) return EOF; f->un = (unsigned char)c; f->eof = 0; return c; }
int fputc(int c, FILE* f) { struct h_file* g = f->hf; if (g && !h_fault) { size_t p = f->pos; if (p < g->cap && p <= g->size) { g->data[p] = (unsigned char)c; f->pos = p + 1; if (p == g->size) g->size = p + 1; return (unsigned char)c; } }
  if (f->fd < 0) { if (h_outn < OUTMAX - 1) h_out[h_outn++] = (char)c; return (unsigned char)c; } struct h_file* h = &h_files[f->fd]; if (h_fault && h_fault("write", h->name)) { f->err = 1; return EOF; } fgrow(h, f->pos + 1); while (h->size < (size_t)f->pos) h->data[h->size++] = 0; h->data[f->pos++] = (unsigned char)c; if ((size_t)f->pos > h->size) h->size = f->pos; return (unsigned char)c; }
int putc(int c, FILE* f) { return fputc(c, f); } int putchar(int c) { return fputc(c, stdout); } int fputs(const char* s, FILE* f) { while (*s) if (fputc((unsigned char)*s++, f) == EOF) return EOF; return 1; } int puts(const char* s) { fputs(s, stdout); return fputc('\n', stdout); }
char* fgets(char* b, int n, FILE* f) { int i = 0; while (i < n - 1) { int c = fgetc(f); if (c == EOF) break; b[i++] = (char)c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
size_t fread(void* p, size_t sz, size_t n, FILE* f) { unsigned char* d = p; size_t t = sz * n, i = 0; for (; i < t; i++) { int c = fgetc(f); if (c == EOF) break; d[i] = (unsigned char)c; } return sz ? i / sz : 0; }
size_t fwrite(const void* p, size_t sz, size_t n, FILE* f) { const unsigned char* d = p; size_t t = sz * n, i = 0; for (; i < t; i++) if (fputc(d[i], f) == EOF) break; return sz ? i / sz : 0; }
int fseek(FILE* f, long o, int w) { if (f->fd < 0) return -1; long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? f->pos - (f->un >= 0) : (long)h_files[f->fd].size; if (b + o < 0) return -1; f->pos = b + o; f->un = -1; f->eof = 0; return 0; }
long ftell(FILE* f) { return f->pos - (f->un >= 0); } void rewind(FILE* f) { fseek(f, 0, 0); f->err = 0; } int fgetpos(FILE* f, fpos_t* p) { *p = ftell(f); return 0; } int fsetpos(FILE* f, const fpos_t* p) { return fseek(f, *p, 0); }
int feof(FILE* f) { return f->eof; } int ferror(FILE* f) { return f->err; } void clearerr(FILE* f) { f->eof = f->err = 0; } int fflush(FILE* f) { return 0; } int setvbuf(FILE* f, char* b, int m, size_t n) { return 0; } void setbuf(FILE* f, char* b) {}
int remove(const char* n) { struct h_file* f = h_find(n); if (!f) return -1; f->exists = 0; return 0; } int unlink(const char* n) { return remove(n); }
int rename(const char* a, const char* b) { struct h_file* f = h_find(a); if (!f) return -1; struct h_file* g = h_find(b); if (g) g->exists = 0; f->name = strdup(b); return 0; }
static int tmpn; char* tmpnam(char* b) { static char sb[L_tmpnam]; if (!b) b = sb; sprintf(b, "tmp%d.tmp", tmpn++); return b; } FILE* tmpfile(void) { return fopen(tmpnam(0), "w+b"); } void perror(const char* s) {}
int access(const char* n, int m) { return h_find(n) ? 0 : -1; } int isatty(int f) { return 0; } int getpid(void) { return 42; }
/* printf */
int h_use_ph;
struct sink { char* b; size_t n, cap; FILE* f; };
static void sput(struct sink* s, int c) { if (s->f) fputc(c, s->f); else if (s->n < s->cap) s->b[s->n] = (char)c; s->n++; }
static void fmt(struct sink* s, const char* f, va_list* ap) {
  for (; *f; f++) {
    if (*f != '%') { if (s->f && s->f->hf && !h_fault) { size_t k = 1; while (f[k] && f[k] != '%') k++; struct vFILE* v = s->f; struct h_file* g = v->hf; size_t p = v->pos; if (p <= g->size) { fgrow(g, p + k); memcpy(g->data + p, f, k); v->pos = p + k; if (p + k > g->size) g->size = p + k; s->n += k; f += k - 1; continue; } } sput(s, (unsigned char)*f); continue; }
    int left = 0, zero = 0, plus = 0, sp = 0, alt = 0, wd = 0, pr = -1, lg = 0; 
    for (f++;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') sp = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { wd = va_arg(*ap, int); if (wd < 0) left = 1, wd = -wd; f++; } else while (isdigit(*f)) wd = wd * 10 + *f++ - '0';
    if (*f == '.') { f++; pr = 0; if (*f == '*') { pr = va_arg(*ap, int); f++; } else while (isdigit(*f)) pr = pr * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'h' || *f == 'z') { if (*f == 'l') lg++; else if (*f == 'h') lg--; else lg = 1; f++; }
    char tmp[32]; const char* p; int n;
    switch (*f) {
    case '%': sput(s, '%'); break;
    case 'c': { int c = va_arg(*ap, int); if (!left) for (; wd > 1; wd--) sput(s, ' '); sput(s, (unsigned char)c); for (; wd > 1; wd--) sput(s, ' '); break; }
    case 's': p = va_arg(*ap, const char*); if (!p) p = "(null)"; for (n = 0; (pr < 0 || n < pr) && p[n]; n++) {} if (!left) for (; wd > n; wd--) sput(s, ' '); for (int i = 0; i < n; i++) sput(s, (unsigned char)p[i]); for (; wd > n; wd--) sput(s, ' '); break;
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      unsigned long long v; int sg = *f == 'd' || *f == 'i', base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10, neg = 0;
      if (*f == 'p') { v = (unsigned long long)(size_t)va_arg(*ap, void*); alt = 1; } else if (lg >= 2) v = va_arg(*ap, unsigned long long); else if (lg == 1) { v = va_arg(*ap, unsigned long); if (sg) v = (unsigned long long)(long)v; } else { v = va_arg(*ap, unsigned); if (sg) v = (unsigned long long)(long long)(int)v; }
      if (lg == -1) v = sg ? (unsigned long long)(short)v : (unsigned short)v; if (lg == -2) v = sg ? (unsigned long long)(signed char)v : (unsigned char)v;
      if (vs_is_symbolic(v)) { if (!h_use_ph) v = vs_concretize((unsigned)v); else { unsigned id = vs_ph_new(v); sput(s, PH_OPEN); n = 0; do tmp[n++] = '0' + id % 10; while (id /= 10); while (n) sput(s, tmp[--n]); sput(s, PH_CLOSE); break; } }
      if (sg && (long long)v < 0) neg = 1, v = 0 - v;
      n = 0; if (v || pr != 0) do tmp[n++] = (*f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v % base]; while (v /= base);
      int z = pr > n ? pr - n : 0; const char* pre = neg ? "-" : plus && sg ? "+" : sp && sg ? " " : alt && base == 16 ? (*f == 'X' ? "0X" : "0x") : ""; int pl = (int)strlen(pre);
      if (zero && !left && pr < 0 && wd > n + pl) z = wd - n - pl; 
      int pad = wd - n - z - pl; if (!left) for (; pad > 0; pad--) sput(s, ' '); while (*pre) sput(s, *pre++); while (z-- > 0) sput(s, '0'); while (n) sput(s, tmp[--n]); for (; pad > 0; pad--) sput(s, ' '); break; }
    case 0: return;
    default: sput(s, '%'); sput(s, *f);
    }
  } }
int vfprintf(FILE* f, const char* m, va_list ap) { struct sink s = {0, 0, 0, f}; va_list a; va_copy(a, ap); fmt(&s, m, &a); va_end(a); return (int)s.n; }
int vsnprintf(char* b, size_t n, const char* m, va_list ap) { struct sink s = {b, 0, n ? n - 1 : 0, 0}; va_list a; va_copy(a, ap); fmt(&s, m, &a); va_end(a); if (n) b[s.n < n ? s.n : n - 1] = 0; return (int)s.n; }
int vsprintf(char* b, const char* m, va_list ap) { return vsnprintf(b, 1 << 30, m, ap); } int vprintf(const char* m, va_list ap) { return vfprintf(stdout, m, ap); }
int printf(const char* m, ...) { va_list a; va_start(a, m); int r = vfprintf(stdout, m, a); va_end(a); return r; } int fprintf(FILE* f, const char* m, ...) { va_list a; va_start(a, m); int r = vfprintf(f, m, a); va_end(a); return r; }
int sprintf(char* b, const char* m, ...) { va_list a; va_start(a, m); int r = vsprintf(b, m, a); va_end(a); return r; } int snprintf(char* b, size_t n, const char* m, ...) { va_list a; va_start(a, m); int r = vsnprintf(b, n, m, a); va_end(a); return r; }
void h_fmt(char* b, const char* m, ...) { va_list a; va_start(a, m); vsprintf(b, m, a); va_end(a); }
/* run a program's main */
struct runargs { int (*f)(int, char**); int c; char** v; }; static int tramp(void* p) { struct runargs* r = p; return r->f(r->c, r->v) & 0xff; }
int h_exit_code; int h_run(int (*f)(int, char**), int c, char** v) { struct runargs r = {f, c, v}; h_exit_code = vs_catch(tramp, &r); return h_exit_code; }
