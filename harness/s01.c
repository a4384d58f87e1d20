/* S01: mem* and str* of srclib against reference definitions; exact-size objects with red zones. */
#include "vs.h"
typedef unsigned size_t_;
void* memset(void*, int, unsigned); void* memcpy(void*, void*, unsigned); void* memmove(void*, void*, unsigned); char* memchr(char*, int, unsigned); int memcmp(void*, void*, unsigned);
char* strcpy(char*, char*); char* strncpy(char*, char*, unsigned); unsigned strxfrm(char*, char*, unsigned); char* strcat(char*, char*); char* strncat(char*, char*, unsigned); unsigned strlen(char*); char* strchr(char*, int); char* strrchr(char*, int); char* strstr(char*, char*); unsigned strspn(char*, char*); unsigned strcspn(char*, char*); char* strpbrk(char*, char*); char* strtok(char*, char*); int strcmp(char*, char*); int strncmp(char*, char*, unsigned); int strcoll(char*, char*); char* strerror(int);
#define MAXB 64
typedef struct { unsigned char *base, *p; int off, len; unsigned char old[MAXB]; } buf;
static void fillsym(buf* b) { for (int i = 0; i < b->off + b->len; i++) b->base[i] = b->old[i] = vs_u8("byte"); }
static buf mk(int off, int len) { buf b; b.off = off; b.len = len; b.base = vs_alloc(off + len ? off + len : 1); b.p = b.base + off; if (!(off + len)) vs_poison(b.base, 1); fillsym(&b); return b; }
#define OLD(b, i) ((b).old[(b).off + (i)])
/* a string in an object of exactly len+1 bytes: any of the first len bytes may be zero too */
static buf mkstr(int off, int len) { buf b = mk(off, len + 1); b.p[len] = 0; b.old[off + len] = 0; return b; }
static int slen(buf* b) { int i = 0; while (OLD(*b, i)) i++; return i; }
/* a string of exactly len characters */
static buf mkstrx(int off, int len) { buf b = mkstr(off, len); for (int i = 0; i < len; i++) vs_assume(OLD(b, i) != 0); return b; }
static void same(buf* b, int from, int to, const char* m) { for (int i = from; i < to; i++) vs_assert(b->p[i] == OLD(*b, i), m); }
static void sameall(buf* b, const char* m) { for (int i = 0; i < b->off + b->len; i++) vs_assert(b->base[i] == b->old[i], m); }
static int sgn(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static int insetz(int c, buf* set, int n) { int r = 0; for (int i = 0; i < n; i++) r |= (OLD(*set, i) == (unsigned char)c); return r; }
enum { F_MEMSET, F_MEMCPY, F_MEMMOVE, F_MEMCHR, F_MEMCMP, F_STRCPY, F_STRNCPY, F_STRXFRM, F_STRCAT, F_STRNCAT, F_STRLEN, F_STRCHR, F_STRRCHR, F_STRSTR, F_STRSPN, F_STRPBRK, F_STRTOK, F_STRCMP, F_STRNCMP, F_STRERROR };
int main(void) {
  int fn = vs_param("fn", 0), N = vs_param("N", 4);
  switch (fn) {
  case F_MEMSET: { int off = vs_choice(4, "off"), n = vs_choice(N + 1, "n"), ex = vs_choice(3, "extra"); buf b = mk(off, n + ex); int c = (int)vs_u32("c");
    vs_assert(memset(b.p, c, n) == b.p, "memset returns its first argument"); for (int i = 0; i < n; i++) vs_assert(b.p[i] == (unsigned char)c, "memset stores the byte"); same(&b, -off, 0, "memset wrote before the object"); same(&b, n, n + ex, "memset wrote past n"); if (n) vs_cover("memset"); break; }
  case F_MEMCPY: { int o1 = vs_choice(4, "off1"), o2 = vs_choice(4, "off2"), n = vs_choice(N + 1, "n"), ex = vs_choice(2, "extra"); buf d = mk(o1, n + ex), s = mk(o2, n);
    vs_assert(memcpy(d.p, s.p, n) == d.p, "memcpy returns its first argument"); for (int i = 0; i < n; i++) vs_assert(d.p[i] == OLD(s, i), "memcpy copies every byte"); same(&d, -o1, 0, "memcpy wrote before dst"); same(&d, n, n + ex, "memcpy wrote past n"); sameall(&s, "memcpy modified its source"); if (n) vs_cover("memcpy"); break; }
  case F_MEMMOVE: { int T = vs_param("T", 8); buf b = mk(0, T); int n = vs_choice(T + 1, "n"), s = vs_choice(T - n + 1, "src"), d = vs_choice(T - n + 1, "dst");
    vs_assert(memmove(b.p + d, b.p + s, n) == b.p + d, "memmove returns its first argument"); for (int i = 0; i < T; i++) vs_assert(b.p[i] == (i >= d && i < d + n ? OLD(b, i - d + s) : OLD(b, i)), "memmove moves as if through a copy and touches nothing else"); if (d > s && d < s + n) vs_cover("overlap-up"); if (s > d && s < d + n) vs_cover("overlap-down"); break; }
  case F_MEMCHR: { int n = vs_choice(N + 1, "n"); buf b = mk(0, n); int c = (int)vs_u32("c"); char* r = memchr((char*)b.p, c, n); int e = -1; for (int i = n - 1; i >= 0; i--) if (OLD(b, i) == (unsigned char)c) e = i;
    vs_assert(r == (e < 0 ? 0 : (char*)b.p + e), "memchr finds the first occurrence"); sameall(&b, "memchr modified its argument"); if (e > 0) vs_cover("found"); if (e < 0 && n) vs_cover("absent"); break; }
  case F_MEMCMP: { int n = vs_choice(N + 1, "n"); buf a = mk(vs_choice(2, "off"), n), b = mk(0, n); int r = memcmp(a.p, b.p, n), e = 0; for (int i = n - 1; i >= 0; i--) if (OLD(a, i) != OLD(b, i)) e = OLD(a, i) > OLD(b, i) ? 1 : -1;
    vs_assert(sgn(r) == e, "memcmp orders by the first differing unsigned byte"); sameall(&a, "memcmp modified s1"); sameall(&b, "memcmp modified s2"); if (e) vs_cover("differ"); else vs_cover("equal"); break; }
  case F_STRCPY: { int n = vs_choice(N + 1, "n"), o = vs_choice(2, "off"); buf s = mkstrx(0, n), d = mk(o, n + 1); vs_assert(strcpy((char*)d.p, (char*)s.p) == (char*)d.p, "strcpy returns dst"); for (int i = 0; i <= n; i++) vs_assert(d.p[i] == OLD(s, i), "strcpy copies all characters and the terminator"); same(&d, -o, 0, "strcpy wrote before dst"); sameall(&s, "strcpy modified src"); vs_cover("strcpy");
    break; }
  case F_STRNCPY: { int l = vs_choice(N + 1, "l"), n = vs_choice(N + 2, "n"); buf s = l >= n ? mk(0, n) : mkstr(0, l); buf d = mk(0, n); vs_assert(strncpy((char*)d.p, (char*)s.p, n) == (char*)d.p, "strncpy returns dst"); int z = 0; for (int i = 0; i < n; i++) { unsigned char e = z ? 0 : OLD(s, i); if (!z && !e) z = 1; vs_assert(d.p[i] == e, "strncpy copies up to n characters and pads with zeros"); } sameall(&s, "strncpy modified src"); if (z) vs_cover("pad"); else vs_cover("trunc"); break; }
  case F_STRXFRM: { int l = vs_choice(N + 1, "l"), n = vs_choice(N + 2, "n"); buf s = mkstrx(0, l), d = mk(0, n); unsigned r = strxfrm((char*)d.p, (char*)s.p, n); vs_assert(r == (unsigned)l, "strxfrm returns the length of the transformed string"); if (l < n) { for (int i = 0; i <= l; i++) vs_assert(d.p[i] == OLD(s, i), "strxfrm transforms to the same characters"); same(&d, l + 1, n, "strxfrm wrote past the result"); vs_cover("fits"); } else vs_cover("too long"); sameall(&s, "strxfrm modified src"); break; }
  case F_STRCAT: { int a = vs_choice(N, "a"), b = vs_choice(N, "b"); buf s = mkstrx(0, b), d = mk(1, a + b + 1); for (int i = 0; i < a; i++) vs_assume(OLD(d, i)); d.p[a] = 0; vs_assert(strcat((char*)d.p, (char*)s.p) == (char*)d.p, "strcat returns dst"); same(&d, -1, a, "strcat changed the first string"); for (int i = 0; i <= b; i++) vs_assert(d.p[a + i] == OLD(s, i), "strcat appends"); sameall(&s, "strcat modified src"); if (a && b) vs_cover("strcat"); break; }
  case F_STRNCAT: { int a = vs_choice(N, "a"), l = vs_choice(N, "l"), n = vs_choice(N + 1, "n"); buf s = l >= n ? mk(0, n) : mkstrx(0, l); int m = l < n ? l : n; for (int i = 0; i < m; i++) vs_assume(OLD(s, i)); buf d = mk(1, a + m + 1); for (int i = 0; i < a; i++) vs_assume(OLD(d, i)); d.p[a] = 0; vs_assert(strncat((char*)d.p, (char*)s.p, n) == (char*)d.p, "strncat returns dst"); same(&d, -1, a, "strncat changed the first string"); for (int i = 0; i < m; i++) vs_assert(d.p[a + i] == OLD(s, i), "strncat appends at most n characters"); vs_assert(d.p[a + m] == 0, "strncat terminates"); sameall(&s, "strncat modified src"); if (l > n && n) vs_cover("cut"); if (l < n) vs_cover("whole"); break; }
  case F_STRLEN: { int n = vs_choice(N + 1, "n"); buf s = mkstr(vs_choice(4, "off"), n); int e = 0; while (OLD(s, e)) e++; vs_assert(strlen((char*)s.p) == (unsigned)e, "strlen counts the characters before the terminator"); sameall(&s, "strlen modified"); if (e) vs_cover("strlen"); break; }
  case F_STRCHR: case F_STRRCHR: { int n = vs_choice(N + 1, "n"); buf s = mkstr(0, n); int c = (int)vs_u32("c"); int L = slen(&s), e = -1; char* r; if (fn == F_STRCHR) { for (int i = L; i >= 0; i--) if (OLD(s, i) == (unsigned char)c) e = i; r = strchr((char*)s.p, c); } else { for (int i = 0; i <= L; i++) if (OLD(s, i) == (unsigned char)c) e = i; r = strrchr((char*)s.p, c); }
    vs_assert(r == (e < 0 ? 0 : (char*)s.p + e), fn == F_STRCHR ? "strchr finds the first occurrence" : "strrchr finds the last occurrence"); sameall(&s, "strchr modified"); if (e >= 0 && e < L) vs_cover("found"); if (e < 0) vs_cover("absent"); if (e == L) vs_cover("nul"); break; }
  case F_STRSTR: { int a = vs_choice(N + 1, "a"), b = vs_choice(vs_param("M", 3) + 1, "b"); buf s = mkstrx(0, a), t = mkstrx(0, b); int e = -1; for (int i = a - b; i >= 0; i--) { int m = 1; for (int k = 0; k < b; k++) m &= OLD(s, i + k) == OLD(t, k); if (m) e = i; }
    char* r = strstr((char*)s.p, (char*)t.p); vs_assert(r == (e < 0 ? 0 : (char*)s.p + e), "strstr finds the first occurrence of the substring"); sameall(&s, "strstr modified s"); sameall(&t, "strstr modified substr"); if (e > 0 && b > 1) vs_cover("found"); if (e < 0 && b) vs_cover("absent"); break; }
  case F_STRSPN: { int a = vs_choice(N + 1, "a"), b = vs_choice(N, "b"); buf s = mkstrx(0, a), t = mkstrx(0, b); int e = 0, f = 0; while (e < a && insetz(OLD(s, e), &t, b)) e++; while (f < a && !insetz(OLD(s, f), &t, b)) f++; 
    vs_assert(strspn((char*)s.p, (char*)t.p) == (unsigned)e, "strspn length of the initial segment of accepted characters"); vs_assert(strcspn((char*)s.p, (char*)t.p) == (unsigned)f, "strcspn length of the initial segment without rejected characters"); vs_assert(strpbrk((char*)s.p, (char*)t.p) == (f == a ? 0 : (char*)s.p + f), "strpbrk first character of the set"); sameall(&s, "strspn modified"); sameall(&t, "strspn modified"); if (e > 0 && e < a) vs_cover("span"); if (f > 0 && f < a) vs_cover("cspan"); break; }
  case F_STRTOK: { int a = vs_choice(N + 1, "a"); buf s = mkstrx(0, a); int pos = 0, done = 0; char* arg = (char*)s.p; int T = vs_param("T", 4); buf d[8]; unsigned char ex[MAXB]; for (int i = 0; i <= a; i++) ex[i] = OLD(s, i);
    for (int k = 0; k < T; k++) { int b = vs_choice(3, "nd"); d[k] = mkstrx(0, b); char* r = strtok(arg, (char*)d[k].p); arg = 0; 
      /* reference */ int st = pos; if (!done) { while (st < a && insetz(ex[st], &d[k], b)) st++; }
      if (done || st == a) { vs_assert(r == 0, "strtok returns null when no token is left"); done = 1; vs_cover("null"); }
      else { int en = st; while (en < a && !insetz(ex[en], &d[k], b)) en++; vs_assert(r == (char*)s.p + st, "strtok returns the next token"); if (en < a) { ex[en] = 0; pos = en + 1; } else { pos = a; done = 1; } for (int i = 0; i <= a; i++) vs_assert(s.p[i] == ex[i], "strtok writes exactly the terminator of the token"); if (k) vs_cover("token2"); }
      sameall(&d[k], "strtok modified the delimiters"); } break; }
  case F_STRCMP: { int a = vs_choice(N + 1, "a"), b = vs_choice(N + 1, "b"); buf s = mkstrx(0, a), t = mkstrx(0, b); int e = 0, m = a < b ? a : b; for (int i = m; i >= 0; i--) if (OLD(s, i) != OLD(t, i)) e = OLD(s, i) > OLD(t, i) ? 1 : -1;
    vs_assert(sgn(strcmp((char*)s.p, (char*)t.p)) == e, "strcmp orders by the first differing unsigned character"); vs_assert(sgn(strcoll((char*)s.p, (char*)t.p)) == e, "strcoll orders like strcmp in the C locale"); sameall(&s, "strcmp modified"); sameall(&t, "strcmp modified"); if (e) vs_cover("differ"); else vs_cover("equal"); break; }
  case F_STRNCMP: { int a = vs_choice(N + 1, "a"), b = vs_choice(N + 1, "b"), n = vs_choice(N + 2, "n"); buf s = a >= n ? mk(0, n) : mkstr(0, a), t = b >= n ? mk(0, n) : mkstr(0, b); int e = 0, stop = 0; for (int i = 0; i < n && !stop; i++) { if (OLD(s, i) != OLD(t, i)) { e = OLD(s, i) > OLD(t, i) ? 1 : -1; stop = 1; } else if (!OLD(s, i)) stop = 1; }
    vs_assert(sgn(strncmp((char*)s.p, (char*)t.p, n)) == e, "strncmp compares at most n characters"); sameall(&s, "strncmp modified"); sameall(&t, "strncmp modified"); if (e) vs_cover("differ"); else vs_cover("equal"); break; }
  case F_STRERROR: { int k = vs_range(0, 120, "errno"); char* s = strerror(k); vs_assert(s && s[0], "strerror returns a non-empty string"); int n = 0; while (s[n]) n++; unsigned v = 0, w = 0; vs_assert(n < 64, "strerror text is bounded"); vs_cover("strerror"); break; }
  }
  return 0;
}
