/* S03: the printf family against the C definition of each directive */
#include "vs.h"
typedef __UINT32_TYPE__ u; 
int vsnprintf(char*, unsigned, char*, char*), vsprintf(char*, char*, char*), sprintf(char*, char*, ...), snprintf(char*, unsigned, char*, ...);
static unsigned char E[256]; static int en; static void pc(int c) { E[en++] = (unsigned char)c; }
static void rep(int c, int n) { while (n-- > 0) pc(c); }
static const char* DL = "0123456789abcdef"; static const char* DU = "0123456789ABCDEF";
static void num(unsigned v, int neg, int conv, int left, int plus, int space, int alt, int zero, int width, int prec) {
  unsigned base = conv == 'o' ? 8 : conv == 'x' || conv == 'X' || conv == 'p' ? 16 : 10; const char* D = conv == 'X' ? DU : DL; unsigned char d[16]; int n = 0; unsigned t = v;
  while (t) { d[n++] = D[t % base]; t /= base; } if (n == 0 && prec != 0) d[n++] = '0';
  int z = prec > n ? prec - n : 0; if (conv == 'o' && alt && z == 0 && !(n == 1 && v == 0)) z = 1; if (conv == 'o' && alt && n && v == 0) z = prec > n ? prec - n : 0;
  int sg = conv == 'd' ? (neg ? '-' : plus ? '+' : space ? ' ' : 0) : 0, px = (conv == 'x' || conv == 'X') && alt && v != 0;
  int len = z + n + (sg != 0) + 2 * px, pad = width > len ? width - len : 0; if (prec >= 0 || left) zero = 0;
  if (!left && !zero) rep(' ', pad); if (sg) pc(sg); if (px) pc('0'), pc(conv); if (zero) rep('0', pad); rep('0', z); while (n) pc(d[--n]); if (left) rep(' ', pad); }
static char fmt[40]; static int fn; static void f(int c) { fmt[fn++] = (char)c; }
static int args[8], na;
static void fnum(int n) { if (n >= 10) f('0' + n / 10); f('0' + n % 10); }
#if __SIZEOF_INT__ == 2
#define S32(n) ((int)vs_u16(n))
#else
#define S32(n) ((int)vs_u32(n))
#endif
static void directive(int conv, int kind) {
  int left, plus, space, alt, zero, width = 0, prec = -1; static const char fl[] = "-+ #0"; int fs = vs_choice(32, "flags"); int order = (fs == 17 || fs == 6) ? vs_choice(2, "order") : 0;
  if (conv == 'c' || conv == 's' || conv == 'p') vs_assume((fs & ~1) == 0);
  if (conv == 'u' || conv == 'd') vs_assume(!(fs & 8)); 
  f('%'); for (int i = 0; i < 5; i++) if (fs >> (order ? 4 - i : i) & 1) f(fl[order ? 4 - i : i]);
  left = fs & 1; plus = fs >> 1 & 1; space = fs >> 2 & 1; alt = fs >> 3 & 1; zero = fs >> 4 & 1;
  static const int ws[] = {-1, 14, 5, 100, 101}; int w = ws[vs_choice(vs_param("nw", 5), "width")]; if (w > 99) { f('*'); width = w == 101 ? -(3 + (int)vs_choice(2, "negwidth") * 9) : (int)vs_choice(2, "starwidth") * 6; args[na++] = width; if (width < 0) left = 1, width = -width; } else if (w > 0) { fnum(w); width = w; }
  if (conv != 'c') { static const int ps[] = {-1, 50, 3, 12, 0, 100, 101}; int p = ps[vs_choice(kind ? vs_param("np", 7) : 1, "prec")]; if (p == 50) { f('.'); prec = 0; } else if (p == 100) { f('.'); f('*'); prec = vs_choice(2, "starprec") * 4; args[na++] = prec; } else if (p == 101) { f('.'); f('*'); args[na++] = -(int)vs_range(1, 100, "negprec"); prec = -1; } else if (p >= 0) { f('.'); fnum(p); prec = p; } }
  if (conv == 'c') { int ch = S32("ch"); args[na++] = ch; f('c'); if (!left) rep(' ', width - 1); pc((unsigned char)ch); if (left) rep(' ', width - 1); vs_cover("c"); return; }
  if (conv == 's') { int sl = vs_choice(5, "slen"), nt = prec < 0 || prec > sl || vs_choice(2, "nul"); char* s = vs_alloc(sl + nt + !(sl + nt)); for (int i = 0; i < sl; i++) { s[i] = (char)vs_u8("s"); vs_assume(s[i] != 0); } if (nt) s[sl] = 0; args[na++] = (int)(__INTPTR_TYPE__)s; f('s'); int l = prec >= 0 && prec < sl ? prec : sl; if (!left) rep(' ', width - l); for (int i = 0; i < l; i++) pc(s[i]); if (left) rep(' ', width - l); vs_cover("s"); return; }
  int lm = conv == 'p' ? 0 : vs_choice(vs_param("lm", 4), "length"); if (lm == 1) f('h'); if (lm == 2) f('h'), f('h'); if (lm == 3) { static const char L[] = "jztl"; f(L[vs_choice(sizeof(int) == 2 ? 3 : 4, "lenmod")]); }
  int v = S32("v"); args[na++] = v; f(conv == 'd' && vs_choice(2, "i") ? 'i' : conv); unsigned m = (unsigned)v; int neg = 0;
  if (conv == 'd') { int q = lm == 1 ? (short)v : lm == 2 ? (signed char)v : v; neg = vs_choice(2, "negative"); vs_assume(neg == (q < 0)); if (neg) m = 0u - (unsigned)q; else m = (unsigned)q; } else m = lm == 1 ? (unsigned short)v : lm == 2 ? (unsigned char)v : m;
  num(m, neg, conv, left, plus, space, alt, zero, width, prec); vs_cover("number"); }
static void compare(const char* b, int n, const char* what) { for (int i = 0; i < n; i++) vs_assert((unsigned char)b[i] == E[i], what); }
int main(void) {
  int mode = vs_param("mode", 0); char* b;
  if (mode == 0) { f('a'); pc('a'); directive(vs_param("conv", 'd'), 1); f('b'); pc('b'); f(0); pc(0); b = vs_alloc(en); int r = vsprintf(b, fmt, (char*)args); vs_assert(r == en - 1, "return value is not the length written"); compare(b, en, "formatted text"); return 0; }
  if (mode == 1) { /* every size limit: truncation, no overrun, full length returned */
    static const char* const F[] = {"%d,%s;%x", "%5d%%%-4s|%#o", "%c%c%05d", "", "abc", "%.3s%n%d"}; int k = vs_choice(6, "fmt"); int v1 = vs_param("small", 1) ? (int)vs_range(0, 1200, "v1") - 600 : 0; char s[4] = "xyz"; int got = -1;
    if (k == 0) { args[0] = v1; args[1] = (int)(__INTPTR_TYPE__)s; args[2] = v1; num(v1 < 0 ? -v1 : v1, v1 < 0, 'd', 0, 0, 0, 0, 0, 0, -1); pc(','); pc('x'); pc('y'); pc('z'); pc(';'); num(v1, 0, 'x', 0, 0, 0, 0, 0, 0, -1); }
    else if (k == 1) { args[0] = v1; args[1] = (int)(__INTPTR_TYPE__)s; args[2] = v1; num(v1 < 0 ? -v1 : v1, v1 < 0, 'd', 0, 0, 0, 0, 0, 5, -1); pc('%'); pc('x'); pc('y'); pc('z'); pc(' '); pc('|'); num(v1, 0, 'o', 0, 0, 0, 1, 0, 0, -1); }
    else if (k == 2) { args[0] = vs_u8("c0"); args[1] = vs_u8("c1"); args[2] = v1; pc(args[0]); pc(args[1]); num(v1 < 0 ? -v1 : v1, v1 < 0, 'd', 0, 0, 0, 0, 1, 5, -1); }
    else if (k == 4) { pc('a'); pc('b'); pc('c'); } else if (k == 5) { args[0] = (int)(__INTPTR_TYPE__)s; args[1] = (int)(__INTPTR_TYPE__)&got; args[2] = v1; pc('x'); pc('y'); pc('z'); num(v1 < 0 ? -v1 : v1, v1 < 0, 'd', 0, 0, 0, 0, 0, 0, -1); }
    unsigned N = vs_choice(20, "size"); b = vs_alloc(N ? N : 1); if (!N) { b[0] = 77; } int r = vsnprintf(b, N, (char*)F[k], (char*)args); vs_assert(r == en, "snprintf must return the untruncated length"); if (!N) vs_assert(b[0] == 77, "snprintf of size 0 wrote"); else { int m = en < (int)N - 1 ? en : (int)N - 1; compare(b, m, "truncated text"); vs_assert(b[m] == 0, "snprintf terminator"); } if (k == 5) vs_assert(got == 3, "%n"); vs_cover(en < (int)N ? "fits" : "truncated"); return 0; }
  if (mode == 2) { /* two directives in a row, argument consumption */
    directive(vs_choice(2, "c1") ? 'u' : 's', 0); directive(vs_choice(2, "c2") ? 'c' : 'x', 0); f(0); pc(0); b = vs_alloc(en); int r = vsprintf(b, fmt, (char*)args); vs_assert(r == en - 1, "return value"); compare(b, en, "formatted text"); vs_cover("two"); return 0; }
  if (mode == 3) { int v = S32("v"); int ng = vs_choice(2, "negative"); vs_assume(ng == (v < 0)); unsigned mv; if (ng) mv = 0u - (unsigned)v; else mv = (unsigned)v; num(mv, ng, 'd', 0, 0, 0, 0, 0, 0, -1); pc('/'); num(v, 0, 'X', 0, 0, 0, 0, 1, 9, -1); pc(0); b = vs_alloc(en); int r = vs_choice(2, "fn") ? sprintf(b, "%d/%09X", v, v) : snprintf(b, en, "%d/%09X", v, v); vs_assert(r == en - 1, "sprintf length"); compare(b, en, "sprintf text"); vs_cover("sprintf"); return 0; }
  return 0; }
