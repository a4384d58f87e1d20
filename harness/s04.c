/* S04: the scanf engine (__doscan) over a modelled stream, against the C definition of an input item: the longest sequence of
   at most width characters which is, or is a prefix of, a matching sequence */
#include "vs.h"
typedef unsigned char uc;
int __doscan(void*, char*, char*);
static uc in[400]; static int n, pos, back = 1; /* back: characters that may be pushed back now */
int fgetc(void* f) { if (pos >= n) { back = 0; return -1; } back = 1; return in[pos++]; }
int ungetc(int c, void* f) { if (c == -1) return -1; vs_assert(back == 1 && pos > 0 && in[pos - 1] == (uc)c, "ungetc is used for something else than the last character read"); back = 0; pos--; return c; }
static int eof(int k) { return k >= n; }
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); } static int dg(int c) { return c >= '0' && c <= '9'; } static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int val(int c) { return dg(c) ? c - '0' : up(c) >= 'A' && up(c) <= 'Z' ? up(c) - 'A' + 10 : 99; }
/* float parts handed over for conversion */
static uc fd[130]; static int fdn, fexp, fcalls; 
unsigned __cvtfd(uc* d, int cnt, int e) { fcalls++; fdn = cnt; fexp = e; vs_assert(cnt >= 1 && cnt <= 112, "wrong number of digits"); for (int i = 0; i < cnt; i++) fd[i] = d[i]; return 0x40490fdbu; }
static char fmt[64]; static int fn; static void f(int c) { fmt[fn++] = (char)c; }
static void* args[8]; static int na;
enum { OK, NOMATCH, INPUT }; /* results of a directive in the oracle */
static int width, assign, p; /* p: characters consumed so far */
static void skip(void) { while (!eof(p) && sp(in[p])) p++; }
static int room(int from) { return width < 0 || p - from < width; }
#define CH (eof(p) || !room(st) ? -1 : in[p])
static unsigned want; static int neg;
static int number(int conv) { skip(); if (eof(p)) return INPUT; int st = p, base = conv == 'd' || conv == 'u' ? 10 : conv == 'o' ? 8 : conv == 'i' ? 0 : 16, got = 0; want = 0; neg = 0;
  int c = CH; if (c == '+' || c == '-') neg = c == '-', p++; c = CH; if (c == '0' && (base == 0 || base == 16)) { p++; got = 1; c = CH; if (up(c) == 'X') { p++; got = 0; base = 16; } else if (!base) base = 8; } if (!base) base = 10;
  for (;;) { c = CH; if (c < 0) break; int d = val(c); if (d >= base) break; p++; got = 1; want = want * (unsigned)base + (unsigned)d; } return got ? OK : NOMATCH; }
static uc xd[400]; static int xn, xe, kind; static int ee, eneg;
static int real(void) { skip(); if (eof(p)) return INPUT; int st = p, c, got = 0, dot = 0; neg = 0; xn = xe = ee = eneg = kind = 0; c = CH; if (c == '+' || c == '-') neg = c == '-', p++; c = up(CH);
  if (c == 'I' || c == 'N') { const char* w = c == 'I' ? "INFINITY" : "NAN"; int k = 0; while (w[k] && up(CH) == w[k]) k++, p++; kind = w[0]; if (!w[k] || k == 3) { if (w[0] == 'N') vs_assume(CH != '('); return OK; } return NOMATCH; }
  for (;;) { c = CH; if (c == '.' && !dot) { dot = 1; p++; continue; } if (c < 0 || !dg(c)) break; p++; got = 1; if (xn || c != '0') { xd[xn++] = (uc)(c - '0'); } if (dot) xe--; }
  if (!got) return NOMATCH; if (up(CH) == 'E') { p++; c = CH; if (c == '+' || c == '-') eneg = c == '-', p++; int g = 0; while ((c = CH) >= 0 && dg(c)) p++, g = 1, ee = ee * 10 + c - '0'; if (!g) return NOMATCH; } return OK; }
int main(void) {
  int mode = vs_param("mode", 0), conv = vs_param("conv", 'd'), i, j; n = vs_param("n", 4); if (vs_param("anylen", 1)) n = vs_choice(n + 1, "length");
  int pre = vs_param("pre", 0); /* long fixed digits before the symbolic part */
  for (i = 0; i < n; i++) in[i] = vs_u8("in"); 
  if (vs_param("digits", 0)) { int L = vs_param("digits", 0), at = vs_choice(4, "point"), q = n; at = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? L - 3 : L; for (i = n; i-- > 0;) in[L + 1 + i] = in[i]; for (i = j = 0; i <= L; i++) in[i] = i == at ? '.' : (uc)('1' + j++ % 9); n = L + 1 + q; if (vs_choice(2, "minus")) { for (i = n; i > 0; i--) in[i] = in[i - 1]; in[0] = '-'; n++; } }
  int dirs = 0, res = OK, done = 0, loose = 0, r; p = 0;
  static const int ws[] = {-1, 1, 2, 3, 5};
  width = ws[vs_choice(vs_param("nw", 5), "width")]; assign = !vs_choice(2, "suppress");
  if (mode == 2) { /* literals and white space, then %n */
    static const char* F[] = {" ", "a", "ab", " a", "a ", "a b", "%%", "a%%", "%%b", "  \t%%", ""}; const char* s = F[vs_choice(11, "format")]; for (; *s; s++) f(*s); if (vs_choice(2, "n")) f('h'), fn--; f('%'); f('n'); int* q = vs_alloc(sizeof(int)); *q = -77; args[na++] = q; f(0);
    for (i = 0; fmt[i] && !(fmt[i] == '%' && fmt[i + 1] == 'n'); i++) { if (sp(fmt[i])) { skip(); continue; } if (fmt[i] == '%') { i++; skip(); } if (eof(p)) { res = INPUT; break; } if (in[p] != (uc)fmt[i]) { res = NOMATCH; break; } p++; }
    r = __doscan(0, fmt, (char*)args); if (res == OK) { vs_assert(r == 0, "the number of assignments is wrong"); vs_assert(*q == p, "%n stores a wrong count"); vs_cover("n"); } else { vs_assert(r == (res == INPUT ? -1 : 0), "a failing literal gives a wrong result"); vs_assert(*q == -77, "%n stores after a failure"); vs_cover("failure"); }
    vs_assert(pos == p, "the wrong number of characters is consumed"); return 0; }
  int first = mode == 3; /* a %d in front */
  int *q0 = 0; int ok0 = 1; unsigned w0 = 0;
  if (first) { f('%'); f('d'); q0 = vs_alloc(sizeof(int)); *q0 = 0x5555; args[na++] = q0; int sw = width; width = -1; res = number('d'); width = sw; if (res == OK) done++, w0 = neg ? 0u - want : want; else if (res == NOMATCH && eof(p)) loose = 1; }
  f('%'); if (!assign) f('*'); if (width > 0) f('0' + width);
  int lm = 0; char set[4]; int ex = 0, sn = 0, len = 0; uc* sb = 0; int bl = width > 0 ? width : n; void* q = 0; int qs = 0, st0;
  int isnum = conv != 'c' && conv != 's' && conv != '[' && conv != 'e';
  if (isnum && conv != 'p') { lm = vs_choice(vs_param("lm", 4), "modifier"); if (lm == 1) f('h'), f('h'); if (lm == 2) f('h'); if (lm == 3) f("jztl"[vs_choice(sizeof(int) == 2 ? 3 : 4, "which")]); }
  if (conv == 'e') { static const char L[] = "efgEFG"; f(L[vs_choice(vs_param("letters", 6), "letter")]); } else if (conv == 'x') f(vs_choice(2, "X") ? 'X' : 'x'); else f(conv);
  if (conv == '[') { static const char* S[] = {"a]", "ab]", "^a]", "]a]", "^]a]", "^^]", "a^]"}; const char* s = S[vs_choice(7, "set")]; for (i = 0; s[i]; i++) f(s[i]); if (*s == '^') ex = 1, s++; do set[sn++] = *s++; while (*s != ']'); }
  if (assign) { if (conv == 'c') { sb = vs_alloc(width > 0 ? width : 1); args[na++] = sb; } else if (conv == 's' || conv == '[') { sb = vs_alloc((bl < n ? bl : n) + 1); args[na++] = sb; } else { qs = conv == 'e' || lm == 0 || lm == 3 ? (int)sizeof(unsigned) : lm == 2 ? 2 : 1; if (conv == 'e') qs = 4; q = vs_alloc(qs); for (i = 0; i < qs; i++) ((uc*)q)[i] = 0x5a; args[na++] = q; } }
  f('|'); f('%'); f('n'); int* qn = vs_alloc(sizeof(int)); *qn = -77; args[na++] = qn; f(0);
  /* what should happen */
  int item = p; if (res == OK) {
    if (isnum) res = number(conv); else if (conv == 'e') res = real();
    else { if (conv == 's') skip(); if (eof(p)) res = INPUT; else { int w = width < 0 ? (conv == 'c' ? 1 : 9999) : width; item = p;
      while (!eof(p) && len < w) { int c = in[p], in1 = 1; if (conv == 's') in1 = !sp(c); if (conv == '[') { in1 = 0; for (i = 0; i < sn; i++) if ((uc)set[i] == c) { in1 = 1; break; } in1 ^= ex; } if (!in1) break; p++; len++; }
      if (conv == 'c' ? len < w : len == 0) res = NOMATCH; } }
    if (res == NOMATCH && eof(p)) loose = 1; /* the input ends inside an item: both answers are accepted */
    if (res == OK && assign) done++; if (res == OK) dirs = 1; }
  int nres = res, np = 0; if (res == OK) { if (eof(p)) nres = INPUT; else if (in[p] != '|') nres = NOMATCH; else { p++; np = 1; } }
  r = __doscan(0, fmt, (char*)args);
  vs_assert(pos == p, "the wrong number of characters is consumed");
  if (nres == INPUT && done == 0) vs_assert(r == -1 || (dirs && r == 0), "input failure before the first conversion does not give EOF"); else if (loose && done == 0) vs_assert(r == 0 || r == -1, "the number of assignments is wrong"); else vs_assert(r == done, "the number of assignments is wrong");
  vs_assert(np ? *qn == p : *qn == -77, "%n stores a wrong count"); if (np) vs_cover("n");
  if (first && done) vs_assert((unsigned)*q0 == w0, "the first value is wrong");
  if (res != OK) { vs_cover(res == INPUT ? "input failure" : "no match"); if (q) for (i = 0; i < qs; i++) vs_assert(((uc*)q)[i] == 0x5a, "a value is stored although nothing matched"); return 0; }
  if (!assign) { vs_cover("suppressed"); return 0; } vs_cover("stored");
  if (sb) { for (i = 0; i < len; i++) vs_assert(sb[i] == in[item + i], "a wrong character is stored"); if (conv != 'c') vs_assert(sb[len] == 0, "the stored text is not terminated"); return 0; }
  if (isnum) { unsigned v = neg ? 0u - want : want; unsigned got = qs == 1 ? *(uc*)q : qs == 2 ? *(unsigned short*)q : *(unsigned*)q; if (qs == 1) v &= 255; if (qs == 2) v &= 65535; vs_assert(got == v, "a wrong value is stored"); return 0; }
  unsigned bits = *(unsigned*)q; vs_assert(kind == 'N' || (int)(bits >> 31) == neg, "the sign is wrong"); bits &= 0x7fffffffu;
  if (kind == 'I') { vs_assert(bits == 0x7f800000u, "infinity is stored wrongly"); vs_cover("infinity"); return 0; } if (kind == 'N') { vs_assert(bits > 0x7f800000u, "NaN is stored wrongly"); vs_cover("nan"); return 0; }
  vs_assert(fcalls == 1, "the number is converted several times"); vs_assert(bits == 0x40490fdbu, "the converted number is not what is stored");
  /* the first 112 significant digits count */
  int cut = xn > 112 ? xn - 112 : 0; xn -= cut; xe += cut; while (xn > 0 && xd[xn - 1] == 0) xn--, xe++;
  if (xn == 0) { vs_assert(fdn == 1 && fd[0] == 0, "zero is converted wrongly"); vs_cover("zero"); return 0; }
  while (fdn > 1 && fd[fdn - 1] == 0) fdn--, fexp++;
  vs_assert(fdn == xn, "the digits of the number are wrong"); for (i = 0; i < xn; i++) vs_assert(fd[i] == xd[i], "the digits of the number are wrong"); vs_assert(fexp == xe + (eneg ? -ee : ee), "the decimal exponent of the number is wrong"); vs_cover("number"); return 0; }
