/* C02: decimal floating literals. mode 0: small numbers, every digit symbolic, against one IEEE division/multiplication;
   mode 1: literals next to the midpoint of two neighbouring floats (exact decimal expansions, symbolic digits around the end). */
#include "cc.h"
static vu8 rng(const char* nm, int lo, int hi) { return (vu8)vs_range(lo, hi, nm); }
static char lit[400]; static int ln; static void lc(int c) { lit[ln++] = (char)c; lit[ln] = 0; }
static vu8 dg[300]; static int nd, dexp; /* value = dg[0..nd) as an integer * 10^dexp */
static void lnum(int v) { if (v < 0) { lc('-'); v = -v; } char t[8]; int n = 0; do t[n++] = '0' + v % 10; while (v /= 10); while (n) lc(t[--n]); }
/* writes the digits in one of the ways C allows */
static void put(int form) { int e = dexp; switch (form) {
  case 0: lc(dg[0] + '0'); lc('.'); for (int i = 1; i < nd; i++) lc(dg[i] + '0'); lc('e'); lnum(e + nd - 1); break;
  case 1: if (e >= 0) { for (int i = 0; i < nd; i++) lc(dg[i] + '0'); for (int i = 0; i < e; i++) lc('0'); lc('.'); } else if (-e < nd) { for (int i = 0; i < nd; i++) { if (i == nd + e) lc('.'); lc(dg[i] + '0'); } } else { lc('0'); lc('.'); for (int i = 0; i < -e - nd; i++) lc('0'); for (int i = 0; i < nd; i++) lc(dg[i] + '0'); lc('0'); } break;
  case 2: lc('0'); lc('0'); for (int i = 0; i < nd; i++) lc(dg[i] + '0'); lc('E'); if (e >= 0) lc('+'); lnum(e); break;
  case 3: lc('.'); lc('0'); for (int i = 0; i < nd; i++) lc(dg[i] + '0'); lc('e'); if (e + nd + 1 >= 0) lc('+'); if (e + nd + 1 < 0) { lc('-'); lc('0'); lnum(-(e + nd + 1)); } else lnum(e + nd + 1); lc('F'); break;
  case 4: for (int i = 0; i < nd; i++) lc(dg[i] + '0'); lc('0'); lc('0'); lc('.'); lc('0'); lc('e'); lnum(e - 2); lc('l'); break; } }
static vu32 result(void) { cs("float x = "); cs(lit); cs(";\n"); vs_sample(csrc); int rc = cc_compile(); if (rc) { h_out[h_outn] = 0; vs_log(csrc); vs_log(h_out); vs_assert(0, "a valid floating literal is rejected"); vs_stop(); } m_load(); return m_get(m_sym("x"), 4); }
static void small(void) { nd = vs_param("nd", 3); int E = -vs_param("lo", 10) + vs_choice(vs_param("lo", 10) + vs_param("hi", 10) + 1, "exponent"); int conc = vs_param("conc", 0); vu32 n = 0; for (int i = 0; i < nd; i++) { dg[i] = i < conc ? (7 * i + 3) % 10 : rng("digit", i == 0, 9); n = n * 10 + dg[i]; } dexp = E; put(vs_choice(vs_param("forms", 5), "form"));
  vu32 got = result(); static const vu64 p10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000ull};
  /* got = m * 2^e is the nearest float: n * 10^E lies between the midpoints to its neighbours (on one only if m is even) */
  vs_assert(got != 0 && got < 0x7f800000, "value of a floating literal"); int ex = (int)vs_concretize(got >> 23); vu64 m = (got & 0x7fffff) | 0x800000; int e = ex - 150; vu64 x = n, d = 1; if (E < 0) d = p10[-E]; else x *= p10[E];
  int sh = 2 - e; if (sh >= 0) { vs_assert(sh < 62 && (x >> (63 - sh)) == 0, "value of a floating literal"); x <<= sh; } else { d <<= -sh; }
  vu64 hi = (4 * m + 2) * d, lw = (4 * m - vs_ite(m == 0x800000, 1, 2)) * d; int ev = !(m & 1);
  vs_assert((x < hi || (ev && x == hi)) && (x > lw || (ev && x == lw)), "value of a floating literal"); vs_cover("literal"); vs_stop(); }
/* the midpoint between m*2^e and (m+1)*2^e, exactly */
static void mid(vu32 m, int e) { vu64 v = 2 * (vu64)m + 1; e--; vu8 r[300]; int n = 0; while (v) { r[n++] = v % 10; v /= 10; } dexp = 0; /* little endian */
  for (; e > 0; e--) { int c = 0; for (int i = 0; i < n; i++) { int t = r[i] * 2 + c; r[i] = t % 10; c = t / 10; } if (c) r[n++] = c; }
  for (; e < 0; e++) { int c = 0; for (int i = 0; i < n; i++) { int t = r[i] * 5 + c; r[i] = t % 10; c = t / 10; } while (c) r[n++] = c % 10, c /= 10; dexp--; }
  int z = 0; while (z < n - 1 && !r[z]) z++; dexp += z; nd = 0; for (int i = n - 1; i >= z; i--) dg[nd++] = r[i]; }
static void midpoints(void) { static const struct { vu32 m; int e; } P[] = {{0, -149}, {1, -149}, {2, -149}, {0x7fffff, -149}, {0x7ffffe, -149}, {0x800000, -149}, {0xffffff, -149}, {0x800000, 0}, {0x800001, 0}, {0xffffff, 0}, {0xfffffe, -1}, {0xabcdef, -24}, {0xffffff, -24}, {0xa00000, -40}, {0x923457, 3}, {0x800001, 30}, {0xffffff, 60}, {0x8f0f0f, 80}, {0xfffffe, 104}, {0xffffff, 104}, {0xc00001, 104}, {0x999999, -100}, {0x123456, -149}, {0x400001, -149}, {0xfedcbb, -126}};
  int k = vs_choice(sizeof P / sizeof *P, "point"); mid(P[k].m, P[k].e); vu32 lo = P[k].m < 0x800000 ? P[k].m : ((vu32)(P[k].e + 150) << 23 | (P[k].m & 0x7fffff)); int full = nd, var = vs_choice(vs_param("vars", 5), "variation"), c = 0; /* c: sign of literal - midpoint */
  if (full > 112) vs_assume(0);
  switch (var) {
  case 0: break;
  case 1: { if (nd < 2) vs_assume(0); int i = nd - 1; vu8 d = rng("digit", 0, 9); int o = dg[i]; dg[i] = d; c = d < o ? -1 : d > o; break; }
  case 2: { if (nd > 111) vs_assume(0); dg[nd++] = rng("digit", 0, 9); dexp--; c = dg[nd - 1] != 0; break; }
  case 3: { int t = ((const int[]){1, 4, 8, 9, 10, 17, 40})[vs_choice(7, "cut")]; if (t >= nd) vs_assume(0); vu8 o = dg[t - 1]; dexp += nd - t; nd = t; vu8 d = rng("digit", t == 1, 9); dg[t - 1] = d; c = d > o ? 1 : -1; break; }
  case 4: { int q = vs_choice(2, "sticky"); int z = ((const int[]){3, 40})[q]; if (nd + z > 112) { z = 112 - nd; if (z < 1) vs_assume(0); } for (int i = 1; i < z; i++) dg[nd++] = 0; dg[nd++] = rng("digit", 0, 9); dexp -= z; c = dg[nd - 1] != 0; break; } }
  int form = vs_choice(vs_param("forms", 5), "form"); if (form == 4 && nd > 110) form = 0; put(form);
  vu32 got = result();
  if (var == 3) { vs_assert(c > 0 ? got > lo : got <= lo, "a literal is rounded past a representable neighbour"); /* only the side is known */ }
  else { vu32 want = c > 0 ? lo + 1 : c < 0 ? lo : lo + (lo & 1); if (var == 1) vs_assert(got == want || full < 9, "value of a floating literal next to a midpoint"); else vs_assert(got == want, "value of a floating literal next to a midpoint"); if (var == 1 && full < 9) vs_assert(c > 0 ? got > lo : c < 0 ? got <= lo : got == want, "a literal is rounded past a representable neighbour"); }
  vs_cover("literal"); vs_stop(); }
/* overflow, underflow, zeros, malformed */
static void limits(void) { int k = vs_choice(8, "kind"); vu32 want = 0; int rej = 0, either = 0; vu8 d = rng("digit", '1', '9'), d2 = rng("digit", '0', '9');
  switch (k) { case 0: lc(d); lc('.'); lc(d2); lc('e'); lc('3' + vs_choice(3, "e") * 2); lc('9'); want = 0x7f800000; break; /* at least 1e39 */
  case 1: lc(d); lc('e'); for (const char* s = ((const char* const[]){"100", "999", "32767", "65536", "2147483647"})[vs_choice(5, "e")]; *s; s++) lc(*s); want = 0x7f800000; either = 1; break;
  case 2: lc('0'); lc('.'); lc(d2); lc('e'); for (const char* s = ((const char* const[]){"-46", "-47", "-99", "-32768", "-2147483647"})[vs_choice(5, "e")]; *s; s++) lc(*s); want = 0; break; /* at most 0.9e-46: below half of the least */
  case 3: for (const char* s = ((const char* const[]){"0.", ".0", "0e0", "0.0", "00.00e5", "0e-99", "0.e99f", "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000.0"})[vs_choice(8, "zero")]; *s; s++) lc(*s); want = 0; break;
  case 4: for (const char* s = ((const char* const[]){"1e", "1.e", "1e+", ".5e-", "1.5x", "1.5ff", "1.5u", "0x1.8", "1.5lf", "1e5.0"})[vs_choice(10, "malformed")]; *s; s++) lc(*s); rej = 1; break;
  case 5: lc(d); for (int i = 0; i < 130; i++) lc(i == 60 ? '.' : '0'); lc('e'); lc('-'); lc('6'); lc('0'); want = asu((float)(d - '0')); break; /* zeros beyond the digit limit */
  case 6: for (int i = 0; i < 130; i++) lc('0'); lc(d); for (int i = 0; i < 130; i++) lc('0'); lc('e'); lc('-'); lc('1'); lc('3'); lc('0'); want = asu((float)(d - '0')); break;
  case 7: lc('.'); for (int i = 0; i < 130; i++) lc('0'); lc(d); lc('e'); lc('+'); lc('0'); lc('1'); lc('3'); lc('1'); want = asu((float)(d - '0')); break; }
  cs("float x = "); cs(lit); cs(";\n"); vs_sample(csrc); int rc = cc_compile(); if (rej) { vs_assert(rc != 0, "a malformed floating literal is accepted"); vs_cover("rejected"); vs_stop(); } if (rc && either) vs_stop(); if (rc) { vs_log(csrc); vs_assert(0, "a valid floating literal is rejected"); vs_stop(); }
  m_load(); vs_assert(m_get(m_sym("x"), 4) == want, "value of a floating literal at the limits"); vs_cover("literal"); vs_stop(); }
int main(void) { tgt = vs_param("tgt", TG_32); switch (vs_param("mode", 0)) { case 0: small(); case 1: midpoints(); case 2: limits(); } return 0; }
