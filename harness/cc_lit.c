/* C10/C11: literals with symbolic characters. mode 0 integer literals, 1 malformed numbers, 2 character constants, 3 string literals. */
#include "cc.h"
static int wsz = 2; /* size of wchar_t */
static vu8 rng(const char* nm, int lo, int hi) { return (vu8)vs_range(lo, hi, nm); }
static vu32 lim, slim;
static int has(const char* n) { char b[64]; b[0] = '_'; strcpy(b + 1, n); return x_find(b) >= 0; }
/* ---- integer literals */
static const char* const suf[] = {"", "u", "U", "l", "L", "ul", "UL", "Lu", "lU", "ll", "uu", "lul", "LL", "ull"};
static int sufu(int k) { return k == 1 || k == 2 || (k >= 5 && k <= 8); } static int sufl(int k) { return k >= 3 && k <= 8; } static int sufbad(int k) { return k >= 9; }
static char lit[80]; static int ln;
static void lc(int c) { lit[ln++] = (char)c; lit[ln] = 0; }
static void integers(void) { int radix = vs_choice(4, "radix"), mx[] = {10, 12, 9, 9}, nd = 1 + vs_choice(vs_param("maxd", 12), "digits"); if (nd > mx[radix] + (W == 2 ? -4 : 0)) vs_assume(0); int sk = vs_choice(14, "suffix"); vu64 v = 0; vu32 w = 0; int lz = vs_choice(2, "leading zeros");
  if (radix == 0) { if (lz) vs_assume(0); for (int i = 0; i < nd; i++) { vu8 c = rng("digit", i == 0 ? '1' : '0', '9'); lc(c); v = v * 10 + (c - '0'); w = w * 10 + (vu8)(c - '0'); } }
  else if (radix == 1) { lc('0'); if (lz) lc('0'), lc('0'); for (int i = 0; i < nd; i++) { vu8 c = rng("digit", i == 0 ? '1' : '0', '7'); lc(c); v = v * 8 + (c - '0'); w = w * 8 + (vu8)(c - '0'); } }
  else { lc('0'); lc(radix == 2 ? 'x' : 'X'); if (lz) for (int i = 0; i < 9; i++) lc('0'); int l1 = vs_choice(nd + 1, "letter"); for (int i = 0; i < nd; i++) { vu8 c; int d; if (i == l1) { if (radix == 2) c = rng("digit", 'a', 'f'), d = c - 'a' + 10; else c = rng("digit", 'A', 'F'), d = c - 'A' + 10; } else if (i == l1 + 2) c = 'f', d = 15; else c = rng("digit", i == 0 ? '1' : '0', '9'), d = c - '0'; lc(c); v = v * 16 + (vu64)d; w = w * 16 + (vu32)d; } }
  for (const char* s = suf[sk]; *s; s++) lc(*s);
  cs("unsigned x = "); cs(lit); cs(";\nint neg = ("); cs(lit); cs(") * 0 - 1 < 0;\nint sz = sizeof("); cs(lit); cs(");\n"); vs_sample(csrc);
  int rc = cc_compile(); int u = sufu(sk), bad = sufbad(sk) || (W == 2 && sufl(sk)); if (!bad) { if (v > lim) bad = 1; else if (radix == 0 && !u && v > slim) bad = 1; }
  if (bad) { vs_assert(rc != 0, "an integer literal that has no type or a bad suffix is accepted"); vs_cover("rejected"); vs_stop(); }
  if (rc) { h_out[h_outn] = 0; vs_log(csrc); vs_log(h_out); vs_assert(0, "a valid integer literal is rejected"); vs_stop(); } m_load();
  vs_assert(m_get(m_sym("x"), W) == w, "value of an integer literal"); int isu = u; if (!u) isu = v > slim; vs_assert(m_get(m_sym("neg"), W) == (vu32)(isu ? 0 : 1), "signedness of an integer literal"); vs_assert(m_get(m_sym("sz"), W) == (vu32)W, "size of an integer literal"); vs_cover("literal"); vs_stop(); }
static void malformed(void) { static const char* const pre[] = {"0", "7", "12", "0x", "0X", "0x1", "017", "0xfg", "1u", "1l", "3ul", "1lu", "0x7u", "08", "019", "0b1", "1.", "1.5", "1e", "1e+", "1e5", ".5", "1.5f", "0x1p", "1.e-", "00x1", "1.2.3", "0.e"}; int k = vs_choice(sizeof pre / sizeof *pre, "prefix"); int cl = vs_choice(5, "class"); vu8 c = cl == 0 ? rng("c", '0', '9') : cl == 1 ? rng("c", 'a', 'z') : cl == 2 ? rng("c", 'A', 'Z') : cl == 3 ? '_' : '.';
  const char* p = pre[k]; int n = (int)strlen(p), ok = 0, isfl = 0; for (int i = 0; i < n; i++) if (p[i] == '.' || ((p[i] | 32) == 'e' && k != 3 && k != 4)) isfl = 1;
  int hex = p[1] == 'x' || p[1] == 'X'; vu8 lcse = c | 32; int isU = lcse == 'u' && c >= 'A', isL = lcse == 'l' && c >= 'A', isE = lcse == 'e' && c >= 'A', isF = lcse == 'f' && c >= 'A', isdig = c >= '0' && c <= '9', hexd = isdig || (c >= 'A' && lcse <= 'f' && lcse >= 'a');
  int l16 = W == 2;
  switch (k) { case 0: ok = (c >= '0' && c <= '7') || isU || (isL && !l16) || c == '.'; break; case 1: case 2: ok = isdig || isU || (isL && !l16) || c == '.'; break; case 3: case 4: ok = hexd; break; case 5: ok = hexd || isU || (isL && !l16); break; case 6: ok = (c >= '0' && c <= '7') || isU || (isL && !l16) || c == '.'; break;
  case 8: ok = isL && !l16; break; case 9: ok = isU && !l16; break; case 12: ok = isL && !l16; break; case 13: case 14: ok = c == '.' ; break; case 16: case 17: ok = isdig || isF || isL; break; case 18: case 19: case 24: ok = isdig; break; case 20: ok = isdig || isF || isL; break; case 21: ok = isdig || isF || isL; break; case 27: ok = isdig; break; }
  if ((k == 13 || k == 14 || k <= 2 || k == 6) && isE) vs_assume(0); (void)isE; (void)isfl; if (ok) vs_assume(0);
  for (int i = 0; i < n; i++) lc(p[i]); lc(c); cs("int x = "); cs(lit); cs(";\n"); vs_sample(csrc); int rc = cc_compile(); vs_assert(rc != 0, "a malformed number is accepted"); vs_cover("rejected"); vs_stop(); }
/* ---- characters */
static int isxd(vu8 c) { vu8 l = c | 32; return (c >= '0' && c <= '9') || (l >= 'a' && l <= 'f'); }
static vu32 piece(int wide, int* bad, int prev) { /* appends one element, returns its value */ int k = vs_choice(9, "piece"), few = vs_param("few", 0); if (few && k > 2 && (k != 4 && k != 7 && (k != 5 || few > 1))) vs_assume(0); static const char se[] = "abfnrtv'\"?\\"; static const vu8 sv[] = {7, 8, 12, 10, 13, 9, 11, '\'', '"', '?', '\\'};
  switch (k) { case 0: { vu8 c = vs_u8("char"); vs_assume(c >= 0x20 && c != '"' && c != '\'' && c != '\\' && c != 0x7f && c < 0x80); if (prev == 1) vs_assume(c > '7' || c < '0'); if (prev == 3) vs_assume(!isxd(c)); lc(c); return c; }
  case 1: { if (wide) vs_assume(0); vu8 c = vs_u8("char"); vs_assume(c >= 0x80); lc(c); return c; }
  case 2: { int e = few ? 0 : vs_choice(11, "escape"); lc('\\'); lc(se[e]); return sv[e]; }
  case 3: case 4: case 5: { int n = k - 2; vu32 v = 0; lc('\\'); for (int i = 0; i < n; i++) { vu8 c = rng("octal", '0', '7'); lc(c); v = v * 8 + (c - '0'); } if (wide && n == 3) vs_assume(v < 256); if (v > 255) *bad = 1; return v; }
  case 6: case 7: { int n = k - 5 + ((few ? 0 : vs_choice(2, "long")) ? (wide ? (wsz == 4 ? 6 : 2) : 1) : 0), z = few ? 0 : vs_choice(2, "zeros"); vu32 v = 0; if (n > 8) n = 8; lc('\\'); lc('x'); if (z) for (int i = 0; i < 5; i++) lc('0'); for (int i = 0; i < n; i++) { vu8 c; int d; if (i & 1) { if (few ? 0 : vs_choice(2, "upper")) c = rng("hex", 'A', 'F'), d = c - 'A' + 10; else c = rng("hex", 'a', 'f'), d = c - 'a' + 10; } else c = rng("hex", i == 0 ? '1' : '0', '9'), d = c - '0'; lc(c); v = v * 16 + (vu32)d; } if (!wide && v > 255) *bad = 1; if (wide && wsz == 2 && v > 65535) *bad = 1; return v; }
  case 8: { vu8 c = vs_u8("char"); vs_assume(wide ? c == '\'' : c == '\'' || c == '"'); lc(c); return c; } }
  return 0; }
static vs32 chval(vu32 v, int wide, int wsgn) { if (!wide) return cc_opt_uchar ? (vs32)(vu8)v : (vs32)(vs8)v; return wsz == 2 ? (wsgn ? (vs32)(vs16)v : (vs32)(vu16)v) : (vs32)v; }
static void wopts(int wide, int* wsgn) { int w = wide ? vs_param("few", 0) ? W == 4 : vs_choice(3, "wchar") : 0; *wsgn = 0; if (w == 1) { if (W == 2) vs_assume(0); cc_extra[cc_nextra++] = "-long-wchar"; wsz = 4; } if (w == 2) { cc_extra[cc_nextra++] = "-signed-wchar"; *wsgn = 1; } }
static void chars(void) { int wide = vs_choice(2, "wide"), bad = 0, wsgn; wopts(wide, &wsgn); if (wide) lc('L'); lc('\''); int l0 = ln; vu32 v = piece(wide, &bad, 0); if (ln == l0 + 1 && lit[l0] == '\'') vs_assume(0); lc('\''); cs("int x = "); cs(lit); cs(";\nint y = -1 < ("); cs(lit); cs(") * 0;\n"); vs_sample(csrc); int rc = cc_compile();
  if (bad) { vs_assert(rc != 0, "an out-of-range escape is accepted"); vs_cover("rejected"); vs_stop(); } if (rc) { h_out[h_outn] = 0; vs_log(csrc); vs_log(h_out); vs_assert(0, "a valid character constant is rejected"); vs_stop(); }
  m_load(); vu32 w = (vu32)chval(v, wide, wsgn); vs_assert(m_get(m_sym("x"), W) == word(w), "value of a character constant"); vs_cover("char"); vs_stop(); }
static void strings(void) { int wide = vs_choice(2, "wide"), bad = 0, wsgn; wopts(wide, &wsgn); int np = vs_param("pieces", 2), form = vs_param("few", 0) ? wide : vs_choice(3, "form"); vu32 v[8]; int n = 0, m = vs_param("few", 0) ? np : vs_choice(np + 1, "count"); if (wide) lc('L'); lc('"'); int prev = 0;
  for (int i = 0; i < m; i++) { if (i && vs_choice(2, "split")) { lc('"'); lc(vs_choice(2, "newline") ? '\n' : ' '); if (wide) lc('L'); lc('"'); prev = 0; } int l0 = ln; v[n] = piece(wide, &bad, prev); if (lit[l0] != '\\' && ln == l0 + 1) { if (lit[l0] == '"') vs_assume(0); } prev = lit[l0] != '\\' ? 0 : lit[l0 + 1] == 'x' ? 3 : lit[l0 + 1] >= '0' && lit[l0 + 1] <= '7' ? ln - l0 == 4 ? 0 : 1 : 0; n++; } lc('"');
  const char* T = wide ? (wsz == 4 ? (wsgn ? "int" : "unsigned") : wsgn ? "short" : "unsigned short") : "char"; if (wide && W == 2) T = wsgn ? "int" : "unsigned"; int es = wide ? wsz : 1, pad = 0;
  cs("char before = 17;\n"); if (form == 0) { cs(T); cs(" s[] = "); cs(lit); cs(";\nint n = sizeof s;\n"); } else if (form == 1) { cs(T); csd(" s[", n + 2); cs("] = {"); cs(lit); cs("};\nint n = sizeof("); cs(lit); cs(");\n"); pad = 1; } else { cs(T); cs("* p = "); cs(lit); cs(";\nint n = sizeof("); cs(lit); cs(");\n"); } cs("char after = 18;\n");
  vs_sample(csrc); int rc = cc_compile(); if (bad) { vs_assert(rc != 0, "an out-of-range escape is accepted"); vs_cover("rejected"); vs_stop(); } if (rc) { h_out[h_outn] = 0; vs_log(csrc); vs_log(h_out); vs_assert(0, "a valid string literal is rejected"); vs_stop(); }
  m_load(); vu32 a = form == 2 ? m_get(m_sym("p"), W) : m_sym("s"); for (int i = 0; i <= n + pad; i++) { vu32 w = i < n ? v[i] : 0; if (es == 1) w = (vu8)w; if (es == 2) w = (vu16)w; vs_assert(m_get(a + i * es, es) == w, "bytes of a string literal"); }
  vs_assert(m_get(m_sym("n"), W) == (vu32)((n + 1) * es), "size of a string literal"); vs_assert(m_get(m_sym("before"), 1) == 17 && m_get(m_sym("after"), 1) == 18, "object next to a string literal"); if (form == 2) { vu32 q = m_phys(a) - GM_BASE; for (int i = 0; i < (n + 1) * es; i++) vs_assert(gown[q + i] != 0, "string literal storage"); } vs_cover("string"); vs_stop(); }
void x_external(const char* n, vu32 a) { x_bad("call"); }
/* literals that C requires to be rejected */
static const char* const badl[] = {"int x = '';", "int x = 'a;", "int x = 'a\n';", "char s[] = \"abc;", "char s[] = \"ab\nc\";", "int x = '\\x';", "char s[] = \"\\xg\";", "int x = '\\400';", "int x = '\\x100';", "char s[2] = \"abc\";", "char s[] = \"a\" L\"b\";", "int x = \"a\" + ;", "int x = '\\777';", "char s[] = \"\\x1ff\";", "int x = '", "char s[] = \"a\\", "int x = L'';"};
static const char* const goodl[] = {"char s[3] = \"abc\"; char t = 5;", "char s[4] = {\"ab\" \"c\"};", "char* s = \"a\" \"\" \"b\";", "char s[] = \"\";", "char s[] = {'a', 0};"};
static void errors(void) { int n = sizeof badl / sizeof *badl, k = vs_choice(n + 5, "program"); cs(k < n ? badl[k] : goodl[k - n]); cs("\n"); int rc = cc_compile(); vs_log(csrc); vs_assert((rc != 0) == (k < n), "acceptance of a literal"); if (rc) { vs_cover("rejected"); vs_stop(); } m_load(); static const char* const w[] = {"abc", "abc", 0, "", "a"}; const char* e = w[k - n]; vu32 a = m_sym("s"); if (!e) e = "ab", a = m_get(a, W); int L = k == n ? 3 : (int)strlen(e) + 1; for (int i = 0; i < L; i++) vs_assert(m_get(a + i, 1) == (vu8)e[i], "bytes of a string literal"); if (k == n) vs_assert(m_get(m_sym("t"), 1) == 5, "object next to a string literal"); vs_cover("accepted"); vs_stop(); }
int main(void) { tgt = vs_param("tgt", TG_32); W = tgt == TG_16 ? 2 : 4; lim = W == 2 ? 0xffff : 0xffffffffu; slim = lim >> 1; cc_opt_uchar = vs_param("uchar", 0);
  switch (vs_param("mode", 0)) { case 0: integers(); case 1: malformed(); case 2: chars(); case 3: strings(); default: errors(); } }
