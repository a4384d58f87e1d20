/* P02: generated sequences of conditional directives, definitions and text; the text smlrpp outputs is compared with a reference
 * interpretation. Conditions are single symbolic digits. */
#include "pp.h"
enum { L_IF, L_IFDEF, L_IFNDEF, L_ELIF, L_ELSE, L_ENDIF, L_TEXT, L_DEF, L_UNDEF, L_IFX, L_BAD, L_INC, L_ELIFX, NL };
static int sty, tx; static int def, val;
static struct { int active, taken, els; } st[80]; static int sn; static int err, skiperr, on = 1;
static char ex[4096]; static int en; static void exs(const char* s) { while (*s) ex[en++] = *s++; }
static void dir(const char* s) { switch (sty) { case 0: pch('#'); break; case 1: pstr(" # "); break; case 2: pstr("/* a\n b */#/**/"); break; case 3: pstr("\t#\\\n"); break; case 4: pstr("%:"); break; } pstr(s); }
static int cd; static unsigned nz(void) { unsigned a = vs_range('1', '9', "condition"), b = vs_range('0', '9', "condition"); pch(a); pch(b); return (a - '0') * 10 + b - '0'; }
static unsigned cond(void) { pch(' '); if (!cd) { unsigned c = vs_range('0', '9', "condition"); pch(c); return c != '0'; } unsigned x = nz(); if (cd == 1) { pstr(" - "); unsigned y = nz(); return x != y; } pstr(" > "); unsigned y = nz(); pstr(" && 0"); unsigned z = vs_range('0', '7', "condition"); pch(z); return x > y & z != '0'; }
static void num(char* b, int v) { b[0] = '0' + v / 10; b[1] = '0' + v % 10; b[2] = 0; }
static void line(int k, int no) { char nb[4]; num(nb, no); int c; static const char* const badd[] = {"error stop", "bogus", "if )", "include <nofile.h>", "define", "define X(", "line x", "undef 1"};
  switch (k) {
  case L_IF: dir("if"); c = cond(); goto open;
  case L_IFX: dir("if X - 7 || !X"); c = def ? val != 7 : 1; goto open;
  case L_IFDEF: dir("ifdef X"); c = def; goto open;
  case L_IFNDEF: dir("ifndef X"); c = !def;
  open: st[sn].active = on; st[sn].taken = 0; st[sn].els = 0; sn++; if (on) { on = c != 0; st[sn - 1].taken = on; } break;
  case L_ELIF: case L_ELIFX: dir("elif"); if (k == L_ELIF) c = cond(); else pstr(" 1/0 + )"), c = -1; if (!sn) { err = 1; break; } if (st[sn - 1].els) { if (on) err = 1; else skiperr = 1; break; } if (!st[sn - 1].active) break; if (st[sn - 1].taken) on = 0; else { if (c < 0) { err = 1; break; } on = c != 0; st[sn - 1].taken = on; } break;
  case L_ELSE: dir("else"); if (!sn) { err = 1; break; } if (st[sn - 1].els) { if (on) err = 1; else skiperr = 1; break; } st[sn - 1].els = 1; if (!st[sn - 1].active) break; on = !st[sn - 1].taken; st[sn - 1].taken = 1; break;
  case L_ENDIF: dir("endif"); if (!sn) { err = 1; break; } sn--; on = st[sn].active; break;
  case L_TEXT: { char q = tx ? vs_range(97, 122, "text") : 'q', u = tx ? vs_range(48, 57, "text") : 's'; pch('t'); pstr(nb); pstr(" X '"); pch(q); pstr("' \""); pch(u); pstr("\""); if (on) { exs("t"); exs(nb); if (def) { char v[2] = {'0' + val, 0}; exs(v); } else exs("X"); exs("'"); ex[en++] = q; exs("'\""); ex[en++] = u; exs("\""); } break; }
  case L_DEF: dir("define X "); pch('0' + no % 10); if (on) { if (def && val != no % 10) err = 1; def = 1; val = no % 10; } break;
  case L_UNDEF: dir("undef X"); if (on) def = 0; break;
  case L_BAD: { int b = vs_choice(8, "bad"); dir(badd[b]); if (on) err = 1; else if (b == 2) { st[sn].active = 0; st[sn].taken = 0; st[sn].els = 0; sn++; } break; }
  case L_INC: dir("include \"b.h\""); if (on) { if (!def) val = 9; exs("hh"); ex[en++] = '0' + val; def = 1; val = 9; } break;
  } pch('\n'); }
static void check(int rc) { char got[4096]; int gn = 0, bol = 1, skip = 0; for (unsigned k = 0; k < pon && gn < 4000; k++) { char c = po[k]; if (bol && c == '#') skip = 1; bol = c == '\n' || bol && (c == ' ' || c == '\t'); if (c == '\n') skip = 0; if (!skip && c != '\n' && c != ' ' && c != '\t') got[gn++] = c; }
  h_out[h_outn] = 0; got[gn] = ex[en] = 0;
  if (err) { vs_cover("error"); if (!rc || !h_outn) vs_log(ps); vs_assert(rc != 0 && h_outn > 0, "misordered or unbalanced conditionals, or an invalid directive, are not diagnosed"); return; }
  if (skiperr) { vs_cover("skipped error"); vs_assert(h_outn > 0, "misordered conditionals are not diagnosed"); }
  vs_cover("valid"); if (rc) { vs_log(h_out); vs_log(ps); } vs_assert(rc == 0, "valid conditionals are rejected"); if (!skiperr && h_outn) vs_log(ps); vs_assert(skiperr || !h_outn, "valid conditionals are diagnosed"); if (gn != en || memcmp(got, ex, en)) { vs_log(ps); vs_log(got); vs_log(ex); }
  vs_assert(gn == en && !memcmp(got, ex, en), "the text output is not that of the selected groups"); }
int main(void) { cd = vs_param("cd", 1); tx = vs_param("tx", 1); int n = vs_param("n", 4), mask = vs_param("mask", 0x3ff), mode = vs_param("mode", 0), i, d, a[16], m = 0; sty = vs_param("sty", 0); if (sty > 8) sty = vs_choice(5, "style"); if (mask & 1 << L_INC) { static const char h[] = "#ifndef X\n#define X 9\n#endif\nhh X\n#undef X\n#define X 9\n"; h_put("b.h", h, strlen(h)); }
  if (vs_param("hist", 0)) pstr("#if 1\n#if 0\n#elif 1\n#ifdef X\n#else\n#endif\n#else\n#if 1\n#else\n#endif\n#endif\n#else\n#endif\n"); /* groups at three levels that saw their #else */
  if (mode == 0) { for (i = 0; i < NL; i++) if (mask >> i & 1) a[m++] = i; int close = vs_param("close", 0); if (vs_param("text", 0)) line(L_TEXT, 50); for (i = 0; i < n; i++) { line(a[vs_choice(m, "line")], i + 1); if (vs_param("text", 0)) line(L_TEXT, 51 + i); if (err) break; } if (close) while (sn && !err) { line(L_ENDIF, 90); line(L_TEXT, 91); } if (sn) err = 1; }
  else { int form = vs_param("form", 0); /* deep nesting */ for (d = 0; d < n; d++) { if (form == 2) line(d & 1 ? L_IFDEF : L_IFNDEF, 1); else line(L_IF, 1); line(L_TEXT, d); if (form == 1) { line(L_ELIF, 1); line(L_TEXT, d); line(L_ELSE, 1); } } for (d = n - 1; d >= 0; d--) { if (!form) { line(L_ELSE, 1); line(L_TEXT, d); } line(L_ENDIF, 1); line(L_TEXT, d); } }
  if (mode && n > 63) err = 1; int rc = pp_run(); check(rc); return 0; }
