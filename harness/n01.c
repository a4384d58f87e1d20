/* N01: n2f converts sequences of section switches and lines; its output is compared with a line-by-line reference conversion */
#include "vs.h"
#include "vlibc.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
int n2f_main(int, char**);
static const char* const names[] = {".text", ".data", ".bss", ".rodata", ".zz", "AA", ".texts", ".a"};
static const char* const lead[] = {"", "\t", " ", "\t  "};
static const char* const dir[] = {"alignb", "global", "resb", "resw", "resd", "extern", "bits"}, * const fdir[] = {"align", "public", "rb", "rw", "rd", "extrn", "use"};
static const char* const sep[] = {" ", "\t", "  "};
static const char* const other[] = {"mov eax, 1", "l1:", "db ';' ; section .data", "externs x", "globally x", "align 4", "sections .x", "", "resb", "; c", ";c", ";section .bss", "x: resb 4", "sectio .y", "alignb:", "bitsy 4", "dd 1\t; global x", "Section .data", "extern", "#line 1"};
static const char* const tail[] = {"", " ; comment", "\t;x", " "}; static const char* const nl_[] = {"\n", "\r\n", "\r"};
static char in[90000]; static int n; static char ex[90000]; static int en; static int fmt; /* 0 asm, 1 elf, 2 bin */
static struct { int s, e; } ln[6400]; static int nln; static int nsl; static const char* got; static int gotn; static char cmd[200];
static void puts_(const char* s) { while (*s) in[n++] = *s++; }
static void eput(int c) { ex[en++] = c; }
static void eputs(const char* s) { while (*s) eput(*s++); }
static int space(int c) { return (c == ' ') | (c == '\t'); }
/* one line, without its end, as FASM is to see it */
static void conv(int i) { int a = ln[i].s, e = ln[i].e, b = a, c, k; while (b < e && space(in[b])) b++; if (b < e && in[b] == ';') return; for (c = b; c < e && !space(in[c]); c++); for (k = 0; k < 7; k++) { int L = strlen(dir[k]); if (c - b == L) { int d = 0; for (int j = 0; j < L; j++) d |= in[b + j] ^ dir[k][j]; if (!d) break; } }
  if (k == 1 && fmt == 2) { for (; a < b; a++) eput(in[a]); eput('\n'); return; } if (k == 7) for (; a < e; a++) eput(in[a]); else { for (; a < b; a++) eput(in[a]); eputs(fdir[k]); a = c; if (k == 6) while (a < e && space(in[a])) a++; for (; a < e; a++) eput(in[a]); } eput('\n'); }
static int rank(const char* s) { return !strcmp(s, ".text") ? 0 : !strcmp(s, ".rodata") ? 1 : !strcmp(s, ".data") ? 2 : !strcmp(s, ".bss") ? 3 : 4; }
/* splits the text into lines and finds the section switches; returns the number of distinct sections */
static int secof[6400]; static char dist[3200][64]; static int ndist; static int toolong;
static void scan(void) { int i = 0; while (i < n) { int s = i; while (i < n && in[i] != '\n' && in[i] != '\r') i++; ln[nln].s = s; ln[nln].e = i; if (i < n) { int cr = in[i++] == '\r'; if (cr && i < n && in[i] == '\n') i++; }
    int b = s; while (b < ln[nln].e && space(in[b])) b++; secof[nln] = nln ? secof[nln - 1] & 0xffff : 0xffff; int e = ln[nln].e; if (e - b >= 7 && !memcmp(in + b, "section", 7) && (e == b + 7 || space(in[b + 7]))) { for (b += 7; b < e && space(in[b]); b++); int c = b; while (c < e && !space(in[c])) c++; if (c == b || c - b > 32) toolong = 1; else { int k; for (k = 0; k < ndist; k++) if ((int)strlen(dist[k]) == c - b && !memcmp(dist[k], in + b, c - b)) break; if (k == ndist) { memcpy(dist[k], in + b, c - b); dist[ndist++][c - b] = 0; } secof[nln] = k | 0x10000; nsl++; } } nln++; } }
static int sys(const char* c) { strcpy(cmd, c); const char* p = c; if (memcmp(p, "fasm ", 5)) return 1; p += 5; char nm[100]; int k = 0; while (*p && *p != ' ') nm[k++] = *p++; nm[k] = 0; struct h_file* f = h_find(nm); if (!f) return 1; char* q = malloc(f->size + 1); if (f->size) memcpy(q, f->data, f->size); got = q; gotn = f->size; if (*p == ' ') h_put(p + 1, "obj", 3); return 0; }
int main(void) {
  int mode = vs_param("mode", 0), lines = vs_param("n", 3), i, k; fmt = vs_param("fmt", 9); if (fmt == 9) fmt = vs_choice(3, "format"); int nm = vs_param("names", 8), crlf = vs_param("crlf", 0);
  if (mode == 0) for (i = 0; i < lines; i++) { int w = vs_choice(3, "line"); int sty = vs_param("sty", 1); if (sty) puts_(lead[vs_choice(sty == 2 ? 2 : 4, "lead")]); else if (w) puts_("\t");
      if (w == 0) { puts_("section"); puts_(sep[sty == 1 ? vs_choice(3, "separator") : 0]); puts_(names[vs_choice(nm, "name")]); if (sty) puts_(tail[vs_choice(sty == 2 ? 2 : 4, "tail")]); }
      else if (w == 1) { puts_(dir[vs_choice(7, "directive")]); puts_(sep[sty == 1 ? vs_choice(3, "separator") : 0]); puts_(i & 1 ? "16" : "32"); if (sty) puts_(tail[vs_choice(sty == 2 ? 2 : 4, "tail")]); }
      else puts_(sty ? other[vs_choice(20, "other")] : i & 1 ? "nop" : i & 2 ? "; c" : "l:");
      if (i == lines - 1 && vs_choice(2, "unfinished")) break; puts_(nl_[crlf ? vs_choice(3, "end") : 0]); }
  else if (mode == 1) { puts_(vs_choice(2, "in a section") ? "section .data\n" : ""); int al = vs_param("alph", 0); static const char* const alph[] = {0, "resb4 ", "; \t:s", "\r\nsx", "global"}; const char* pre[] = {"", "r", "glob", "exter", "bits", "\t", "se", "alig", "section .d"}; puts_(pre[vs_choice(9, "prefix")]); for (i = 0; i < lines; i++) { int c; if (al) c = (unsigned char)alph[al][vs_range(0, strlen(alph[al]) - 1, "char")]; else { c = vs_range(1, 255, "char"); vs_assume((c != 13) & (c != 10)); } in[n++] = c; } puts_(vs_choice(2, "rest") ? " x\nsection .text\nnop" : "\ndb 1\n"); }
  else if (mode == 2) { /* the number of distinct sections */ int m = 30 + vs_choice(5, "sections"), r = vs_choice(3, "reuse"); for (k = 0; k < m; k++) { char b[40]; sprintf(b, "section .s%d\nl%d:\n", 99 - k, k); puts_(b); } if (r) { char b[40]; sprintf(b, "section .s%d\nagain:\n", r == 1 ? 99 : 99 - m + 1); puts_(b); } }
  else if (mode == 3) { int L = 30 + vs_choice(6, "length"); puts_("section "); for (k = 0; k < L; k++) in[n++] = k == L - 1 ? vs_range('a', 'z', "last") : 'n'; if (vs_choice(2, "tail")) puts_(" x"); puts_("\ndb 1\nsection "); for (k = 0; k < L; k++) in[n++] = k == L - 1 ? 'b' : 'n'; puts_("\ndb 2\n"); }
  else { int m = 2998 + vs_choice(4, "fragments"); for (k = 0; k < m; k++) { puts_(k % 1000 == 999 ? "section .data\n" : "section .text\n"); puts_("x\n"); } }
  for (i = 0; i < n; i++) { /* mixed white space in front of a line is not reproduced exactly: left out */ if (mode == 1 && (i == 0 || in[i - 1] == '\n' || in[i - 1] == '\r')) { int j = i, sp = 0; while (j < n && space(in[j])) { if (in[j] == '\t') vs_assume(!sp); else sp++; j++; } vs_assume(sp < 8); } }
  scan(); vs_assume(!(mode == 1 && nsl > 3)); int bad = toolong || ndist > 32 || nsl > 3000;
  if (fmt == 1) eputs("format elf\n"); for (i = 0; i < nln; i++) if (secof[i] == 0xffff) conv(i);
  int done[64]; for (k = 0; k < ndist && k < 64; k++) done[k] = 0; if (!bad) for (int z = 0; z < ndist; z++) { int best = -1; for (k = 0; k < ndist; k++) if (!done[k] && (best < 0 || rank(dist[k]) < rank(dist[best]) || (rank(dist[k]) == rank(dist[best]) && strcmp(dist[k], dist[best]) < 0))) best = k; done[best] = 1;
      if (fmt == 2) eput(';'); eputs("section \""); eputs(dist[best]); eput('"'); if (rank(dist[best]) == 0) eputs(" executable"); if (rank(dist[best]) == 2 || rank(dist[best]) == 3) eputs(" writable"); eput('\n'); for (i = 0; i < nln; i++) if (secof[i] == best) conv(i); }
  h_put("a.asm", in, n); h_put("old.o", "old", 3); h_system = sys; static char* av[] = {"n2f", "-f", 0, "a.asm", "-o", "out.o", 0}; static const char* const fn[] = {"asm", "elf", "bin"}; av[2] = strdup(fn[fmt]); int rc = h_run(n2f_main, 6, av);
  struct h_file* f = h_find("out.o"); if (fmt == 0) { got = f ? f->data ? (char*)f->data : "" : 0; gotn = f ? f->size : 0; }
  for (i = 0; i < 4; i++) { char t[20]; sprintf(t, "tmp%d.tmp", i); vs_assert(!h_find(t), "a temporary file is left behind"); } struct h_file* a = h_find("a.asm"); vs_assert(a && (int)a->size == n, "the input file is changed");
  if (bad) { vs_cover("beyond a limit"); vs_assert(rc != 0, "an input beyond the converter's limits is accepted"); vs_assert(!f, "an output is left after a failure"); return 0; }
  vs_cover("converted"); if (rc) { in[n] = 0; vs_log(in); vs_log(h_out); } vs_assert(rc == 0, "a valid input is rejected"); if (fmt) vs_assert(got && strlen(cmd) > 11 && !strcmp(cmd + strlen(cmd) - 6, " out.o"), "the assembler is not run on the result");
  if (!got) { VS_FAIL("no output"); return 0; } int d = gotn != en; if (!d) for (i = 0; i < en; i++) d |= got[i] ^ ex[i]; if (d) { in[n] = 0; vs_log(in); char* g = malloc(gotn + 1); memcpy(g, got, gotn); g[gotn] = 0; vs_log(g); ex[en] = 0; vs_log(ex); } vs_assert(!d, "a line is lost, repeated, moved or changed");
  return 0; }
