/* L02: symbol resolution and archive member selection. Every object exports and imports symbols whose names and kinds are
   symbolic; the oracle computes the set of objects that belong in the program from the definitions and references alone. */
#include "ldobj.h"
#define MAXO 5
static int n, nn; static int gdef[MAXO][4]; static char gname[MAXO][4][3], lname[MAXO][3]; static vu32 gval[MAXO][4], lval[MAXO], add[MAXO][5]; static int ng[MAXO], entry, early;
static struct obj ob[MAXO]; static vu8 body[MAXO][32]; static vu32 bsz[MAXO]; static vu8 file[MAXO][4096]; static unsigned fsz[MAXO]; static vu8 ar[24000]; static unsigned an;
static int same(const char* a, const char* b) { return a[0] == b[0] && a[1] == b[1]; }
static void mkname(char* p) { p[0] = (char)vs_range('a', 'a' + nn - 1, "name"); if (vs_param("nl", 1) == 2 && vs_choice(2, "length")) p[1] = (char)vs_range('a', 'a' + nn - 1, "name"); }
static int order[MAXO]; /* position -> object, in the order the linker sees them */
static void field(vu8* h, const char* s, int w) { for (int i = 0; i < w; i++) h[i] = *s ? *s++ : ' '; }
static void member(const char* name, const char* pre, const vu8* d, unsigned sz) { vu8* h = ar + an; char t[16]; int pl = pre ? strlen(pre) : 0; field(h, name, 16); field(h + 16, "0", 12); field(h + 28, "0", 6); field(h + 34, "0", 6); field(h + 40, "644", 8); h_fmt(t, "%u", sz + pl); field(h + 48, t, 10); h[58] = 0x60; h[59] = 10; an += 60; for (int i = 0; i < pl; i++) ar[an++] = pre[i]; for (unsigned i = 0; i < sz; i++) ar[an++] = d[i]; if (an & 1) ar[an++] = 10; }
int main(void) {
  n = vs_param("n", 3); nn = vs_param("names", 3); int maxg = vs_param("slots", 2), mode = vs_param("arch", 0), loc = vs_param("local", 1); early = vs_param("early", 1); entry = vs_param("entry", 0) == 9 ? (int)vs_choice(n, "entry object") : vs_param("entry", 0);
  int dupstart = vs_param("dupstart", 0) ? (int)vs_choice(n + 1, "second entry point") : n; if (dupstart == entry) vs_stop();
  for (int k = 0; k < n; k++) { ng[k] = vs_param("fix", 0) ? maxg : (int)vs_choice(maxg + 1, "symbols"); struct obj* o = &ob[k]; int L = loc ? 1 : 0; bsz[k] = 4 + 4 * (ng[k] + L); for (vu32 i = 0; i < bsz[k]; i++) body[k][i] = i < 4 ? (vu8)(0x90 + 16 * k + i) : vs_u8("field"); for (int i = 0; i < ng[k] + L; i++) add[k][i] = g32(body[k] + 4 + 4 * i);
    int t = osec(o, ".text", 1, 6, 1, bsz[k], body[k]); osym(o, "f.c", 0, 4, 0xfff1); int ss = osym(o, "", 0, 3, t); (void)ss; int ls = 0; if (L) { mkname(lname[k]); lval[k] = vs_u32("local value"); ls = osym(o, lname[k], lval[k], 0, t); }
    int gs[4]; for (int i = 0; i < ng[k]; i++) { mkname(gname[k][i]); for (int j = 0; j < i; j++) vs_assume(!same(gname[k][i], gname[k][j])); gdef[k][i] = (int)vs_range(0, 1, "defined"); gval[k][i] = vs_u32("value"); gs[i] = osym(o, gname[k][i], gval[k][i], 0x10, gdef[k][i] ? t : 0); }
    if (k == entry || k == dupstart) osym(o, "__start", 0, 0x10, t);
    for (int i = ng[k] - 1; i >= 0; i--) orel(o, t, 4 + 4 * i, gs[i], 1); if (L) orel(o, t, 4 + 4 * ng[k], ls, 1); fsz[k] = obuild(o, file[k], 0, early); for (int i = 0; i < n; i++) order[i] = i; }
  static char* av[16]; int ac = 0; av[ac++] = (char*)"smlrl"; av[ac++] = (char*)"-flat32"; av[ac++] = (char*)"-o"; av[ac++] = (char*)"out";
  static const char* const fn[MAXO] = {"a.o", "b.o", "c.o", "d.o", "e.o"}; int first = mode == 0 ? n : mode == 1 ? 1 : 0; int libfirst = mode == 3; if (mode == 3) first = 1;
  if (first < n) { memcpy(ar, "!<arch>\n", 8); an = 8; static const vu8 symt[12] = {0, 0, 0, 1}; int fm = vs_param("form", 0) == 9 ? (int)vs_choice(4, "name form") : vs_param("form", 0); if (fm == 1) { member("/", 0, symt, 11); member("//", 0, (const vu8*)"a_rather_long_name.o/\nanother_long_name.o/\n", 43); } if (fm == 2) member("__.SYMDEF", 0, symt, 9); for (int k = first; k < n; k++) { char t[20]; if (fm == 1) h_fmt(t, "/%u", k == first ? 0 : 22); else if (fm == 2) h_fmt(t, "#1/%u", 17 + k); else if (fm == 3) h_fmt(t, "m%u.o", k); else h_fmt(t, "m%u.o/", k); member(t, fm == 2 ? (k == 0 ? "a_long_name_here_" : k == 1 ? "a_long_name_here_x" : k == 2 ? "a_long_name_here_xy" : k == 3 ? "a_long_name_here_xyz" : "a_long_name_here_xyzw") : 0, file[k], fsz[k]); } h_put("lib.a", ar, an); }
  if (libfirst) { av[ac++] = (char*)"lib.a"; for (int i = 0; i + 1 < n; i++) order[i] = i + 1; order[n - 1] = 0; } for (int k = 0; k < first; k++) { h_put(fn[k], file[k], fsz[k]); av[ac++] = (char*)fn[k]; } if (first < n && !libfirst) av[ac++] = (char*)"lib.a"; av[ac] = 0;
  int rc = h_run(smlrl_main, ac, av);
  /* oracle */
  int need[MAXO] = {0}, bad = 0, ch = 1; int e = -1; for (int p = 0; p < n && e < 0; p++) if (order[p] == entry || order[p] == dupstart) e = order[p]; need[e] = 1;
  while (ch && !bad) { ch = 0; for (int k = 0; k < n && !bad; k++) if (need[k]) for (int i = 0; i < ng[k] && !bad; i++) if (!gdef[k][i]) { int f = -1; for (int p = 0; p < n && f < 0; p++) { int q = order[p]; for (int j = 0; j < ng[q]; j++) if (gdef[q][j] && same(gname[q][j], gname[k][i])) { f = q; break; } } if (f < 0) bad = 1; else if (!need[f]) need[f] = 1, ch = 1; } }
  if (!bad) { for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (need[a] && need[b]) { if ((a == entry || a == dupstart) && (b == entry || b == dupstart)) bad = 2; for (int i = 0; i < ng[a]; i++) for (int j = 0; j < ng[b]; j++) if (gdef[a][i] && gdef[b][j] && same(gname[a][i], gname[b][j])) bad = 2; } }
  if (bad) { vs_cover(bad == 1 ? "undefined" : "duplicate"); vs_assert(rc == 1, bad == 1 ? "an undefined symbol did not make the link fail" : "a duplicate definition did not make the link fail"); vs_assert(h_outn > 3, "the link failed without a message"); vs_assert(!h_find("out"), "a failed link left an output file"); return 0; }
  vs_assert(rc == 0, "a link whose symbols all resolve was rejected"); if (rc) return 0; vs_cover("linked");
  struct h_file* f = h_find("out"); if (!f) { VS_FAIL("no output file"); return 0; } int fn_ = -1; for (int p = 0; p < n && fn_ < 0; p++) if (need[order[p]]) fn_ = order[p]; vu32 base = fn_ == e ? 0 : 5, at[MAXO], sz = base; for (int p = 0; p < n; p++) { int k = order[p]; if (need[k]) at[k] = sz, sz += bsz[k]; }
  vs_assert(f->size == sz, "the program does not consist of exactly the objects it needs"); if (f->size != sz) return 0; if (base) { vs_assert(f->data[0] == 0xe9 && 5 + g32(f->data + 1) == at[e], "the jump to the entry point"); vs_cover("jump"); }
  for (int k = 0; k < n; k++) if (need[k]) { for (int i = 0; i < 4; i++) vs_assert(f->data[at[k] + i] == body[k][i], "an object is not where it belongs"); 
    for (int i = 0; i < ng[k]; i++) { vu32 S = 0; if (gdef[k][i]) S = at[k] + gval[k][i]; else for (int q = 0; q < n; q++) if (need[q]) for (int j = 0; j < ng[q]; j++) if (gdef[q][j] && same(gname[q][j], gname[k][i])) S = at[q] + gval[q][j]; vs_assert(g32(f->data + at[k] + 4 + 4 * i) == add[k][i] + S, "a reference is not bound to the definition"); }
    if (loc) vs_assert(g32(f->data + at[k] + 4 + 4 * ng[k]) == add[k][ng[k]] + at[k] + lval[k], "a local symbol is not bound to its own object"); }
  return 0;
}
