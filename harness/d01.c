/* D01: the driver runs the right stages with the right arguments. Every command goes through a model of the shell that splits it
   the way /bin/sh does and of the tools, any of which may fail. */
#include "vs.h"
#include "vlibc.h"
#include <string.h>
#include <stdlib.h>
int smlrcc_main(int, char**);
static int env_smlrc, env_home, env_asm; char* h_getenv(const char* n) { if (!strcmp(n, "SMLRC") && env_smlrc) return "/e"; if (!strcmp(n, "HOME") && env_home) return "/h"; if (!strcmp(n, "SMLRASM") && env_asm) return "yasm"; return 0; }
#define MF 3
static char in[MF][12], mid[MF][12], as_[MF][12], ob[MF][12]; static int kind[MF], n; enum { KC, KI, KASM, KO, KA };
static const char* out; static int mode; enum { LINK, OBJ, ASM, AR };   /* what was asked for */
static int pp; /* 0 smlrpp 1 none 2 gcc */ static const char* asmname;
static char* user[16]; static int nuser;   /* -D/-I words in order */ static char* lopt[16]; static int nlopt; static char* copt[8]; static int ncopt;
struct target { const char *opt, *cc, *ld, *def, *def2, *lib, *dout; int macro32, std, elf, wlong, win; const char* mdl; };
static const struct target T[] = { {0, "-seg32", "-elf", "_LINUX", 0, "lcl.a", "a.out", 1, 1, 1, 1, 0, 0}, {"-linux", "-seg32", "-elf", "_LINUX", 0, "lcl.a", "a.out", 1, 1, 1, 1, 0, 0}, {"-elf", "-seg32", "-elf", 0, 0, 0, "a.out", 1, 0, 1, 1, 0, 0},
  {"-dost", "-seg16", "-tiny", "_DOS", 0, "lcds.a", "a.com", 0, 1, 0, 0, 0, 0}, {"-tiny", "-seg16", "-tiny", 0, 0, 0, "a.com", 0, 0, 0, 0, 0, 0}, {"-doss", "-seg16", "-small", "_DOS", 0, "lcds.a", "a.exe", 0, 1, 0, 0, 0, 0}, {"-small", "-seg16", "-small", 0, 0, 0, "a.exe", 0, 0, 0, 0, 0, 0},
  {"-dosh", "-huge", "-huge", "_DOS", 0, "lcdh.a", "a.exe", 1, 1, 0, 0, 0, "__HUGE__"}, {"-huge", "-huge", "-huge", 0, 0, 0, "a.exe", 1, 0, 0, 0, 0, "__HUGE__"}, {"-dosu", "-unreal", "-unreal", "_DOS", 0, "lcdu.a", "a.exe", 1, 1, 0, 0, 0, "__UNREAL__"}, {"-unreal", "-unreal", "-unreal", 0, 0, 0, "a.exe", 1, 0, 0, 0, 0, "__UNREAL__"},
  {"-dosp", "-seg32", "-aout", "_DOS", "_DPMI", "lcdp.a", "a.exe", 1, 1, 0, 0, 0, 0}, {"-aout", "-seg32", "-aout", 0, 0, 0, "a.out", 1, 0, 0, 0, 0, 0}, {"-win", "-seg32", "-pe", "_WINDOWS", 0, "lcw.a", "a.exe", 1, 1, 0, 0, 1, 0}, {"-pe", "-seg32", "-pe", 0, 0, 0, "a.exe", 1, 0, 0, 0, 0, 0},
  {"-macos", "-seg32", "-mach", "_MACOS", 0, "lcm.a", "a.out", 1, 1, 1, 1, 0, 0}, {"-flat16", "-seg16", "-flat16", 0, 0, 0, "a.bin", 0, 0, 0, 0, 0, 0}, {"-flat32", "-seg32", "-flat32", 0, 0, 0, "a.bin", 1, 0, 0, 0, 0, 0} };
static const struct target* t; static const char *inc, *libp, *stub; static int uc, wc, wl; /* wc: 0 default 1 signed 2 unsigned; wl: 0 default 1 short 2 long */
/* ---- the shell ---- */
static char wbuf[1500]; static char* W[64]; static int nw;
static void split(const char* c) { int j = 0, q = 0, started = 0; nw = 0; for (;; c++) { int ch = *c; if (q == '\'') { if (ch == '\'') q = 0; else { if (!ch) { VS_FAIL("a command has an unterminated quotation"); vs_stop(); } wbuf[j++] = ch; } continue; }
    if (q == '"') { if (ch == '"') { q = 0; continue; } if (!ch) { VS_FAIL("a command has an unterminated quotation"); vs_stop(); } if (ch == '\\' && (c[1] == '$' || c[1] == '`' || c[1] == '"' || c[1] == '\\')) ch = *++c; else if (ch == '$' || ch == '`') { VS_FAIL("a character of a name or option is special to the shell"); vs_stop(); } wbuf[j++] = ch; continue; }
    if (ch == 0 || ch == ' ' || ch == '\t') { if (started) { wbuf[j++] = 0; started = 0; } if (!ch) break; continue; }
    if (!started) { W[nw++] = wbuf + j; started = 1; if (ch == '#' || ch == '~') { VS_FAIL("a character of a name or option is special to the shell"); vs_stop(); } }
    if (ch == '\'' || ch == '"') { q = ch; continue; } if (ch == '\\') { ch = *++c; if (!ch) { VS_FAIL("a command ends in a backslash"); vs_stop(); } wbuf[j++] = ch; continue; }
    if (ch == '|' || ch == '&' || ch == ';' || ch == '<' || ch == '>' || ch == '(' || ch == ')' || ch == '$' || ch == '`' || ch == '*' || ch == '?' || ch == '[' || ch == '\n') { VS_FAIL("a character of a name or option is special to the shell"); vs_stop(); } wbuf[j++] = ch; } W[nw] = 0; }
static int eq(const char* a, const char* b) { return a && b && !strcmp(a, b); }
static int find(const char* w) { for (int i = 0; i < nw; i++) if (eq(W[i], w)) return i; return -1; }
static int pair(const char* a, const char* b) { for (int i = 0; i + 1 < nw; i++) if (eq(W[i], a) && eq(W[i + 1], b)) return i; return -1; }
static void inorder(char** u, int k, const char* m) { int p = 0; for (int i = 0; i < k; i++) { while (p < nw && !eq(W[p], u[i])) p++; vs_assert(p < nw, m); p++; } }
/* ---- the plan ---- */
struct step { int tool; int f; }; static struct step S[20]; static int ns, cur, failed; enum { PP, CC, AS, LD, CHMOD };
static void macros(int cmdpp) { const char* D = "-D"; if (t->def) vs_assert(pair(D, t->def) > 0, "the target's macro is not defined"); else vs_assert(pair(D, "_LINUX") < 0 && pair(D, "_DOS") < 0 && pair(D, "_WINDOWS") < 0 && pair(D, "_MACOS") < 0, "another target's macro is defined"); if (t->def2) vs_assert(pair(D, t->def2) > 0, "the target's macro is not defined");
  if (!cmdpp) return; vs_assert(pair(D, "__SMALLER_C__") > 0 && pair(D, t->macro32 ? "__SMALLER_C_32__" : "__SMALLER_C_16__") > 0 && pair(D, t->macro32 ? "__SMALLER_C_16__" : "__SMALLER_C_32__") < 0, "the compiler's macros are not defined"); if (t->mdl) vs_assert(pair(D, t->mdl) > 0, "the memory model's macro is not defined"); else vs_assert(pair(D, "__HUGE__") < 0 && pair(D, "__UNREAL__") < 0, "another memory model's macro is defined");
  int us = wc ? wc == 2 : !t->wlong, sh = wl ? wl == 1 : !t->wlong; vs_assert(pair(D, uc ? "__SMALLER_C_UCHAR__" : "__SMALLER_C_SCHAR__") > 0 && pair(D, uc ? "__SMALLER_C_SCHAR__" : "__SMALLER_C_UCHAR__") < 0, "the signedness of char is not passed on"); vs_assert(pair(D, us ? "__SMALLER_C_UWCHAR__" : "__SMALLER_C_SWCHAR__") > 0 && pair(D, us ? "__SMALLER_C_SWCHAR__" : "__SMALLER_C_UWCHAR__") < 0 && pair(D, sh ? "__SMALLER_C_WCHAR16__" : "__SMALLER_C_WCHAR32__") > 0 && pair(D, sh ? "__SMALLER_C_WCHAR32__" : "__SMALLER_C_WCHAR16__") < 0, "the type of wchar_t is not passed on"); }
static void has(const char* nm_, const char* m) { vs_assert(h_find(nm_) != 0, m); }
static int asmout(int f, const char** o) { *o = mode == ASM && out && n == 1 ? out : as_[f]; return 0; }
static const char* objout(int f) { return mode == OBJ && out && n == 1 ? out : ob[f]; }
static int sys(const char* cmd) {
  vs_assert(!failed, "another stage was run after one had failed"); split(cmd); if (cur >= ns) { VS_FAIL("a stage was run that is not needed"); vs_stop(); } struct step s = S[cur++]; int f = s.f, ok = 1; const char *a = 0, *o = 0; int partial = 1;
  switch (s.tool) {
  case PP: { vs_assert(eq(W[0], pp == 2 ? "gcc" : "smlrpp"), "the wrong tool was run"); int k = pair("-o", mid[f]); vs_assert(k > 0 && find(in[f]) > 0, "the preprocessor was not given its input and output"); inorder(user, nuser, "an option was not passed to the preprocessor as it was given"); macros(1); if (inc) vs_assert(pair(pp == 2 ? "-isystem" : "-J", inc) > 0, "the system include directory was not passed to the preprocessor"); a = in[f]; o = mid[f]; break; }
  case CC: { vs_assert(eq(W[0], "smlrc"), "the wrong tool was run"); a = kind[f] == KC && pp != 1 ? mid[f] : in[f]; asmout(f, &o); vs_assert(nw >= 3 && eq(W[nw - 2], a) && eq(W[nw - 1], o), "the compiler was not given its input and output"); vs_assert(find(t->cc) > 0, "the compiler was not told the memory model"); static const char* const mm[] = {"-seg16", "-seg32", "-huge", "-unreal"}; for (int i = 0; i < 4; i++) if (!eq(mm[i], t->cc)) vs_assert(find(mm[i]) < 0, "the compiler was told another memory model"); vs_assert((find("-winstack") > 0) == t->win, "-winstack"); inorder(copt, ncopt, "an option was not passed to the compiler as it was given");
      if (pp == 1) { inorder(user, nuser, "an option was not passed to the compiler as it was given"); macros(0); if (inc) vs_assert(pair("-SI", inc) > 0, "the system include directory was not passed to the compiler"); } else vs_assert(find("-nopp") > 0, "the compiler was not told that its input is preprocessed"); if (t->wlong && !wc) vs_assert(find("-signed-wchar") > 0, "the compiler was not told the target's wchar_t"); if (t->wlong && !wl) vs_assert(find("-long-wchar") > 0, "the compiler was not told the target's wchar_t"); break; }
  case AS: { a = kind[f] == KASM ? in[f] : as_[f]; o = objout(f); vs_assert(eq(W[0], asmname), "the wrong tool was run"); vs_assert(pair("-f", "elf") > 0 && pair("-o", o) > 0 && find(a) > 0, "the assembler was not given its input and output"); vs_assert(nw == 6, "the assembler was given something else"); partial = 0; break; }
  case LD: { vs_assert(eq(W[0], "smlrl"), "the wrong tool was run"); vs_assert(find(t->ld) > 0, "the linker was not told the output format"); for (unsigned i = 0; i < sizeof T / sizeof T[0]; i++) if (!eq(T[i].ld, t->ld)) vs_assert(find(T[i].ld) < 0, "the linker was told another output format"); int p = 0; for (int i = 0; i < n; i++) { const char* x = kind[i] < KO ? ob[i] : in[i]; while (p < nw && !eq(W[p], x)) p++; vs_assert(p < nw, "a file is not linked, or is linked in another place"); p++; has(x, "a file to be linked does not exist"); }
      if (libp) { while (p < nw && !eq(W[p], libp)) p++; vs_assert(p < nw, "the standard library is not linked after the program"); } else for (unsigned i = 0; i < sizeof T / sizeof T[0]; i++) if (T[i].lib) for (int k = 0; k < nw; k++) vs_assert(!strstr(W[k], T[i].lib), "a library that was not asked for is linked"); if (stub) vs_assert(pair("-stub", stub) > 0, "the stub was not passed to the linker"); else vs_assert(find("-stub") < 0, "a stub that was not asked for was passed to the linker"); inorder(lopt, nlopt, "an option was not passed to the linker as it was given"); o = out; vs_assert(pair("-o", o) > 0, "the linker was not given the output file's name"); break; }
  case CHMOD: { vs_assert(eq(W[0], "chmod") && nw == 3 && eq(W[2], out), "the output file was not made executable"); break; } }
  if (a) has(a, "a stage was run before its input existed");
  if (vs_choice(2, "stage fails")) { failed = 1; if (o && partial && vs_choice(2, "partial output")) h_put(o, "x", 1); return 256; } if (o) h_put(o, "made", 4); return 0; }
static int arg; static char* av[40]; static void A_(const char* a) { av[arg++] = (char*)a; }
static char special(void) { char c = (char)vs_u8("character"); vs_assume(c != 0 && c != '/' && (vs_param("nl", 0) || c != '\n')); return c; }
int main(void) {
  static const char* const ext[] = {".c", ".i", ".asm", ".o", ".a", ".C"}; int sp = vs_param("special", 0), tg = vs_param("target", -1), np = vs_param("n", 0); t = &T[tg < 0 ? vs_choice(sizeof T / sizeof T[0], "target") : tg]; mode = vs_param("mode", -1) < 0 ? (int)vs_choice(4, "mode") : vs_param("mode", 0); n = np ? np : 1 + (int)vs_choice(2, "files");
  pp = vs_param("pp", 0) == 9 ? (int)vs_choice(3, "preprocessor") : vs_param("pp", 0); int opts = vs_param("opts", 0), pre = 0; asmname = "nasm";
  for (int i = 0; i < n; i++) { int k = vs_choice(5, "kind"); vs_assume(vs_param("kinds", 31) >> k & 1); kind[i] = k; char b[4]; int j = 0; if (sp == 1 && i == 0) { b[j] = special(); vs_assume(b[j] != '-' && b[j] != '@'); j++; } b[j++] = (char)('p' + i); if (sp == 2 && i == 0) { b[j++] = special(); b[j++] = special(); } b[j] = 0; strcpy(in[i], b); strcat(in[i], ext[k]); strcpy(mid[i], b); strcat(mid[i], ".i"); strcpy(as_[i], b); strcat(as_[i], ".asm"); strcpy(ob[i], b); strcat(ob[i], ".o"); h_put(in[i], "src", 3); }
  A_("smlrcc"); int early = vs_param("late", 0) ? (int)vs_choice(2, "options first") : 1; if (!early) for (int i = 0; i < n; i++) A_(in[i]);
  if (t->opt) A_(t->opt); if (pp == 1) A_("-nopp"); if (pp == 2) A_("-ppg");
  if (opts & 1) { int k = vs_choice(5, "define"); static char d[8]; int j = 0; if (k == 2) { A_("-I"); user[nuser++] = "-I"; } else if (k >= 3) ; else if (k) { A_("-D"); user[nuser++] = "-D"; } else { d[j++] = '-'; d[j++] = 'D'; user[nuser++] = "-D"; } if (k < 3) { int s0 = j; d[j++] = 'M'; d[j++] = '='; if (sp == 3) { d[j++] = special(); d[j++] = special(); } else d[j++] = '1'; d[j] = 0; user[nuser++] = d + s0; A_(d); A_("-Dx"); user[nuser++] = "-D"; user[nuser++] = "x"; } if (k == 3) { A_("-Iinc dir"); user[nuser++] = "-I"; user[nuser++] = "inc dir"; } }
  if (opts & 2) { static const char* const lo[] = {"-map", "-entry", "-origin", "-stack", "-minheap", "-maxheap", "-pesubsys"}; int k = vs_choice(10, "linker option"); if (k < 7) { static char v[4]; v[0] = 'm'; if (sp == 4) v[1] = special(); A_(lo[k]); A_(v); lopt[nlopt++] = (char*)lo[k]; lopt[nlopt++] = v; } else if (k < 9) { A_(k == 7 ? "-norel" : "-gui"); lopt[nlopt++] = k == 7 ? "-norel" : "-gui"; } }
  if (opts & 4) { int k = vs_choice(6, "compiler option"); if (k == 1) { A_("-unsigned-char"); uc = 1; copt[ncopt++] = "-unsigned-char"; } else if (k == 2) { A_("-signed-wchar"); wc = 1; copt[ncopt++] = "-signed-wchar"; } else if (k == 3) { A_("-unsigned-wchar"); A_("-short-wchar"); wc = 2; wl = 1; copt[ncopt++] = "-unsigned-wchar"; copt[ncopt++] = "-short-wchar"; } else if (k == 4) { A_("-long-wchar"); A_("-Wall"); wl = 2; copt[ncopt++] = "-long-wchar"; copt[ncopt++] = "-Wall"; } else if (k == 5) { A_("-nobss"); copt[ncopt++] = "-nobss"; lopt[nlopt++] = "-nobss"; } }
  if (opts & 8) { if (vs_choice(2, "assembler")) { A_("-asm"); A_("my asm"); asmname = "my asm"; } else if (vs_choice(2, "assembler from the environment")) { env_asm = 1; asmname = "yasm"; } }
  if (mode == OBJ || mode == AR) A_("-c"); if (mode == ASM) A_("-S"); int wo = mode == AR || vs_choice(2, "output name"); static char on[12]; if (wo) { int j = 0; if (sp == 5) { on[j++] = special(); vs_assume(on[0] != '-'); } on[j] = 0; strcat(on, mode == AR ? "lib.a" : mode == LINK ? "prog" : mode == ASM ? "o.s" : "o.obj"); A_("-o"); A_(on); out = on; } else if (mode == LINK) out = t->dout;
  if (early) for (int i = 0; i < n; i++) A_(in[i]); 
  /* the installation */
  if (opts & 16) { int k = vs_choice(5, "installation"); env_smlrc = k == 1 || k == 4; env_home = k == 2 || k == 4; const char* dir = k == 1 ? "/e/" : k == 2 ? "/h/smlrc/" : k == 3 ? "/usr/local/smlrc/" : 0; static char ib[40], lb[40], sb[40]; if (k == 4) { /* headers in one place, the library in another */ strcpy(ib, "/e/include"); h_put("/e/include/limits.h", "", 0); inc = ib; dir = "/h/smlrc/"; } else if (dir) { strcpy(ib, dir); strcat(ib, "include/limits.h"); h_put(strdup(ib), "", 0); *strrchr(ib, '/') = 0; inc = ib; }
    if (dir) { strcpy(lb, dir); strcat(lb, "lib/"); strcpy(sb, lb); strcat(sb, "dpstub.exe"); h_put(sb, "", 0); for (unsigned i = 0; i < sizeof T / sizeof T[0]; i++) if (T[i].lib) { char x[48]; strcpy(x, lb); strcat(x, T[i].lib); h_put(strdup(x), "", 0); } if (t->std) { strcat(lb, t->lib); libp = lb; if (t->def2) stub = sb; } } }
  if (opts & 32 && vs_choice(2, "own stub")) { A_("-stub"); A_("s t.exe"); stub = "s t.exe"; }
  if (vs_param("at", 0)) { static char buf[400]; int j = 0; static const char sep[] = " \n\t\r\f\v"; int from = vs_choice(arg, "first argument in the file"); vs_assume(from > 0); if (vs_choice(2, "leading")) buf[j++] = ' '; for (int i = from; i < arg; i++) { vs_assume(!strpbrk(av[i], sep)); strcpy(buf + j, av[i]); j += strlen(av[i]); if (i + 1 < arg || vs_choice(2, "trailing")) { buf[j++] = sep[vs_choice(i == from ? 6 : 1, "separator")]; if (vs_choice(i == from ? 2 : 1, "two")) buf[j++] = '\n'; } } h_put("args", buf, j); av[from] = "@args"; arg = from + 1; }
  av[arg] = 0; pre = 0;
  for (int i = 0; i < n; i++) { if (kind[i] == KC && pp != 1) S[ns].tool = PP, S[ns++].f = i; if (kind[i] <= KI) S[ns].tool = CC, S[ns++].f = i; if (kind[i] <= KASM && mode != ASM) S[ns].tool = AS, S[ns++].f = i; } if (mode == LINK) { S[ns++].tool = LD; if (t->elf) S[ns++].tool = CHMOD; }
  int base = 0; for (int i = 0; i < h_nfiles; i++) base += h_files[i].exists; h_system = sys;
  int rc = h_run(smlrcc_main, arg, av); int left = 0; for (int i = 0; i < h_nfiles; i++) left += h_files[i].exists;
  for (int i = 0; i < n; i++) has(in[i], "an input file was deleted");
  if (failed) { vs_cover("failure"); vs_assert(rc != 0, "a failed stage was not reported"); int keep = 0; if (mode == OBJ) { int done = 0; for (int q = 0; q < cur - 1; q++) if (S[q].tool == AS) done++; for (int i = 0; i < n; i++) if (kind[i] <= KASM && h_find(objout(i))) keep++; vs_assert(keep <= done, "a partial output was left behind"); } vs_assert(left == base + keep, "an output or temporary file was left behind after a failure"); return 0; }
  vs_assert(rc == 0, "the driver failed although every stage succeeded"); vs_assert(cur == ns, "a stage that is needed was not run"); int want = 0;
  if (mode == LINK || mode == AR) { has(out, "the output file is missing"); want = 1; vs_cover(mode == LINK ? "linked" : "archived"); if (mode == AR) { struct h_file* f = h_find(out); unsigned o = 8; for (int i = 0; i < n; i++) if (kind[i] != KA) { int z = kind[i] == KO ? 3 : 4; vs_assert(f && f->size >= o + 60 + z && !memcmp(f->data + o + 60, kind[i] == KO ? "src" : "made", z), "a file is missing from the archive or in another place"); o += 60 + z + (z & 1); } vs_assert(f && f->size == o, "the archive contains something else"); } }
  else for (int i = 0; i < n; i++) { if (mode == OBJ && kind[i] <= KASM) { has(objout(i), "an object file is missing"); want++; vs_cover("object"); } if (mode == ASM && kind[i] <= KI) { const char* o; asmout(i, &o); has(o, "an assembly file is missing"); want++; vs_cover("assembly"); } }
  vs_assert(left == base + want, "temporary files were left behind"); return 0;
}
