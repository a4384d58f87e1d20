/* D02: archives made by the driver hold every member unchanged, and the linker finds exactly those members in them */
#include "ldobj.h"
int smlrcc_main(int, char**);
#define MX 3
static const char* const forms[] = {"%.o", "dir/%.o", "%.O", "a.b/c/%.o", "%_567890123.o", "%_5678901234.o", "%_56789012345.o", "dir/sub dir/%_long_enough_to_need_mor.o", "%.c/.o", "%_567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890.o"};
static char nm[MX][140]; static const char* base[MX]; static vu8 ct[MX][4200]; static unsigned sz[MX], n; static char* av[16];
static int num(const vu8* p, int w, unsigned* v) { int i = 0; *v = 0; while (i < w && p[i] >= '0' && p[i] <= '9') *v = *v * 10 + (p[i++] - '0'); if (!i) return 0; while (i < w && p[i] == ' ') i++; return i == w; }
static void mk(int k, int fm) { const char* f = forms[fm]; int j = 0; base[k] = nm[k]; for (; *f; f++) { nm[k][j++] = *f == '%' ? (char)('p' + k) : *f; if (*f == '/') base[k] = nm[k] + j; } nm[k][j] = 0; }
static int faultleft; static int hit; static int fault(const char* op, const char* name) { int mine = !strcmp(name, "lib.a"); for (unsigned k = 0; k < n; k++) mine |= !strcmp(name, nm[k]); if (!mine) return 0; if (faultleft && vs_choice(2, "fault")) { faultleft = 0; hit = 1; return 1; } return 0; }
int main(void) {
  int mode = vs_param("mode", 0), nb0 = vs_param("big", 0); n = vs_param("n", 0) ? vs_param("n", 0) : 1 + vs_choice(3, "members"); unsigned fmask = vs_param("forms", 0x3ff);
  static struct obj ob[MX], om; static vu8 body[MX + 1][40];
  for (int k = 0; k < (int)n; k++) { int fm = vs_choice(10, "name form"); vs_assume(fmask >> fm & 1); mk(k, fm);
    if (mode == 0) { static const unsigned S[] = {0, 1, 2, 7, 1023, 1024, 1025, 2047, 2049, 4096}; int s = vs_choice(nb0 ? 10 : 4, "size"); sz[k] = S[s]; if (sz[k] < 100) for (unsigned i = 0; i < sz[k]; i++) ct[k][i] = vs_u8("contents"); else { for (unsigned i = 0; i < sz[k]; i++) ct[k][i] = (vu8)(i * 7 + (i >> 8) + k); ct[k][0] = vs_u8("contents"); ct[k][1023] = vs_u8("contents"); ct[k][sz[k] - 1] = vs_u8("contents"); } }
    else { struct obj* o = &ob[k]; for (int i = 0; i < 8; i++) body[k][i] = vs_u8("code"); int t = osec(o, ".text", 1, 6, 1, 8, body[k]); char* s = vs_alloc(4); s[0] = 'f'; s[1] = (char)('0' + k); s[2] = 0; osym(o, s, 2, 0x10, t); unsigned e = obuild(o, ct[k], 0, 0); e += vs_choice(2, "padding"); sz[k] = e; }
    h_put(nm[k], ct[k], sz[k]); }
  unsigned ac = 0; av[ac++] = "smlrcc"; av[ac++] = "-flat32"; av[ac++] = "-c"; av[ac++] = "-o"; av[ac++] = "lib.a"; for (int k = 0; k < (int)n; k++) av[ac++] = nm[k];
  if (mode == 2) { h_put("lib.a", "old", 3); faultleft = 1; h_fault = fault; } int rc = h_run(smlrcc_main, ac, av); h_fault = 0;
  if (hit) { vs_cover("fault"); vs_assert(rc != 0, "a failure to read a member or to write the archive was not reported"); vs_assert(!h_find("lib.a"), "a partial archive was left behind"); for (int k = 0; k < (int)n; k++) { struct h_file* f = h_find(nm[k]); vs_assert(f && f->size == sz[k], "an input file was changed or deleted"); } return 0; }
  vs_assert(rc == 0, "creating an archive failed"); struct h_file* f = h_find("lib.a"); if (!f) { VS_FAIL("no archive was created"); return 0; } vu8* a = f->data; unsigned z = f->size, o = 8;
  vs_assert(z >= 8 && !memcmp(a, "!<arch>\n", 8), "the archive does not begin with its signature");
  for (int k = 0; k < (int)n; k++) { struct h_file* m = h_find(nm[k]); vs_assert(m && m->size == sz[k], "an input file was changed or deleted"); unsigned L = strlen(base[k]), v, d = o + 60, t = sz[k]; vs_assert(o + 60 <= z && a[o + 58] == 0x60 && a[o + 59] == '\n', "a member header is missing or malformed"); if (o + 60 > z) return 0;
    if (a[o] == '#' && a[o + 1] == '1' && a[o + 2] == '/') { vs_assert(num(a + o + 3, 13, &v), "a malformed name length"); vs_assert(v == L && d + L <= z && !memcmp(a + d, base[k], L), "a member has the wrong name"); d += L; t += L; vs_cover("long name"); }
    else { unsigned i = 0; for (; i < L && i < 16; i++) vs_assert(a[o + i] == (vu8)base[k][i], "a member has the wrong name"); if (L < 16) { vs_assert(a[o + L] == '/', "a member has the wrong name"); i++; } else vs_assert(L == 16, "a member has the wrong name"); for (; i < 16; i++) vs_assert(a[o + i] == ' ', "a member has the wrong name"); vs_cover("short name"); }
    vs_assert(num(a + o + 16, 12, &v) && num(a + o + 28, 6, &v) && num(a + o + 34, 6, &v) && num(a + o + 40, 8, &v), "a header field is not a number"); vs_assert(num(a + o + 48, 10, &v) && v == t, "a member has the wrong size"); vs_assert(d + sz[k] <= z, "the archive is too short"); if (d + sz[k] > z) return 0;
    if (sz[k] > 100) vs_assert(!memcmp(a + d, ct[k], sz[k]), "a member's contents changed"); else for (unsigned i = 0; i < sz[k]; i++) vs_assert(a[d + i] == ct[k][i], "a member's contents changed");
    o = d + sz[k]; if ((o - 8) & 1) { vs_assert(o < z && a[o] == '\n', "a member is not padded to an even size"); o++; vs_cover("padded"); } }
  vs_assert(o == z, "the archive contains something besides its members"); vs_cover("archived");
  if (mode == 1) { unsigned use = vs_choice(1u << n, "referenced"); vu8 mb[20] = {0x90}; int t = 0; for (int i = 0; i < 16; i++) mb[i] = vs_u8("main"); for (int i = 4; i < 16; i++) mb[i] = 0; t = osec(&om, ".text", 1, 6, 1, 16, mb); int y[MX]; for (int k = 0; k < (int)n; k++) if (use >> k & 1) { char* s = vs_alloc(4); s[0] = 'f'; s[1] = (char)('0' + k); s[2] = 0; y[k] = osym(&om, s, 0, 0x10, 0); } osym(&om, "__start", 0, 0x10, t); for (int k = 0; k < (int)n; k++) if (use >> k & 1) orel(&om, t, 4 + 4 * k, y[k], 1);
    static vu8 mo[4096]; unsigned ms = obuild(&om, mo, 0, 1); h_put("main.o", mo, ms); ac = 0; av[ac++] = "smlrl"; av[ac++] = "-flat32"; av[ac++] = "-o"; av[ac++] = "out"; av[ac++] = "main.o"; av[ac++] = "lib.a"; rc = h_run(smlrl_main, ac, av); vs_assert(rc == 0, "linking with the archive failed"); struct h_file* q = h_find("out"); if (!q || rc) return 0; unsigned at = 16; for (int i = 0; i < 4; i++) vs_assert(q->data[i] == mb[i], "the program is wrong");
    for (int k = 0; k < (int)n; k++) { vu32 w = g32(q->data + 4 + 4 * k); if (!(use >> k & 1)) { if (q->size >= 16) vs_assert(w == 0, "a field that refers to nothing changed"); continue; } vs_assert(at + 8 <= q->size, "a member the program needs was not linked"); if (at + 8 > q->size) return 0; vs_assert(w == at + 2, "a reference is bound to the wrong member"); for (int i = 0; i < 8; i++) vs_assert(q->data[at + i] == body[k][i], "a member's contents changed on their way into the program"); at += 8; } vs_assert(q->size == at, "members nothing refers to were linked"); vs_cover("linked"); }
  return 0; }
