/* P01: #if/#elif expressions generated from operator shapes over literals whose digits are symbolic; the group smlrpp selects is
 * compared with 64-bit C arithmetic. */
#include "pp.h"
enum { K_OCT, K_HEX, K_DEC, K_CHR, K_NAME, K_DEF, K_BIG, K_MAC, NK };
enum { B_MUL, B_DIV, B_MOD, B_ADD, B_SUB, B_SHL, B_SHR, B_LT, B_LE, B_GT, B_GE, B_EQ, B_NE, B_AND, B_XOR, B_OR, B_LAND, B_LOR, NB };
static const char* const bn[] = {"*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"};
static const int bp[] = {12, 12, 12, 11, 11, 10, 10, 9, 9, 9, 9, 8, 8, 7, 6, 5, 4, 3};
static int km, om, om0, um, dg, paren, suf; 
struct node { int k, op, kid[3]; vu64 v; int u, name; } nd[24]; static int nn;
static int pick(int mask, int n, const char* w) { int c = 0, a[32]; for (int i = 0; i < n; i++) if (mask >> i & 1) a[c++] = i; return c == 1 ? a[0] : a[vs_choice(c, w)]; }
static int bad, over, ovf; /* division by zero evaluated; undefined by overflow or shift count */
static void ub(int c) { if (!ovf) vs_assume(!c); else if (c) over = 1; }
static const char* def_[] = {"D0", "UD0"};
static int shp; static int dig(void) { int d = shp % 10; shp /= 10; return d; }
static int forced = -1; /* operator forced at the root */
static int gen(int sh) { int n = nn++; nd[n].k = sh; switch (sh) { case 0: nd[n].op = pick(km, NK, "literal kind"); break; case 1: nd[n].op = pick(n ? om : om0, NB, "op"); break; case 3: nd[n].op = pick(um, 4, "unary"); break; } return n; }
static char dstr[64];
/* shape digits, most significant first, prefix order */
static int tree(char** p) { int sh = **p ? *(*p)++ - '0' : 0; int n = gen(sh); int kids = sh == 1 || sh == 7 || sh == 8 ? 2 : sh == 3 ? 1 : sh == 5 ? 3 : 0; for (int i = 0; i < kids; i++) nd[n].kid[i] = tree(p); return n; }
static int prec(int n) { switch (nd[n].k) { case 1: return bp[nd[n].op]; case 3: return 13; case 5: return 2; } return 20; }
static int sp_;
static void sep(void) { if (sp_) pch(' '); }
static int lits;
static void lit(struct node* t) { static const char* const sfx[] = {"", "u", "L", "Ul", "lU", "ll", "uLL", "LLU"}; vu64 v = 0; t->u = 0; int maxd, i;
  switch (t->op) {
  case K_OCT: { int d = dg ? dg : 22; pch('0'); if (lits && !dg) d = 22; for (i = 0; i < d; i++) { unsigned c = i == 0 && d == 22 ? vs_range('0', '1', "d") : vs_range('0', '7', "d"); pch(c); v = v << 3 | (c - '0'); } break; }
  case K_HEX: { int d = dg && dg < 16 ? dg : 16; pstr(vs_choice(2, "hex prefix") ? "0X" : "0x"); for (i = 0; i < d; i++) { unsigned c; if (i == d - 1) { static const vu8 ch[3] = {1, 0, 0}; int w = vs_choice(4, "hex digit class"); c = w == 0 ? vs_range('0', '9', "d") : w == 1 ? vs_range('a', 'd', "d") : w == 2 ? vs_range('A', 'D', "d") : vs_choice(2, "e") ? 'e' : 'F'; } else c = vs_range('0', '9', "d"); pch(c); v = v << 4 | (vu64)(c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } break; }
  case K_DEC: { int d = dg && dg < 19 ? dg : 19; for (i = 0; i < d; i++) { unsigned c = vs_range(i || d == 1 ? '0' : '1', '9', "d"); pch(c); v = v * 10 + (c - '0'); } if (d == 19) vs_assume(!(v >> 63)); break; }
  case K_BIG: { /* the ends of the ranges */ static const char* const tx[] = {"9223372036854775807", "18446744073709551615u", "0xffffffffffffffff", "0x8000000000000000", "0xffffffff", "4294967296", "01777777777777777777777", "0x100000000", "2147483648", "(-9223372036854775807-1)"}; static const vu64 tv[] = {9223372036854775807ull, ~0ull, ~0ull, 1ull << 63, 0xffffffffull, 1ull << 32, ~0ull, 1ull << 32, 1ull << 31, 1ull << 63}; i = vs_choice(10, "limit"); pstr(tx[i]); t->v = tv[i]; t->u = i == 1 || i == 2 || i == 3 || i == 6; return; }
  case K_CHR: { i = vs_choice(5, "character constant"); pch('\''); unsigned c; switch (i) { case 0: c = vs_range(' ' + 8, '>', "c"); pch(c); v = c; break; case 1: c = vs_range('A', 'Z', "c"); pch(c); v = c; break; case 2: pch('\\'); { static const char e[] = "ntvbrfa\\'\"?0"; static const vu8 ev[] = {10, 9, 11, 8, 13, 12, 7, '\\', '\'', '"', '?', 0}; int k = vs_choice(12, "escape"); pch(e[k]); v = ev[k]; } break; case 3: { pch('\\'); unsigned a = vs_range('0', '1', "o"), b = vs_range('0', '7', "o"), c_ = vs_range('0', '7', "o"); pch(a); pch(b); pch(c_); v = (a - '0') << 6 | (b - '0') << 3 | (c_ - '0'); break; } case 4: { pstr("\\x"); unsigned a = vs_range('0', '7', "x"), b = vs_range('0', '9', "x"); pch(a); pch(b); v = (a - '0') << 4 | (b - '0'); break; } } pch('\''); t->v = v; return; }
  case K_NAME: i = vs_choice(3, "name"); pstr(i == 0 ? "undefined_name" : i == 1 ? "int" : "L1"); t->v = 0; return;
  case K_DEF: i = vs_choice(5, "defined"); pstr(i == 0 ? "defined DM" : i == 1 ? "defined(DM)" : i == 2 ? "defined UM" : i == 3 ? "defined ( UM )" : "defined EM"); t->v = i != 2 && i != 3; return;
  case K_MAC: i = vs_choice(4, "macro"); pstr(i == 0 ? "DM" : i == 1 ? "ID(6)" : i == 2 ? "NEG" : "UM2"); t->v = i == 0 ? 5 : i == 1 ? 6 : i == 2 ? (vu64)-3 : 7; t->u = i == 3; return;
  }
  int s = suf < 0 ? vs_choice(8, "suffix") : suf; pstr(sfx[s]); if (ps[pn - 1] == 'e') pch(' '); /* 0xe+1 is one token */ t->u = s == 1 || s == 3 || s == 4 || s >= 6; t->v = v;
  if (!t->u && t->op != K_DEC) { if (v >> 63) t->u = 1; } lits++; }
static void put(int n, int pc) { struct node* t = &nd[n]; int own = prec(n), par = own < pc || paren && t->k && vs_choice(2, "parentheses"); if (par) { pch('('); sep(); }
  switch (t->k) { case 0: lit(t); break; case 1: put(t->kid[0], own); sep(); pstr(bn[t->op]); sep(); put(t->kid[1], own + 1); break; 
  case 3: pch("!~+-"[t->op]); if (t->op > 1 && nd[t->kid[0]].k == 3) pch(' '); put(t->kid[0], 13); break; case 5: put(t->kid[0], 3); pch('?'); put(t->kid[1], 3); pch(':'); put(t->kid[2], 2); break; }
  if (par) { sep(); pch(')'); } }
/* the type of a node (unsigned?) and its value; ev: evaluated */
static int isu(int n) { struct node* t = &nd[n]; switch (t->k) { case 0: return t->u; case 1: if (t->op >= B_LT && t->op <= B_NE || t->op >= B_LAND) return 0; if (t->op == B_SHL || t->op == B_SHR) return isu(t->kid[0]); return isu(t->kid[0]) | isu(t->kid[1]); case 3: return t->op ? isu(t->kid[0]) : 0; case 5: return isu(t->kid[1]) | isu(t->kid[2]); } return 0; }
static vu64 ev(int n) { struct node* t = &nd[n]; if (t->k == 0) return t->v; 
  if (t->k == 3) { vu64 a = ev(t->kid[0]); switch (t->op) { case 0: return !a; case 1: return ~a; case 2: return a; } if (!bad && !isu(n)) ub(a == 1ull << 63); return 0 - a; }
  if (t->k == 5) { vu64 c = ev(t->kid[0]); return c ? ev(t->kid[1]) : ev(t->kid[2]); }
  if (t->op == B_LAND) return ev(t->kid[0]) ? ev(t->kid[1]) != 0 : 0; if (t->op == B_LOR) return ev(t->kid[0]) ? 1 : ev(t->kid[1]) != 0;
  int u = isu(t->kid[0]) | isu(t->kid[1]); vu64 a = ev(t->kid[0]), b; if (bad) return 0; b = ev(t->kid[1]); if (bad) return 0; vs64 r; vs64 sa = (vs64)a, sb = (vs64)b;
  switch (t->op) {
  case B_MUL: if (!u) { vu64 ma = sa < 0 ? 0 - a : a, mb = sb < 0 ? 0 - b : b; vs_assume(!(ma >> 31) && !(mb >> 31)); } return a * b;
  case B_DIV: if (b == 0) { bad = 1; return 0; } if (u) return a / b; if (sa == (vs64)(1ull << 63) && sb == -1) { bad = 1; return 0; } return (vu64)(sa / sb);
  case B_MOD: if (b == 0) { bad = 1; return 0; } if (u) return a % b; if (sa == (vs64)(1ull << 63) && sb == -1) vs_assume(0); return (vu64)(sa % sb);
  case B_ADD: if (!u) ub(((a ^ (a + b)) & (b ^ (a + b))) >> 63); return a + b;
  case B_SUB: if (!u) ub(((a ^ b) & (a ^ (a - b))) >> 63); return a - b;
  case B_SHL: ub(b >= 64); if (over) return 0; if (!isu(n)) { vu64 q = a << b; if (sa >= 0) ub((vs64)q < 0 || q >> b != a); else vs_assume(0); } return a << b;
  case B_SHR: ub(b >= 64); if (over) return 0; return isu(n) ? a >> b : (vu64)(sa >> b);
  case B_LT: return u ? a < b : sa < sb; case B_LE: return u ? a <= b : sa <= sb; case B_GT: return u ? a > b : sa > sb; case B_GE: return u ? a >= b : sa >= sb; case B_EQ: return a == b; case B_NE: return a != b;
  case B_AND: return a & b; case B_XOR: return a ^ b; case B_OR: return a | b; } return 0; }
/* malformed: # stands for a literal with symbolic digits */
static const char* const mal[] = {"( #", "# )", "# +", "* #", "# #", "#.5", "# = #", "\"s\"", "#x", "08", "0x", "0xu", "''", "# ? #", "# : #", "defined", "defined(", "defined( X", "defined(#)", "defined X Y", "", "99999999999999999999", "18446744073709551616u", "#ulu", "#lLu", "#Ll", "#uu", "0x10000000000000000", "02000000000000000000000", "'\\q'", "#e5", "x(", "# ? # : # : #", "++#", "# ++ #", "-", "# &&", "()", "x y", "# ## #", "@", "#;", "sizeof(#)", "# || # #", "0 && (", "0 && (#", "1 || )", "defined && #", "defined + X", "# ? : #", "! ", "# !", "ID(", "ID(#,#)", "EM", "EM EM", "{#}", "#,", "#[#]", "#9x", "-9223372036854775808", "'", "#/", "#%", "#<", "# < > #", "#<=", "DM.", "# -> #", "1 ? (2 : 3)"};
static int malformed(void) { int dir = vs_choice(2, "elif"), k = vs_choice(sizeof mal / sizeof *mal, "malformed"); pstr("#define DM 5\n#define EM\n#define ID(x) x\n#define NEG -3\n"); pstr(dir ? "#if 0\nX\n#elif " : "#if "); for (const char* p = mal[k]; *p; p++) if (*p == '#' && p[1] != '#' && (p == mal[k] || p[-1] != '#')) { pch(vs_range('1', '7', "d")); pch(vs_range('0', '7', "d")); } else pch(*p); pstr("\nY\n#else\nN\n#endif\n"); int rc = pp_run(); vs_cover("malformed"); if (!rc || !h_outn) vs_log(ps); vs_assert(rc != 0 && h_outn > 0, "a malformed #if expression is not diagnosed"); return 0; }
int main(void) { if (vs_param("mal", 0)) return malformed(); ovf = vs_param("ovf", 0); int shape = vs_param("shape", 100), i; km = vs_param("km", 1); om = vs_param("om", 0x3ffff); om0 = vs_param("om0", om); um = vs_param("um", 15); dg = vs_param("dg", 0); paren = vs_param("paren", 0); suf = vs_param("suf", -1); int dir = vs_param("dir", 0);
  int x = 0; for (int v = shape; v; v /= 10) x++; if (!x) x = 1; for (i = x - 1; i >= 0; i--) dstr[i] = '0' + shape % 10, shape /= 10;
  pstr("#define DM 5\n#define EM\n#define ID(x) x\n#define NEG -3\n#define UM2 7u\n"); sp_ = vs_param("sp", 2); if (sp_ > 1) sp_ = vs_choice(2, "spaces"); char* p = dstr; 
  if (dir) pstr("#if 0\nX\n#elif "); else pstr("#if "); int root = tree(&p); put(root, 0); pstr("\nY\n#else\nN\n#endif\n");
  int rc = pp_run(); vu64 r = ev(root); 
  /* what was output apart from line markers */
  char got[64]; int gn = 0, bol = 1, skip = 0; for (unsigned k = 0; k < pon && gn < 60; k++) { char c = po[k]; if (bol && c == '#') skip = 1; bol = c == '\n'; if (bol) skip = 0; if (!skip && c != '\n' && c != ' ') got[gn++] = c; } got[gn] = 0;
  if (bad) { vs_cover("error"); vs_assert(rc != 0 && h_outn > 0, "an invalid #if expression (division by zero or overflow) is not diagnosed"); return 0; }
  if (over) { vs_cover("overflow"); vs_assert(h_outn > 0, "overflow in an evaluated #if expression is not diagnosed"); return 0; }
  vs_cover("selected"); if (rc) { h_out[h_outn] = 0; vs_log(h_out); vs_log(ps); vs_assert(0, "a valid #if expression is rejected"); vs_stop(); }
  vs_assert(gn == 1 && (got[0] == 'Y' || got[0] == 'N'), "not exactly one group was output"); vs_assert((got[0] == 'Y') == (r != 0), "the wrong group was selected"); return 0; }
