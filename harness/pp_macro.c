/* P03: generated macro definitions and invocations go through the real smlrpp; the tokens it outputs are compared with those of a reference
 * expander (the C committee's hide set algorithm). Digits and characters of literals are symbolic. */
#include "pp.h"
#include "pp_tok.h"
static struct { short s, n, k, ws, next; int hs, op; } t[6000]; static int tn; static char tx[40000]; static int txn;
static struct { short s, n, narg, va, def, body; short ps[6], pn[6]; } m[8]; static int mn;
static int E, U, mode, depth;
static int newt(const char* p, int n, int k, int ws, int hs) { int i = tn++; t[i].s = txn; t[i].n = n; t[i].k = k; t[i].ws = ws; t[i].next = -1; t[i].hs = hs; t[i].op = 0; for (int j = 0; j < n; j++) tx[txn++] = p[j]; return i; }
static int cp(int a) { int i = tn++; t[i] = t[a]; t[i].next = -1; return i; }
static int eq(int a, const char* s) { int n = strlen(s); return t[a].n == n && !memcmp(tx + t[a].s, s, n); }
static int same(int a, int b) { return t[a].n == t[b].n && !memcmp(tx + t[a].s, tx + t[b].s, t[a].n); }
static int fm(int a) { if (t[a].k != 'N') return -1; for (int i = 0; i < mn; i++) if (m[i].def && m[i].n == t[a].n && !memcmp(tx + m[i].s, tx + t[a].s, t[a].n)) return i; return -1; }
struct L { int h, e; };
static void add(struct L* l, int i) { if (l->h < 0) l->h = i; else t[l->e].next = i; l->e = i; }
static struct L none(void) { struct L l = {-1, -1}; return l; }
static struct L expand(int h, int* unfinished);
static int param(int q, int a) { if (t[a].k != 'N') return -1; for (int i = 0; i < m[q].narg; i++) if (m[q].pn[i] == t[a].n && !memcmp(tx + m[q].ps[i], tx + t[a].s, t[a].n)) return i; if (m[q].va && eq(a, "__VA_ARGS__")) return m[q].narg; return -1; }
static int stringize(int h, int ws) { static char b[2000]; int n = 0; b[n++] = '"'; for (int i = h; i >= 0; i = t[i].next) { if (i != h && t[i].ws) b[n++] = ' '; for (int j = 0; j < t[i].n; j++) { char c = tx[t[i].s + j]; if (t[i].k == 'S' && (c == '"' || c == '\\')) b[n++] = '\\'; b[n++] = c; } } b[n++] = '"'; { int k = 1; while (k < n && b[k] != '"') k += 1 + (b[k] == '\\'); if (k != n - 1) U = 1; /* not a valid string literal: undefined */ } return newt(b, n, 'S', ws, 0); }
static int paste(int a, int b) { if (!t[b].n && t[b].k == 'M') return cp(a); if (t[a].k == 'M') { int r = cp(b); t[r].ws = t[a].ws; return r; } static char z[600]; static struct ts P; int n = 0, j; for (j = 0; j < t[a].n; j++) z[n++] = tx[t[a].s + j]; for (j = 0; j < t[b].n; j++) z[n++] = tx[t[b].s + j];
  phases12((unsigned char*)z, n, 0); tokens(&P, 0); if (P.err || P.n != 1 || P.t[0].n != n) U = 1; int r = newt(z, n, P.n == 1 ? P.t[0].k : 'P', t[a].ws, t[a].hs & t[b].hs); return r; }
static struct L subst(int q, struct L* args, int hs, int ws) { struct L o = none(); int used = 0;
  for (int i = m[q].body; i >= 0; i = t[i].next) { int p, nx = t[i].next; int before = o.e;
    if (m[q].narg >= 0 && (eq(i, "#") || eq(i, "%:")) && nx >= 0 && (p = param(q, nx)) >= 0) { add(&o, stringize(args[p].h, t[i].ws)); i = nx; }
    else if (t[i].op == 2) { /* ## : paste the last of o with the first of the next operand */ struct L r = none(); int ni = t[i].next; if (m[q].narg >= 0 && (eq(ni, "#") || eq(ni, "%:")) && t[ni].next >= 0 && (p = param(q, t[ni].next)) >= 0) { add(&r, stringize(args[p].h, t[ni].ws)); ni = t[ni].next; } else if ((p = param(q, ni)) >= 0) { for (int j = args[p].h; j >= 0; j = t[j].next) add(&r, cp(j)); if (r.h < 0) add(&r, newt("", 0, 'M', t[ni].ws, ~0)); } else add(&r, cp(ni));
      int g = paste(o.e, r.h); /* replace the last */ if (o.h == o.e) { o.h = o.e = g; } else { int k = o.h; while (t[k].next != o.e) k = t[k].next; t[k].next = g; o.e = g; } for (int j = t[r.h].next; j >= 0; j = t[j].next) { int c = cp(j); add(&o, c); } i = ni; }
    else if ((p = param(q, i)) >= 0) { int last = nx >= 0 && t[nx].op == 2; struct L x = none(); if (last) { for (int j = args[p].h; j >= 0; j = t[j].next) add(&x, cp(j)); } else { struct L y = none(); for (int j = args[p].h; j >= 0; j = t[j].next) add(&y, cp(j)); used |= 1 << p; x = expand(y.h, 0); } if (x.h < 0) add(&x, newt("", 0, 'M', t[i].ws, ~0)); t[x.h].ws = t[i].ws; for (int j = x.h; j >= 0; j = t[j].next) add(&o, cp(j)); }
    else add(&o, cp(i)); }
  if (m[q].narg >= 0) for (int p = 0; p < m[q].narg + m[q].va; p++) if (!(used >> p & 1) && !E) { struct L y = none(); for (int j = args[p].h; j >= 0; j = t[j].next) add(&y, cp(j)); expand(y.h, 0); if (E) { E = 0; U = 1; } }
  struct L f = none(); int pw = 0, first = 1; for (int j = o.h; j >= 0; j = t[j].next) { if (t[j].k == 'M') { pw |= first ? 0 : t[j].ws; if (first) pw |= 2; continue; } int c = cp(j); t[c].hs |= hs; if (pw & 1) t[c].ws = 1; add(&f, c); pw = 0; first = 0; } if (f.h >= 0) t[f.h].ws = ws; return f; }
static struct L expand(int h, int* seg) { struct L o = none(); if (++depth > 40) { U = 1; depth--; return o; }
  while (h >= 0 && !U && !E && tn < 5000) { int a = h, q = fm(a); h = t[a].next; if (q < 0 || t[a].hs >> q & 1) { add(&o, cp(a)); continue; }
    if (m[q].narg < 0) { struct L r = subst(q, 0, t[a].hs | 1 << q, t[a].ws); if (r.h >= 0) { t[r.e].next = h; h = r.h; } else if (h >= 0 && t[a].ws) { h = h; int c = cp(h); t[c].next = t[h].next; t[c].ws = 1; h = c; } continue; }
    if (h < 0 || !eq(h, "(") || t[h].k != 'P') { add(&o, cp(a)); continue; }
    struct L args[8]; int na = 0, d = 1, i = t[h].next; args[0] = none(); for (;; i = t[i].next) { if (i < 0) { E = 1; break; } if (t[i].k == 'P') { if (eq(i, "(")) d++; else if (eq(i, ")") && !--d) break; else if (eq(i, ",") && d == 1 && !(m[q].va && na >= m[q].narg)) { if (na >= 6) { U = 1; break; } args[++na] = none(); continue; } } add(&args[na], cp(i)); } if (E | U) break; na++;
    int want = m[q].narg + m[q].va; if (want == 0) { if (na != 1 || args[0].h >= 0) { E = 1; break; } } else if (na != want) { E = 1; break; }
    int hs = mode ? t[a].hs | 1 << q : t[a].hs & t[i].hs | 1 << q; struct L r = subst(q, args, hs, t[a].ws); h = t[i].next; if (r.h >= 0) { t[r.e].next = h; h = r.h; } else if (h >= 0 && t[a].ws) { int c = cp(h); t[c].next = t[h].next; t[c].ws = 1; h = c; } }
  if (tn >= 5000) U = 1; depth--; return o; }
static int tk(struct ts* S, int i) { return newt(S->b + S->t[i].s, S->t[i].n, S->t[i].k, S->t[i].ws, 0); }
/* run the whole source; the expansion is appended to out */
static struct L reference(struct ts* S) { struct L out = none(); tn = txn = mn = 0; E = U = 0; depth = 0; if (S->err) E = 1; for (int i = 0; i < 8; i++) m[i].def = 0; int i = 0; while (i < S->n && !E && !U) { int e = i + 1; if (S->t[i].bol && S->b[S->t[i].s] == '#') { while (e < S->n && !S->t[e].bol) e++; if (e - i < 3 || S->t[i].n != 1 || S->t[i + 1].k != 'N' || S->t[i + 1].n < 5) { U = 1; break; } int nm = tk(S, i + 2), q = -1; int isdef = S->b[S->t[i + 1].s] == 'd'; if (t[nm].k != 'N') { E = 1; break; }
      if (!isdef) { q = fm(nm); if (q >= 0) m[q].def = 0; i = e; continue; }
      if (eq(nm, "defined") || eq(nm, "__FILE__")) { E = 1; break; } int old = fm(nm); q = mn++; m[q].s = t[nm].s; m[q].n = t[nm].n; m[q].narg = -1; m[q].va = 0; m[q].body = -1; int j = i + 3;
      if (j < e && !S->t[j].ws && S->t[j].n == 1 && S->b[S->t[j].s] == '(') { m[q].narg = 0; int st = 0; /* 0 start, 1 after a name, 2 after a comma, 3 after ... */ for (j++;; j++) { if (j >= e) { E = 1; break; } int c = tk(S, j); if (eq(c, ")")) { if (st == 2) E = 1; j++; break; } if (eq(c, ",")) { if (st != 1) { E = 1; break; } st = 2; } else if (eq(c, "...")) { if (st == 1 || st == 3) { E = 1; break; } st = 3; m[q].va = 1; } else if (t[c].k == 'N') { if (st == 1 || st == 3) { E = 1; break; } if (eq(c, "__VA_ARGS__")) { U = 1; break; } for (int z = 0; z < m[q].narg; z++) if (m[q].pn[z] == t[c].n && !memcmp(tx + m[q].ps[z], tx + t[c].s, t[c].n)) E = 1; m[q].ps[m[q].narg] = t[c].s; m[q].pn[m[q].narg++] = t[c].n; st = 1; } else { E = 1; break; } } if (E | U) break; }
      struct L b = none(); int fst = 1; for (; j < e; j++) { int c = tk(S, j); if (fst) t[c].ws = 0; fst = 0; if (eq(c, "##")) t[c].op = 2; if (eq(c, "__VA_ARGS__") && !m[q].va) E = 1; add(&b, c); } m[q].body = b.h;
      if (b.h >= 0 && (t[b.h].op == 2 || t[b.e].op == 2)) E = 1; if (m[q].narg >= 0) for (int c = b.h; c >= 0; c = t[c].next) if (eq(c, "#") || eq(c, "%:")) if (t[c].next < 0 || param(q, t[c].next) < 0) E = 1; for (int c = b.h; c >= 0 && !E; c = t[c].next) if (t[c].op == 2 && t[t[c].next].op == 2) U = 1;
      if (old >= 0 && !E) { int bad = m[old].narg != m[q].narg || m[old].va != m[q].va; for (int z = 0; !bad && z < m[q].narg; z++) bad = m[old].pn[z] != m[q].pn[z] || memcmp(tx + m[old].ps[z], tx + m[q].ps[z], m[q].pn[z]); int x = m[old].body, y = m[q].body; while (!bad && x >= 0 && y >= 0) { bad = !same(x, y) || t[x].ws != t[y].ws; x = t[x].next; y = t[y].next; } if (x >= 0 || y >= 0) bad = 1; if (bad) E = 1; mn--; }
      else m[q].def = 1; i = e; continue; }
    struct L l = none(); while (e < S->n && !(S->t[e].bol && S->b[S->t[e].s] == '#')) e++; for (int j = i; j < e; j++) add(&l, tk(S, j)); struct L r = expand(l.h, 0); if (E && e < S->n) { /* an invocation cut by a directive is undefined */ } for (int j = r.h; j >= 0; j = t[j].next) add(&out, cp(j)); i = e; } return out; }
static const char* const sets[27] = {
  /*a*/ "a|A|B|1|+|(|)", /*b*/ "a|b|A|B|(a)|,", /*c*/ "A|B|x|(|)|9|,", /*d*/ "|A|B|x|9|A(9)|B(9)", /*e*/ "a|#a|##|x|A|+", /*f*/ "a|A(a)|B|B(a)|(|A", /*g*/ "a|b|x|1|.|e|A", /*h*/ "|x|A|B|1|+|-", /*i*/ "#a|# a|#b|a|b|A", /*j*/ "|9|x y|\"$\"|'$'|A|\"\\\\$\"|\"\\\"\"|x  + y| x ", /*k*/ "|__VA_ARGS__|#__VA_ARGS__|a|,|A|(__VA_ARGS__)",
  /*l*/ "|9|9,9|(9,9)|,|(,)|A|\"$,\"|',')('|(|)", /*m*/ "| |\n|\t/* c */", /*n*/ "+|-|&|<|>|=|/|.|%|#|:|!|x|1|\"s\"|*|^||", /*o*/ "A|B|1|x|-|(B)", /*p*/ "|a|a,b|a,|...|a,...|a,a|,|1|a b|__VA_ARGS__|a,...,b|( )|b", /*q*/ "|1|a|a |a  |a+|a +|#a|##a|a##|#|__VA_ARGS__|b", /*r*/ "(a)|(b)|(a,b)|()||(...)|(a,...)", /*s*/ " |", /*t*/ "A|B|AB|x|C", /*u*/ "(|)|,|9|A|B|", /*v*/ "a|1+a|(a)|A(a)|B(a)|C|a+1|", /*w*/ "A|B|AB|C|a|b|x", /*x*/ "A|B|C", /*y*/ "B|C|A(B|)|(|1|(9)", /*z*/ "|(|(9|(9)|(9,|(9,9)|)|(,)|( ( )|((9),(9))|(\n9\n,\n9\n)", /*{*/ "'\"'|'\\''|\"\\\"\"|\\|x|\"\\n\"|'\\\\'|\"'\"|\"$\\\\\"|L'\"'|'\\n'"};
static const char* const tpl[] = {
  /*0*/ "#define A @o @o\n#define B @o @o\n@c @c @c\n", /*1*/ "#define A(a) @a @a @a\n#define B @c\n@d(@d)@c\n", /*2*/ "#define A(a) @f @f\n#define B(a) @f @f\nA(@d)(@d) B\n", /*3*/ "#define A(a,b) @g ## @g @b\n#define B A\n#define x1 x 2\nA(@h,@h) A\n", /*4*/ "#define A(a) @e @e @e\n#define B 9\nA(@h @h)\n", /*5*/ "#define A(a,b) @i @i\n#define B(a,b) A(a,b)\n#define x y\n@x(@j,@j)\n",
  /*6*/ "#define A(...) @k @k\n#define B(a,...) @k @k\nA(@l) B(@l,@l)\n", /*7*/ "#define A() @o\n#define B(a) a\n#define C(a,b) b a\n@x@m@z@m B\n", /*8*/ "#define A @n@n\n#define B(a) a\n@nA@n B(@n)@n\n", /*9*/ "#define A(@p) @q@s@q\n1\n", /*10*/ "#define A@r@s@q\n#define A@r@s@q\nA\n", /*11*/ "#define A @t\n#define B @t @t\n#define AB @t\n#define C(a,b) a##b\nC(@t,@t) C(@t@s,)C(,@t)\n", /*12*/ "#define A @o @o\n@c\n#undef A\n@c\n#define A @o\n@c @c\n", /*13*/ "#define A(a) @v\n#define B(a) @v\n#define C @t\n@x(@x(@x(9)))@x\n",
  /*14*/ "#define A(a,b) @w@s##@s@w ## @w\n#define B x\n#define AB A B\nA(@h,@t)\n", /*15*/ "#define A B\n#define B(a) @v @y\n#define C A(\nA(@y) @y C\n", /*16*/ "#define A(a) a @y\n#define B(a) A(a)@y\n#define C B\nB(@u@u)@u@u\n", /*17*/ "#define A(a) # a @e\n#define B(a) A(a)\n@x(@j@s@j@m@j)\n", /*18*/ "#define A(a) \"a\" 'a' a @q\n#define B \"B\" B\nA(@j) B\n", /*19*/ "#define A(a,b) %:a %:@s b\n#define B(a) A(a,a)\nB(@j) A(@j,\"\\\\`\" '`')\n", /*20*/ "#define A(a) B(a,@v)\n#define B(a,b) @b @b\nA(@d,@d) A((@d,@d)) A(@d)\n", /*21*/ "#define A(a,b) a.b.9 9##a b##9 x##b\nA(@u,@u)\n",
  /*22*/ "#define A @n\nz @nA@n\n", /*23*/ "#define B(a) @na@n\nB(@n)B(-)\n", /*24*/ "#define A(a) @n\n#define B @n\nz A()@nB@n\n", /*25*/ "#define A(a,b) a@nb\nA(@n,@n)\n", /*26*/ "#define A(a) #a\nA(@{@s@{@s@{)\n"};
static int cut, rot; static void gen(const char* s) { for (; *s; s++) { if (*s == '@') { const char* z = sets[*++s - 'a']; int n = 1, k; for (const char* q = z; *q; q++) n += *q == '|'; k = vs_choice(n < cut ? n : cut, "choice"); k = (k + rot) % n; while (k) if (*z++ == '|') k--; for (; *z && *z != '|'; z++) { if (*z == '9') pch(vs_range('0', '9', "digit")); else if (*z == '$') pch(vs_range('a', 'z', "character")); else pch(*z); } } else if (*s == '9') pch(vs_range('0', '9', "digit")); else if (*s == '`') { int c = vs_range(32, 126, "character"); vs_assume((c != '"') & (c != '\\') & (c != '\'')); pch(c); } else pch(*s); } }
static struct ts S, O; static char ex[8000]; static int en[600], ecount;
int main(void) { int T = vs_param("t", 0), i; cut = vs_param("cut", 99); rot = vs_param("rot", 0); gen(tpl[T]); phases12((unsigned char*)ps, pn, 1); tokens(&S, 0);
  struct L r; int k = 0; mode = 1; r = reference(&S); int E1 = E, U1 = U; static char ex1[8000]; static int en1[600]; int c1 = 0; if (!E && !U) for (i = r.h; i >= 0; i = t[i].next) { memcpy(ex1 + k, tx + t[i].s, t[i].n); k += t[i].n; en1[c1++] = t[i].n; }
  mode = 0; r = reference(&S); k = 0; if (!E && !U) for (i = r.h; i >= 0; i = t[i].next) { memcpy(ex + k, tx + t[i].s, t[i].n); k += t[i].n; en[ecount++] = t[i].n; }
  int unspec = U | U1 | (E != E1); if (!unspec && !E) { unspec = c1 != ecount; for (i = 0; !unspec && i < c1; i++) unspec = en[i] != en1[i]; if (!unspec) { int d = 0; for (i = 0; i < k; i++) d |= ex[i] ^ ex1[i]; unspec = d != 0; } }
  int rc = pp_run(); h_out[h_outn] = 0; if (unspec) { vs_cover("unspecified"); return 0; }
  if (E) { vs_cover("error"); if (!(rc && h_outn)) { vs_log(ps); po[pon] = 0; vs_log(po); } vs_assert(rc != 0 && h_outn > 0, "an invalid definition or invocation is not diagnosed"); return 0; }
  vs_cover("valid"); if (rc) { vs_log(ps); vs_log(h_out); } vs_assert(rc == 0, "a valid program is rejected"); phases12((unsigned char*)po, pon, 0); tokens(&O, 1); int ok = O.n == ecount && !O.err; for (i = 0; ok && i < O.n; i++) ok = O.t[i].n == en[i]; if (ok) { int d = 0; for (i = 0; i < k; i++) d |= ex[i] ^ O.b[i]; ok = !d; } if (!ok) { vs_log(ps); po[pon] = 0; vs_log(po); ex[k] = 0; vs_log(ex); } vs_assert(ok, "the macro expansion differs from C's"); return 0; }
