/* C06: generated statements; every value returned by the event function e() is symbolic, the order of events and the
   result are compared with a reference execution of the same program. */
#include "cc.h"
enum { K_EV, K_IF, K_IFELSE, K_WHILE, K_DO, K_FOR, K_SWITCH, K_BLOCK, K_BREAK, K_CONT, K_RET, K_GOTO, K_DECL, K_EMPTY, K_LABEL, K_RETV };
struct st { int k, v, c, s[4], n[6]; }; static struct st S[60]; static int ns, evn;
static int E(void) { return ++evn; }
static int mk(int k) { struct st* p = &S[ns]; p->k = k; p->v = p->c = 0; for (int i = 0; i < 4; i++) p->s[i] = -1; for (int i = 0; i < 6; i++) p->n[i] = 0; return ns++; }
static int ev(void) { int n = mk(K_EV); S[n].n[0] = E(); return n; }
static int wfirst, condsel, usedlabel, bad; static int dep, inloop, insw;
/* condition: consumes event numbers */
static int condev(int c) { static const int need[] = {1, 1, 2, 2, 3, 1, 3, 2, 0, 0, 1, 2, 1, 3, 1}; return need[c]; }
static void setcond(int n) { struct st* p = &S[n]; p->c = condsel >= 0 ? condsel : 0; condsel = -1; int k = condev(p->c); for (int i = 0; i < k; i++) p->n[i] = E(); }
static int gen(int d); static int leafs, kinds;
static int leaf(void) { int c = vs_choice(9, "leaf"); if (!(leafs >> c & 1)) vs_assume(0); int n;
  switch (c) { case 0: return ev(); case 1: n = mk(K_BREAK); if (!inloop && !insw) bad = 1; return n; case 2: n = mk(K_CONT); if (!inloop) bad = 1; return n; case 3: n = mk(K_RETV); S[n].n[0] = E(); return n; case 4: n = mk(K_GOTO); S[n].v = 0; return n; case 5: n = mk(K_GOTO); S[n].v = 1; return n; case 6: n = mk(K_DECL); S[n].n[0] = E(); S[n].n[1] = E(); S[n].n[2] = E(); return n; case 7: return mk(K_EMPTY); case 8: n = mk(K_GOTO); S[n].v = 2; return n; }
  return 0; }
static int seq3(int b) { int n = mk(K_BLOCK); S[n].s[0] = ev(); S[n].s[1] = b; S[n].s[2] = ev(); return n; }
static int body(int d) { int w = vs_choice(2, "braces"); int n; if (w) { n = mk(K_BLOCK); int a = ev(); S[n].s[0] = a; a = d > 0 ? gen(d - 1) : leaf(); S[n].s[1] = a; a = ev(); S[n].s[2] = a; return n; } return d > 0 ? gen(d - 1) : leaf(); }
static int gen(int d) { int k = vs_choice(8, "kind"), n, a; if (!(kinds >> k & 1)) vs_assume(0); n = mk(k + 1); struct st* p = &S[n];
  switch (k + 1) {
  case K_IF: setcond(n); a = body(d); S[n].s[0] = a; break;
  case K_IFELSE: setcond(n); if (vs_choice(2, "arm")) { a = ev(); S[n].s[0] = a; a = body(d); S[n].s[1] = a; } else { a = body(d); S[n].s[0] = a; a = ev(); S[n].s[1] = a; } break;
  case K_WHILE: setcond(n); inloop++; a = body(d); inloop--; S[n].s[0] = a; break;
  case K_DO: inloop++; a = body(d); inloop--; S[n].s[0] = a; setcond(n); break;
  case K_FOR: p->v = vs_choice(8, "for"); if (p->v & 1) p->n[4] = E(); if (p->v & 2) setcond(n); if (p->v & 4) S[n].n[5] = E(); inloop++; a = body(d); inloop--; S[n].s[0] = a; break;
  case K_SWITCH: p->v = vs_choice(10, "switch"); setcond(n); { int cnt[] = {3, 3, 2, 2, 2, 1, 1, 0, 3, 1}, m = cnt[S[n].v]; insw++; int pos = m ? vs_choice(m, "pos") : 0; if (S[n].v == 5) inloop++; for (int i = 0; i < m; i++) { a = i == pos ? body(d) : ev(); S[n].s[i] = a; } insw--; if (S[n].v == 5) inloop--; if (S[n].v == 5) { S[n].n[4] = E(); S[n].n[5] = E(); } } break;
  case K_BLOCK: { a = ev(); S[n].s[0] = a; a = body(d); S[n].s[1] = a; } break;
  case K_BREAK: /* labelled statement: target of the third goto */ S[n].k = K_LABEL; if (usedlabel) vs_assume(0); usedlabel = 1; a = body(d); S[n].s[0] = a; break; }
  return n; }
/* ---- text */
static void ecall(int n) { csd("e(", n); cs(")"); }
static void cond(struct st* p) { int* n = p->n; switch (p->c) { case 0: ecall(n[0]); break; case 1: cs("!"); ecall(n[0]); break; case 2: ecall(n[0]); cs(" && "); ecall(n[1]); break; case 3: ecall(n[0]); cs(" || "); ecall(n[1]); break; case 4: ecall(n[0]); cs(" ? "); ecall(n[1]); cs(" : "); ecall(n[2]); break; case 5: ecall(n[0]); cs(" < 3"); break; case 6: ecall(n[0]); cs(" && "); ecall(n[1]); cs(" || "); ecall(n[2]); break; case 7: ecall(n[0]); cs(", "); ecall(n[1]); break; case 8: cs("1"); break; case 9: cs("0"); break; case 10: cs("(x = "); ecall(n[0]); cs(")"); break; case 11: cs("!("); ecall(n[0]); cs(" && !"); ecall(n[1]); cs(")"); break; case 12: ecall(n[0]); cs(" == -1"); break; case 13: ecall(n[0]); cs(" || "); ecall(n[1]); cs(" && "); ecall(n[2]); break; case 14: cs("(signed char)"); ecall(n[0]); break; } }
static void txt(int s) { if (s < 0) return; struct st* p = &S[s]; switch (p->k) {
  case K_EV: ecall(p->n[0]); cs(";\n"); break; case K_IF: cs("if ("); cond(p); cs(") "); txt(p->s[0]); break;
  case K_IFELSE: cs("if ("); cond(p); cs(") { "); txt(p->s[0]); cs("} else "); txt(p->s[1]); break;
  case K_WHILE: cs("while ("); cond(p); cs(") "); txt(p->s[0]); break; case K_DO: cs("do "); txt(p->s[0]); cs("while ("); cond(p); cs(");\n"); break;
  case K_FOR: cs("for ("); if (p->v & 1) ecall(p->n[4]); cs("; "); if (p->v & 2) cond(p); cs("; "); if (p->v & 4) ecall(p->n[5]); cs(") "); txt(p->s[0]); break;
  case K_SWITCH: cs("switch ("); cond(p); cs(") "); switch (p->v) {
    case 0: cs("{ case 1: "); txt(p->s[0]); cs("break; case 2: "); txt(p->s[1]); cs("break; default: "); txt(p->s[2]); cs("}\n"); break;
    case 1: cs("{ default: "); txt(p->s[0]); cs("case 1: "); txt(p->s[1]); cs("case -1: "); txt(p->s[2]); cs("}\n"); break;
    case 2: cs("{ case 3: case 5: "); txt(p->s[0]); cs("break; default: break; case 'A': "); txt(p->s[1]); cs("}\n"); break;
    case 3: cs("{ case 0: "); txt(p->s[0]); cs("case 1: "); txt(p->s[1]); cs("break; }\n"); break;
    case 4: cs("{ "); txt(p->s[0]); cs("case 100: "); txt(p->s[1]); cs("}\n"); break;
    case 5: cs("{ case 0: while ("); ecall(p->n[4]); cs(") { "); txt(p->s[0]); cs("case 1: "); ecall(p->n[5]); cs("; } }\n"); break;
    case 6: cs("{ default: "); txt(p->s[0]); cs("}\n"); break; case 7: cs("{ }\n"); break;
    case 8: cs("{ case 255: "); txt(p->s[0]); cs("case -32767: "); txt(p->s[1]); cs("break; case 256: "); txt(p->s[2]); cs("}\n"); break;
    case 9: cs("case 7: "); txt(p->s[0]); break; } break;
  case K_BLOCK: cs("{ "); for (int i = 0; i < 3; i++) txt(p->s[i]); cs("}\n"); break; case K_BREAK: cs("break;\n"); break; case K_CONT: cs("continue;\n"); break;
  case K_RETV: cs("return "); ecall(p->n[0]); cs(";\n"); break; case K_GOTO: cs(p->v == 0 ? "goto La;\n" : p->v == 1 ? "goto Lz;\n" : "goto Li;\n"); break;
  case K_DECL: cs("{ int x = "); ecall(p->n[0]); cs("; char c[5]; c[1] = x; { int y = "); ecall(p->n[1]); cs("; "); csd("e(x + y * 2 + c[1] + ", p->n[2]); cs("); } }\n"); break;
  case K_EMPTY: cs(";\n"); break; case K_LABEL: cs("Li: "); txt(p->s[0]); break; } }
/* ---- reference: linear code */
enum { R_EV, R_JZ, R_JNZ, R_JMP, R_RET, R_CASE, R_NOT, R_LT3, R_ISM1, R_CONST, R_SETX, R_SAVE, R_EVX, R_SC };
static struct { int op, a, b; } L[600]; static int ln; static int lab[200], nlab;
static int em(int op, int a, int b) { L[ln].op = op; L[ln].a = a; L[ln].b = b; return ln++; }
static int newl(void) { return nlab++; } static void here(int l) { lab[l] = ln; }
static void lcond(struct st* p) { int* n = p->n, a, b; switch (p->c) { case 0: em(R_EV, n[0], 0); break; case 1: em(R_EV, n[0], 0); em(R_NOT, 0, 0); break;
  case 2: a = newl(); em(R_EV, n[0], 0); em(R_JZ, a, 0); em(R_EV, n[1], 0); here(a); em(R_NOT, 0, 0); em(R_NOT, 0, 0); break;
  case 3: a = newl(); em(R_EV, n[0], 0); em(R_JNZ, a, 0); em(R_EV, n[1], 0); here(a); em(R_NOT, 0, 0); em(R_NOT, 0, 0); break;
  case 4: a = newl(); b = newl(); em(R_EV, n[0], 0); em(R_JZ, a, 0); em(R_EV, n[1], 0); em(R_JMP, b, 0); here(a); em(R_EV, n[2], 0); here(b); break;
  case 5: em(R_EV, n[0], 0); em(R_LT3, 0, 0); break;
  case 6: a = newl(); b = newl(); em(R_EV, n[0], 0); em(R_JZ, a, 0); em(R_EV, n[1], 0); em(R_JNZ, b, 0); here(a); em(R_EV, n[2], 0); here(b); em(R_NOT, 0, 0); em(R_NOT, 0, 0); break;
  case 7: em(R_EV, n[0], 0); em(R_EV, n[1], 0); break; case 8: em(R_CONST, 1, 0); break; case 9: em(R_CONST, 0, 0); break; case 10: em(R_EV, n[0], 0); em(R_SETX, 0, 0); break;
  case 11: a = newl(); em(R_EV, n[0], 0); em(R_JZ, a, 0); em(R_EV, n[1], 0); em(R_NOT, 0, 0); here(a); em(R_NOT, 0, 0); break; case 12: em(R_EV, n[0], 0); em(R_ISM1, 0, 0); break;
  case 13: a = newl(); em(R_EV, n[0], 0); em(R_JNZ, a, 0); em(R_EV, n[1], 0); em(R_JZ, a, 0); em(R_EV, n[2], 0); here(a); em(R_NOT, 0, 0); em(R_NOT, 0, 0); break; case 14: em(R_EV, n[0], 0); em(R_SC, 0, 0); break; } }
static int LA, LZ, LI;
static void lin(int s, int brk, int cont) { if (s < 0) return; struct st* p = &S[s]; int a, b, c; switch (p->k) {
  case K_EV: em(R_EV, p->n[0], 0); break; case K_IF: a = newl(); lcond(p); em(R_JZ, a, 0); lin(p->s[0], brk, cont); here(a); break;
  case K_IFELSE: a = newl(); b = newl(); lcond(p); em(R_JZ, a, 0); lin(p->s[0], brk, cont); em(R_JMP, b, 0); here(a); lin(p->s[1], brk, cont); here(b); break;
  case K_WHILE: a = newl(); b = newl(); here(a); lcond(p); em(R_JZ, b, 0); lin(p->s[0], b, a); em(R_JMP, a, 0); here(b); break;
  case K_DO: a = newl(); b = newl(); c = newl(); here(a); lin(p->s[0], b, c); here(c); lcond(p); em(R_JNZ, a, 0); here(b); break;
  case K_FOR: a = newl(); b = newl(); c = newl(); if (p->v & 1) em(R_EV, p->n[4], 0); here(a); if (p->v & 2) { lcond(p); em(R_JZ, b, 0); } lin(p->s[0], b, c); here(c); if (p->v & 4) em(R_EV, p->n[5], 0); em(R_JMP, a, 0); here(b); break;
  case K_SWITCH: { int l[4], end = newl(); for (int i = 0; i < 4; i++) l[i] = newl(); lcond(p); switch (p->v) {
    case 0: em(R_CASE, l[0], 1); em(R_CASE, l[1], 2); em(R_JMP, l[2], 0); here(l[0]); lin(p->s[0], end, cont); em(R_JMP, end, 0); here(l[1]); lin(p->s[1], end, cont); em(R_JMP, end, 0); here(l[2]); lin(p->s[2], end, cont); break;
    case 1: em(R_CASE, l[1], 1); em(R_CASE, l[2], -1); here(l[0]); lin(p->s[0], end, cont); here(l[1]); lin(p->s[1], end, cont); here(l[2]); lin(p->s[2], end, cont); break;
    case 2: em(R_CASE, l[0], 3); em(R_CASE, l[0], 5); em(R_CASE, l[1], 65); em(R_JMP, end, 0); here(l[0]); lin(p->s[0], end, cont); em(R_JMP, end, 0); here(l[1]); lin(p->s[1], end, cont); break;
    case 3: em(R_CASE, l[0], 0); em(R_CASE, l[1], 1); em(R_JMP, end, 0); here(l[0]); lin(p->s[0], end, cont); here(l[1]); lin(p->s[1], end, cont); break;
    case 4: em(R_CASE, l[1], 100); em(R_JMP, end, 0); lin(p->s[0], end, cont); here(l[1]); lin(p->s[1], end, cont); break;
    case 5: { int t = newl(), e2 = end; em(R_CASE, t, 0); em(R_CASE, l[1], 1); em(R_JMP, end, 0); here(t); em(R_EV, p->n[4], 0); em(R_JZ, e2, 0); lin(p->s[0], e2, t); here(l[1]); em(R_EV, p->n[5], 0); em(R_JMP, t, 0); break; }
    case 6: lin(p->s[0], end, cont); break; case 7: break;
    case 8: em(R_CASE, l[0], 255); em(R_CASE, l[1], -32767); em(R_CASE, l[2], 256); em(R_JMP, end, 0); here(l[0]); lin(p->s[0], end, cont); here(l[1]); lin(p->s[1], end, cont); em(R_JMP, end, 0); here(l[2]); lin(p->s[2], end, cont); break;
    case 9: em(R_CASE, l[0], 7); em(R_JMP, end, 0); here(l[0]); lin(p->s[0], end, cont); break; } here(end); break; }
  case K_BLOCK: for (int i = 0; i < 3; i++) lin(p->s[i], brk, cont); break; case K_BREAK: em(R_JMP, brk, 0); break; case K_CONT: em(R_JMP, cont, 0); break;
  case K_RETV: em(R_EV, p->n[0], 0); em(R_RET, 0, 0); break; case K_GOTO: em(R_JMP, p->v == 0 ? LA : p->v == 1 ? LZ : LI, 0); break;
  case K_DECL: em(R_EV, p->n[0], 0); em(R_SAVE, 0, 0); em(R_EV, p->n[1], 0); em(R_SAVE, 1, 0); em(R_EVX, p->n[2], 0); break; case K_LABEL: here(LI); lin(p->s[0], brk, cont); break; } }
/* ---- trace */
#define LIMMAX 24
static int lim; static vu32 targ[LIMMAX], tret[LIMMAX]; static int tn, cut, ti;
static vu32 cv(vu32 v) { return conv(v, T_INT); }
static vu32 event(vu32 arg) { targ[tn] = arg; return tret[tn++] = cv(vs_u32("e")); }
static vu32 reference(vu32 x) { vu32 acc = 0, sv[2]; int pc = 0, steps = 0; sv[0] = sv[1] = 0; (void)x;
  for (;;) { if (++steps > 300) vs_assume(0); if (pc >= ln) return 77; int op = L[pc].op, a = L[pc].a, b = L[pc].b; pc++;
    switch (op) { case R_EV: case R_EVX: if (tn == lim) { cut = 1; return 0; } acc = event(op == R_EV ? (vu32)a : cv(sv[0] + sv[1] * 2 + (vu32)(cc_opt_uchar ? (vs32)(vu8)sv[0] : (vs32)(vs8)sv[0]) + a)); break;
    case R_JZ: if (acc == 0) pc = lab[a]; break; case R_JNZ: if (acc != 0) pc = lab[a]; break; case R_JMP: pc = lab[a]; break; case R_RET: return acc;
    case R_CASE: if (acc == cv(b)) pc = lab[a]; break; case R_NOT: acc = acc == 0; break; case R_LT3: acc = (vs32)acc < 3; break; case R_ISM1: acc = acc == 0xffffffffu; break; case R_CONST: acc = a; break; case R_SETX: break; case R_SAVE: sv[a] = acc; break; case R_SC: acc = (vu32)(vs8)acc; break; } } }
static void done(void) { vs_cover("event limit"); vs_stop(); }
void x_external(const char* name, vu32 addr) { (void)addr; if (strcmp(name, "_e")) x_bad("call of an unexpected external function"); if (ti == tn) { if (cut) done(); x_bad("more side effects than the program performs"); }
  vu32 a = x_arg(0); a = cv(a); vs_assert(a == targ[ti], "side effects happen in the wrong order or with wrong values"); R[0].e = W == 2 ? (R[0].e & 0xffff0000u) | (vu16)tret[ti] : tret[ti]; ti++; }
static void rejected(const char* what) { if (cc_compile() == 0) { vs_log(csrc); vs_assert(0, what); } vs_cover("rejected"); vs_stop(); }
static const vs32 pool[] = {0, 1, -1, 2, 127, 128, 255, 256, -128, 32767, -32767, 'A', 65535, 0x7fffffff, -2147483647};
static const char* const poolt[] = {"0", "1", "-1", "2", "127", "128", "255", "256", "-128", "32767", "-32767", "'A'", "65535u", "0x7fffffff", "-2147483647"};
static void switches(void) { int t = vs_choice(7, "type"); if (!(vs_param("tm", 127) >> t & 1)) vs_assume(0); int nl = vs_param("nl", 2), c[4], dp = vs_choice(nl + 2, "default") - 1, bq = vs_param("brs", 0), br = bq ? (vs_choice(bq, "breaks") * 5) & 7 : vs_choice(1 << (nl + 1), "breaks"), np = W == 2 ? 13 : 15; for (int i = 0; i < nl; i++) c[i] = vs_choice(np, "label"); int pt = prom(t);
  cs(tname[t]); cs(" v; int e(int); int func(void)\n{ int x; x = 3; switch (v) {\n"); int dup = 0; for (int i = 0; i <= nl; i++) { if (i == dp) { cs("default: "); csd("e(", 50 + i); cs(");"); if (br >> nl & 1) cs(" break;"); cs("\n"); } if (i < nl) { cs("case "); cs(poolt[c[i]]); cs(": "); csd("e(", 10 + i); cs(");"); if (br >> i & 1) cs(" break;"); cs("\n"); for (int j = 0; j < i; j++) if (conv(pool[c[j]], pt) == conv(pool[c[i]], pt)) dup = 1; } } cs("}\nreturn x + 74; }\n");
  if (dup) rejected("a duplicate case label is accepted");
  vs_sample(csrc); cc_must(); m_load(); vu32 v = conv(vs_u32("v"), t); m_set(m_sym("v"), tsize(t), v); v = conv(v, pt);
  int start = -1; for (int i = 0; i < nl; i++) if (v == conv(pool[c[i]], pt)) { start = i; break; }
  /* positions: label i sits after the default part when dp <= i */
  { int on = 0; for (int i = 0; i <= nl; i++) { if (i == dp) { if (on || start < 0) { on = 1; event(50 + i); if (br >> nl & 1) break; } } if (i < nl) { if (on || start == i) { on = 1; event(10 + i); if (br >> i & 1) break; } } } }
  vu32 got = m_call("func", 0, 0); vs_assert(cv(got) == 77, "value returned after a switch"); vs_assert(ti == tn, "a side effect of the program does not happen"); vs_cover("switch"); vs_stop(); }
/* programs C requires to be diagnosed */
static const char* const badp[] = {"int f(int v){ switch(v){case 1: v=2; break; case 1: v=3;} return v; }", "int f(int v){ switch(v){case 'a': v=2; break; case 97: v=3;} return v; }", "int f(int v){ switch(v){default: v=2; default: v=3;} return v; }", "int f(int v){ break; return v; }", "int f(int v){ continue; return v; }", "int f(int v){ switch(v){case 1: continue;} return v; }", "int f(int v){ case 1: return v; }", "int f(int v){ default: return v; }", "int f(int v){ goto L; return v; }", "int f(int v){ L: v++; L: return v; }", "int f(int v){ if (v) break; return v; }", "int f(int v){ while (v) { switch(v) { case 2-1: v=3; case 1: ; } } return v; }", "int f(int v){ switch(v){case 1: switch (v) { case 2: case 1: ; } case 2: case 3: case 2: ; } return v; }", "int f(int v){ while (v) ; else v = 3; return v; }", "int f(int v){ do v--; return v; }", "int f(int v){ for (v = 1; v < 2) v++; return v; }", "int f(int v){ { return v; }", "int f(int v){ switch(v){case v: v=2; } return v; }", "int f(int v){ { goto L; } return v; } int g(void){ L: return 1; }", "int f(int v){ if v return 1; return v; }", "int f(int v){ switch (v) { case 1 v = 2; } return v; }", "int f(int v){ switch(v){ while (v) { default: ; } default: ; } return v; }", "int f(int v){ for (;;) { } continue; }", "int f(int v){ do ; while (v); break; }", "void f(int v){ L: ; goto M; M: ; goto N; }"};
static const char* const goodp[] = {"int f(int v){ switch(v){case 1: switch (v) { case 1: case 2: default: ; } case 2: default: ; } return v; }", "int f(int v){ L: v++; return v; } int g(void) { L: return 1; }", "int f(int v){ while (v) { switch(v) { case 1: continue; default: break; } } return v; }", "int f(int v){ for (;;) { for (;;) break; if (v) break; } return v; }", "void f(void){ return; }", "int f(int L){ goto L; L: return L; }", "int f(int v){ { int v; v = 3; { int v; v = 4; } } return v; }"};
int main(void) {
  tgt = vs_param("tgt", TG_32); W = tgt == TG_16 ? 2 : 4; lim = vs_param("lim", 8); int mode = vs_param("mode", 0);
  if (mode == 1) switches();
  if (mode == 2) { int n = sizeof badp / sizeof *badp, i = vs_choice(n + (int)(sizeof goodp / sizeof *goodp), "prog"); cs(i < n ? badp[i] : goodp[i - n]); if (i < n) rejected("a program with a misplaced, duplicate or undefined label, statement or jump is accepted"); cc_must(); m_load(); vs_cover("accepted"); vs_stop(); }
  int depth = vs_param("depth", 1); kinds = vs_param("kinds", 255); leafs = vs_param("leafs", 0x1ff); condsel = vs_param("conds", 0) ? vs_choice(15, "cond") : 0;
  int root = gen(depth); if (usedlabel == 0) for (int i = 0; i < ns; i++) if (S[i].k == K_GOTO && S[i].v == 2) vs_assume(0);
  cs("int e(int);\nint func(int q)\n{ int x; char pad_[3]; x = 5; "); int hasa = 0, hasz = 0; for (int i = 0; i < ns; i++) if (S[i].k == K_GOTO) { if (S[i].v == 0) hasa = 1; if (S[i].v == 1) hasz = 1; }
  if (hasa) cs("La: "); int e0 = E(); ecall(e0); cs(";\n"); txt(root); int e1 = E(); ecall(e1); cs(";\n"); int e2 = E(); if (hasz) { cs("Lz: "); } ecall(e2); cs("; return 77; }\n");
  if (bad) rejected("a break or continue outside a loop is accepted");
  LA = newl(); LZ = newl(); LI = newl(); here(LA); em(R_EV, e0, 0); lin(root, 0, 0); em(R_EV, e1, 0); here(LZ); em(R_EV, e2, 0);
  vs_sample(csrc); cc_must(); m_load(); vu32 arg = vs_u32("arg"); vu32 want = reference(arg);
  vu32 got = m_call("func", 1, &arg); if (cut) x_bad("fewer side effects than the program performs"); vs_assert(ti == tn, "a side effect of the program does not happen"); vs_assert(cv(got) == want, "returned value"); vs_cover("run"); vs_stop();
}
