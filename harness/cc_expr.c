/* C03/C04(/C05): generated expression programs, every operand value symbolic. */
#include "cc.h"
/* ---- objects (one per leaf) */
enum { P_LOCAL, P_PARAM, P_GLOBAL, P_DEREFP, P_DEREFG, P_LARR, P_GARR, P_GARRV, P_SMEM, P_PMEM, P_LSMEM, P_STATIC, P_PADD, P_CALL, P_DBL, P_CONST, P_SYM, P_ADRL, P_ADRG, P_ADRA, P_ADRM, NP };
#define ADR(p) ((p) >= P_ADRL && (p) <= P_ADRM) /* pointers to objects of their own: &local, &global, local array, &member of a local structure */
#define NOLV (1 << P_CALL | 1 << P_CONST | 15 << P_ADRL)
static int anyadr;
struct obj { int t, pl, init, idx; vu32 val; vu32 val0; };
static struct obj ob[8]; static int nob; static int nodec;
enum { N_LEAF, N_BIN, N_ASG, N_UN, N_INC, N_COND, N_CAST, N_LOG, N_COMMA, N_INDEX, N_CONSTN };
struct node { int k, op, l, r, x, t, ob, sy; vu32 c; };
static int cexpr, divz, symk;
static struct node nd[40]; static int nn;
/* binary operators in table order */
enum { O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_SHL, O_SHR, O_AND, O_XOR, O_OR, O_LT, O_GT, O_LE, O_GE, O_EQ, O_NE };
static const char* const bop[] = {"+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|", "<", ">", "<=", ">=", "==", "!="};
static const vu8 bpr[] = {12, 12, 13, 13, 13, 11, 11, 8, 7, 6, 10, 10, 10, 10, 9, 9};
static vu32 ub; /* condition under which the program is undefined (signed overflow) */
static int tm_, pm_, om_, am_, um_, cm_, rot, np_types[NT], nty, np_places[NP], npl, rc_t, rc_p;
static const int consts[] = {0, 1, -1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 100, 127, 128, 255, 256, -128, -129, 1000, 32767, -32768, 65535, 65536, 0x12345678, 0x7fffffff, -2147483647, -2147483647 - 1};
static int pick(int mask, int n, const char* nm) { int c[40], k = 0; for (int i = 0; i < n; i++) if (mask >> i & 1) c[k++] = i; return c[vs_choice(k, nm)]; }
vu32 flv[10]; static int nfl;
static int newn(int k) { nd[nn].k = k; nd[nn].sy = 0; nd[nn].ob = -1; nd[nn].x = nd[nn].l = nd[nn].r = -1; return nn++; }
static int leaf(int lv, int tmask, int pmask) { int n = newn(N_LEAF); struct obj* o = &ob[nob]; nd[n].ob = nob;
  int P = pmask; if (lv) P &= ~NOLV; if (!P) P = 1;
  if (rot) { int c = 0, L[40]; for (int i = 0; i < NT; i++) if (tmask >> i & 1) L[c++] = i; o->t = L[(rc_t + nob * 3) % c]; c = 0; for (int i = 0; i < NP; i++) if (P >> i & 1) L[c++] = i; o->pl = L[(rc_p + nob * 5) % c]; } else { o->t = pick(tmask, NT, "type"); o->pl = pick(P, NP, "place"); }
  if (o->pl == P_SYM) { nd[n].k = N_CONSTN; nd[n].ob = -1; int k = pick(symk, 7, "literal"); if (k == 6) { nd[n].sy = 7; nd[n].t = T_FLOAT; nd[n].x = ++nfl; nd[n].c = flv[nfl] = vs_u32("float"); vs_assume(nd[n].c <= 0x7f800000u); return n; } nd[n].sy = 1 + k; int k5 = k == 5; if (k5) k = 1; nd[n].t = k == 2 || k == 3 ? T_UINT : T_INT; if (k == 4) { static const int st[] = {T_CHAR, T_USHORT, T_INT, T_PCHAR}; nd[n].x = st[vs_choice(4, "sizeof")]; nd[n].c = tsize(nd[n].x); nd[n].t = T_UINT; return n; } vu32 v = vs_u32("literal"), top = W == 2 ? 0x8000u : 0x80000000u; if (W == 2) v &= 0xffff; if (k < 2) v &= ~top; if (k == 3) v |= top; else { /* number of significant octal digits */ int mx = W == 2 ? (k < 2 ? 5 : 6) : 11, q = vs_param("digs", 0), d = q == 0 ? mx : q == 1 ? (vs_choice(2, "digits") ? mx : 1) : q == 2 ? ((const int[]){1, 3, W == 2 ? 4 : 6, mx})[vs_choice(4, "digits")] : 1 + vs_choice(mx, "digits"); vs_assume(d == mx || v < 1ull << (3 * d)); if (d > 1) vs_assume(v >= 1u << (3 * (d - 1)));   nd[n].x = d; } nd[n].c = v; return n; }
  if (o->pl == P_CONST) { nd[n].k = N_CONSTN; int q = vs_choice(sizeof consts / sizeof *consts, "const"); nd[n].c = (vu32)consts[q]; nd[n].ob = -1; nd[n].t = T_INT; if (W == 2) { if (consts[q] > 65535 || consts[q] < -32768) nd[n].c = 5; else if (consts[q] > 32767) nd[n].t = T_UINT; } return n; }
  if (ADR(o->pl)) { vs_assume(o->t == T_PCHAR || o->t == T_PINT || o->t == T_PUSHORT); anyadr = 1; }
  o->idx = o->pl == P_GARRV ? vs_choice(3, "index") : o->pl == P_LARR ? 1 : o->pl == P_GARR ? 2 : 0; nob++; return n; }
void vs_stub_bad(void) { vs_assert(0, "digits of a float literal"); }
static const char* pointee(int t) { return t == T_PCHAR ? "char" : t == T_PINT ? "int" : "unsigned short"; }
static const char* shp; static char shbuf[16];
/* shape letters: 0 leaf, 1 binary, 2 assignment op, 3 unary, 4 ++/--, 5 ?:, 6 cast, 7 && ||, 8 comma, 9 constant */
static int gen(int lv) { int s = *shp++ - '0'; int n;
  if (lv && s != 0) lv = lv;
  switch (s) {
  case 0: return leaf(lv, tm_, pm_);
  case 9: if (symk) { return leaf(0, 1 << T_INT, 1 << P_SYM); } { int n = leaf(0, 1 << T_INT, 1 << P_CONST); return n; }
  case 1: n = newn(N_BIN); nd[n].op = pick(om_, 16, "op"); nd[n].l = gen(0); nd[n].r = gen(0); return n;
  case 2: n = newn(N_ASG); nd[n].op = pick(am_, 11, "asg") - 1; nd[n].l = gen(1); nd[n].r = gen(0); return n;
  case 3: n = newn(N_UN); nd[n].op = pick(um_ & 15, 4, "un"); nd[n].l = gen(0); return n;
  case 4: n = newn(N_INC); nd[n].op = vs_choice(4, "inc"); nd[n].l = gen(1); return n;
  case 5: n = newn(N_COND); nd[n].l = gen(0); nd[n].r = gen(0); nd[n].x = gen(0); return n;
  case 6: n = newn(N_CAST); nd[n].op = pick(cm_, NT, "cast"); nd[n].l = gen(0); return n;
  case 7: n = newn(N_LOG); nd[n].op = vs_choice(2, "log"); nd[n].l = gen(0); nd[n].r = gen(0); return n;
  case 8: n = newn(N_COMMA); nd[n].l = gen(0); nd[n].r = gen(0); return n; }
  return 0; }
/* ---- C text */
static void lvtext(int o) { switch (ob[o].pl) { case P_LOCAL: csd("l", o); break; case P_PARAM: csd("p", o); break; case P_GLOBAL: csd("g", o); break; case P_DEREFP: csd("*q", o); break; case P_DEREFG: csd("*h", o); break; case P_LARR: csd("a", o); cs("[1]"); break; case P_GARR: csd("b", o); cs("[2]"); break; case P_GARRV: csd("c", o); cs("["); csd("x", o); cs("]"); break; case P_SMEM: csd("s", o); cs(".m"); break; case P_PMEM: csd("u", o); cs("->m"); break; case P_LSMEM: csd("v", o); cs(".m"); break; case P_STATIC: csd("t", o); break; case P_PADD: csd("*(w", o); csd("+k", o); cs(")"); break; case P_CALL: csd("f", o); cs("()"); break; case P_DBL: csd("**d", o); break; case P_ADRL: csd("&z", o); break; case P_ADRG: csd("&g", o); break; case P_ADRA: csd("z", o); break; case P_ADRM: csd("&z", o); cs(".m"); break; } }
static int lvprec(int o) { int p = ob[o].pl; return p == P_DEREFP || p == P_DEREFG || p == P_PADD || p == P_DBL || p == P_ADRL || p == P_ADRG || p == P_ADRM ? 15 : 16; }
static void symlit_(struct node* p) { if (p->sy == 7) { cd(p->x); cs(p->x & 1 ? ".0" : "."); return; } if (p->sy == 5) { cs("sizeof("); cs(tname[p->x]); cs(")"); return; } if (p->sy == 2) cs("-"); cs("0"); for (int k = p->sy == 4 ? (W == 2 ? 15 : 30) : 3 * p->x - 3; k >= 0; k -= 3) cc1('0' + (p->c >> k & 7)); if (p->sy == 3) cs("u"); }
static void symlit(struct node* p) { int five = p->sy == 6; if (five) p->sy = 2; if (five) cs("("); symlit_(p); if (five) { cs(" - 1)"); p->sy = 6; } }
static void sconst(vu32 c, int t) { if (t != T_UINT && c == (W == 2 ? 0xffff8000u : 0x80000000u)) { cs(W == 2 ? "(-32767 - 1)" : "(-2147483647 - 1)"); return; } if ((vs32)c < 0 && t != T_UINT) { cs("-"); cd(0 - c); } else cd(c); if (t == T_UINT) cs("u"); }
static int nprec(int n) { struct node* p = &nd[n]; switch (p->k) { case N_LEAF: return lvprec(p->ob); case N_CONSTN: if (p->sy) return p->sy == 2 || p->sy == 5 ? 15 : 17; return (vs32)p->c < 0 && p->t != T_UINT && p->c != (W == 2 ? 0xffff8000u : 0x80000000u) ? 15 : 17; case N_BIN: return bpr[p->op]; case N_ASG: return 2; case N_UN: case N_CAST: return 15; case N_INC: return p->op < 2 ? 15 : 16; case N_COND: return 3; case N_LOG: return p->op ? 4 : 5; case N_COMMA: return 1; } return 0; }
static void text(int n, int need);
static void sub_(int n, int need) { if (nprec(n) < need) { cs("("); text(n, 0); cs(")"); } else text(n, need); }
static void text(int n, int need) { struct node* p = &nd[n]; switch (p->k) {
  case N_LEAF: lvtext(p->ob); break; case N_CONSTN: if (p->sy) symlit(p); else sconst(p->c, p->t); break;
  case N_BIN: sub_(p->l, bpr[p->op]); cs(" "); cs(bop[p->op]); cs(" "); sub_(p->r, bpr[p->op] + 1); break;
  case N_ASG: sub_(p->l, 15); cs(" "); if (p->op >= 0) cs(bop[p->op]); cs("= "); sub_(p->r, 2); break;
  case N_UN: { static const char* const u[] = {"-", "~", "!", "+"}; cs(u[p->op]); cs(" "); sub_(p->l, 15); break; }
  case N_INC: if (p->op == 0) cs("++"); if (p->op == 1) cs("--"); sub_(p->l, p->op < 2 ? 15 : 16); if (p->op == 2) cs("++"); if (p->op == 3) cs("--"); break;
  case N_CAST: cs("("); cs(tname[p->op]); cs(")"); sub_(p->l, 15); break;
  case N_COND: sub_(p->l, 4); cs(" ? "); sub_(p->r, 1); cs(" : "); sub_(p->x, 3); break;
  case N_LOG: sub_(p->l, p->op ? 4 : 5); cs(p->op ? " || " : " && "); sub_(p->r, p->op ? 5 : 6); break;
  case N_COMMA: sub_(p->l, 1); cs(", "); sub_(p->r, 2); break; } }
/* ---- reference evaluation */
struct val { vu32 v; int t; };
static int ntype(int n);
static int btype(int op, int a, int b) { if (tptr(a) || tptr(b)) { if (op == O_ADD) return tptr(a) && tptr(b) ? -1 : tptr(a) ? a : b; if (op == O_SUB) return tptr(a) ? (tptr(b) ? (a == b ? T_INT : -1) : a) : -1; if (op >= O_LT) return a == b ? T_INT : -1; return -1; } if ((a == T_FLOAT || b == T_FLOAT) && op >= O_MOD && op < O_LT) return -1; if (op >= O_LT) return T_INT; if (op == O_SHL || op == O_SHR) return prom(a); return usual(a, b); }
static int ntype(int n) { struct node* p = &nd[n]; int a, b; if (n < 0) return -1; switch (p->k) {
  case N_LEAF: return ob[p->ob].t; case N_CONSTN: return p->t;
  case N_BIN: a = ntype(p->l); b = ntype(p->r); return a < 0 || b < 0 ? -1 : btype(p->op, a, b);
  case N_ASG: a = ntype(p->l); b = ntype(p->r); if (a < 0 || b < 0) return -1; if (p->op >= 0 && (a == T_FLOAT || b == T_FLOAT)) return -1; if (p->op < 0) return tptr(a) != tptr(b) ? -1 : tptr(a) && a != b ? -1 : a; if (tptr(b)) return -1; if (tptr(a) && p->op != O_ADD && p->op != O_SUB) return -1; return a;
  case N_UN: a = ntype(p->l); if (a < 0) return -1; if (p->op == 2) return T_INT; if (a == T_FLOAT && p->op == 1) return -1; return tptr(a) ? -1 : prom(a);
  case N_INC: a = ntype(p->l); return a == T_FLOAT ? -1 : a;
  case N_CAST: a = ntype(p->l); if (a == T_FLOAT && tptr(p->op) || tptr(a) && p->op == T_FLOAT) return -1; return a < 0 ? -1 : p->op;
  case N_COND: a = ntype(p->r); b = ntype(p->x); if (ntype(p->l) < 0 || a < 0 || b < 0) return -1; if (tptr(a) || tptr(b)) return a == b ? a : -1; return usual(a, b);
  case N_LOG: return ntype(p->l) < 0 || ntype(p->r) < 0 ? -1 : T_INT; case N_COMMA: return ntype(p->l) < 0 ? -1 : ntype(p->r); } return -1; }
static vu32 arith(int op, vu32 a, int ta, vu32 b, int tb, int* rt) {
  if (tptr(ta) || tptr(tb)) { *rt = btype(op, ta, tb);
    if (op == O_ADD) return tptr(ta) ? word(a + b * tpsz(ta)) : word(b + a * tpsz(tb));
    if (op == O_SUB && tptr(tb)) { vu32 d = word(a - b), z = tpsz(ta); if (z == 1) return conv(d, T_INT); ub |= (W == 2 ? (vu32)((vs16)d % (vs16)z != 0) : (vu32)((vs32)d % (vs32)z != 0)); return conv(W == 2 ? (vu32)((vs16)d / (vs16)z) : (vu32)((vs32)d / (vs32)z), T_INT); }
    if (op == O_SUB) return word(a - b * tpsz(ta));
    ub |= 0; a = word(a); b = word(b); switch (op) { case O_LT: return a < b; case O_GT: return a > b; case O_LE: return a <= b; case O_GE: return a >= b; case O_EQ: return a == b; default: return a != b; } }
  if (ta == T_FLOAT || tb == T_FLOAT) { float x = asf(cvt(a, ta, T_FLOAT)), y = asf(cvt(b, tb, T_FLOAT)); *rt = op >= O_LT ? T_INT : T_FLOAT; switch (op) { case O_ADD: return asu(x + y); case O_SUB: return asu(x - y); case O_MUL: return asu(x * y); case O_DIV: return asu(x / y); case O_LT: return x < y; case O_GT: return x > y; case O_LE: return x <= y; case O_GE: return x >= y; case O_EQ: return x == y; default: return x != y; } }
  int t = op == O_SHL || op == O_SHR ? prom(ta) : usual(ta, tb); *rt = op >= O_LT ? T_INT : t; a = conv(a, t); int s = t == T_INT; if (op != O_SHL && op != O_SHR) b = conv(b, t); else b = conv(b, prom(tb)); vu32 r = 0; int sh = W * 8 - 1;
  switch (op) {
  case O_ADD: r = conv(a + b, t); if (s) ub |= ((a ^ r) & (b ^ r)) >> 31; break;
  case O_SUB: r = conv(a - b, t); if (s) ub |= ((a ^ b) & (a ^ r)) >> 31; break;
  case O_MUL: r = conv(a * b, t); if (s) { if (W == 2) ub |= (vu32)((vs32)a * (vs32)b != (vs32)r); else { vs64 q = (vs64)(vs32)a * (vs32)b; ub |= q != (vs32)q; } } break;
  case O_DIV: case O_MOD: if (cexpr) { if (b == 0) { divz = 1; break; } if (s) if ((a == (W == 2 ? 0xffff8000u : 0x80000000u)) & (b == 0xffffffffu)) { divz = 1; break; } } vs_assume(b != 0); if (s) { vs_assume(!((a == (W == 2 ? 0xffff8000u : 0x80000000u)) & (b == 0xffffffffu))); if (W == 2) r = op == O_DIV ? (vu32)((vs16)a / (vs16)b) : (vu32)((vs16)a % (vs16)b); else r = op == O_DIV ? (vu32)((vs32)a / (vs32)b) : (vu32)((vs32)a % (vs32)b); } else if (W == 2) r = op == O_DIV ? (vu16)a / (vu16)b : (vu16)a % (vu16)b; else r = op == O_DIV ? a / b : a % b; r = conv(r, t); break;
  case O_SHL: vs_assume(b <= (vu32)sh); r = conv(a << (b & 31), t); if (s) ub |= (((vs32)r >> (b & 31)) != (vs32)a) | (a >> 31); break;
  case O_SHR: vs_assume(b <= (vu32)sh); r = s ? (vu32)((vs32)a >> (b & 31)) : a >> (b & 31); break;
  case O_AND: r = a & b; break; case O_XOR: r = a ^ b; break; case O_OR: r = a | b; break;
  case O_LT: r = s ? (vs32)a < (vs32)b : a < b; break; case O_GT: r = s ? (vs32)a > (vs32)b : a > b; break; case O_LE: r = s ? (vs32)a <= (vs32)b : a <= b; break; case O_GE: r = s ? (vs32)a >= (vs32)b : a >= b; break; case O_EQ: r = a == b; break; case O_NE: r = a != b; break; }
  return conv(r, *rt); }
static struct val ev(int n) { struct node* p = &nd[n]; struct val a, b, r; switch (p->k) {
  case N_LEAF: r.t = ob[p->ob].t; r.v = ob[p->ob].val; return r; case N_CONSTN: r.t = p->t; if (p->t == T_FLOAT) { r.v = p->c; return r; } r.v = conv(p->sy == 2 ? 0 - p->c : p->sy == 6 ? ~p->c : p->c, p->t); return r;
  case N_BIN: a = ev(p->l); b = ev(p->r); r.v = arith(p->op, a.v, a.t, b.v, b.t, &r.t); return r;
  case N_ASG: b = ev(p->r); { struct obj* o = &ob[nd[p->l].ob]; r.t = o->t; if (p->op < 0) r.v = cvt(b.v, b.t, o->t); else { int t; vu32 q = arith(p->op, o->val, o->t, b.v, b.t, &t); r.v = tptr(o->t) ? q : conv(q, o->t); } o->val = r.v; return r; }
  case N_UN: a = ev(p->l); if (p->op == 2) { r.t = T_INT; r.v = !tru(a.v, a.t); return r; } r.t = prom(a.t); if (a.t == T_FLOAT) { r.v = p->op == 0 ? a.v ^ 0x80000000u : a.v; return r; } a.v = conv(a.v, r.t); r.v = conv(p->op == 0 ? 0 - a.v : p->op == 1 ? ~a.v : a.v, r.t); if (p->op == 0 && r.t == T_INT) ub |= a.v == (W == 2 ? 0xffff8000u : 0x80000000u); return r;
  case N_INC: { struct obj* o = &ob[nd[p->l].ob]; int d = tptr(o->t) ? tpsz(o->t) : 1; vu32 old = o->val, nw = tptr(o->t) ? word(old + (p->op & 1 ? 0 - d : d)) : conv(old + (p->op & 1 ? 0 - d : d), o->t); if (o->t == T_INT) ub |= p->op & 1 ? old == (W == 2 ? 0xffff8000u : 0x80000000u) : old == (W == 2 ? 0x7fffu : 0x7fffffffu); o->val = nw; r.t = o->t; r.v = p->op < 2 ? nw : old; return r; }
  case N_CAST: a = ev(p->l); r.t = p->op; r.v = tptr(p->op) ? word(a.v) : cvt(a.v, a.t, p->op); return r;
  case N_COND: a = ev(p->l); if (tru(a.v, a.t)) b = ev(p->r); else b = ev(p->x); r.t = ntype(n); r.v = tptr(r.t) ? word(b.v) : cvt(b.v, b.t, r.t); return r;
  case N_LOG: a = ev(p->l); r.t = T_INT; if (tru(a.v, a.t) == p->op) { r.v = p->op; return r; } b = ev(p->r); r.v = tru(b.v, b.t); return r;
  case N_COMMA: ev(p->l); return ev(p->r); }
  r.t = 0; r.v = 0; return r; }
static int haslv(int n) { return nd[n].k == N_LEAF && ob[nd[n].ob].pl != P_CALL; }
void x_external(const char* name, vu32 addr) { (void)addr; /* _fN */ if (name[0] == '_' && name[1] == '_' && name[2] == '_' && helper(name + 3)) return; if (name[0] != '_' || name[1] != 'f') x_bad("call of an unexpected external function"); int k = name[2] - '0'; R[0].e = W == 2 ? (R[0].e & 0xffff0000u) | (vu16)ob[k].val0 : ob[k].val0; }
static vu32 m_get0(vu32 a, int n) { vu32 v = n == 1 ? vs_u8("pointee") : n == 2 ? vs_u16("pointee") : vs_u32("pointee"); m_set(a, n, v); return v; }
static void mem_name(char* b, char c, int k) { b[0] = c; b[1] = '0' + k; b[2] = 0; }
int main(void) {
  tgt = vs_param("tgt", TG_32); W = tgt == TG_16 ? 2 : 4; int shape = vs_param("shape", 100); tm_ = vs_param("tm", 0x7f); pm_ = vs_param("pm", 7); om_ = vs_param("om", 0xffff); am_ = vs_param("am", 0x7ff); um_ = vs_param("um", 15); cm_ = vs_param("cm", 0x7f); rot = vs_param("rot", 0); int ctx = vs_param("ctx", 0); cc_opt_uchar = vs_param("uchar", 0); int rtm = vs_param("rtm", 1 << T_INT); symk = vs_param("symk", 0);
  if (rot) { rc_t = vs_choice(vs_param("rt", 8), "rott"); rc_p = vs_choice(vs_param("rp", 8), "rotp"); }
  { int n = 0; char t[12]; int k = 0, s = shape; do t[k++] = '0' + s % 10; while (s /= 10); while (k) shbuf[n++] = t[--k]; shbuf[n] = 0; shp = shbuf; }
  int root = gen(0); int rt = pick(rtm, NT, "rtype"); if (ctx == 99) ctx = vs_choice(5, "ctx");
  int et = ntype(root); if (et < 0) vs_assume(0); if (ctx != 1 && ctx != 4 && tptr(rt) != tptr(et)) rt = tptr(et) ? et : T_INT; if (tptr(et) && tptr(rt)) rt = et;
  if (nd[root].k == N_COND || nd[root].k == N_COMMA) {}
  if (ctx >= 6) { /* constant expressions */ cexpr = 1; vu32 v = 0; switch (ctx) {
    case 6: cs(tname[rt]); cs(" res = "); sub_(root, 2); cs(";\n"); break;
    case 7: cs("enum { A_, K_ = "); sub_(root, 2); cs(", L_ };\nint res = K_; int nx = L_;\n"); break;
    case 8: cs("int v; int func(void) { switch (v) { case "); sub_(root, 3); cs(": return 11; } return 22; }\n"); break;
    case 9: cs("char arr[("); text(root, 0); cs(") & 7]; int res = sizeof arr;\n"); break;
    case 10: cs(rt == T_FLOAT ? "float" : "int"); cs(" res; void func(void) { static "); cs(tname[rt]); cs(" st = "); sub_(root, 2); cs("; res = st; }\n"); break;
    case 11: cs("int func(void) { return "); text(root, 0); cs("; }\n"); break;
    case 12: cs("int func(void) { if ("); text(root, 0); cs(") return 11; return 22; }\n"); break;
    case 13: cs("struct { int a; char b[2]; "); cs(tname[rt]); cs(" c; } res0 = { 1, 2, 3, "); sub_(root, 2); cs(" }; "); cs(tname[rt]); cs("* rp = &res0.c;\n"); break; }
    vs_sample(csrc); if (ntype(root) < 0 || (ntype(root) == T_FLOAT && ctx >= 7 && ctx <= 9)) vs_assume(0); int rc = cc_compile(); struct val w = ev(root); vs_assume(!ub); if (ctx == 7 && !divz) vs_assume(w.v < (W == 2 ? 0x7fffu : 0x7fffffffu) || (w.t != T_UINT && (vs32)w.v < 0)); if (ctx == 9 && !divz && (w.v & 7) == 0) vs_assume(0);
    if (rc) { vs_log(csrc); vs_assert(divz, "the compiler rejects a valid constant expression"); vs_cover("rejected"); vs_stop(); } vs_assert(!divz, "an undefined constant division is accepted");
    vu32 want = tptr(rt) ? word(w.v) : cvt(w.v, w.t, rt); m_load();
    switch (ctx) { case 6: { vu32 g = conv(m_get(m_sym("res"), tsize(rt)), rt); vs_assert(rt == T_FLOAT ? feq(g, want) : g == want, "value of a constant expression in an initializer"); }; break;
    case 7: want = conv(w.v, T_INT); vs_assert(conv(m_get(m_sym("res"), W), T_INT) == want, "value of an enumerator"); vs_assert(conv(m_get(m_sym("nx"), W), T_INT) == conv(want + 1, T_INT), "value of the following enumerator"); break;
    case 8: want = conv(w.v, T_INT); v = conv(vs_u32("v"), T_INT); m_set(m_sym("v"), W, v); v = (v == want) ? 11 : 22; vs_assert(conv(m_call("func", 0, 0), T_INT) == v, "value of a case label"); break;
    case 9: want = w.v & 7; vs_assert(conv(m_get(m_sym("res"), W), T_INT) == want, "value of an array bound"); break;
    case 10: m_call("func", 0, 0); if (rt == T_FLOAT) vs_assert(feq(m_get(m_sym("res"), 4), want), "value of a constant expression initializing a static local"); else vs_assert(conv(m_get(m_sym("res"), W), T_INT) == conv(want, T_INT), "value of a constant expression initializing a static local"); break;
    case 11: vs_assert(conv(m_call("func", 0, 0), T_INT) == cvt(w.v, w.t, T_INT), "value of a constant expression in code"); break;
    case 12: vs_assert(conv(m_call("func", 0, 0), T_INT) == (tru(w.v, w.t) ? 11 : 22), "truth of a constant expression"); break;
    case 13: { vu32 g = conv(m_get(m_get(m_sym("rp"), W), tsize(rt)), rt); vs_assert(rt == T_FLOAT ? feq(g, want) : g == want, "value of a constant expression in an aggregate initializer"); }; break; }
    vs_cover("defined"); vs_stop(); }
  /* program */
  cs("struct Z { char z[6]; };\n"); char b[8];
  for (int i = 0; i < nob; i++) { struct obj* o = &ob[i]; const char* T = tname[o->t];
#define D1(pre, c, post) cs(pre); cs(T); cs(" "); csd(c, i); cs(post)
    cs(T); cs(" "); csd("i", i); cs(";\n"); cs(T); cs(" "); csd("o", i); cs(";\n");
    switch (o->pl) { case P_GLOBAL: D1("", "g", ";\n"); break; case P_DEREFG: D1("", "y", ";\n"); cs(T); cs("* "); csd("h", i); csd(" = &y", i); cs(";\n"); break; case P_DEREFP: D1("", "y", ";\n"); break; case P_DBL: D1("", "y", ";\n"); cs(T); cs("* "); csd("h", i); csd(" = &y", i); cs(";\n"); break; case P_GARR: D1("", "b", "[3];\n"); break; case P_GARRV: D1("", "c", "[3];\n"); csd("signed char x", i); cs(";\n"); break; case P_SMEM: case P_PMEM: case P_LSMEM: csd("struct M", i); cs(" { char k; "); cs(T); cs(" m; char n; };\n"); if (o->pl == P_SMEM) { csd("struct M", i); csd(" s", i); cs(";\n"); } if (o->pl == P_PMEM) { csd("struct M", i); csd(" y", i); cs(";\n"); } break; case P_PADD: D1("", "y", "[3];\n"); break; case P_CALL: cs(T); csd(" f", i); cs("(void);\n"); break; case P_ADRG: cs(pointee(o->t)); csd(" g", i); cs(";\n"); break; } if (ADR(o->pl)) { cs(pointee(o->t)); csd(" j", i); csd(", e", i); cs(";\n"); } }
  cs(tname[rt]); cs(" res;\n"); cs(tname[rt]); cs(" func("); int np = 0; static int parg[8];
  for (int i = 0; i < nob; i++) { struct obj* o = &ob[i]; const char* T = tname[o->t]; int k = 1; if (np && (o->pl == P_PARAM || o->pl == P_DEREFP || o->pl == P_PMEM || o->pl == P_PADD || o->pl == P_DBL)) cs(", ");
    switch (o->pl) { case P_PARAM: D1("", "p", ""); break; case P_DEREFP: cs(T); csd("* q", i); break; case P_PMEM: csd("struct M", i); csd("* u", i); break; case P_PADD: cs(T); csd("* w", i); break; case P_DBL: cs(T); csd("** d", i); break; default: k = 0; } if (k) parg[np++] = i; }
  if (!np) cs("void"); cs(")\n{\n"); /* locals of odd sizes first so that frame offsets vary */ cs("char pad_[3]; ");
  for (int i = 0; i < nob; i++) { struct obj* o = &ob[i]; const char* T = tname[o->t]; switch (o->pl) { case P_LOCAL: D1("", "l", ""); csd(" = i", i); cs(";\n"); break; case P_LARR: D1("", "a", "[2];\n"); break; case P_LSMEM: csd("struct M", i); csd(" v", i); cs(";\n"); break; case P_STATIC: D1("static ", "t", ";\n"); break; case P_PADD: csd("int k", i); cs(" = 2;\n"); break; case P_ADRL: cs(pointee(o->t)); csd(" z", i); cs(";\n"); break; case P_ADRA: cs(pointee(o->t)); csd(" z", i); cs("[3];\n"); break; case P_ADRM: cs("struct { char k; "); cs(pointee(o->t)); csd(" m; } z", i); cs(";\n"); break; } }
  cs(tname[rt]); cs(" r;\n");
  for (int i = 0; i < nob; i++) { struct obj* o = &ob[i]; if (o->pl == P_LARR) { csd("a", i); csd("[1] = i", i); cs(";\n"); } if (o->pl == P_LSMEM) { csd("v", i); csd(".m = i", i); cs(";\n"); } if (o->pl == P_STATIC) { csd("t", i); csd(" = i", i); cs(";\n"); } if (ADR(o->pl)) { csd("i", i); cs(" = "); lvtext(i); csd("; *i", i); csd(" = j", i); csd("; e", i); csd(o->pl == P_ADRG ? " = g" : " = z", i); if (o->pl == P_ADRA) cs("[0]"); if (o->pl == P_ADRM) cs(".m"); cs(";\n"); } }
  switch (ctx) { case 0: cs("r = "); sub_(root, 2); cs(";\n"); break; case 1: cs("if ("); text(root, 0); cs(") r = 11; else r = 22;\n"); break; case 2: cs("r = 0; "); break; case 3: cs(tname[rt]); cs(" rr = "); sub_(root, 2); cs("; r = rr;\n"); break; case 4: cs("r = 5; "); text(root, 0); cs(";\n"); break; case 5: cs("r = 0; while ("); text(root, 0); cs(") { r = 11; break; }\n"); break; }
  if (ctx != 2) for (int i = 0; i < nob; i++) if (ob[i].pl != P_CALL && !ADR(ob[i].pl)) { csd("o", i); cs(" = "); lvtext(i); cs(";\n"); }
  if (ctx == 2) { cs("return "); text(root, 0); cs(";\n}\n"); } else cs("res = r;\nreturn r;\n}\n");
  vs_sample(csrc);
  cc_must(); m_load();
  /* state */
  vu32 args[8];
  for (int i = 0; i < nob; i++) { struct obj* o = &ob[i]; int sz = tsize(o->t); o->val0 = o->val = sz == 1 ? conv(vs_u8("v"), o->t) : sz == 2 ? conv(vs_u16("v"), o->t) : vs_u32("v"); if (tptr(o->t)) o->val0 = o->val = word(o->val);
    mem_name(b, 'i', i); m_set(m_sym(b), sz, o->val); if (ADR(o->pl)) { mem_name(b, 'j', i); o->idx = m_get0(m_sym(b), tpsz(o->t)); }
    switch (o->pl) { case P_GLOBAL: mem_name(b, 'g', i); m_set(m_sym(b), sz, o->val); break; case P_DEREFG: case P_DEREFP: case P_DBL: mem_name(b, 'y', i); m_set(m_sym(b), sz, o->val); break; case P_GARR: mem_name(b, 'b', i); m_set(m_sym(b) + 2 * sz, sz, o->val); break; case P_GARRV: mem_name(b, 'c', i); m_set(m_sym(b) + o->idx * sz, sz, o->val); mem_name(b, 'x', i); m_set(m_sym(b), 1, o->idx); break; case P_SMEM: mem_name(b, 's', i); m_set(m_sym(b) + sz, sz, o->val); break; case P_PMEM: mem_name(b, 'y', i); m_set(m_sym(b) + sz, sz, o->val); break; case P_PADD: mem_name(b, 'y', i); m_set(m_sym(b) + 2 * sz, sz, o->val); break; } }
  for (int k = 0; k < np; k++) { struct obj* o = &ob[parg[k]]; if (o->pl == P_PARAM) args[k] = o->val; else { mem_name(b, o->pl == P_DBL ? 'h' : 'y', parg[k]); args[k] = m_sym(b); } }
  /* reference */
  ub = 0; struct val w; vu32 want = 0; if (!anyadr) w = ev(root);
  /* snapshot of data */
  static vu8 snap[0x1000]; vu32 d0 = GM_BASE + 0x100 - GM_BASE, d1 = x_sbase[S_BSS] + x_sn[S_BSS] - GM_BASE; if (d1 - d0 > sizeof snap) d1 = d0 + sizeof snap; for (vu32 a = d0; a < d1; a++) snap[a - d0] = gm[a];
  vu32 got = m_call("func", np, args);
  if (anyadr) { for (int i = 0; i < nob; i++) if (ADR(ob[i].pl)) { struct obj* o = &ob[i]; mem_name(b, 'i', i); vu32 q = m_sym(b); o->val = m_get(q, W); for (int k = 0; k < W; k++) snap[m_phys(q) - GM_BASE - d0 + k] = gm[m_phys(q) - GM_BASE + k]; int z = tpsz(o->t); mem_name(b, 'e', i); q = m_sym(b); vs_assert(m_get(q, z) == (vu32)o->idx, "the address of an object does not designate it"); for (int k = 0; k < z; k++) snap[m_phys(q) - GM_BASE - d0 + k] = gm[m_phys(q) - GM_BASE + k]; if (o->pl == P_ADRG) { mem_name(b, 'g', i); q = m_sym(b); for (int k = 0; k < z; k++) snap[m_phys(q) - GM_BASE - d0 + k] = gm[m_phys(q) - GM_BASE + k]; vs_assert(o->val == q, "the address of a global object"); } } w = ev(root); }
  want = ctx == 4 ? 5 : ctx == 1 || ctx == 5 ? 0 : tptr(rt) ? word(w.v) : cvt(w.v, w.t, rt); if (ctx == 1) want = tru(w.v, w.t) ? 11 : 22; if (ctx == 5) want = tru(w.v, w.t) ? 11 : 0; if (ctx == 4) want = 5;
#define EQT(g, w, t, m) do { if ((t) == T_FLOAT) { vs_assert(feq(g, w), m); } else EQ(g, w, m); } while (0)
#define EQ(g, w, m) do { if ((g) != (w)) { vs_assume(!ub); vs_assert(0, m); vs_stop(); } } while (0)
  got = tsize(rt) == 4 || W == 2 && tsize(rt) == 2 ? got : conv(got, rt); if (W == 2) got = conv(got, rt);
  EQT(got, want, rt, "value returned for the expression");
  for (int i = 0; i < nob; i++) { struct obj* o = &ob[i]; int sz = tsize(o->t); vu32 q; if (o->pl == P_CALL || ADR(o->pl)) continue; if (ctx != 2) { mem_name(b, 'o', i); q = m_sym(b); EQT(conv(m_get(q, sz), o->t), tptr(o->t) ? conv(o->val, W == 2 ? T_UINT : o->t) : o->val, o->t, "value of an operand object after the expression"); for (int k = 0; k < sz; k++) snap[m_phys(q) - GM_BASE - d0 + k] = gm[m_phys(q) - GM_BASE + k]; }
    q = 0; switch (o->pl) { case P_GLOBAL: mem_name(b, 'g', i); q = m_sym(b); break; case P_DEREFG: case P_DEREFP: case P_DBL: mem_name(b, 'y', i); q = m_sym(b); break; case P_GARR: mem_name(b, 'b', i); q = m_sym(b) + 2 * sz; break; case P_GARRV: mem_name(b, 'c', i); q = m_sym(b) + o->idx * sz; break; case P_SMEM: mem_name(b, 's', i); q = m_sym(b) + sz; break; case P_PMEM: mem_name(b, 'y', i); q = m_sym(b) + sz; break; case P_PADD: mem_name(b, 'y', i); q = m_sym(b) + 2 * sz; break; }
    if (q) { if (ctx == 2) EQT(conv(m_get(q, sz), o->t), o->val, o->t, "value of an operand object after the expression"); EQT(m_get(q, sz), sz == 4 ? o->val : sz == 2 ? (vu16)o->val : (vu8)o->val, o->t, "value of an object in memory after the expression"); for (int k = 0; k < sz; k++) snap[m_phys(q) - GM_BASE - d0 + k] = gm[m_phys(q) - GM_BASE + k]; } }
  if (ctx != 2) { vu32 q = m_sym("res"); EQT(conv(m_get(q, tsize(rt)), rt), want, rt, "value stored by the assignment"); for (int k = 0; k < tsize(rt); k++) snap[m_phys(q) - GM_BASE - d0 + k] = gm[m_phys(q) - GM_BASE + k]; }
  for (int i = 0; i < nob; i++) if (ob[i].pl == P_STATIC) { /* its storage has no name here; the printed label order is not assumed */ goto done; }
  for (vu32 a = d0; a < d1; a++) EQ(gm[a], snap[a - d0], "the generated code changed an object that the expression does not modify");
done:
  vs_cover(ub ? "defined" : "defined"); vs_stop();
}
