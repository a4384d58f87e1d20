/* C08: generated declarations with initializers: layout (sizeof, member offsets, alignment) and the bytes of static and automatic objects. */
#include "cc.h"
enum { K_SC, K_ARR, K_ST, K_UN };
struct ty { int k, t, n, el, nm, m[4], off[4], size, al, inf; };
static struct ty ty[64]; static int nty; static int sm_, km_, pack, rc_t, rc_k, rks, cnt_t, cnt_k, cnt_v, rc_v;
enum { X_PFN = NT, X_PARR };
static int xs(int t) { return t >= NT ? W : t == T_FLOAT ? 4 : tsize(t); }
static int sctype(void) { int L[40], c = 0; for (int i = 0; i < NT + 2; i++) if (sm_ >> i & 1) L[c++] = i; return L[(rc_t + cnt_t++ * 3) % c]; }
static void lay(struct ty* q) { int o, i; switch (q->k) { case K_SC: q->size = q->al = xs(q->t); break; case K_ARR: q->al = ty[q->el].al; q->size = q->n * ty[q->el].size; break;
  default: q->al = 1; q->size = 0; for (i = 0; i < q->nm; i++) { int a = ty[q->m[i]].al; if (a > pack) a = pack; if (a > q->al) q->al = a; if (q->k == K_UN) { q->off[i] = 0; if (ty[q->m[i]].size > q->size) q->size = ty[q->m[i]].size; } else { q->size = (q->size + a - 1) & -a; q->off[i] = q->size; q->size += ty[q->m[i]].size; } } q->size = (q->size + q->al - 1) & -q->al; } }
/* kinds: 0 scalar 1 [2] 2 [3] 3 struct of 2 4 struct of 3 5 union of 2 6 char [4] 7 struct of 1 8 wide string [3] 9 [] (outermost only) */
static int gen(int d, int top) { int n = nty++, k; struct ty* q = &ty[n]; int L[16], c = 0; for (int i = 0; i < 10; i++) if (km_ >> i & 1 && (i != 9 || top) && (d > 0 || i == 0 || i == 6 || i == 8) && (i != 0 || !top)) L[c++] = i;
  if (!c) L[c++] = 0;
  k = !top && rks ? L[(rc_k + cnt_k++ * 5) % c] : L[vs_choice(c, "kind")]; q->inf = 0;
  switch (k) { case 0: q->k = K_SC; q->t = sctype(); break; case 1: case 2: q->k = K_ARR; q->n = k + 1; q->el = gen(d - 1, 0); break; case 9: q->k = K_ARR; q->inf = 1; q->el = gen(d - 1, 0); q->n = 1 + vs_choice(3, "count"); break;
    case 6: q->k = K_ARR; q->n = 4; q->el = nty++; ty[q->el].k = K_SC; ty[q->el].t = cnt_t++ % 3; lay(&ty[q->el]); break; case 8: q->k = K_ARR; q->n = 3; q->el = nty++; ty[q->el].k = K_SC; ty[q->el].t = cnt_t++ & 1 ? T_SHORT : T_USHORT; if (W == 2) ty[q->el].t = cnt_t & 1 ? T_INT : T_UINT; lay(&ty[q->el]); break;
    case 5: q->k = K_UN; q->nm = 2; q->m[0] = gen(d - 1, 0); ty[n].m[1] = gen(d - 1, 0); break; default: q->k = K_ST; q->nm = k == 7 ? 1 : k - 1; for (int i = 0; i < ty[n].nm; i++) { int x = gen(d - 1, 0); ty[n].m[i] = x; } }
  lay(&ty[n]); return n; }
/* ---- declaration text */
static const char* xname(int t) { return t < NT ? tname[t] : "int"; }
static void decl(int n, const char* name, int idx, int top) { int b = n; while (ty[b].k == K_ARR) b = ty[b].el; struct ty* q = &ty[b];
  if (q->k == K_SC) { if (q->t == X_PFN || q->t == X_PARR) { cs("int (*"); } else { cs(xname(q->t)); cs(" "); } } else { cs(q->k == K_ST ? "struct" : "union"); if (top) cs(" S"); cs(" { "); for (int i = 0; i < q->nm; i++) { decl(q->m[i], "m", i, 0); cs("; "); } cs("} "); }
  cs(name); if (idx >= 0) cd(idx); for (b = n; ty[b].k == K_ARR; b = ty[b].el) { cs("["); if (!ty[b].inf) cd(ty[b].n); cs("]"); } if (q->k == K_SC && q->t == X_PFN) cs(")(void)"); if (q->k == K_SC && q->t == X_PARR) cs(")[2]"); }
/* ---- expected contents */
#define MAXO 1024
static vu8 exk[MAXO]; static vu8 exv[MAXO]; struct xa { int off; const char* sym; const char* str; int add; }; static struct xa xa[64]; static int nxa;
static struct { int off, t; char path[48]; } lf[64]; static int nlf; static char pb[48]; static int pn;
static void walk(int n, int off, int un) { struct ty* q = &ty[n]; int s = pn; switch (q->k) { case K_SC: if (!un) for (int i = 0; i < q->size; i++) exk[off + i] = 1; if (nlf < 64) { lf[nlf].off = off; lf[nlf].t = q->t; pb[pn] = 0; strcpy(lf[nlf++].path, pb); } break; case K_ARR: for (int i = 0; i < q->n; i++) { pb[pn++] = '['; pb[pn++] = '0' + i; pb[pn++] = ']'; walk(q->el, off + i * ty[q->el].size, un); pn = s; } break; default: for (int i = 0; i < q->nm; i++) { pb[pn++] = '.'; pb[pn++] = 'm'; pb[pn++] = '0' + i; walk(q->m[i], off + q->off[i], un || (q->k == K_UN && i)); pn = s; } } }
static void put(int off, int n, vu32 v) { for (int i = 0; i < n; i++) { exk[off + i] = 1; exv[off + i] = (vu8)(v >> 8 * i); } }
static void addr(int off, const char* sym, const char* str, int add) { for (int i = 0; i < W; i++) exk[off + i] = 0; xa[nxa].off = off; xa[nxa].sym = sym; xa[nxa].str = str; xa[nxa++].add = add; }
static int nsym, msym;
static vu32 octlit(int dig, vu32 lim) { vu32 v = vs_u32("value"); vs_assume(v <= lim); cs("0"); for (int k = 3 * dig - 3; k >= 0; k -= 3) cc1('0' + (v >> k & 7)); return v; }
static const struct { const char* t; vu32 b; int i, ok; } fl[] = {{"1.5", 0x3fc00000, 1, 1}, {"-2", 0xc0000000u, -2, 1}, {"3.25f", 0x40500000, 3, 1}, {"0", 0, 0, 1}, {"1e3", 0x447a0000, 1000, 1}, {"16777217", 0x4b800000, 16777217, 0}, {"65.9", 0x4283cccd, 65, 1}, {".5", 0x3f000000, 0, 1}, {"0u", 0, 0, 1}, {"2147483649u", 0x4f000000, (int)2147483649u, 0}};
static void scalar(int n, int off, int br) { struct ty* q = &ty[n]; int t = q->t, z = q->size; int r = rc_v + cnt_v++; int sb = br && r % 6 == 4; if (sb) cs("{ ");
  if (t == T_FLOAT) { int i = r % 10; cs(fl[i].t); put(off, 4, fl[i].b); }
  else if (tptr(t) || t >= NT) { int i = r % 9; if (t == X_PFN) { if (r & 1) { cs(r & 2 ? "fn" : "&fn"); addr(off, "fn", 0, 0); } else { cs("0"); put(off, W, 0); } } else if (t == X_PARR) { if (r & 1) { cs("ge"); addr(off, "ge", 0, 0); } else { cs("&ge[1]"); addr(off, "ge", 0, 2 * W); } }
    else if (t == T_PCHAR) switch (i) { case 0: cs("\"xy\""); addr(off, 0, "xy", 0); break; case 1: cs("\"pq\" \"r\" + 2"); addr(off, 0, "r", 0); break; case 2: cs("gc + 3"); addr(off, "gc", 0, 3); break; case 3: cs("&gc[2]"); addr(off, "gc", 0, 2); break; case 4: cs("1 + gc"); addr(off, "gc", 0, 1); break; case 5: cs("0"); put(off, W, 0); break; case 6: cs("&gs.c"); addr(off, "gs", 0, 0); break; case 7: cs("gc"); addr(off, "gc", 0, 0); break; case 8: cs("&gs.a[1]"); addr(off, "gs", 0, W == 4 ? 9 : 7); break; }
    else if (t == T_PINT) switch (i) { case 0: cs("&gi"); addr(off, "gi", 0, 0); break; case 1: cs("ga + 2"); addr(off, "ga", 0, 2 * W); break; case 2: cs("&ga[3]"); addr(off, "ga", 0, 3 * W); break; case 3: cs("ga"); addr(off, "ga", 0, 0); break; case 4: cs("&gs.i"); addr(off, "gs", 0, 4); break; case 5: cs("1 + ga"); addr(off, "ga", 0, W); break; case 6: cs("&ga[4] - 1"); addr(off, "ga", 0, 3 * W); break; case 7: cs("0"); put(off, W, 0); break; case 8: cs("ga - 1"); addr(off, "ga", 0, -W); break; }
    else { if (r & 1) { cs(t == T_PVOIDX ? "&gp" : t == T_PSTRUCT ? "gz + 1" : "gh + 1"); addr(off, t == T_PVOIDX ? "gp" : t == T_PSTRUCT ? "gz" : "gh", 0, t == T_PVOIDX ? 0 : t == T_PSTRUCT ? 6 : 2); } else { cs("0"); put(off, W, 0); } } }
  else if (r % 7 == 5 && W == 4) { int i = r / 7 % 10; while (!fl[i].ok || (fl[i].i < 0 && !tsgn(t)) || (z == 1 && fl[i].i > 127)) i = (i + 1) % 10; cs(fl[i].t); put(off, z, fl[i].i); }
  else if (r % 7 == 6) { cs("'A' + 1"); put(off, z, 66); }
  else if (nsym++ == msym) { int s = tsgn(t); vu32 v; if (s && r & 1) { cs("-"); v = 0 - octlit(z == 1 ? 3 : z == 2 ? 5 : 11, z == 1 ? 127 : z == 2 ? 32767 : 0x7fffffffu); } else { v = octlit(z == 1 ? 3 : z == 2 ? (s ? 5 : 6) : 11, s ? (z == 1 ? 127u : z == 2 ? 32767u : 0x7fffffffu) : z == 1 ? 255u : z == 2 ? 65535u : 0xffffffffu); if (!s && z == W) cs("u"); } put(off, z, v); }
  else { int v = 17 + r * 3; cd(v); put(off, z, v); }
  if (sb) cs(" }"); }
static int stops, stopping, frk, bf, cnt_b;
static int ROT(int n, const char* nm) { return frk ? vs_choice(n, nm) : (rc_v + cnt_v++ * 3 / 2) % n; }

static void init(int n, int off, int top, int br) { struct ty* q = &ty[n];
  if (q->k == K_SC) { scalar(n, off, br); return; }
  if (q->k == K_ARR && ty[q->el].k == K_SC) { int et = ty[q->el].t, es = ty[q->el].size; int ch = et <= T_UCHAR, wd = es == 2 && (W == 2 ? et == T_INT || et == T_UINT : et == T_SHORT || et == T_USHORT); if ((ch || wd) && ROT(2, "string")) { static const char* const sv[] = {"a", "bc", "q\\x41t", "d\\07ef", ""}; static const char* const se[] = {"a", "bc", "qAt", "d\7ef", ""}; int L = ROT(5, "text"); int l = strlen(se[L]); if (q->inf) { q->n = l + 1; lay(q); } while (l > q->n) { L = (L + 1) % 5; l = strlen(se[L]); } int B = br && ROT(2, "strbraces"); if (B) cs("{ "); if (wd) cs("L"); cs("\""); cs(sv[L]); cs("\""); if (l && L == 1) { cs(wd ? " L\"\"" : " \"\""); } if (B) cs(" }"); for (int i = 0; i < l; i++) put(off + i * es, es, (vu8)se[L][i]); return; } }
  int b = top || (br && (bf ? vs_choice(2, "braces") : (rc_k + rc_v + cnt_b++) & 1)); if (b) cs("{ "); int cntm = q->k == K_ARR ? q->n : q->k == K_UN ? 1 : q->nm; int i;
  for (i = 0; i < cntm; i++) { if (i) { if (stops && (!q->inf || !top) && vs_choice(2, "stop")) { stops = 0; stopping = 1; break; } cs(", "); } int e = q->k == K_ARR ? q->el : q->m[i]; int eo = off + (q->k == K_ARR ? i * ty[q->el].size : q->off[i]); init(e, eo, 0, b || i ? 1 : 0); if (stopping) { if (q->inf) { q->n = i + 1; lay(q); } break; } }
  if (b) { stopping = 0; if ((rc_v + cnt_v) % 3 == 0) cs(","); cs(" }"); } }
int main(void) {
  tgt = vs_param("tgt", TG_32); W = tgt == TG_16 ? 2 : 4; km_ = vs_param("km", 0x7f); sm_ = vs_param("sm", 0x7f); int depth = vs_param("depth", 1); pack = vs_param("pack", 0); stops = vs_param("stops", 1); frk = vs_param("frk", 0); msym = vs_param("sym", 0); if (msym == 9) msym = vs_choice(4, "sym"); bf = vs_param("bf", 1); rks = vs_param("rk", 0); int place = vs_param("place", 0); int noinit = vs_param("noinit", 0); if (place == 9) place = vs_choice(4, "place");
  rc_t = vs_choice(vs_param("rt", 4), "rott"); rc_v = vs_choice(vs_param("rv", 3), "rotv"); if (rks) rc_k = vs_choice(rks, "rotk"); if (!pack) pack = 64; else if (pack == 9) pack = 1 << vs_choice(W == 2 ? 2 : 3, "pack"); cc_opt_uchar = vs_param("uchar", 0);
  int root = gen(depth, 1);
  cs("int gi = 5; int ga[5] = { 1, 2, 3, 4, 5 }; char gc[5]; struct { char c; "); if (W == 4) cs("short p; "); else cs("char p[3]; "); cs("int i; char a[3]; } gs; struct Z { char z[6]; } gz[3]; int* gp; "); cs("unsigned short gh[3]; int ge[2][2];\nint fn(void) { return 1; }\n");
  if (pack < 64) { cs(vs_choice(2, "push") ? "#pragma pack(push, " : "#pragma pack("); cd(pack); cs(")\n"); }
  char before = csrc[cn]; static const char* const pl[] = {"", "static ", "static ", ""};
  if (place < 2) { cs("char y_ = 1; "); cs(pl[place]); } int d0 = cn; struct ty* q = &ty[root]; (void)before;
  int islocal = place >= 2; if (islocal) { cs("char out[200]; int szl; char* lp[8]; char* func(void) { char pad_[3]; "); cs(pl[place]); }
  decl(root, "obj", -1, 1); if (!noinit) { cs(" = "); init(root, 0, 1, 1); } else if (q->inf) vs_assume(0); cs(";\n"); lay(q);
  if (q->size > 200) vs_assume(0); if (place < 2) cs("char z_ = 0x5a; int szs = sizeof obj, szt = sizeof(obj) + 1;\n"); if (pack < 64) cs("#pragma pack()\n");
  if (q->k == K_ST || q->k == K_UN) { if (place < 2) cs("int sz1 = sizeof(struct S);\n"); }
  if (q->k == K_UN && place < 2) { /* tag is a union */ cn -= 28; csrc[cn] = 0; cs("int sz1 = sizeof(union S);\n"); }
  if (!islocal) cs("char out[200]; int szl; char* lp[8]; char* func(void) { ");
  pn = 0; nlf = 0; { static vu8 kk[MAXO], vv[MAXO]; for (int i = 0; i < q->size; i++) kk[i] = exk[i], vv[i] = exv[i]; for (int i = 0; i < q->size; i++) exk[i] = 0; walk(root, 0, 0); for (int j = 0; j < nxa; j++) for (int i = 0; i < W; i++) exk[xa[j].off + i] = 0; for (int i = 0; i < q->size; i++) if (kk[i]) exk[i] = 1, exv[i] = vv[i]; }
  int leaf = nlf > 8 ? 8 : nlf; int step = nlf > 8 ? nlf / 8 : 1;
  cs("char* p = (char*)&obj; int i; "); if (place == 3 && noinit) {} if (q->k == K_ST || q->k == K_UN) { cs(q->k == K_ST ? "struct" : "union"); cs(" S* q = &obj; "); }
  cs("szl = sizeof obj; for (i = 0; i < sizeof(obj); i++) out[i] = p[i];\n");
  for (int i = 0; i < leaf; i++) { csd("lp[", i); cs("] = (char*)&"); if ((q->k == K_ST || q->k == K_UN) && (i & 1)) { cs("q->"); cs(lf[i * step].path + 1); } else { cs("obj"); cs(lf[i * step].path); } cs("; "); }
  cs("return p; }\n"); vs_sample(csrc); cc_must(); m_load();
  vu32 base = m_call("func", 0, 0); if (tgt == TG_16) base = (vu16)base;
  vs_assert(m_get(m_sym("szl"), W) == (vu32)q->size, "sizeof an object"); if (!islocal) { vs_assert(m_get(m_sym("szs"), W) == (vu32)q->size && m_get(m_sym("szt"), W) == (vu32)q->size + 1, "sizeof an object in a constant expression"); vs_assert(m_get(m_sym("z_"), 1) == 0x5a, "a neighbour of the object"); if (q->k == K_ST || q->k == K_UN) vs_assert(m_get(m_sym("sz1"), W) == (vu32)q->size, "sizeof a structure type"); }
  if (place == 0) vs_assert(base == m_sym("obj"), "address of the object"); { int al = q->al > W ? W : q->al; vs_assert((base & (al - 1)) == 0 || place == 3, "alignment of the object"); }
  vu32 lp = m_sym("lp"); for (int i = 0; i < leaf; i++) vs_assert(m_get(lp + i * W, W) == word(base + lf[i * step].off), "address of a member or element");
  vu32 o = m_sym("out"); if (place == 3 && noinit) { vs_cover("checked"); vs_stop(); }
  for (int i = 0; i < q->size; i++) if (exk[i]) { vs_assert(m_get(o + i, 1) == exv[i], "contents of an initialized object"); if (!islocal) vs_assert(m_get(base + i, 1) == exv[i], "contents of an initialized object in memory"); }
  for (int i = 0; i < nxa; i++) { vu32 a = 0; for (int k = 0; k < W; k++) a |= m_get(o + xa[i].off + k, 1) << 8 * k; if (xa[i].sym) vs_assert(a == word(m_sym(xa[i].sym) + xa[i].add), "address stored by an initializer"); else { const char* s = xa[i].str; int k = 0; for (;; k++) { vs_assert(m_get(word(a + k), 1) == (vu8)s[k], "string an initialized pointer points to"); if (!s[k]) break; } } }
  vs_cover("checked"); vs_stop(); }
