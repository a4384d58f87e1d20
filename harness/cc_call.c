/* C07: generated calls; every argument and returned value symbolic. */
#include "cc.h"
#undef va_start
#undef va_arg
#undef va_end
#undef __STDARG_H
#define va_list repo_va_list
#define __SMALLER_PP__
#include STDARG_H
#undef va_list
#define XS_(...) #__VA_ARGS__
#define XS(...) XS_(__VA_ARGS__)
/* types 0..12 as in cc.h (12 is float); 20+k structures of ssz[k] bytes */
static const int ssz[] = {1, 2, 3, 4, 5, 6, 8, 12}; static const int alltypes[] = {T_CHAR, T_SCHAR, T_UCHAR, T_SHORT, T_USHORT, T_INT, T_UINT, T_PCHAR, T_FLOAT, 20, 21, 22, 23, 24, 25, 26, 27};
#define NALL 17
static int isst(int t) { return t >= 20; } static int sz(int t) { return isst(t) ? ssz[t - 20] : tsize(t); }
static void tn(int t) { if (isst(t)) csd("struct S", ssz[t - 20]); else cs(tname[t]); }
struct v { int t; vu8 b[12]; };
static struct v fresh(int t) { struct v x; x.t = t; for (int i = 0; i < 12; i++) x.b[i] = i < sz(t) ? vs_u8("a") : 0; return x; }
static vu32 num(struct v* x) { vu32 r = 0; int n = sz(x->t); for (int i = 0; i < n && i < 4; i++) r |= (vu32)x->b[i] << (8 * i); return tptr(x->t) || x->t == T_FLOAT ? r : conv(r, x->t); }
static struct v ofnum(vu32 n, int t) { struct v x; x.t = t; for (int i = 0; i < 12; i++) x.b[i] = i < 4 ? (vu8)(n >> (8 * i)) : 0; return x; }
static struct v as(struct v x, int t) { if (x.t == t || isst(t)) { x.t = t; return x; } if (x.t == T_FLOAT || t == T_FLOAT) return ofnum(cvt(num(&x), x.t, t), t); return ofnum(num(&x), t); }
static void put(vu32 a, struct v* x) { for (int i = 0; i < sz(x->t); i++) m_set(a + i, 1, x->b[i]); }
static char nb[40]; static const char* nm(const char* p, int i) { int n = 0; while (*p) nb[n++] = *p++; if (i >= 10) nb[n++] = '0' + i / 10; nb[n++] = '0' + i % 10; nb[n] = 0; return nb; }
static void chk(const char* name, int i, struct v* x, const char* msg) { vu32 a = m_sym(nm(name, i)); for (int k = 0; k < sz(x->t); k++) if (m_get(a + k, 1) != x->b[k]) { vs_assert(0, msg); vs_stop(); } }
static void structs(void) { for (int i = 0; i < 8; i++) { csd("struct S", ssz[i]); csd(" { char m[", ssz[i]); cs("]; };\n"); } }
static void decl(int t, const char* n, int i, const char* post) { tn(t); cs(" "); cs(n); cd(i); cs(post); }
static int npar, pt[6], at[6], rt, callee, argf, retu, varg; static struct v av[6], rv; static vu32 retp;
static int m_words(int t) { return (sz(t) + W - 1) / W * W; }
static struct v promoted(struct v x) { if (x.t == T_FLOAT || isst(x.t) || tptr(x.t)) return x; return as(x, prom(x.t)); }
/* external callee: look at the stack directly */
static int idn; static vu32 ext_esp;
void x_external(const char* name, vu32 addr) { (void)addr; vu32 off = 0; if (name[0] == '_' && name[1] == '_' && name[2] == '_' && helper(name + 3)) return; if (strcmp(name, "_f")) x_bad("call of an unexpected external function");
  vu32 sp = x_real ? R[4].x + ((vu32)SEG[2] << 4) : R[4].e; if (isst(rt)) { retp = x_ld(sp, W); off = W; }
  for (int i = 0; i < npar; i++) { struct v e = varg && i >= 1 ? promoted(av[i]) : as(av[i], pt[i]); int w = isst(e.t) ? m_words(e.t) : W; vu32 x = 0; for (int k = 0; k < sz(e.t); k++) if (!isst(e.t)) { x |= x_ld(sp + off + k, 1) << (8 * k); } else if (x_ld(sp + off + k, 1) != e.b[k]) x_bad("structure argument seen by an external function"); if (!isst(e.t) && (tptr(e.t) || e.t == T_FLOAT ? x : conv(x, e.t)) != num(&e)) x_bad("argument seen by an external function"); off += w; }
  if (!varg) { /* the callee owns its parameters */ vu32 q = isst(rt) ? W : 0; for (; q < off; q++) x_st(sp + q, 1, vs_u8("clobber")); }
  if (isst(rt)) { vu32 p = retp; if (tgt == TG_16) p += GM_BASE; for (int k = 0; k < sz(rt); k++) x_st(p + k, 1, rv.b[k]); R[0].e = retp; } else if (rt >= 0) { vu32 x = num(&rv); if (W == 2) R[0].x = (vu16)x; else R[0].e = rt <= T_USHORT ? conv(x, rt) : x; } }
/* fixed programs whose result is computed here from symbolic inputs */
static vu32 IN[4];
static vu32 c16(vu32 v) { return conv(v, T_INT); }
static vu32 t_rec(int n, vu32 a) { vu32 l = a; if (n <= 0) return a; a = t_rec(n - 1, c16(a + n)); return c16(a * 3 + l); }
static vu32 t_mut(int n, vu32 a, int which) { if (!n) return a; return which ? c16(t_mut(n - 1, c16(a - 5), 0) ^ a) : c16(t_mut(n - 1, c16(a + a), 1) + n); }
static const char* const tprog[] = {
 "int in0, in1, in2, out; int f(int n, int a) { int l = a; if (n <= 0) return a; a = f(n - 1, a + n); return a * 3 + l; } void func(void) { out = f(4, in0) + f(2, in1); }",
 "int in0, in1, in2, out; int g(int, int); int f(int n, int a) { return !n ? a : f2(n, a); } int f2(int n, int a) { return g(n - 1, a + a) + n; } int g(int n, int a) { if (!n) return a; return f(n - 1, a - 5) ^ a; } void func(void) { out = f(5, in0); }",
 "int in0, in1, in2, out; int sub(int a, int b) { return a - b; } int neg(int a) { return -a; } void func(void) { out = sub(sub(in0, neg(in1)), sub(neg(sub(in2, in0)), in1)); }",
 "int in0, in1, in2, out; int add(int a, int b) { return a + b; } int mul(int a, int b) { return a * b; } int (*sel(int c))(int, int) { return c ? add : mul; } int ap(int (*f)(int, int), int a, int b) { return f(a, b); } void func(void) { out = sel(in0 & 1)(in1, in2) - ap(sel(!(in0 & 1)), in2, 3); }",
 "int in0, in1, in2, out; struct P { int x, y; char t[3]; }; struct P mk(int a, int b) { struct P p; p.x = a; p.y = b; p.t[0] = 1; p.t[1] = 2; p.t[2] = a; return p; } struct P sw(struct P p) { int t = p.x; p.x = p.y; p.y = t; return p; } int dif(struct P p, int k, struct P q) { return p.x - q.y + k + p.t[2] + q.t[1]; } void func(void) { struct P a, b; a = mk(in0, in1); b = sw(sw(sw(a))); out = dif(b, in2, sw(mk(7, b.y))) + a.x + mk(in2, 5).y; }",
 "int in0, in1, in2, out; int sum(int n, ...) { int s = 0, i; int* p = &n; for (i = 0; i < n; i++) s = s * 2 + p[i + 1]; return s; } void func(void) { out = sum(3, in0, in1, in2) + sum(0) - sum(1, sum(2, in2, in0)); }",
 "int in0, in1, in2, out; int cnt; int next(void) { static int s = 3; s += 2; cnt++; return s; } int two(int a, int b) { return a * 16 + b; } void func(void) { int a = next(); int b = next(); out = two(a, b) + in0 + cnt; }",
 "int in0, in1, in2, out; void swap(int* a, int* b) { int t = *a; *a = *b; *b = t; } void rot(int* a, int* b, int* c) { swap(a, b); swap(b, c); } void func(void) { int x = in0, y = in1, z[2]; z[1] = in2; rot(&x, &y, z + 1); out = x * 5 + y * 3 + z[1]; }",
 "int in0, in1, in2, out; int big(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j, int k, int l) { return a - b + c * 2 - d + e - f * 3 + g - h + i - j + k * 5 - l; } void func(void) { out = big(in0, 1, in1, 2, in2, in0, 3, in1, 4, in2, in0, in1); }",
 "int in0, in1, in2, out; unsigned char uc(int a) { return a; } signed char sc(int a) { return a; } unsigned short us(int a) { return a; } short ss(int a) { return a; } void func(void) { out = uc(in0) * 2 + sc(in0) - us(in1) + ss(in1) + (uc(in2) == sc(in2)); }",
 "int in0, in1, in2, out; int fib(int n) { if (n < 2) return n; return fib(n - 1) + fib(n - 2); } int loc(int a) { int big[60]; int i; for (i = 0; i < 3; i++) big[i * 20] = a + i; a = big[0] + big[20] * 2; return a + big[40]; } void func(void) { out = fib(6) + loc(in0) - loc(in1); }",
 "int in0, in1, in2, out; int f(a, b) int a; int b; { return a - b; } void func(void) { out = f(in0, in1) + in2; }",
};
static int expect(int k, vu32* o) { vu32 a = IN[0], b = IN[1], c = IN[2]; switch (k) { case 0: *o = t_rec(4, a) + t_rec(2, b); break; case 1: *o = t_mut(5, a, 0); break; case 2: *o = (a + b) - (0 - (c - a) - b); break; case 3: { vu32 s = b + c, m = b * c; *o = (a & 1 ? s : m) - (a & 1 ? c * 3 : c + 3); break; }
  case 4: { /* a=(a,b); b=sw^3 -> (b,a) */ vu32 bx = b, by = a, t2 = conv(a, T_CHAR); /* sw(mk(7, by)) = (by, 7) t[1]=2 */ *o = bx - 7 + c + t2 + 2 + a + 5; (void)by; break; }
  case 5: { vu32 s3 = (a * 2 + b) * 2 + c, s2 = c * 2 + a; *o = s3 - s2; break; } case 6: *o = 5 * 16 + 7 + a + 2; break; case 7: *o = b * 5 + c * 3 + a; break; case 8: *o = a - 1 + b * 2 - 2 + c - a * 3 + 3 - b + 4 - c + a * 5 - b; break;
  case 9: *o = (vu8)a * 2 + (vu32)(vs8)a - (vu32)(W == 2 ? c16((vu16)b) : (vu16)b) + (vu32)(vs16)b + ((vs32)(vu8)c == (vs32)(vs8)c); break; case 10: { vu32 l0 = a + (a + 1) * 2 + a + 2, l1 = b + (b + 1) * 2 + b + 2; *o = 8 + l0 - l1; break; } default: *o = a - b + c; } return 0; }
static void templates(void) { int k = vs_choice(12, "program"); cs(tprog[k]); cs("\n"); if (k == 11) { int rc = cc_compile(); if (rc) { vs_cover("called"); vs_stop(); } cn = 0; cs(tprog[k]); cs("\n"); } if (k == 1) { cn = 0; cs("int f2(int, int);\n"); cs(tprog[k]); cs("\n"); } cc_must(); m_load(); for (int i = 0; i < 3; i++) { IN[i] = c16(vs_u32("in")); m_set(m_sym(nm("in", i)), W, IN[i]); } m_call("func", 0, 0); vu32 w; expect(k, &w); vs_assert(c16(m_get(m_sym("out"), W)) == c16(w), "result of nested, recursive or indirect calls"); vs_cover("called"); vs_stop(); }
int main(void) {
  tgt = vs_param("tgt", TG_32); W = tgt == TG_16 ? 2 : 4; if (vs_param("tmpl", 0)) templates(); cc_opt_uchar = vs_param("uchar", 0); npar = vs_param("np", 2); int tmask = vs_param("tm", 0x1ffff), nat = 0, T[NALL]; for (int i = 0; i < NALL; i++) if (tmask >> i & 1 && !(tgt == TG_16 && alltypes[i] == T_FLOAT)) T[nat++] = alltypes[i];
  int rot = vs_param("rot", 0), rc = rot ? vs_choice(nat, "types") : 0; callee = vs_param("callee", 0); argf = vs_param("argf", 0); retu = vs_param("retu", 0); varg = vs_param("varg", 0); int conv_ = vs_param("conv", 0); if (vs_param("tmpl", 0)) templates(); static const int step[] = {0, 3, 5, 7, 11, 13};
  for (int i = 0; i < npar; i++) { pt[i] = rot ? T[(rc + step[i]) % nat] : T[vs_choice(nat, "param")]; at[i] = pt[i]; if (varg && i == 0) pt[i] = at[i] = T_INT; if (conv_ && !isst(pt[i]) && !tptr(pt[i]) && (pt[i] != T_FLOAT || conv_ == 2)) { at[i] = vs_choice(conv_ == 2 ? 8 : 7, "arg"); if (at[i] == 7) at[i] = T_FLOAT; } }
  int ri = vs_param("rt", -1); if (ri == -1) rt = T_INT; else if (ri == -2) { int q = vs_choice(nat + 1, "ret"); rt = q == nat ? -1 : T[q]; } else if (ri == -3) rt = T[(rc + 2) % nat]; else rt = ri; if (callee == 99) callee = vs_choice(6, "callee"); if (argf == 99) argf = vs_choice(4, "argform"); if (retu == 99) retu = vs_choice(5, "use"); if (rt < 0) retu = 1; if (varg && (isst(rt))) rt = T_INT; if (varg && callee == 99) callee = 0;
  if (retu == 2 && !isst(rt)) retu = 0; if (retu == 4 && (isst(rt) || tptr(rt) || rt == T_FLOAT)) retu = 3;
  /* ---- program */
  structs(); for (int i = 0; i < npar; i++) { decl(at[i], "x", i, ";\n"); decl(varg && i ? promoted(ofnum(0, at[i])).t : pt[i], "g", i, ";\n"); decl(at[i], "y", i, "[2];\n"); tn(at[i]); csd("* z", i); csd(" = y", i); cs(" + 1;\n"); }
  if (rt >= 0) { decl(rt, "rv", 0, ";\n"); decl(rt, "res", 0, "[3];\n"); decl(rt, "id", 0, "("); tn(rt); cs(" v) { return v; }\n"); } cs("int k0; char rb0; int pre0, post0;\n");
  for (int i = 0; i < npar; i++) if (argf == 1) { decl(at[i], "a", i, "("); tn(at[i]); cs(" v) { "); tn(at[i]); cs(" w; w = v; return w; }\n"); }
#define RT() do { if (rt < 0) cs("void"); else tn(rt); } while (0)
#define PL(names) do { for (int i = 0; i < npar; i++) { if (i) cs(", "); if (varg && i) { cs("..."); break; } tn(pt[i]); if (names) csd(" p", i); } if (!npar) cs("void"); } while (0)
  int external = callee == 1; if (!external) { RT(); cs(" f("); PL(1); cs(")\n{\n"); cs("char pad_[5]; int l = 3; "); if (varg) cs("char* ap; "); cs("pad_[4] = 9;\n"); if (varg) { cs(XS(va_start(ap, p0))); cs(";\n"); for (int i = 1; i < npar; i++) { int t = promoted(ofnum(0, at[i])).t; csd("g", i); cs(" = "); const char* q; switch (t) { case T_INT: q = XS(va_arg(ap, int)); break; case T_UINT: q = XS(va_arg(ap, unsigned)); break; case T_PCHAR: q = XS(va_arg(ap, char*)); break; case T_FLOAT: q = XS(va_arg(ap, float)); break; case 20: q = XS(va_arg(ap, struct S1)); break; case 21: q = XS(va_arg(ap, struct S2)); break; case 22: q = XS(va_arg(ap, struct S3)); break; case 23: q = XS(va_arg(ap, struct S4)); break; case 24: q = XS(va_arg(ap, struct S5)); break; case 25: q = XS(va_arg(ap, struct S6)); break; case 26: q = XS(va_arg(ap, struct S8)); break; default: q = XS(va_arg(ap, struct S12)); break; } cs(q); cs(";\n"); } cs(XS(va_end(ap))); cs(";\ng0 = p0;\n"); }
    else for (int i = 0; i < npar; i++) { csd("g", i); csd(" = p", i); cs(";\n"); if (isst(pt[i])) { csd("p", i); csd(".m[", sz(pt[i]) - 1); cs("]++;\n"); } else if (pt[i] != T_FLOAT) { csd("p", i); cs("++;\n"); } } cs("k0 = l + pad_[4];\n"); if (rt >= 0) cs("return rv0;"); cs("\n}\n"); } else { RT(); cs(" f("); PL(0); cs(");\n"); }
  if (callee == 2 || callee == 4) { RT(); cs(" (*fp)("); PL(0); cs(") = &f;\n"); } if (callee == 3) { RT(); cs(" (*ft[2])("); PL(0); cs(") = { 0, f };\n"); } if (callee == 5) { cs("struct FP { char c; "); RT(); cs(" (*m)("); PL(0); cs("); } fs = { 1, f }; struct FP* fq = &fs;\n"); }
  cs("void func(void)\n{ int before = pre0; char pad_[3]; "); if (argf == 3) for (int i = 0; i < npar; i++) { decl(at[i], "l", i, ""); if (isst(at[i])) { cs("; "); } else { csd(" = x", i); cs("; "); } } if (rt >= 0 && retu == 3) { cs("char q_; "); decl(rt, "lr", 0, ""); cs("; "); } cs("int after = post0;\n"); if (argf == 3) for (int i = 0; i < npar; i++) if (isst(at[i])) { csd("l", i); csd(" = x", i); cs("; "); }
  if (retu == 0) cs("res0[1] = "); if (retu == 2) csd("rb0 = ", 0), cn--, cs(""); if (retu == 3) cs("lr0 = "); if (retu == 4) cs("res0[1] = id0("); 
  const char* ce[] = {"f", "f", "fp", "ft[1]", "(*fp)", "fq->m"}; cs(ce[callee]); cs("("); for (int i = 0; i < npar; i++) { if (i) cs(", "); switch (argf) { case 0: csd("x", i); break; case 1: csd("a", i); csd("(x", i); cs(")"); break; case 2: csd("*z", i); break; case 3: csd("l", i); break; } } cs(")"); if (retu == 4) cs(")"); if (retu == 2) { csd(".m[", sz(rt) - 1); cs("]"); } cs(";\n"); if (retu == 3) cs("res0[1] = lr0;\n"); cs("pre0 = before + 1; post0 = after + 2;\n}\n");
  vs_sample(csrc); cc_must(); m_load();
  for (int i = 0; i < npar; i++) { av[i] = fresh(at[i]); put(m_sym(nm("x", i)), &av[i]); put(m_sym(nm("y", i)) + sz(at[i]), &av[i]); } if (rt >= 0) { rv = fresh(rt); put(m_sym("rv0"), &rv); }
  struct v pr = fresh(T_INT), po = fresh(T_INT); put(m_sym("pre0"), &pr); put(m_sym("post0"), &po);
  m_call("func", 0, 0);
  for (int i = 0; i < npar; i++) { struct v e = varg && i ? promoted(av[i]) : as(av[i], pt[i]); if (!external) chk("g", i, &e, "argument value seen by the callee"); chk("x", i, &av[i], "a call changed the caller's object"); }
  if (!external) vs_assert(m_get(m_sym("k0"), W) == 12, "the callee's locals are disturbed");
  if (rt >= 0) { vu32 a = m_sym("res0"); for (int k = 0; k < sz(rt); k++) { if (retu != 1 && retu != 2 && m_get(a + sz(rt) + k, 1) != rv.b[k]) { vs_assert(0, "value returned by the call"); vs_stop(); } vs_assert(m_get(a + k, 1) == 0 && m_get(a + 2 * sz(rt) + k, 1) == 0, "storing the returned value changes neighbouring objects"); } if (retu == 2) vs_assert(m_get(m_sym("rb0"), 1) == rv.b[sz(rt) - 1], "member of a returned structure"); chk("rv", 0, &rv, "returning a value changed its source"); }
  struct v w = ofnum(num(&pr) + 1, T_INT); chk("pre", 0, &w, "the caller's local is disturbed by the call"); w = ofnum(num(&po) + 2, T_INT); chk("post", 0, &w, "the caller's local is disturbed by the call"); vs_cover("called"); vs_stop();
}
