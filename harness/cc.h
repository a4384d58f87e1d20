/* Shared by the compiler harnesses: run the real compiler on a text, interpret what it emitted, C value semantics. */
#ifndef CC_H
#define CC_H
#include "x86i.h"
int smlrc_main(int, char**);
enum { TG_32, TG_16, TG_HUGE, TG_UNREAL, TG_MIPS };
static int tgt, W = 4; /* W = size of int */
static char csrc[16384]; static int cn;
static void cs(const char* s) { while (*s) csrc[cn++] = *s++; csrc[cn] = 0; }
static void cd(unsigned v) { char t[12]; int n = 12; t[--n] = 0; do t[--n] = '0' + v % 10; while (v /= 10); cs(t + n); }
static void cc1(int c) { csrc[cn++] = (char)c; csrc[cn] = 0; }
static void csd(const char* s, int d) { cs(s); cd(d); }
static char* casm; static unsigned casmn;
static int cc_opt_uchar; static const char* cc_extra[8]; static int cc_nextra;
static int cc_compile(void) { static char* av[24]; int n = 0; static const char* const to[] = {"-seg32", "-seg16", "-huge", "-unreal", 0}; av[n++] = (char*)"smlrc"; if (to[tgt]) av[n++] = (char*)to[tgt]; if (cc_opt_uchar) av[n++] = (char*)"-unsigned-char"; for (int i = 0; i < cc_nextra; i++) av[n++] = (char*)cc_extra[i]; av[n++] = (char*)"-nopp"; av[n++] = (char*)"a.c"; av[n++] = (char*)"a.asm"; av[n] = 0;
  h_use_ph = 1; h_put("a.c", csrc, cn); int rc = h_run(smlrc_main, n, av); struct h_file* f = h_find("a.asm"); casm = f ? (char*)f->data : 0; casmn = f ? (unsigned)f->size : 0; return rc; }
/* compiles csrc, which must be accepted */
static void cc_must(void) { int rc = cc_compile(); if (rc) { h_out[h_outn] = 0; vs_log(csrc); vs_log(h_out); vs_assert(0, "the compiler rejects a valid program"); vs_stop(); } static const char* end =
#ifdef USE_MIPS
 "# Compilation succeeded."
#else
 "; Compilation succeeded."
#endif
 ; int ok = 0, L = (int)strlen(end); for (unsigned i = casmn; i >= (unsigned)L && i + 64 > casmn; i--) if (!strncmp(casm + i - L, end, L)) ok = 1; vs_assert(ok, "output of a successful compilation does not end with its completion mark"); }
/* ---------- C types */
enum { T_CHAR, T_SCHAR, T_UCHAR, T_SHORT, T_USHORT, T_INT, T_UINT, T_PCHAR, T_PINT, T_PUSHORT, T_PSTRUCT, T_PVOIDX, T_FLOAT, T_LONG, T_ULONG, NT };
static const char* const tname[] = {"char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "char*", "int*", "unsigned short*", "struct Z*", "int**", "float", "long", "unsigned long"};
static int tsize(int t) { switch (t) { case T_CHAR: case T_SCHAR: case T_UCHAR: return 1; case T_SHORT: case T_USHORT: return 2; case T_FLOAT: case T_LONG: case T_ULONG: return 4; } return W; }
static int tsgn(int t) { return t == T_CHAR ? !cc_opt_uchar : t == T_SCHAR || t == T_SHORT || t == T_INT || t == T_LONG; }
static int tptr(int t) { return t >= T_PCHAR && t <= T_PVOIDX; }
static int tpsz(int t) { return t == T_PCHAR ? 1 : t == T_PINT ? W : t == T_PUSHORT ? 2 : t == T_PVOIDX ? W : 6; } /* struct Z has 6 bytes */
static int prom(int t) { if (t <= T_USHORT) return !tsgn(t) && tsize(t) == W ? T_UINT : T_INT; if (t == T_LONG) return T_INT; if (t == T_ULONG) return T_UINT; return t; }
static int usual(int a, int b) { a = prom(a); b = prom(b); return a == T_FLOAT || b == T_FLOAT ? T_FLOAT : a == T_UINT || b == T_UINT ? T_UINT : T_INT; }
/* values are kept extended to 32 bits according to their type */
static vu32 conv(vu32 v, int t) { int n = tsize(t); return n == 4 ? v : n == 2 ? (tsgn(t) ? (vu32)(vs16)v : (vu16)v) : tsgn(t) ? (vu32)(vs8)v : (vu8)v; }
static vu32 word(vu32 v) { return W == 2 ? (vu16)v : v; }
/* ---------- running the emitted code (x86) */
#define SP0 (GM_BASE + (tgt == TG_16 ? 0xf000u : 0x1a000u)) /* just above: caller's area; 16-bit segmented code has data and stack in one 64K segment */
static vu32 m_ebp;
static void m_init(void) { x_real = tgt == TG_16 || tgt == TG_HUGE || tgt == TG_UNREAL; x_farret = tgt == TG_HUGE || tgt == TG_UNREAL; x_dseg = tgt == TG_16 ? GM_BASE : 0; }
static void m_load(void) { m_init(); x_assemble(casm, casmn); for (vu32 a = SP0 - 0x800; a < SP0; a++) gown[a - GM_BASE] = 1; for (vu32 a = SP0; a < SP0 + 0x20; a++) gown[a - GM_BASE] = 5; }
static vu32 m_sym(const char* n) { char b[64]; b[0] = '_'; strcpy(b + 1, n); int l = x_find(tgt == TG_MIPS ? b + 1 : b); if (l < 0) { vs_log(n); x_bad("object or function is missing from the assembly output"); } return x_lb[l].addr; }
static vu32 m_phys(vu32 a) { return tgt == TG_16 ? a + GM_BASE : a; } /* data pointer -> physical */
static vu32 m_get(vu32 a, int n) { vu32 p = m_phys(a) - GM_BASE; for (int i = 0; i < n; i++) x_touch(p + i); return n == 1 ? gm[p] : n == 2 ? *(vu16*)(gm + p) : *(vu32*)(gm + p); }
static void m_set(vu32 a, int n, vu32 v) { vu32 p = m_phys(a) - GM_BASE; for (int i = 0; i < n; i++) gini[p + i] = 1; if (n == 1) gm[p] = (vu8)v; else if (n == 2) *(vu16*)(gm + p) = (vu16)v; else *(vu32*)(gm + p) = v; }
#ifdef USE_MIPS
static vu32 m_call(const char* fn, int na, const vu32* args) { vu32 f = m_sym(fn), sv[32]; for (int i = 1; i < 32; i++) G[i] = vs_u32("reg"); G_hi = vs_u32("reg"); G_lo = vs_u32("reg"); vu32 sp = SP0 - 64; R[4].e = G[29] = sp; G[31] = RET_ADDR; x_steps = 0;
  for (vu32 a = sp - GM_BASE; a < SP0 - GM_BASE; a++) gown[a] = 5; vu32 n = na > 4 ? 4 * na : 16; for (vu32 k = 0; k < n; k++) gown[sp - GM_BASE + k] = 1, gini[sp - GM_BASE + k] = 0; /* the argument area belongs to the callee */
  for (int i = 0; i < na; i++) { if (i < 4) G[4 + i] = args[i]; else m_set(sp + 4 * i, 4, args[i]); } for (int i = 0; i < 32; i++) sv[i] = G[i]; x_go(f);
  vs_assert(G[29] == sp, "stack pointer is not restored on return"); vs_assert(G[30] == sv[30], "frame pointer is not restored on return"); for (int i = 16; i < 24; i++) vs_assert(G[i] == sv[i], "callee-saved register changed"); vs_assert(G[28] == sv[28], "callee-saved register changed"); return G[2]; }
#else
/* calls function at label with argument words; returns (e)ax */
static vu32 m_call(const char* fn, int na, const vu32* args) { vu32 f = m_sym(fn); for (int i = 0; i < 8; i++) R[i].e = vs_u32("reg"); for (int i = 0; i < 6; i++) SEG[i] = 0;
  vu32 sp = SP0 - 64; if (tgt == TG_16) SEG[0] = SEG[2] = SEG[3] = GM_BASE >> 4, R[4].e = 0, R[4].x = (vu16)(sp - GM_BASE); else if (x_real) { SEG[2] = (GM_BASE + 0x10000) >> 4; R[4].e = 0; R[4].x = (vu16)(sp - GM_BASE - 0x10000); if (tgt == TG_HUGE) SEG[3] = SEG[0] = vs_u16("segreg"); } else R[4].e = sp;
  x_cs = x_real ? (tgt == TG_16 ? CODE_BASE >> 4 : f >> 4) : 0; x_df = 0; FL.kind = F_NONE; x_steps = 0; m_ebp = R[5].e;
  for (int i = na - 1; i >= 0; i--) x_push(args[i], W); vu32 s0 = x_sp();
  if (x_farret) { x_push(RET_ADDR >> 4 & 0xf000, 2); x_push(RET_ADDR - ((RET_ADDR >> 4 & 0xf000) << 4), 2); } else if (x_real) x_push(RET_ADDR - (CODE_BASE >> 4) * 16, 2); else x_push(RET_ADDR, 4);
  for (vu32 a = sp - GM_BASE; a < SP0 - GM_BASE; a++) gown[a] = 5; x_go(f);
  vs_assert(x_sp() == s0, "stack pointer is not restored on return"); vs_assert(tgt == TG_16 ? R[5].x == (vu16)m_ebp : R[5].e == m_ebp, "frame pointer is not restored on return"); if (tgt == TG_UNREAL) vs_assert(SEG[3] == 0 && SEG[0] == 0, "data segment registers changed"); vs_assert(x_df == 0, "direction flag left set");
  return W == 2 ? R[0].x : R[0].e; }
#endif
/* ---- float values are the bit patterns; conversions follow C (conversions of values outside the target type are undefined: assumed away) */
static float asf(vu32 v) { union { vu32 u; float f; } q; q.u = v; return q.f; }
static vu32 asu(float f) { union { vu32 u; float f; } q; q.f = f; return q.u; }
static vu32 cvt(vu32 v, int from, int to) { if (from == to) return v; if (from == T_FLOAT) { float f = asf(v); if (tptr(to)) return v; int sg = tsgn(to), z = tsize(to); if (sg) { vs_assume(z == 4 ? f >= -2147483648.0f && f < 2147483648.0f : z == 2 ? f > -32769.0f && f < 32768.0f : f > -129.0f && f < 128.0f); return conv((vu32)(vs32)f, to); } vs_assume(z == 4 ? f > -1.0f && f < 4294967296.0f : z == 2 ? f > -1.0f && f < 65536.0f : f > -1.0f && f < 256.0f); return z == 4 ? (vu32)f : conv((vu32)(vs32)f, to); }
  if (to == T_FLOAT) return prom(from) == T_UINT ? asu((float)conv(v, T_UINT)) : asu((float)(vs32)v); return conv(v, to); }
static int tru(vu32 v, int t) { return t == T_FLOAT ? asf(v) != 0.0f : v != 0; }
static int feq(vu32 a, vu32 b) { return a == b || ((asf(a) != asf(a)) & (asf(b) != asf(b))); }
/* single-precision helper functions called by the emitted code: their IEEE meaning; the comparison helpers return a negative, zero or positive value, and for unordered operands the value that makes the asked relation false */
static int helper(const char* n) { static const char* const hn[] = {"floatsisf", "floatunsisf", "fixsfsi", "fixunssfsi", "addsf3", "subsf3", "negsf2", "mulsf3", "divsf3", "lesf2", "gesf2"}; int k; for (k = 0; k < 11; k++) if (!strcmp(n, hn[k])) break; if (k == 11) return 0; vs_cover("helper"); vu32 a = x_arg(0), b = k > 6 || k == 4 || k == 5 ? x_arg(1) : 0, r = 0; float x = asf(a), y = asf(b);
  switch (k) { case 0: r = asu((float)(vs32)a); break; case 1: r = asu((float)a); break; case 2: r = (vu32)(vs32)x; break; case 3: r = (vu32)x; break; case 4: r = asu(x + y); break; case 5: r = asu(x - y); break; case 6: r = a ^ 0x80000000u; break; case 7: r = asu(x * y); break; case 8: r = asu(x / y); break; case 9: r = vs_ite(x < y, (vu32)-1, vs_ite(x == y, 0, 1)); break; case 10: r = vs_ite(x > y, 1, vs_ite(x == y, 0, (vu32)-1)); break; } R[0].e = r; return 1; }
#endif
