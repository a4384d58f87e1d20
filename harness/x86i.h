/* Assembler text -> decoded program -> execution on symbolic state. Covers the NASM subset smlrc emits (and more of it
   than is emitted today): the check judges what the emitted code does, whatever instructions it uses. */
#ifndef X86I_H
#define X86I_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vs.h"
#include "vlibc.h"
#define GM_BASE 0x20000u
#define GM_SIZE 0x20000u
#define CODE_BASE 0x10000u /* instruction n has address CODE_BASE+4n */
#define EXT_BASE 0x1c000u  /* external symbol k has address EXT_BASE+16k (code) */
#define RET_ADDR 0x1fff0u
enum { S_TEXT, S_DATA, S_RODATA, S_BSS, S_RELOD, S_RELOT, S_FXNSZ, NSEC };
static vu8 gm[GM_SIZE], gown[GM_SIZE], gini[GM_SIZE]; /* own: 0 none 1 stack 2 read-only 3 data 5 caller's */
struct x_opd { vu8 kind, size, base, idx, seg, ad; int lab, lab2; vu32 v; };
enum { K_NONE, K_REG, K_IMM, K_MEM, K_SEG };
struct x_ins { vu8 op, cc, fl; struct x_opd a, b, c; int line; };
struct x_lab { char* n; int sec; vu32 off; int def; int glob; vu32 addr; };
struct x_fix { int sec; vu32 off; int size, lab, lab2; vu32 add; };
#define X_MAXI 6000
#define X_MAXL 3000
static struct x_ins x_in[X_MAXI]; static int x_ni; static struct x_lab x_lb[X_MAXL]; static int x_nl; static struct x_fix x_fx[2000]; static int x_nf;
static vu8 x_sec[NSEC][0x8000]; static vu32 x_sn[NSEC]; static vu32 x_sbase[NSEC]; static int x_bits = 32; static int x_line; static int x_pend; /* pending db prefix */
static int x_trace;
static int x_hash[4096]; static int x_hn[X_MAXL];
/* ---------- text scanning */
static const char* xp; /* cursor inside the current line */
static const char* x_err; static void xfail(const char* m) { vs_log(m); vs_log(xp ? xp : ""); vs_assert(0, "emitted assembly line is not understood by the interpreter (or is not valid NASM)"); vs_stop(); }
static void xsp(void) { while (*xp == ' ' || *xp == '\t') xp++; }
static int xid(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '.' || c == '@' || c == '$' || c == '?'; }
static int x_label(const char* s, int n) { unsigned h = 5381; for (int i = 0; i < n; i++) h = h * 33 + (vu8)s[i]; h &= 4095; for (int k = x_hash[h]; k; k = x_hn[k - 1]) if (!strncmp(x_lb[k - 1].n, s, n) && !x_lb[k - 1].n[n]) return k - 1; if (x_nl >= X_MAXL) xfail("too many labels"); int k = x_nl++; char* d = malloc(n + 1); memcpy(d, s, n); d[n] = 0; x_lb[k].n = d; x_lb[k].def = 0; x_lb[k].glob = 0; x_lb[k].addr = 0; x_hn[k] = x_hash[h]; x_hash[h] = k + 1; return k; }
static const char* const x_regn[] = {"eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "al", "cl", "dl", "bl", "ah", "ch", "dh", "bh", "es", "cs", "ss", "ds", "fs", "gs"};
/* 0-7 32-bit, 8-15 16-bit, 16-23 8-bit, 24-29 segment */
static int x_reg(const char* s, int n) { if (n < 2 || n > 3) return -1; if (n == 3) { if (s[0] != 'e') return -1; for (int i = 0; i < 8; i++) if (x_regn[i][1] == s[1] && x_regn[i][2] == s[2]) return i; return -1; } for (int i = 8; i < 30; i++) if (x_regn[i][0] == s[0] && x_regn[i][1] == s[1]) return i; return -1; }
static vu32 x_num(void) { vu32 v = 0; if (*xp == PH_OPEN) { unsigned id = 0; for (xp++; *xp != PH_CLOSE; xp++) id = id * 10 + *xp - '0'; xp++; return (vu32)vs_ph_get(id); } if (xp[0] == '0' && (xp[1] == 'x' || xp[1] == 'X')) { for (xp += 2;; xp++) { int c = *xp; if (c >= '0' && c <= '9') v = v * 16 + c - '0'; else if ((c | 32) >= 'a' && (c | 32) <= 'f') v = v * 16 + (c | 32) - 'a' + 10; else break; } return v; } while (*xp >= '0' && *xp <= '9') v = v * 10 + *xp++ - '0'; return v; }
struct x_sum { vu32 c; int r1, r2, l1, l2; };
/* sum of numbers, products, registers, labels */
static void x_sum(struct x_sum* s) { s->c = 0; s->r1 = s->r2 = s->l1 = s->l2 = -1; int neg = 0;
  for (;;) { xsp(); while (*xp == '+' || *xp == '-') { if (*xp == '-') neg ^= 1; xp++; xsp(); }
    if ((*xp >= '0' && *xp <= '9') || *xp == PH_OPEN) { vu32 v = x_num(); xsp(); while (*xp == '*') { xp++; xsp(); v *= x_num(); xsp(); } s->c += neg ? 0 - v : v; }
    else if (xid((vu8)*xp)) { const char* b = xp; while (xid((vu8)*xp)) xp++; int n = (int)(xp - b), r = x_reg(b, n); if (r >= 0) { if (neg) xfail("negative register"); if (s->r1 < 0) s->r1 = r; else if (s->r2 < 0) s->r2 = r; else xfail("three registers"); } else { int l = x_label(b, n); if (neg) { if (s->l2 >= 0) xfail("labels"); s->l2 = l; } else { if (s->l1 >= 0) xfail("labels"); s->l1 = l; } } }
    else xfail("bad operand");
    xsp(); neg = 0; if (*xp != '+' && *xp != '-' && *xp != PH_OPEN) break; } }
static int x_word(const char* w) { int n = (int)strlen(w); if (strncmp(xp, w, n) || xid((vu8)xp[n])) return 0; xp += n; xsp(); return 1; }
static void x_opnd(struct x_opd* o) { struct x_sum s; o->kind = K_NONE; o->size = 0; o->base = o->idx = o->seg = 255; o->ad = 0; o->lab = o->lab2 = -1; o->v = 0; xsp();
  for (;;) { if (x_word("byte")) o->size = 1; else if (x_word("word")) o->size = 2; else if (x_word("dword")) o->size = 4; else if (x_word("near") || x_word("short") || x_word("strict")) {} else break; }
  if (*xp == '[') { xp++; xsp(); o->kind = K_MEM; o->ad = x_bits / 8; if (x_word("dword")) o->ad = 4; else if (x_word("word")) o->ad = 2;
    if (xp[2] == ':' && x_reg(xp, 2) >= 24) { o->seg = x_reg(xp, 2) - 24; xp += 3; }
    x_sum(&s); if (*xp != ']') xfail("missing ]"); xp++; if (s.r1 >= 0) { o->ad = s.r1 < 8 ? 4 : 2; if (s.r1 >= 16) xfail("bad base register"); o->base = s.r1 & 7; if (s.r2 >= 0) { if ((s.r2 < 8) != (s.r1 < 8) || s.r2 >= 16) xfail("bad index"); o->idx = s.r2 & 7; } if (o->ad == 2 && !(((o->base == 3 || o->base == 5) && (o->idx == 255 || o->idx == 6 || o->idx == 7)) || ((o->base == 6 || o->base == 7) && (o->idx == 255 || o->idx == 3 || o->idx == 5)))) xfail("16-bit address mode that does not exist"); }
    o->v = s.c; o->lab = s.l1; o->lab2 = s.l2; if (o->seg == 255) o->seg = o->base == 4 || o->base == 5 ? 2 : 3; }
  else { x_sum(&s); if (s.r1 >= 0) { if (s.r2 >= 0 || s.l1 >= 0) xfail("operand"); o->kind = s.r1 >= 24 ? K_SEG : K_REG; o->base = s.r1 >= 24 ? s.r1 - 24 : s.r1; o->size = s.r1 < 8 ? 4 : s.r1 < 16 ? 2 : s.r1 < 24 ? 1 : 2; } else { o->kind = K_IMM; o->v = s.c; o->lab = s.l1; o->lab2 = s.l2; } }
  xsp(); }
#ifndef USE_MIPS
enum { I_MOV, I_MOVSX, I_MOVZX, I_XCHG, I_LEA, I_PUSH, I_POP, I_INC, I_DEC, I_ADD, I_SUB, I_AND, I_XOR, I_OR, I_CMP, I_TEST, I_MUL, I_IMUL, I_IDIV, I_DIV, I_SHL, I_SAL, I_SAR, I_SHR, I_NEG, I_NOT, I_CBW, I_CWD, I_CDQ, I_CWDE, I_LEAVE, I_CALL, I_RET, I_RETF, I_JMP, I_ROR, I_ROL, I_CLD, I_STD, I_MOVSB, I_PUSHAD, I_POPAD, I_IRET, I_CMC, I_SBB, I_ADC, I_NOP, I_CALLF, I_CLI, I_STI, I_NMN };
static const char* const x_mn[] = {"mov", "movsx", "movzx", "xchg", "lea", "push", "pop", "inc", "dec", "add", "sub", "and", "xor", "or", "cmp", "test", "mul", "imul", "idiv", "div", "shl", "sal", "sar", "shr", "neg", "not", "cbw", "cwd", "cdq", "cwde", "leave", "call", "ret", "retf", "jmp", "ror", "rol", "cld", "std", "movsb", "pushad", "popad", "iret", "cmc", "sbb", "adc", "nop", 0, "cli", "sti"};
enum { I_JCC = 100, I_SETCC = 101 };
enum { CC_E, CC_NE, CC_L, CC_GE, CC_LE, CC_G, CC_B, CC_AE, CC_BE, CC_A, CC_S, CC_NS };
static const char* const x_ccn[] = {"e", "z", "ne", "nz", "l", "nge", "ge", "nl", "le", "ng", "g", "nle", "b", "c", "nae", "ae", "nc", "nb", "be", "na", "a", "nbe", "s", "ns"}; static const vu8 x_ccv[] = {CC_E, CC_E, CC_NE, CC_NE, CC_L, CC_L, CC_GE, CC_GE, CC_LE, CC_LE, CC_G, CC_G, CC_B, CC_B, CC_B, CC_AE, CC_AE, CC_AE, CC_BE, CC_BE, CC_A, CC_A, CC_S, CC_NS};
static int x_cc(const char* s, int n) { for (int i = 0; i < 24; i++) if ((int)strlen(x_ccn[i]) == n && !strncmp(s, x_ccn[i], n)) return x_ccv[i]; return -1; }
#endif
static int x_fx_o16, x_raw, x_ext0; static vu8 x_rb[8]; static int x_cur = S_TEXT;
static void x_emit(int n, vu32 v) { if (x_sn[x_cur] + n > sizeof x_sec[0]) xfail("section too large"); for (int i = 0; i < n; i++) x_sec[x_cur][x_sn[x_cur]++] = (vu8)(v >> (8 * i)); }
#ifndef USE_MIPS
static void x_data(int n) { /* db/dw/dd list */
  for (;;) { xsp(); if (*xp == '"' || *xp == '\'') { int q = *xp++; int k = 0; while (*xp && *xp != q) { x_emit(1, (vu8)*xp++); k++; } if (*xp != q) xfail("string"); xp++; if (n != 1) while (k++ % n) x_emit(1, 0); }
    else { struct x_sum s; x_sum(&s); if (s.r1 >= 0) xfail("register in data"); if (s.l1 >= 0 || s.l2 >= 0) { if (x_nf >= 2000) xfail("fixups"); x_fx[x_nf].sec = x_cur; x_fx[x_nf].off = x_sn[x_cur]; x_fx[x_nf].size = n; x_fx[x_nf].lab = s.l1; x_fx[x_nf].lab2 = s.l2; x_fx[x_nf].add = s.c; x_nf++; x_emit(n, 0); } else x_emit(n, s.c); }
    xsp(); if (*xp != ',') break; xp++; } }
#endif
static struct x_ins* x_new(int op) { if (x_ni >= X_MAXI) xfail("too many instructions"); struct x_ins* i = &x_in[x_ni++]; i->op = op; i->fl = 0; i->a.kind = i->b.kind = i->c.kind = K_NONE; i->line = x_line; return i; }
static int x_rep;
#ifdef USE_MIPS
#include "mips_asm.h"
#else
static void x_stmt(void) { const char* b; int n; xsp(); if (!*xp || *xp == ';') return;
again: b = xp; if (!xid((vu8)*xp)) xfail("syntax"); while (xid((vu8)*xp)) xp++; n = (int)(xp - b);
  if (*xp == ':') { xp++; int l = x_label(b, n); if (x_lb[l].def) { vs_assert(0, "label defined twice in the assembly output"); } x_lb[l].def = 1; x_lb[l].sec = x_cur; x_lb[l].off = x_cur == S_TEXT ? (vu32)x_ni : x_sn[x_cur]; xsp(); if (*xp && *xp != ';') goto again; return; }
  xsp();
#define IS(w) (n == (int)sizeof(w) - 1 && !strncmp(b, w, n))
  if (IS("bits")) { x_bits = (int)x_num(); return; }
  if (IS("section")) { const char* c = xp; while (xid((vu8)*xp)) xp++; int m = (int)(xp - c); static const char* const sn[] = {".text", ".data", ".rodata", ".bss", ".relod", ".relot", ".fxnsz"}; for (int i = 0; i < NSEC; i++) if ((int)strlen(sn[i]) == m && !strncmp(c, sn[i], m)) { x_cur = i; return; } xfail("unknown section"); }
  if (IS("global")) { const char* c = xp; while (xid((vu8)*xp)) xp++; x_lb[x_label(c, (int)(xp - c))].glob |= 1; return; }
  if (IS("extern")) { const char* c = xp; while (xid((vu8)*xp)) xp++; x_lb[x_label(c, (int)(xp - c))].glob |= 2; return; }
  if (IS("align") || IS("alignb")) { vu32 k = x_num(); if (x_cur == S_TEXT) return; if (!k || (k & (k - 1))) xfail("alignment"); while (x_sn[x_cur] & (k - 1)) x_emit(1, 0); return; }
  if (IS("resb") || IS("resw") || IS("resd")) { vu32 k = vs_concretize(x_num()) * (b[3] == 'b' ? 1 : b[3] == 'w' ? 2 : 4); while (k--) x_emit(1, 0); return; }
  if (IS("times")) { vu32 k = vs_concretize(x_num()); xsp(); if (!x_word("db")) xfail("times"); vu32 v = x_num(); if (x_cur == S_TEXT) xfail("times in code"); while (k--) x_emit(1, v); return; }
  if (IS("db") || IS("dw") || IS("dd")) { int k = b[1] == 'b' ? 1 : b[1] == 'w' ? 2 : 4; if (x_cur != S_TEXT) { x_data(k); return; }
    if (k == 1) { for (;;) { xsp(); x_rb[x_raw++ & 7] = (vu8)x_num(); xsp(); if (*xp != ',') break; xp++; } return; }
    /* raw far call / push / mov with a label operand */
    struct x_sum s; x_sum(&s); struct x_ins* i; struct x_opd o; memset(&o, 0, sizeof o); o.kind = K_IMM; o.size = 4; o.lab = s.l1; o.lab2 = s.l2; o.v = s.c; o.base = o.idx = 255; if (k != 4) xfail("raw data in code");
    if (x_raw == 1 && x_rb[0] == 0x9A) { i = x_new(I_CALLF); i->a = o; i->fl = 2; } else if (x_raw == 2 && x_rb[0] == 0x66 && x_rb[1] == 0x68) { i = x_new(I_PUSH); i->a = o; } else if (x_raw == 2 && x_rb[0] == 0x66 && x_rb[1] >= 0xB8 && x_rb[1] <= 0xBF) { i = x_new(I_MOV); i->a.kind = K_REG; i->a.size = 4; i->a.base = x_rb[1] - 0xB8; i->b = o; } else { xfail("raw bytes"); return; }
    /* labels inside the instruction (relocation records) */ x_raw = 0; return; }
  int o66 = 0, a67 = 0; if (x_raw) { for (int k = 0; k < x_raw; k++) if (x_rb[k] == 0x66) o66 = 1; else if (x_rb[k] == 0x67) a67 = 1; else if (x_rb[k] == 0x90) {} else xfail("raw prefix"); x_raw = 0; }
  if (x_cur != S_TEXT) xfail("instruction outside the code section");
  int rep = 0; if (IS("rep")) { rep = 1; b = xp; while (xid((vu8)*xp)) xp++; n = (int)(xp - b); xsp(); }
  int op = -1, cc = -1; for (int i = 0; i < I_NMN; i++) if (x_mn[i] && x_mn[i][0] == b[0] && (int)strlen(x_mn[i]) == n && !strncmp(b, x_mn[i], n)) { op = i; break; }
  if (op < 0 && b[0] == 'j') { cc = x_cc(b + 1, n - 1); if (cc >= 0) op = I_JCC; } if (op < 0 && n > 3 && !strncmp(b, "set", 3)) { cc = x_cc(b + 3, n - 3); if (cc >= 0) op = I_SETCC; }
  if (op < 0) xfail("unknown instruction");
  struct x_ins* i = x_new(op); i->cc = cc < 0 ? 0 : cc; i->fl = (o66 ? 1 : 0) | (rep ? 4 : 0) | (a67 ? 8 : 0) | (x_bits == 16 ? 16 : 0);
  xsp(); if (*xp && *xp != ';') { x_opnd(&i->a); if (*xp == ',') { xp++; x_opnd(&i->b); if (*xp == ',') { xp++; x_opnd(&i->c); } } } xsp(); if (*xp && *xp != ';') xfail("trailing text");
  if (op == I_SAL) i->op = I_SHL;
  /* operand size: from the register operand, else explicit */
  if (i->a.kind == K_MEM && !i->a.size && i->b.kind == K_REG && op != I_SHL && op != I_SAR && op != I_SHR && op != I_ROL && op != I_ROR) i->a.size = i->b.size; if (i->a.kind == K_MEM && !i->a.size && i->b.kind == K_SEG) i->a.size = 2;
  if (i->b.kind == K_MEM && !i->b.size && i->a.kind == K_REG && op != I_MOVSX && op != I_MOVZX) i->b.size = i->a.size; if (i->b.kind == K_MEM && !i->b.size && i->a.kind == K_SEG) i->b.size = 2;
  if (i->b.kind == K_IMM && !i->b.size) i->b.size = i->a.size;
  if (op != I_MOVSX && op != I_MOVZX && op != I_LEA && op != I_SHL && op != I_SAR && op != I_SHR && op != I_ROL && op != I_ROR && i->b.kind != K_NONE && i->b.kind != K_IMM && i->a.kind != K_SEG && i->b.kind != K_SEG && i->a.size != i->b.size) xfail("operand sizes differ");
  if (i->a.kind == K_MEM && i->b.kind == K_MEM) xfail("two memory operands"); if ((op == I_MOVSX || op == I_MOVZX) && (i->b.size == 0 || i->b.size >= i->a.size)) xfail("movsx/movzx sizes");
  if (op == I_IMUL && i->b.kind != K_NONE && i->a.size == 1) xfail("8-bit two-operand imul");
  if ((i->a.kind == K_MEM || i->b.kind == K_MEM) && !i->a.size && !i->b.size && op != I_CALL && op != I_JMP && op != I_LEA) xfail("memory operand without size"); }
#define X_NEEDEXT 1
#endif
static void x_reset(void) { x_ni = x_nl = x_nf = x_raw = 0; x_cur = S_TEXT; x_bits = 32; for (int i = 0; i < NSEC; i++) x_sn[i] = 0; x_line = 0; }
/* assemble; data placed from GM_BASE + 0x100 upwards with own flags */
static vu32 x_dseg; /* in 16-bit segmented modes: physical base of the data segment, subtracted from label addresses */
static int x_islog(const char* l) { return l[0] == ';'; }
static void x_assemble(const char* t, unsigned n) { static char line[2048]; x_reset(); unsigned i = 0;
  while (i < n) { unsigned k = i; if (t[k] == ';') { while (k < n && t[k] != '\n') k++; i = k + 1; x_line++; continue; } while (k < n && t[k] != '\n') k++; if (k - i >= sizeof line) xfail("line too long"); for (unsigned j = i; j < k; j++) line[j - i] = t[j]; line[k - i] = 0; x_line++; xp = line; x_stmt(); i = k + 1; }
  if (x_raw) xfail("dangling raw bytes");
  vu32 a = GM_BASE + 0x100; static const int ord[] = {S_RODATA, S_DATA, S_BSS}; for (int q = 0; q < 3; q++) { int s = ord[q]; a = (a + 15) & ~15u; x_sbase[s] = a; for (vu32 j = 0; j < x_sn[s]; j++) { gm[a - GM_BASE + j] = x_sec[s][j]; gown[a - GM_BASE + j] = s == S_RODATA ? 2 : 3; gini[a - GM_BASE + j] = 1; } a += x_sn[s] + 16; } if (a > GM_BASE + 0x8000) xfail("data too large");
  int ext = 0; for (int l = 0; l < x_nl; l++) { struct x_lab* L = &x_lb[l]; if (L->def) { if (L->glob & 2) vs_assert(0, "symbol is both defined and extern"); if (L->sec == S_TEXT) L->addr = CODE_BASE + 4 * L->off; else if (L->sec <= S_BSS) L->addr = x_sbase[L->sec] + L->off - x_dseg; else L->addr = 0; } else { L->sec = -1; L->addr = EXT_BASE + 16 * ext++; } }
  for (int f = 0; f < x_nf; f++) { struct x_fix* F = &x_fx[f]; if (F->sec > S_BSS) continue; vu32 v = F->add; if (F->lab >= 0) v += x_lb[F->lab].addr; if (F->lab2 >= 0) v -= x_lb[F->lab2].addr; if (F->sec == S_TEXT) xfail("data in code"); for (int j = 0; j < F->size; j++) gm[x_sbase[F->sec] - GM_BASE + F->off + j] = (vu8)(v >> (8 * j)); }
  for (int k = 0; k < x_ni; k++) { struct x_opd* o = &x_in[k].a; for (int q = 0; q < 3; q++, o++) { if (o->kind == K_NONE) break; if (o->lab >= 0) { if (X_NEEDEXT && !x_lb[o->lab].def && !(x_lb[o->lab].glob & 2)) { vs_log(x_lb[o->lab].n); vs_assert(0, "undefined symbol is not declared extern"); } o->v += x_lb[o->lab].addr; } if (o->lab2 >= 0) o->v -= x_lb[o->lab2].addr; } } }
static int x_find(const char* n) { unsigned h = 5381; for (int i = 0; n[i]; i++) h = h * 33 + (vu8)n[i]; h &= 4095; for (int k = x_hash[h]; k; k = x_hn[k - 1]) if (!strcmp(x_lb[k - 1].n, n)) return k - 1; return -1; }
/* ---------- machine */
union x_r { vu32 e; vu16 x; vu8 b[4]; };
static union x_r R[8]; static vu16 SEG[6]; static struct { vu8 kind, sz; vu32 a, b, r; } FL; static int x_pc, x_df; static vu32 x_cs; static int x_real; /* real mode segments */
enum { F_NONE, F_SUB, F_LOGIC, F_ADD, F_INC, F_DEC, F_CF };
static long x_steps; static void x_bad(const char* m) { vs_log(m); vs_assert(0, m); vs_stop(); }
static vu32 x_phys(struct x_opd* o) { vu32 e = o->v; if (o->base != 255) e += o->ad == 4 ? R[o->base].e : R[o->base].x; if (o->idx != 255) e += o->ad == 4 ? R[o->idx].e : R[o->idx].x; if (o->ad == 2) e = (vu16)e; return x_real ? e + ((vu32)SEG[o->seg] << 4) : e; }
static vu32 x_off(struct x_opd* o) { vu32 e = o->v; if (o->base != 255) e += o->ad == 4 ? R[o->base].e : R[o->base].x; if (o->idx != 255) e += o->ad == 4 ? R[o->idx].e : R[o->idx].x; return o->ad == 2 ? (vu16)e : e; }
static vu32 x_chk(vu32 p, int n) { p -= GM_BASE; if (p >= GM_SIZE - 3) x_bad("generated code accesses memory outside every object and the stack"); return vs_is_symbolic(p) ? vs_concretize(p) : p; }
static void x_touch(vu32 p) { if (!gini[p]) { gini[p] = 1; gm[p] = vs_u8("garbage"); } }
static vu32 x_ld(vu32 a, int n) { vu32 p = x_chk(a, n); for (int i = 0; i < n; i++) { if (!gown[p + i]) x_bad("generated code reads memory outside every object and the stack"); x_touch(p + i); } if (n == 1) return gm[p]; if (n == 2) return *(vu16*)(gm + p); return *(vu32*)(gm + p); }
static void x_st(vu32 a, int n, vu32 v) { vu32 p = x_chk(a, n); for (int i = 0; i < n; i++) { int o = gown[p + i]; if (o != 1 && o != 3) x_bad("generated code writes memory outside every object and its own stack area"); gini[p + i] = 1; } if (n == 1) gm[p] = (vu8)v; else if (n == 2) *(vu16*)(gm + p) = (vu16)v; else *(vu32*)(gm + p) = v; }
static vu32 x_rd(int r) { return r < 8 ? R[r].e : r < 16 ? R[r - 8].x : r < 20 ? R[r - 16].b[0] : R[r - 20].b[1]; }
static void x_wr(int r, vu32 v) { if (r < 8) R[r].e = v; else if (r < 16) R[r - 8].x = (vu16)v; else if (r < 20) R[r - 16].b[0] = (vu8)v; else R[r - 20].b[1] = (vu8)v; }
static vu32 x_get(struct x_opd* o, int sz) { switch (o->kind) { case K_REG: return x_rd(o->base); case K_IMM: return sz == 1 ? (vu8)o->v : sz == 2 ? (vu16)o->v : o->v; case K_MEM: return x_ld(x_phys(o), sz); case K_SEG: return SEG[o->base]; } x_bad("operand"); return 0; }
static void x_put(struct x_opd* o, int sz, vu32 v) { switch (o->kind) { case K_REG: x_wr(o->base, v); return; case K_MEM: x_st(x_phys(o), sz, v); return; case K_SEG: SEG[o->base] = (vu16)v; return; } x_bad("operand"); }
static vu32 x_sp(void) { return x_real ? R[4].x : R[4].e; } static vu32 x_ss(vu32 sp) { return x_real ? ((vu32)SEG[2] << 4) + sp : sp; }
static void x_setsp(vu32 v) { vu32 o = x_sp(); if (x_real) { R[4].x = (vu16)v; v = (vu16)v; } else R[4].e = v; vu32 lo = x_ss(o) - GM_BASE, hi = x_ss(v) - GM_BASE; if (hi > lo && hi <= GM_SIZE) for (; lo < hi; lo++) if (gown[lo] == 1) gini[lo] = 0; }
static void x_push(vu32 v, int n) { vu32 s = x_sp() - n; if (x_real) { R[4].x = (vu16)s; s = (vu16)s; } else R[4].e = s; x_st(x_ss(s), n, v); }
static vu32 x_pop(int n) { vu32 v = x_ld(x_ss(x_sp()), n); x_setsp(x_sp() + n); return v; }
static vs32 sx(vu32 v, int n) { return n == 1 ? (vs8)v : n == 2 ? (vs16)v : (vs32)v; } static vu32 zx(vu32 v, int n) { return n == 1 ? (vu8)v : n == 2 ? (vu16)v : v; }
#ifndef USE_MIPS
static int x_cond(int cc) { int n = FL.sz; vu32 a = FL.a, b = FL.b, r = FL.r;
  switch (FL.kind) {
  case F_SUB: switch (cc) { case CC_E: return a == b; case CC_NE: return a != b; case CC_L: return sx(a, n) < sx(b, n); case CC_GE: return sx(a, n) >= sx(b, n); case CC_LE: return sx(a, n) <= sx(b, n); case CC_G: return sx(a, n) > sx(b, n); case CC_B: return a < b; case CC_AE: return a >= b; case CC_BE: return a <= b; case CC_A: return a > b; case CC_S: return sx(r, n) < 0; case CC_NS: return sx(r, n) >= 0; } break;
  case F_LOGIC: switch (cc) { case CC_E: case CC_BE: return r == 0; case CC_NE: case CC_A: return r != 0; case CC_L: case CC_S: return sx(r, n) < 0; case CC_GE: case CC_NS: return sx(r, n) >= 0; case CC_LE: return sx(r, n) <= 0; case CC_G: return sx(r, n) > 0; case CC_B: return 0; case CC_AE: return 1; } break;
  case F_ADD: { vu32 cf = r < a; vu32 of = (zx(~(a ^ b) & (a ^ r), n) >> (n * 8 - 1)) & 1, sf = (r >> (n * 8 - 1)) & 1; switch (cc) { case CC_E: return r == 0; case CC_NE: return r != 0; case CC_B: return cf; case CC_AE: return !cf; case CC_BE: return cf | (r == 0); case CC_A: return !(cf | (r == 0)); case CC_L: return sf != of; case CC_GE: return sf == of; case CC_LE: return (sf != of) | (r == 0); case CC_G: return !((sf != of) | (r == 0)); case CC_S: return sf; case CC_NS: return !sf; } break; }
  case F_INC: case F_DEC: { vu32 top = 1u << (n * 8 - 1); vu32 sf = (r >> (n * 8 - 1)) & 1, of = r == (FL.kind == F_INC ? top : top - 1); switch (cc) { case CC_E: return r == 0; case CC_NE: return r != 0; case CC_S: return sf; case CC_NS: return !sf; case CC_L: return sf != of; case CC_GE: return sf == of; case CC_LE: return (sf != of) | (r == 0); case CC_G: return !((sf != of) | (r == 0)); } break; }
  case F_CF: if (cc == CC_B) return a; if (cc == CC_AE) return !a; break; }
  x_bad("generated code depends on flags that are undefined at this point"); return 0; }
static void x_fl(int k, int sz, vu32 a, vu32 b, vu32 r) { FL.kind = k; FL.sz = sz; FL.a = a; FL.b = b; FL.r = r; }
#endif
static void x_external(const char* name, vu32 addr); /* harness: performs an external call; arguments at x_arg(i) */
static int x_callno; static int x_farret; /* far calls in huge/unreal */
static vu32 x_arg(int i) { int w = x_real && !x_farret ? 2 : 4; return x_ld(x_ss((x_real ? (vu16)(x_sp() + i * w) : x_sp() + i * w)), w); }
#ifdef USE_MIPS
#include "mips_run.h"
#else
static int x_goto(vu32 a) { /* returns 1 when the outermost return address is reached */
  if (a == RET_ADDR) return 1;
  if (a >= EXT_BASE && a < RET_ADDR) { int k = (a - EXT_BASE) / 16, e = 0; for (int l = 0; l < x_nl; l++) if (!x_lb[l].def && e++ == k) { vu32 ra; if (x_farret) { ra = x_pop(2); vu32 cs = x_pop(2); ra += cs << 4; x_cs = cs; } else ra = x_real ? (x_pop(2) + CODE_BASE) : x_pop(4);
      R[1].e = vs_u32("clobber"); R[2].e = vs_u32("clobber"); x_external(x_lb[l].n, a); FL.kind = F_NONE; return x_goto(ra); } }
  if (a < CODE_BASE || a >= CODE_BASE + 4 * (vu32)x_ni || (a & 3)) x_bad("control transferred to an address that is not an instruction"); x_pc = (int)((a - CODE_BASE) / 4); return 0; }
static vu32 x_near(vu32 v) { if (vs_is_symbolic(v)) v = vs_concretize(v); return x_real && !x_farret ? (vu16)v + CODE_BASE - (CODE_BASE & 0xffff) : v; }
static int x_step(void) { struct x_ins* i = &x_in[x_pc]; if (x_pc >= x_ni) x_bad("execution ran past the end of the code"); int sz = i->a.size; if (++x_steps > 3000) x_bad("generated code does not terminate"); vu32 a, b, r; int w = (i->fl & 16) ? 2 : 4; /* default operand size */
  x_pc++;
  switch (i->op) {
  case I_MOV: b = x_get(&i->b, sz); x_put(&i->a, sz, b); if (i->a.kind == K_REG && (i->a.base & 7) == 4 && i->a.base < 16) { vu32 n = x_sp(); (void)n; } break;
  case I_MOVSX: b = x_get(&i->b, i->b.size); x_put(&i->a, sz, (vu32)sx(b, i->b.size)); break;
  case I_MOVZX: b = x_get(&i->b, i->b.size); x_put(&i->a, sz, b); break;
  case I_XCHG: a = x_get(&i->a, sz); b = x_get(&i->b, sz); x_put(&i->a, sz, b); x_put(&i->b, sz, a); break;
  case I_LEA: x_put(&i->a, sz, x_off(&i->b)); break;
  case I_PUSH: { int n = i->a.kind == K_SEG ? w : i->a.size && !(i->a.kind == K_IMM && i->a.size == 1) ? i->a.size : w; if (n == 1) x_bad("push byte"); a = i->a.kind == K_IMM ? i->a.v : x_get(&i->a, n); if (i->a.kind == K_IMM && i->a.size == 1) a = (vu32)sx(a, 1); x_push(a, n); break; }
  case I_POP: { int n = i->a.kind == K_SEG ? w : i->a.size; a = x_pop(n); x_put(&i->a, n, a); break; }
  case I_INC: a = x_get(&i->a, sz); r = zx(a + 1, sz); x_put(&i->a, sz, r); x_fl(F_INC, sz, a, 1, r); break;
  case I_DEC: a = x_get(&i->a, sz); r = zx(a - 1, sz); x_put(&i->a, sz, r); x_fl(F_DEC, sz, a, 1, r); break;
  case I_ADD: a = x_get(&i->a, sz); b = x_get(&i->b, sz); r = zx(a + b, sz); if (i->a.kind == K_REG && (i->a.base == 4 || i->a.base == 12)) x_setsp(r); else x_put(&i->a, sz, r); x_fl(F_ADD, sz, a, b, r); break;
  case I_SUB: a = x_get(&i->a, sz); b = x_get(&i->b, sz); r = zx(a - b, sz); if (i->a.kind == K_REG && (i->a.base == 4 || i->a.base == 12)) x_setsp(r); else x_put(&i->a, sz, r); x_fl(F_SUB, sz, a, b, r); break;
  case I_CMP: a = x_get(&i->a, sz); b = x_get(&i->b, sz); x_fl(F_SUB, sz, a, b, zx(a - b, sz)); break;
  case I_AND: a = x_get(&i->a, sz); b = x_get(&i->b, sz); r = a & b; x_put(&i->a, sz, r); x_fl(F_LOGIC, sz, a, b, r); break;
  case I_OR: a = x_get(&i->a, sz); b = x_get(&i->b, sz); r = a | b; x_put(&i->a, sz, r); x_fl(F_LOGIC, sz, a, b, r); break;
  case I_XOR: if (i->a.kind == K_REG && i->b.kind == K_REG && i->a.base == i->b.base) a = b = r = 0; else { a = x_get(&i->a, sz); b = x_get(&i->b, sz); r = a ^ b; } x_put(&i->a, sz, r); x_fl(F_LOGIC, sz, a, b, r); break;
  case I_TEST: a = x_get(&i->a, sz); b = x_get(&i->b, sz); x_fl(F_LOGIC, sz, a, b, a & b); break;
  case I_NEG: a = x_get(&i->a, sz); r = zx(0 - a, sz); x_put(&i->a, sz, r); x_fl(F_SUB, sz, 0, a, r); break;
  case I_NOT: a = x_get(&i->a, sz); x_put(&i->a, sz, zx(~a, sz)); break;
  case I_SBB: { vu32 cf = x_cond(CC_B); if (i->a.kind == K_REG && i->b.kind == K_REG && i->a.base == i->b.base) { r = zx(0 - cf, sz); x_put(&i->a, sz, r); x_fl(F_CF, sz, cf, 0, r); } else { a = x_get(&i->a, sz); b = x_get(&i->b, sz); x_put(&i->a, sz, zx(a - b - cf, sz)); FL.kind = F_NONE; } break; }
  case I_ADC: { vu32 cf = x_cond(CC_B); a = x_get(&i->a, sz); b = x_get(&i->b, sz); x_put(&i->a, sz, zx(a + b + cf, sz)); FL.kind = F_NONE; break; }
  case I_MUL: a = x_get(&i->a, sz); if (sz == 4) { vu64 p = (vu64)R[0].e * a; R[0].e = R[0].e * a; R[2].e = (vu32)(p >> 32); } else if (sz == 2) { vu32 p = (vu32)R[0].x * a; R[0].x = (vu16)p; R[2].x = (vu16)(p >> 16); } else R[0].x = (vu16)(R[0].b[0] * a); FL.kind = F_NONE; break;
  case I_IMUL: if (i->b.kind == K_NONE) { a = x_get(&i->a, sz); if (sz == 4) { vs64 p = (vs64)(vs32)R[0].e * (vs32)a; R[0].e = R[0].e * a; R[2].e = (vu32)(p >> 32); } else if (sz == 2) { vs32 p = (vs32)(vs16)R[0].x * (vs16)a; R[0].x = (vu16)p; R[2].x = (vu16)(p >> 16); } else R[0].x = (vu16)((vs8)R[0].b[0] * (vs8)a); } else if (i->c.kind == K_NONE) { a = x_get(&i->a, sz); b = x_get(&i->b, sz); x_put(&i->a, sz, zx(a * b, sz)); } else { a = x_get(&i->b, sz); b = x_get(&i->c, sz); x_put(&i->a, sz, zx(a * b, sz)); } FL.kind = F_NONE; break;
  case I_IDIV: a = x_get(&i->a, sz); if (zx(a, sz) == 0) x_bad("generated code divides by zero"); if (sz == 4) { if (R[2].e == (vu32)((vs32)R[0].e >> 31)) { if ((R[0].e == 0x80000000u) & (a == 0xffffffffu)) x_bad("quotient overflow in generated code"); vs32 n = (vs32)R[0].e, d = (vs32)a; R[0].e = (vu32)(n / d); R[2].e = (vu32)(n % d); } else { vs64 n = (vs64)((vu64)R[2].e << 32 | R[0].e), d = (vs32)a; vs64 q = n / d; if (q != (vs32)q) x_bad("quotient overflow in generated code"); R[0].e = (vu32)q; R[2].e = (vu32)(n % d); } }
    else if (sz == 2) { if (R[2].x == (vu16)((vs16)R[0].x >> 15)) { if ((R[0].x == 0x8000) & ((vu16)a == 0xffff)) x_bad("quotient overflow in generated code"); vs16 n = (vs16)R[0].x, d = (vs16)a; R[0].x = (vu16)(n / d); R[2].x = (vu16)(n % d); } else { vs32 n = (vs32)((vu32)R[2].x << 16 | R[0].x), d = (vs16)a; vs32 q = n / d; if (q != (vs16)q) x_bad("quotient overflow in generated code"); R[0].x = (vu16)q; R[2].x = (vu16)(n % d); } } else { vs16 n = (vs16)R[0].x, d = (vs8)a; vs16 q = n / d; if (q != (vs8)q) x_bad("quotient overflow in generated code"); R[0].x = (vu8)q | (vu16)((vu8)(n % d) << 8); } FL.kind = F_NONE; break;
  case I_DIV: a = x_get(&i->a, sz); if (zx(a, sz) == 0) x_bad("generated code divides by zero"); if (sz == 4) { if (R[2].e == 0) { vu32 n = R[0].e; R[0].e = n / a; R[2].e = n % a; } else { if (R[2].e >= a) x_bad("quotient overflow in generated code"); vu64 n = (vu64)R[2].e << 32 | R[0].e; R[0].e = (vu32)(n / a); R[2].e = (vu32)(n % a); } } else if (sz == 2) { if (R[2].x == 0) { vu16 n = R[0].x; R[0].x = n / (vu16)a; R[2].x = n % (vu16)a; } else { if (R[2].x >= (vu16)a) x_bad("quotient overflow in generated code"); vu32 n = (vu32)R[2].x << 16 | R[0].x; R[0].x = (vu16)(n / a); R[2].x = (vu16)(n % a); } } else { vu16 n = R[0].x; if (R[0].b[1] >= (vu8)a) x_bad("quotient overflow in generated code"); R[0].x = (vu8)(n / a) | (vu16)((vu8)(n % a) << 8); } FL.kind = F_NONE; break;
  case I_SHL: case I_SHR: case I_SAR: { a = x_get(&i->a, sz); b = x_get(&i->b, 1) & 31; if (i->op == I_SHL) r = a << b; else if (i->op == I_SHR) r = zx(a, sz) >> b; else r = (vu32)(sx(a, sz) >> b); x_put(&i->a, sz, zx(r, sz)); FL.kind = F_NONE; break; }
  case I_ROR: case I_ROL: { a = x_get(&i->a, sz); b = x_get(&i->b, 1) & 31; int bits = sz * 8; vu32 k = b % bits; if (k) { if (i->op == I_ROL) k = bits - k; r = zx(zx(a, sz) >> k | a << (bits - k), sz); x_put(&i->a, sz, r); } FL.kind = F_NONE; break; }
  case I_CBW: R[0].x = (vu16)(vs8)R[0].b[0]; break; case I_CWDE: R[0].e = (vu32)(vs16)R[0].x; break;
  case I_CWD: R[2].x = (vu16)((vs16)R[0].x >> 15); break; case I_CDQ: R[2].e = (vu32)((vs32)R[0].e >> 31); break;
  case I_SETCC: x_put(&i->a, 1, (vu32)x_cond(i->cc)); break;
  case I_JCC: if (x_cond(i->cc)) return x_goto(i->a.v); break;
  case I_JMP: return x_goto(i->a.kind == K_IMM ? i->a.v : x_near(x_get(&i->a, i->a.size ? i->a.size : w)));
  case I_CALL: { a = i->a.kind == K_IMM ? i->a.v : x_near(x_get(&i->a, i->a.size ? i->a.size : w)); vu32 ra = CODE_BASE + 4 * (vu32)x_pc; x_callno++; x_push(x_real ? ra - x_cs * 16 : ra, w); return x_goto(a); }
  case I_CALLF: { vu32 ra = CODE_BASE + 4 * (vu32)x_pc; x_callno++; x_push(x_cs, 2); x_push(ra - x_cs * 16, 2); x_cs = i->a.v >> 4; return x_goto(i->a.v); }
  case I_RET: { a = x_pop(w); if (vs_is_symbolic(a)) x_bad("return address overwritten"); if (i->a.kind == K_IMM) x_setsp(x_sp() + i->a.v); return x_goto(x_real ? (vu16)a + x_cs * 16 : a); }
  case I_RETF: { a = x_pop(2); b = x_pop(2); if (vs_is_symbolic(a) || vs_is_symbolic(b)) x_bad("return address overwritten"); x_cs = b; return x_goto(a + b * 16); }
  case I_LEAVE: { int n = (i->fl & 1) ? 6 - w : w; if (vs_is_symbolic(R[5].e)) { if (!x_real || vs_is_symbolic(R[5].x)) x_bad("frame pointer lost"); } if (x_real) x_setsp(R[5].x); else x_setsp(R[5].e); a = x_pop(n); if (n == 4) R[5].e = a; else R[5].x = (vu16)a; break; }
  case I_CLD: x_df = 0; break; case I_STD: x_df = 1; break; case I_NOP: case I_CLI: case I_STI: break;
  case I_MOVSB: { int ad = (i->fl & 8) ? 6 - w : w; vu32 n = (i->fl & 4) ? (ad == 4 ? R[1].e : R[1].x) : 1; if (vs_is_symbolic(n)) n = vs_concretize(n); if (n > 0x4000) x_bad("rep movsb copies too much"); while (n--) { vu32 s = ad == 4 ? R[6].e : R[6].x, d = ad == 4 ? R[7].e : R[7].x; if (x_real) s += (vu32)SEG[3] << 4, d += (vu32)SEG[0] << 4; x_st(d, 1, x_ld(s, 1)); vu32 k = x_df ? (vu32)-1 : 1; if (ad == 4) R[6].e += k, R[7].e += k; else R[6].x += k, R[7].x += k; if (i->fl & 4) { if (ad == 4) R[1].e--; else R[1].x--; } } break; }
  case I_PUSHAD: { vu32 sp = R[4].e; for (int k = 0; k < 8; k++) x_push(k == 4 ? sp : R[k].e, 4); break; }
  case I_POPAD: for (int k = 7; k >= 0; k--) { a = x_pop(4); if (k != 4) R[k].e = a; } break;
  case I_IRET: { a = x_pop(w); b = x_pop(w); x_pop(w); x_cs = (vu16)b; return x_goto(a + b * 16); }
  default: x_bad("instruction not modelled"); }
  return 0; }
#endif
static void x_go(vu32 addr) { if (x_goto(addr)) return; while (!x_step()) {} }
#endif
