/* MIPS assembly text (the GNU as subset smlrcmips emits, reorder mode) -> x_in[]. Data directives align themselves, as GNU as does. */
#define X_NEEDEXT 0
enum { I_NOP, I_MOVE, I_MFLO, I_MFHI, I_LA, I_LI, I_LUI, I_LB, I_LBU, I_LH, I_LHU, I_LW, I_SB, I_SH, I_SW, I_ADDU, I_SUBU, I_AND, I_OR, I_XOR, I_NOR, I_SLL, I_SRL, I_SRA, I_MUL, I_DIV, I_DIVU, I_SLT, I_SLTU, I_J, I_JAL, I_BEQ, I_BNE, I_BLTZ, I_BGEZ, I_BLEZ, I_BGTZ, I_SEB, I_SEH, I_ADDIU, I_ANDI, I_ORI, I_XORI, I_JR, I_JALR, I_B, I_MULT, I_MULTU, I_NEGU, I_NOT, I_SLTI, I_SLTIU, I_BEQZ, I_BNEZ, I_NMN };
static const char* const x_mn[] = {"nop", "move", "mflo", "mfhi", "la", "li", "lui", "lb", "lbu", "lh", "lhu", "lw", "sb", "sh", "sw", "addu", "subu", "and", "or", "xor", "nor", "sll", "srl", "sra", "mul", "div", "divu", "slt", "sltu", "j", "jal", "beq", "bne", "bltz", "bgez", "blez", "bgtz", "seb", "seh", "addiu", "andi", "ori", "xori", "jr", "jalr", "b", "mult", "multu", "negu", "not", "slti", "sltiu", "beqz", "bnez"};
static int p_noat;
enum { PQ_NONE, PQ_HI, PQ_LO };
/* [sign]number | label [+-number]; returns through v and lab */
static void p_val(vu32* v, int* lab) { *v = 0; *lab = -1; xsp(); int neg = 0;
  for (int first = 1;; first = 0) { xsp(); neg = 0; int sg = 0; while (*xp == '+' || *xp == '-') { if (*xp == '-') neg ^= 1; xp++; sg = 1; xsp(); } if (!first && !sg && *xp != PH_OPEN) break;
    if ((*xp >= '0' && *xp <= '9') || *xp == PH_OPEN) { vu32 n = x_num(); *v += neg ? 0 - n : n; } else if (xid((vu8)*xp) && !neg && *lab < 0) { const char* b = xp; while (xid((vu8)*xp)) xp++; *lab = x_label(b, (int)(xp - b)); } else if (first || sg) xfail("bad value");
    xsp(); if (*xp != '+' && *xp != '-' && *xp != PH_OPEN) break; } }
static int p_reg(void) { if (xp[0] != '$' || xp[1] < '0' || xp[1] > '9') xfail("register"); xp++; vu32 r = x_num(); if (r > 31) xfail("register number"); return (int)r; }
static void p_opnd(struct x_opd* o) { xsp(); o->kind = K_NONE; o->size = PQ_NONE; o->lab = o->lab2 = -1; o->v = 0; o->base = 0;
  if (xp[0] == '$' && xp[1] >= '0' && xp[1] <= '9') { o->kind = K_REG; o->base = p_reg(); xsp(); return; }
  if (*xp == '%') { o->size = !strncmp(xp, "%hi(", 4) ? PQ_HI : !strncmp(xp, "%lo(", 4) ? PQ_LO : 0; if (!o->size) xfail("operand"); xp += 4; p_val(&o->v, &o->lab); if (*xp != ')') xfail("missing )"); xp++; xsp(); } else p_val(&o->v, &o->lab);
  o->kind = K_IMM; xsp(); if (*xp == '(') { xp++; xsp(); o->base = p_reg(); xsp(); if (*xp != ')') xfail("missing )"); xp++; o->kind = K_MEM; } xsp(); }
static int p_fits(vu32 v, int zero) { return zero ? v <= 0xffff : v + 0x8000 <= 0xffff; }
static void x_stmt(void) { const char* b; int n; xsp(); if (!*xp || *xp == '#') return;
again: b = xp; if (!xid((vu8)*xp)) xfail("syntax"); while (xid((vu8)*xp)) xp++; n = (int)(xp - b);
  if (*xp == ':') { xp++; int l = x_label(b, n); if (x_lb[l].def) { vs_assert(0, "label defined twice in the assembly output"); } x_lb[l].def = 1; x_lb[l].sec = x_cur; x_lb[l].off = x_cur == S_TEXT ? (vu32)x_ni : x_sn[x_cur]; xsp(); if (*xp && *xp != '#') goto again; return; }
  xsp();
#define IS(w) (n == (int)sizeof(w) - 1 && !strncmp(b, w, n))
  if (IS(".text")) { x_cur = S_TEXT; return; } if (IS(".data")) { x_cur = S_DATA; return; } if (IS(".rdata")) { x_cur = S_RODATA; return; } if (IS(".bss")) { x_cur = S_BSS; return; }
  if (IS(".set")) { if (x_word("noat")) p_noat = 1; else if (x_word("at")) p_noat = 0; else if (!x_word("reorder")) xfail(".set"); return; }
  if (IS(".globl")) { const char* c = xp; while (xid((vu8)*xp)) xp++; x_lb[x_label(c, (int)(xp - c))].glob |= 1; return; }
  if (IS(".align")) { vu32 k = 1u << x_num(); if (x_cur == S_TEXT) return; if (!k || k > 64) xfail("alignment"); while (x_sn[x_cur] & (k - 1)) x_emit(1, 0); return; }
  if (IS(".space")) { vu32 k = vs_concretize(x_num()); if (x_cur == S_TEXT) xfail("data in code"); while (k--) x_emit(1, 0); return; }
  if (IS(".byte") || IS(".half") || IS(".word")) { int k = b[1] == 'b' ? 1 : b[1] == 'h' ? 2 : 4; if (x_cur == S_TEXT) xfail("data in code"); while (x_sn[x_cur] & (k - 1)) x_emit(1, 0);
    for (;;) { vu32 v; int l; p_val(&v, &l); if (l >= 0) { if (x_nf >= 2000) xfail("fixups"); x_fx[x_nf].sec = x_cur; x_fx[x_nf].off = x_sn[x_cur]; x_fx[x_nf].size = k; x_fx[x_nf].lab = l; x_fx[x_nf].lab2 = -1; x_fx[x_nf].add = v; x_nf++; x_emit(k, 0); } else x_emit(k, v); xsp(); if (*xp != ',') break; xp++; } if (*xp && *xp != '#') xfail("trailing text"); return; }
  if (IS(".ascii")) { if (*xp != '"') xfail("string"); for (xp++; *xp && *xp != '"'; xp++) { int c = (vu8)*xp; if (c == '\\') { c = *++xp; if (c >= '0' && c <= '7') { int v = 0; for (int k = 0; k < 3 && *xp >= '0' && *xp <= '7'; k++) v = v * 8 + *xp++ - '0'; xp--; c = v; } else if (c != '"' && c != '\\') xfail("escape"); } x_emit(1, c); } if (*xp != '"') xfail("string"); return; }
  if (x_cur != S_TEXT) xfail("instruction outside the code section"); int op = -1; for (int i = 0; i < I_NMN; i++) if (x_mn[i][0] == b[0] && (int)strlen(x_mn[i]) == n && !strncmp(b, x_mn[i], n)) { op = i; break; } if (op < 0) xfail("unknown instruction");
  struct x_ins* i = x_new(op); i->fl = p_noat; if (*xp && *xp != '#') { p_opnd(&i->a); if (*xp == ',') { xp++; p_opnd(&i->b); if (*xp == ',') { xp++; p_opnd(&i->c); } } } if (*xp && *xp != '#') xfail("trailing text");
  switch (op) { case I_ADDU: case I_SUBU: case I_AND: case I_OR: case I_XOR: case I_NOR: case I_MUL: case I_SLT: case I_SLTU: case I_SLL: case I_SRL: case I_SRA: if (i->c.kind == K_NONE) i->c = i->b, i->b = i->a; if (i->a.kind != K_REG || i->b.kind != K_REG || (i->c.kind != K_REG && i->c.kind != K_IMM)) xfail("operands");
    if (i->c.kind == K_IMM && i->c.lab >= 0) xfail("label operand"); break;
  case I_ADDIU: case I_SLTI: case I_SLTIU: if (i->a.kind != K_REG || i->b.kind != K_REG || i->c.kind != K_IMM || !p_fits(i->c.v, 0)) xfail("immediate"); i->op = op == I_ADDIU ? I_ADDU : op == I_SLTI ? I_SLT : I_SLTU; break;
  case I_ANDI: case I_ORI: case I_XORI: if (i->a.kind != K_REG || i->b.kind != K_REG || i->c.kind != K_IMM || !p_fits(i->c.v, 1)) xfail("immediate"); i->op = op == I_ANDI ? I_AND : op == I_ORI ? I_OR : I_XOR; break;
  case I_LB: case I_LBU: case I_LH: case I_LHU: case I_LW: case I_SB: case I_SH: case I_SW: if (i->a.kind != K_REG || (i->b.kind != K_MEM && i->b.kind != K_IMM)) xfail("operands"); break;
  case I_DIV: case I_DIVU: if (i->a.kind != K_REG || i->b.kind != K_REG || i->a.base) xfail("division operands"); if (i->c.kind == K_NONE) xfail("division operands"); if (i->c.kind != K_REG) xfail("division operands"); break; } }
