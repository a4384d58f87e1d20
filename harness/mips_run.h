/* MIPS machine state and execution */
static vu32 G[32], G_hi, G_lo;
static void p_set(int r, vu32 v) { if (!r) return; if (r == 29) { if (vs_is_symbolic(v)) x_bad("stack pointer computed from unknown data"); vu32 lo = G[29] - GM_BASE, hi = v - GM_BASE; if (hi > lo && hi <= GM_SIZE) for (; lo < hi; lo++) if (gown[lo] == 1) gini[lo] = 0; R[4].e = v; } G[r] = v; }
static vu32 p_src(struct x_opd* o) { return o->kind == K_REG ? G[o->base] : o->v; }
static int x_goto(vu32 a) { if (vs_is_symbolic(a)) a = vs_concretize(a); if (a == RET_ADDR) return 1;
  if (a >= EXT_BASE && a < RET_ADDR) { int k = (a - EXT_BASE) / 16, e = 0; for (int l = 0; l < x_nl; l++) if (!x_lb[l].def && e++ == k) { vu32 ra = G[31]; char nb[64]; nb[0] = '_'; strcpy(nb + 1, x_lb[l].n);
      for (int q = 0; q < 4; q++) x_st(G[29] + 4 * q, 4, G[4 + q]); /* the callee may store its register arguments in their home slots */
      for (int q = 1; q < 26; q++) if (q < 16 || q > 23) G[q] = vs_u32("clobber"); G_hi = vs_u32("clobber"); G_lo = vs_u32("clobber"); R[0].e = G[2]; R[4].e = G[29]; x_external(nb, a); G[2] = R[0].e; return x_goto(ra); } }
  if (a < CODE_BASE || a >= CODE_BASE + 4 * (vu32)x_ni || (a & 3)) x_bad("control transferred to an address that is not an instruction"); x_pc = (int)((a - CODE_BASE) / 4); return 0; }
static vu32 p_adr(struct x_ins* i, int n) { vu32 a = i->b.v; if (i->b.size == PQ_LO) a = (vu32)(vs16)a; if (i->b.kind == K_MEM) a += G[i->b.base]; if (!(i->b.size || p_fits(i->b.v, 0)) || (i->b.kind == K_IMM && !i->b.size)) { if (i->fl) x_bad("the assembler needs the $at register where its use is forbidden"); } if (n > 1) { if (vs_is_symbolic(a)) a = vs_concretize(a); if (a & (n - 1)) x_bad("generated code accesses memory with an address the CPU does not allow for the operand size"); } return a; }
static int x_step(void) { if (x_pc >= x_ni) x_bad("execution ran past the end of the code"); struct x_ins* i = &x_in[x_pc]; if (++x_steps > 3000) x_bad("generated code does not terminate"); vu32 a, b; x_pc++; int d = i->a.base;
  switch (i->op) {
  case I_NOP: break; case I_MOVE: p_set(d, p_src(&i->b)); break; case I_MFLO: p_set(d, G_lo); break; case I_MFHI: p_set(d, G_hi); break; case I_LA: case I_LI: p_set(d, i->b.v); break;
  case I_LUI: p_set(d, i->b.size == PQ_HI ? (i->b.v + 0x8000) & 0xffff0000u : i->b.v << 16); break;
  case I_LB: p_set(d, (vu32)(vs8)x_ld(p_adr(i, 1), 1)); break; case I_LBU: p_set(d, x_ld(p_adr(i, 1), 1)); break; case I_LH: p_set(d, (vu32)(vs16)x_ld(p_adr(i, 2), 2)); break; case I_LHU: p_set(d, x_ld(p_adr(i, 2), 2)); break; case I_LW: p_set(d, x_ld(p_adr(i, 4), 4)); break;
  case I_SB: x_st(p_adr(i, 1), 1, G[d]); break; case I_SH: x_st(p_adr(i, 2), 2, G[d]); break; case I_SW: x_st(p_adr(i, 4), 4, G[d]); break;
  case I_ADDU: case I_SUBU: case I_AND: case I_OR: case I_XOR: case I_NOR: case I_MUL: case I_SLT: case I_SLTU: case I_SLL: case I_SRL: case I_SRA: { a = G[i->b.base]; b = p_src(&i->c); vu32 r = 0; switch (i->op) { case I_ADDU: r = a + b; break; case I_SUBU: r = a - b; break; case I_AND: r = a & b; break; case I_OR: r = a | b; break; case I_XOR: r = a ^ b; break; case I_NOR: r = ~(a | b); break; case I_MUL: r = a * b; break; case I_SLT: r = (vs32)a < (vs32)b; break; case I_SLTU: r = a < b; break; case I_SLL: r = a << (b & 31); break; case I_SRL: r = a >> (b & 31); break; case I_SRA: r = (vu32)((vs32)a >> (b & 31)); break; } if (i->op == I_MUL) G_hi = G_lo = vs_u32("clobber"); p_set(d, r); break; }
  case I_DIV: a = G[i->b.base]; b = G[i->c.base]; if (b == 0) x_bad("generated code divides by zero"); if ((a == 0x80000000u) & (b == 0xffffffffu)) x_bad("quotient overflow in generated code"); { vs32 n = (vs32)a, m = (vs32)b; G_lo = (vu32)(n / m); G_hi = (vu32)(n % m); } break;
  case I_DIVU: a = G[i->b.base]; b = G[i->c.base]; if (b == 0) x_bad("generated code divides by zero"); G_lo = a / b; G_hi = a % b; break;
  case I_SEB: p_set(d, (vu32)(vs8)p_src(i->b.kind == K_NONE ? &i->a : &i->b)); break; case I_SEH: p_set(d, (vu32)(vs16)p_src(i->b.kind == K_NONE ? &i->a : &i->b)); break; case I_NEGU: p_set(d, 0 - p_src(&i->b)); break; case I_NOT: p_set(d, ~p_src(&i->b)); break;
  case I_J: case I_JR: case I_B: a = p_src(&i->a); if (i->a.kind == K_REG && i->a.base == 31 && vs_is_symbolic(a)) x_bad("return address overwritten"); return x_goto(a);
  case I_JAL: case I_JALR: a = p_src(i->b.kind != K_NONE ? &i->b : &i->a); G[31] = CODE_BASE + 4 * (vu32)x_pc; x_callno++; return x_goto(a);
  case I_BEQ: if (p_src(&i->a) == p_src(&i->b)) return x_goto(i->c.v); break; case I_BNE: if (p_src(&i->a) != p_src(&i->b)) return x_goto(i->c.v); break; case I_BEQZ: if (!G[d]) return x_goto(i->b.v); break; case I_BNEZ: if (G[d]) return x_goto(i->b.v); break;
  case I_BLTZ: if ((vs32)G[d] < 0) return x_goto(i->b.v); break; case I_BGEZ: if ((vs32)G[d] >= 0) return x_goto(i->b.v); break; case I_BLEZ: if ((vs32)G[d] <= 0) return x_goto(i->b.v); break; case I_BGTZ: if ((vs32)G[d] > 0) return x_goto(i->b.v); break;
  default: x_bad("instruction not modelled"); }
  return 0; }
