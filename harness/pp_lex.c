/* P04: short texts of symbolic characters inside fixed contexts go through the real smlrpp; its output must hold the same tokens, with the
 * same line numbers, as the source has by C's translation phases 1 to 3 (trigraphs, splices, comments, longest match). */
#include "pp.h"
#include "pp_tok.h"
static void put(int c) { raw[rn++] = c; }
static void puts_(const char* s) { while (*s) put(*s++); }
static const char* const alph[] = {"\"\\'a/\n", "/*\n\"a", "?=/\n'\\a", "\\\n a", "<>:%=a", "+-.&|a=", "0.eE+-xL", "/\\\n*a", "L'\"\\ a", "#%:a/?", "!=^~*/&|\n", "\t\v\f a\n", "?()!<>-='/", "\r\n\\a", "\r\"a/ "};
static const char* const pre[] = {"a ", "z\nb", "\"", "/* x", "\n/* b\n *", "0", "// c", "L", "'", "s \"t\"", "x ?" "?", "", "a /", "a \\\n", "'a'/**/", "1e"}, * const post[] = {" c\n__LINE__ d\n", "*/ e\n__LINE__ f\n", "\" e\n__LINE__ f\n", "'/**/g\n__LINE__ h\n", "\n\n__LINE__", "", "a", "\n/* */__LINE__\n__LINE__ __LINE__", "'\"*/\n", "\\\n__LINE__ i\n"};
int main(void) { int pad = vs_param("pad", 0), n = vs_param("n", 3), al_ = vs_param("alph", 0), pr = vs_param("pre", 0), po_ = vs_param("post", 0), i; if (pr > 99) pr = vs_choice(16, "context"); if (po_ > 99) po_ = vs_choice(10, "context"); if (al_ == 99) al_ = vs_choice(15, "alphabet");
  if (pad) { /* the text straddles the end of the tool's input (and output) buffer */ int e = 8192 - (int)strlen(pre[pr]) - vs_choice(n + 1, "offset"); puts_(pad == 1 ? "/*" : "\""); while (rn < e - 3 + (pad != 1)) put('x'); puts_(pad == 1 ? "*/\n" : "\"\n"); }
  puts_(pre[pr]); for (i = 0; i < n; i++) { int c; if (al_ == 50) { c = vs_range(9, 126, "char"); vs_assume((c <= 12) | (c >= 32)); } else if (al_ == 51) { c = vs_range(1, 255, "char"); vs_assume((c != 13) & (c != 10)); } else { unsigned len = strlen(alph[al_]); c = (unsigned char)alph[al_][vs_range(0, len - 1, "char")]; } put(c); } puts_(post[po_]);
  int lit = rn; memcpy(lraw, raw, rn); if (al_ >= 13 && al_ <= 14) { int j = 0; for (i = 0; i < rn; i++) if (lraw[i] == '\r') { raw[j++] = '\n'; if (i + 1 < rn && lraw[i + 1] == '\n') i++; } else raw[j++] = lraw[i]; rn = j; } phases12(raw, rn, 1); tokens(&A, 0); vs_assume(!A.dir); for (i = 0; i < lit; i++) pch(lraw[i]);
  int rc = pp_run(); h_out[h_outn] = 0; if (A.err) { vs_cover("unterminated"); vs_assert(rc != 0 && h_outn > 0, "an unterminated comment or literal is not diagnosed"); return 0; }
  vs_cover("valid"); if (rc) vs_log(h_out); vs_assert(rc == 0, "a valid text is rejected");
  phases12((unsigned char*)po, pon, 0); tokens(&B, 1); int ok = A.n == B.n && !B.err; for (i = 0; ok && i < A.n; i++) { struct tok* a = &A.t[i], * b = &B.t[i]; if (a->num) { int v = 0; for (int k = 0; k < b->n; k++) { unsigned d = B.b[b->s + k] - '0'; v = d > 9 ? 9999 : v * 10 + d; } vs_assert(v >= a->lo && v <= a->last, "__LINE__ gives a wrong line number"); continue; } if (a->n != b->n) { ok = 0; break; } int d = 0; for (int k = 0; k < a->n; k++) d |= A.b[a->s + k] ^ B.b[b->s + k]; vs_assert(!d, "a token is altered"); }
  if (!ok) { vs_log(ps); vs_log("--->"); po[pon] = 0; vs_log(po); } vs_assert(ok, "tokens are lost, added, merged or split");
  for (i = 0; i < A.n; i++) { int lok = B.t[i].line >= A.t[i].lo && B.t[i].line <= A.t[i].last; /* a token with a splice in or right after it may count as on any of its lines */ if (!lok) { vs_log(ps); vs_log("--->"); po[pon] = 0; vs_log(po); } vs_assert(lok, "a token is given a wrong line number"); } return 0; }
