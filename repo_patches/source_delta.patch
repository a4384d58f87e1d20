From 5ab3bed0f6c4cec34477f10d78a7aebb83d22205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 01/26] fix: malloc() with an impossible size must not lower
 the program break

---
 v0100/srclib/malloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/malloc.c b/v0100/srclib/malloc.c
index 804c020..6533526 100644
--- a/v0100/srclib/malloc.c
+++ b/v0100/srclib/malloc.c
@@ -303,11 +303,12 @@ void* malloc(unsigned size)
   else
   {
     togrow = size + 2*HEADER_FOOTER_SZ;
-    if ((int)togrow <= 0)
-      return 0;
     blk = (unsigned*)__heap_stop;
   }
 
+  if ((int)togrow <= 0) // too large, must not lower the break
+    return 0;
+
   if ((int)__sbrk(togrow) != -1)
   {
     unsigned* nxtblk = (unsigned*)((unsigned)blk + 2*HEADER_FOOTER_SZ + size);
-- 
2.43.0


From 7909b3770adf99f84a761f31e807797fc322458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 02/26] fix: printf: %#hx and %#hhx of a value that truncates
 to zero take no 0x prefix

---
 v0100/srclib/doprint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/doprint.c b/v0100/srclib/doprint.c
index 796328d..717c4ae 100644
--- a/v0100/srclib/doprint.c
+++ b/v0100/srclib/doprint.c
@@ -483,8 +483,6 @@ int __doprint(FILE* f, char* fmt, va_list vl)
         base = 16;
         if (c == 'X')
           digits = "0123456789ABCDEF";
-        if (alt && v)
-          hexpfx = (c == 'X') ? "0X" : "0x";
       }
 
       if (c != 'd')
@@ -494,6 +492,8 @@ int __doprint(FILE* f, char* fmt, va_list vl)
         else if (lmodifier == 'h')
           v = (unsigned short)v;
         sign = 0;
+        if (alt && v && toupper(c) == 'X')
+          hexpfx = (c == 'X') ? "0X" : "0x";
       }
       else
       {
-- 
2.43.0


From b686963965b3ddb5037282e272987ed486df522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:52 +0000
Subject: [PATCH 03/26] fix: digits of a floating constant beyond the digit
 limit must not change its exponent

---
 v0100/smlrc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 04681be..2b699c2 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -1626,8 +1626,7 @@ int GetNumber(void)
       while (isdigit((ch = *p) & 0xFFu))
       {
         if (mcnt < MAX_CONST_DIGITS)
-          ConstDigits[mcnt++] = ch - '0';
-        mexp--; // TBD??? overflow
+          ConstDigits[mcnt++] = ch - '0', mexp--; // TBD??? overflow
         ShiftCharN(1);
       }
     }
-- 
2.43.0


From c2eba3f828403f9783236797ed49544d7b5de5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:52 +0000
Subject: [PATCH 04/26] fix: MIPS: save the hidden structure return pointer
 like the parameters it comes with

---
 v0100/cgmips.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/v0100/cgmips.c b/v0100/cgmips.c
index 07a9359..bcd0feb 100644
--- a/v0100/cgmips.c
+++ b/v0100/cgmips.c
@@ -554,9 +554,19 @@ void GenUpdateFrameSize(void)
 STATIC
 void GenFxnProlog(void)
 {
-  if (CurFxnParamCntMin && CurFxnParamCntMax)
+  int i, cnt = CurFxnParamCntMin ? CurFxnParamCntMax : 0;
+
+#ifndef NO_STRUCT_BY_VAL
+  // A function returning a structure has one more parameter, the first one,
+  // the hidden pointer to where the structure is to be returned.
+  if (cnt < 4 &&
+      CurFxnReturnExprTypeSynPtr >= 0 &&
+      SyntaxStack0[CurFxnReturnExprTypeSynPtr] == tokStructPtr)
+    cnt++;
+#endif
+
+  if (cnt)
   {
-    int i, cnt = CurFxnParamCntMax;
     if (cnt > 4)
       cnt = 4;
     // TBD!!! for structure passing use the cumulative parameter size
-- 
2.43.0


From 01bc9c744c26105957f0155071bd026b079b812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:20 +0000
Subject: [PATCH 05/26] fix: #if: the result of ?: is unsigned if either of its
 last two operands is

---
 v0100/ucpp/eval.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/v0100/ucpp/eval.c b/v0100/ucpp/eval.c
index 1bbd06d..ca25fdc 100644
--- a/v0100/ucpp/eval.c
+++ b/v0100/ucpp/eval.c
@@ -522,6 +522,24 @@ static ppval eval_opbin(int op, ppval v1, ppval v2)
 	return r;
 }
 
+/*
+ * Signedness of the result of a binary operator, given that of its operands
+ */
+static int opbin_sign(int op, int s1, int s2)
+{
+	switch (op) {
+	case STAR:	case SLASH:	case PCT:
+	case PLUS:	case MINUS:	case AND:
+	case CIRC:	case OR:
+		return s1 && s2;
+	case LSH:	case RSH:
+		return s1;
+	case COMMA:
+		return s2;
+	}
+	return 1;
+}
+
 static int ttOP(int x)
 {
 	return OP_UN(x) || OP_BIN(x) || x == QUEST || x == COLON;
@@ -584,7 +602,8 @@ static int op_prec(int op)
  * -- there is only one non-unary and non-binary operator: the quest-colon
  *
  * If do_eval is 0, the evaluation of operators is not done. This is
- * for sequence point operators (&&, || and ?:).
+ * for sequence point operators (&&, || and ?:). The signedness of the
+ * result is still determined, as it matters for ?:.
  */
 static ppval eval_shrd(struct token_fifo *tf, int minprec, int do_eval)
 {
@@ -627,8 +646,8 @@ eval_loop:
 			if ((ct->type == LOR && boolval(top))
 				|| (ct->type == LAND && !boolval(top))) {
 				tr = eval_shrd(tf, bp, 0);
+				top.sign = 1;
 				if (do_eval) {
-					top.sign = 1;
 					if (ct->type == LOR)
 						top.u.sv = big_s_fromint(1);
 					if (ct->type == LAND)
@@ -638,6 +657,9 @@ eval_loop:
 				tr = eval_shrd(tf, bp, do_eval);
 				if (do_eval)
 					top = eval_opbin(ct->type, top, tr);
+				else
+					top.sign = opbin_sign(ct->type,
+						top.sign, tr.sign);
 			}
 			goto eval_loop;
 		}
@@ -659,6 +681,14 @@ eval_loop:
 			if (do_eval) {
 				if (qv) top = r1; else top = r2;
 			}
+			/* the result is unsigned if either operand is */
+			if (!r1.sign || !r2.sign) {
+				if (do_eval && top.sign)
+					top.u.uv = big_s_to_u(top.u.sv);
+				top.sign = 0;
+			} else {
+				top.sign = 1;
+			}
 			goto eval_loop;
 		}
 	}
-- 
2.43.0


From 84b1357b87d5287d46d73383ebf74bdd903a8e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:20 +0000
Subject: [PATCH 06/26] fix: #if: diagnose 0x without digits and defined
 without a macro name

---
 v0100/ucpp/cpp.c  | 26 ++++++++++++++++----------
 v0100/ucpp/eval.c |  5 +++++
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 5a0946c..22c36e1 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -974,27 +974,26 @@ static int handle_if(struct lexer_state *ls)
 
 		ct = tf.t + (tf.art ++);
 		if (ct->type == NAME && !strcmp(ct->name, "defined")) {
-			if (tf.art >= tf.nt) goto store_token;
+			if (tf.art >= tf.nt) goto defined_error;
 			nidx = tf.art;
 			if (ttMWS(tf.t[nidx].type))
-				if (++ nidx >= tf.nt) goto store_token;
+				if (++ nidx >= tf.nt) goto defined_error;
 			if (tf.t[nidx].type == NAME) {
 				eidx = nidx;
 				goto check_macro;
 			}
-			if (tf.t[nidx].type != LPAR) goto store_token;
-			if (++ nidx >= tf.nt) goto store_token;
+			if (tf.t[nidx].type != LPAR) goto defined_error;
+			if (++ nidx >= tf.nt) goto defined_error;
 			if (ttMWS(tf.t[nidx].type))
-				if (++ nidx >= tf.nt) goto store_token;
-			if (tf.t[nidx].type != NAME) goto store_token;
+				if (++ nidx >= tf.nt) goto defined_error;
+			if (tf.t[nidx].type != NAME) goto defined_error;
 			eidx = nidx + 1;
-			if (eidx >= tf.nt) goto store_token;
+			if (eidx >= tf.nt) goto defined_error;
 			if (ttMWS(tf.t[eidx].type))
-				if (++ eidx >= tf.nt) goto store_token;
-			if (tf.t[eidx].type != RPAR) goto store_token;
+				if (++ eidx >= tf.nt) goto defined_error;
+			if (tf.t[eidx].type != RPAR) goto defined_error;
 			goto check_macro;
 		}
-	store_token:
 		aol(tf1.t, tf1.nt, *ct, TOKEN_LIST_MEMG);
 		continue;
 
@@ -1004,6 +1003,13 @@ static int handle_if(struct lexer_state *ls)
 		rt.name = m ? "1L" : "0L";
 		aol(tf1.t, tf1.nt, rt, TOKEN_LIST_MEMG);
 		tf.art = eidx + 1;
+		continue;
+
+	defined_error:
+		error(l, "operator defined requires a macro name");
+		if (tf1.nt) freemem(tf1.t);
+		freemem(tf.t);
+		return -1;
 	}
 	freemem(tf.t);
 	if (tf1.nt == 0) {
diff --git a/v0100/ucpp/eval.c b/v0100/ucpp/eval.c
index ca25fdc..5f1443b 100644
--- a/v0100/ucpp/eval.c
+++ b/v0100/ucpp/eval.c
@@ -315,6 +315,11 @@ static ppval pp_strtoconst(char *refc)
 		c ++;
 		if (*c == 'x' || *c == 'X') {
 			c ++;
+			if (!HEXAD(*c)) {
+				error(eval_line, "invalid integer constant "
+					"'%s'", refc);
+				throw(eval_exception);
+			}
 			d = big_u_hexconst(c, &ru, &rs, &sp);
 		} else {
 			d = big_u_octconst(c, &ru, &rs, &sp);
-- 
2.43.0


From 211331f2acccfb27b3fa454d3e189e59b7a984f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 07/26] fix: preprocessor: an unknown directive is an error,
 exit with a failure status

---
 v0100/ucpp/cpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 22c36e1..8105720 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1919,6 +1919,7 @@ static int handle_cpp(struct lexer_state *ls, int sharp_type)
 		if (ls->flags & FAIL_SHARP) {
 			error(l, "unknown cpp directive '#%s'",
 				ls->ctok->name);
+			ret = 1;
 			goto handle_warp_ign;
 		} else {
 			struct token u;
-- 
2.43.0


From 317229d544c3fe575efa5e71b93c2d7d248ab06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:16 +0000
Subject: [PATCH 08/26] fix: preprocessor: an #if left open at the end of the
 main file exits with a failure status

---
 v0100/ucpp/cpp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 8105720..4258deb 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -2130,8 +2130,7 @@ int lex(struct lexer_state *ls)
 
 /*
  * check_cpp_errors() must be called when the end of input is reached;
- * it checks pending errors due to truncated constructs (actually none,
- * this is reserved for future evolutions).
+ * it checks pending errors due to truncated constructs.
  */
 int check_cpp_errors(struct lexer_state *ls)
 {
@@ -2146,7 +2145,8 @@ int check_cpp_errors(struct lexer_state *ls)
 #endif
 	if ((ls->flags & WARN_TRIGRAPHS) && ls->count_trigraphs)
 		warning(0, "%ld trigraph(s) encountered", ls->count_trigraphs);
-	return 0;
+	/* an unterminated #if in the main file, reported by cpp() */
+	return ls->ifnest > 0;
 }
 
 /*
-- 
2.43.0


From 778f67150e8d3b1d41e175d084ac222e23bbfeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:45 +0000
Subject: [PATCH 09/26] fix: preprocessor: exit with a failure status when a
 comment or literal is unterminated

---
 v0100/ucpp/cpp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 4258deb..04289be 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -72,6 +72,8 @@ static char *system_assertions_def[] = { STD_ASSERT, 0 };
 char *current_filename = 0, *current_long_filename = 0;
 static int current_incdir = -1;
 
+static int error_reported = 0;
+
 #ifndef NO_UCPP_ERROR_FUNCTIONS
 /*
  * "ouch" is the name for an internal ucpp error. If AUDIT is not defined,
@@ -98,6 +100,7 @@ void ucpp_error(long line, char *fmt, ...)
 {
 	va_list ap;
 
+	if (line >= 0) error_reported = 1;
 	va_start(ap, fmt);
 	if (line > 0)
 		fprintf(stderr, "%s: line %ld: ", current_filename, line);
@@ -2665,6 +2668,8 @@ int main(int argc, char *argv[])
 	enter_file(&ls, ls.flags);
 	while ((r = cpp(&ls)) < CPPERR_EOF) fr = fr || (r > 0);
 	fr = fr || check_cpp_errors(&ls);
+	/* an unterminated comment or literal ends the input early */
+	fr = fr || error_reported;
 	free_lexer_state(&ls);
 	wipeout();
 #ifdef MEM_DEBUG
-- 
2.43.0


From 6df315be02e2075e3c4a14be3bdf841ac4161318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:02 +0000
Subject: [PATCH 10/26] fix: preprocessor: an unterminated character constant
 must not swallow the lines that follow

---
 v0100/ucpp/lexer.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/lexer.c b/v0100/ucpp/lexer.c
index 6d0b0f5..f0d1db4 100644
--- a/v0100/ucpp/lexer.c
+++ b/v0100/ucpp/lexer.c
@@ -192,6 +192,7 @@ static struct machine_state {
 	/* after a ' */
 	{ S_CHAR,	{ ANY },	PUT(S_CHAR)		},
 	{ S_CHAR,	{ VCH },	FRZ(S_TRUNC)		},
+	{ S_CHAR,	{ '\n' },	FRZ(S_BEHEAD)		},
 	{ S_CHAR,	{ '\'' },	PUT(STO(CHAR))		},
 	{ S_CHAR,	{ '\\' },	PUT(S_CHAR2)		},
 
@@ -900,7 +901,13 @@ static inline int read_token(struct lexer_state *ls)
 			nstat = FRZ(STO(DIG_SHARP));
 			break;
 		case S_BEHEAD:
-			error(l, "unfinished string at end of line");
+			if (cstat == S_CHAR && !ls->condcomp) {
+				/* an apostrophe in skipped text */
+				nstat = FRZ(STO(BUNCH));
+				break;
+			}
+			error(l, "unfinished %s at end of line", cstat == S_CHAR
+				? "character constant" : "string");
 			return 1;
 		case S_DECAY:
 			warning(l, "unterminated // comment");
-- 
2.43.0


From 34733d542807aba36094d1a29bdf22b0ac627c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:22 +0000
Subject: [PATCH 11/26] fix: preprocessor: a backslash right after a name must
 not vanish

---
 v0100/ucpp/lexer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0100/ucpp/lexer.c b/v0100/ucpp/lexer.c
index f0d1db4..671e45a 100644
--- a/v0100/ucpp/lexer.c
+++ b/v0100/ucpp/lexer.c
@@ -805,6 +805,8 @@ static inline int read_token(struct lexer_state *ls)
 		if ((ls->ctok->type = ls->pending_token) == BUNCH) {
 			ls->ctok->name[0] = '\\';
 			ls->ctok->name[1] = 0;
+			if (!(ls->flags & LEXER) && ls->condcomp)
+				put_char(ls, '\\');
 		}
 		ls->pending_token = 0;
 		return 0;
-- 
2.43.0


From 486c632ede7b481d34c1aa717e1e72c517ab4ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:09 +0000
Subject: [PATCH 12/26] fix: preprocessor: a % operator at the beginning of a
 line must not vanish

---
 v0100/ucpp/lexer.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/v0100/ucpp/lexer.c b/v0100/ucpp/lexer.c
index 671e45a..0ff31f8 100644
--- a/v0100/ucpp/lexer.c
+++ b/v0100/ucpp/lexer.c
@@ -961,9 +961,10 @@ static inline int read_token(struct lexer_state *ls)
 					put_char(ls, c);
 				}
 			}
-		} else if (outc == '/' && !(ls->flags & LEXER)
-			&& ls->condcomp) {
-			/* this is a hack: we need to dump a pending slash */
+		} else if ((outc == '/' || (outc == '%' && cstat == S_PCT))
+			&& !(ls->flags & LEXER) && ls->condcomp) {
+			/* this is a hack: we need to dump a pending slash
+			   or percent sign */
 			put_char(ls, outc);
 			outc = 0;
 		}
-- 
2.43.0


From 871f322f7da47a07d586b1ddd2d93752413c515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:35 +0000
Subject: [PATCH 13/26] fix: preprocessor: diagnose invalid macro
 redefinitions, do not read past the old definition

---
 v0100/ucpp/macro.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 56db94c..3aeb48e 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -479,7 +479,9 @@ int handle_define(struct lexer_state *ls)
 				}
 		}
 		if (!redef) m->narg = narg;
+		else if (narg != n->narg) goto redef_error;
 	} else {
+		if (redef && n->narg != -1) goto redef_error;
 		if (!ttWHI(ls->ctok->type) && (ls->flags & WARN_STANDARD))
 			warning(ls->line, "identifier not followed by "
 				"whitespace in #define");
@@ -546,13 +548,15 @@ int handle_define(struct lexer_state *ls)
 #else
 				if (t.type != NONE) goto redef_error;
 #endif
+				/* trailing whitespace, not stored */
+				continue;
 			} else if (t.type != n->cval.t[n->cval.rp]) {
 				goto redef_error;
 			} else if (t.type == MACROARG) {
 				unsigned anum = n->cval.t[n->cval.rp + 1];
 
 				if (anum >= 128U) anum = ((anum & 127U) << 8)
-					| m->cval.t[n->cval.rp + 2];
+					| n->cval.t[n->cval.rp + 2];
 				if (anum != (unsigned)t.line) goto redef_error;
 			} else if (S_TOKEN(t.type) && strcmp(ls->ctok->name,
 				   (char *)(n->cval.t + n->cval.rp + 1))) {
@@ -562,7 +566,7 @@ int handle_define(struct lexer_state *ls)
 			if (S_TOKEN(tt)) n->cval.rp += 1
 				+ strlen((char *)(n->cval.t + n->cval.rp));
 			else if (tt == MACROARG) {
-				if (n->cval.t[++ n->cval.rp] >= 128)
+				if (n->cval.t[n->cval.rp ++] >= 128)
 					n->cval.rp ++;
 			}
 #else
-- 
2.43.0


From dd401b4ec21edb8df370ec766ddd52a1b0e249f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:06 +0000
Subject: [PATCH 14/26] fix: preprocessor: keep apart tokens of a macro call
 that begins in a replacement list and ends in the input

---
 v0100/ucpp/macro.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 3aeb48e..e0eb931 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -724,7 +724,7 @@ static int collect_arguments(struct lexer_state *ls, struct token_fifo *tfi,
 {
 	int ltwws = 1, npar = 0, i;
 	struct token *ct = 0;
-	int read_from_fifo = 0;
+	int read_from_fifo = 0, from_fifo = 0;
 	long begin_line = ls->line;
 
 #define unravel(ls)	(read_from_fifo = 0, !((tfi && tfi->art < tfi->nt \
@@ -834,6 +834,17 @@ static int collect_arguments(struct lexer_state *ls, struct token_fifo *tfi,
 				}
 			}
 		}
+		if (from_fifo && !read_from_fifo && atl[i].nt > 0) {
+			/* the call began in a replacement list and goes on
+			   in the input: keep these two tokens separate */
+			struct token u = atl[i].t[atl[i].nt - 1];
+
+			if (!ttWHI(t.type) && !ttWHI(u.type)) {
+				u.type = OPT_NONE;
+				aol(atl[i].t, atl[i].nt, u, TOKEN_LIST_MEMG);
+			}
+		}
+		from_fifo = read_from_fifo;
 		aol(atl[i].t, atl[i].nt, t, TOKEN_LIST_MEMG);
 	}
 	error(begin_line, "unfinished macro call");
-- 
2.43.0


From f2c51cc96f125e256e30fa4bd1a4c553e39260d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:25 +0000
Subject: [PATCH 15/26] fix: fseek with SEEK_CUR ignored the bytes already
 buffered for reading and a failed fseek lost the position

---
 v0100/srclib/fseek.c   | 25 +++++++++++++++----------
 v0100/srclib/fseek16.c | 31 ++++++++++++++++++++-----------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/v0100/srclib/fseek.c b/v0100/srclib/fseek.c
index 3e7610f..1d76bbb 100644
--- a/v0100/srclib/fseek.c
+++ b/v0100/srclib/fseek.c
@@ -48,22 +48,27 @@ int fseek(FILE* f, long offset, int whence)
     return -1;
   }
 
+  // "a+" mode isn't supported now because DOS doesn't support opening files in append mode directly.
+  // "a" should ignore seek requests since it's always appending data at file's end and never reading anything.
+  if (!(f->flags & _IOAPPEND))
+  {
+    // underlying file's current position is after the last byte of data read,
+    // so, there's f->cnt bytes from C file's position to underlying file's position
+    if (whence == SEEK_CUR && (f->flags & _IORD))
+      offset -= f->cnt;
+    // don't invalidate the buffer (and so lose the current position) if this fails
+    if (__lseek(f->fd, offset, whence) == -1)
+    {
+      return -1;
+    }
+  }
+
   if (f->flags & _IORWOK)
     f->flags &= ~(_IORD | _IOWR); // last operation for read-write files is neither
   f->flags &= ~_IOUNGOT; // ungetc()'s changes are gone
   f->ptr = f->buf;
   f->cnt = 0; // force entrance into __fillbuf()/__flushbuf() on the next read/write
 
-  // "a+" mode isn't supported now because DOS doesn't support opening files in append mode directly.
-  // "a" should ignore seek requests since it's always appending data at file's end and never reading anything.
-  if (f->flags & _IOAPPEND)
-    return 0;
-
-  if (__lseek(f->fd, offset, whence) == -1)
-  {
-    return -1;
-  }
-
   return 0;
 }
 #endif
diff --git a/v0100/srclib/fseek16.c b/v0100/srclib/fseek16.c
index 54523cc..a647f22 100644
--- a/v0100/srclib/fseek16.c
+++ b/v0100/srclib/fseek16.c
@@ -80,22 +80,31 @@ int __fseek(FILE* f, fpos_t* offset, int whence)
     return -1;
   }
 
+  // "a+" mode isn't supported now because DOS doesn't support opening files in append mode directly.
+  // "a" should ignore seek requests since it's always appending data at file's end and never reading anything.
+  if (!(f->flags & _IOAPPEND))
+  {
+    // underlying file's current position is after the last byte of data read,
+    // so, there's f->cnt bytes from C file's position to underlying file's position
+    pos = *offset; // preserve the position parameter
+    if (whence == SEEK_CUR && (f->flags & _IORD))
+    {
+      fpos_t t;
+      __lngFromUnsigned(&t, f->cnt);
+      __lngSub(&pos, &t);
+    }
+    // don't invalidate the buffer (and so lose the current position) if this fails
+    if (__lseekp(f->fd, &pos, whence))
+    {
+      return -1;
+    }
+  }
+
   if (f->flags & _IORWOK)
     f->flags &= ~(_IORD | _IOWR); // last operation for read-write files is neither
   f->flags &= ~_IOUNGOT; // ungetc()'s changes are gone
   f->ptr = f->buf;
   f->cnt = 0; // force entrance into __fillbuf()/__flushbuf() on the next read/write
 
-  // "a+" mode isn't supported now because DOS doesn't support opening files in append mode directly.
-  // "a" should ignore seek requests since it's always appending data at file's end and never reading anything.
-  if (f->flags & _IOAPPEND)
-    return 0;
-
-  pos = *offset; // preserve the position parameter
-  if (__lseekp(f->fd, &pos, whence))
-  {
-    return -1;
-  }
-
   return 0;
 }
-- 
2.43.0


From 2486e3fbd194eace95d1f1f19337de119c96708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:25 +0000
Subject: [PATCH 16/26] fix: __ftell in the 16-bit library moved the file by an
 uninitialised offset

---
 v0100/srclib/ftell16.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/srclib/ftell16.c b/v0100/srclib/ftell16.c
index abf234a..04bb460 100644
--- a/v0100/srclib/ftell16.c
+++ b/v0100/srclib/ftell16.c
@@ -9,6 +9,7 @@
 
 int __ftell(FILE* f, fpos_t* pos)
 {
+  pos->halves[1] = pos->halves[0] = 0; // __lseekp() takes the offset from here
   if (__lseekp(f->fd, pos, SEEK_CUR))
   {
 //    errno = EUNKNOWN;
-- 
2.43.0


From 39989551f7e0cd5430abad8c94976dc69ddc8f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:25 +0000
Subject: [PATCH 17/26] fix: writing to an update stream right after reading up
 to the end of file was refused

---
 v0100/srclib/flushbuf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0100/srclib/flushbuf.c b/v0100/srclib/flushbuf.c
index 28f1b04..edb4004 100644
--- a/v0100/srclib/flushbuf.c
+++ b/v0100/srclib/flushbuf.c
@@ -16,6 +16,8 @@ int __flushbuf(int c, FILE* f)
 {
   ssize_t written;
 
+  if ((f->flags & (_IORWOK | _IOEOF)) == (_IORWOK | _IOEOF))
+    f->flags &= ~_IORD; // a write may immediately follow a read that has reached the end of file
   if (f->flags & (_IORD | _IOSTRING)) // fail file write immediately after file read or on read-only files
     return EOF;
   f->flags |= _IOWR; // last operation was a write
-- 
2.43.0


From 8a8a3c4b782d869813743ab1d07ff0ff5e50e228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:25 +0000
Subject: [PATCH 18/26] fix: fputc ignored a failure to write the carriage
 return of a text-mode newline

---
 v0100/srclib/fputc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/fputc.c b/v0100/srclib/fputc.c
index a299c54..1b2f4b3 100644
--- a/v0100/srclib/fputc.c
+++ b/v0100/srclib/fputc.c
@@ -43,7 +43,8 @@ int fputc(int c, FILE* f)
 {
 #ifndef UNIX_LIKE
   if (c == '\n' && !(f->flags & _IOBINARY))
-    __fputc('\r', f); // insert '\r'
+    if (__fputc('\r', f) == EOF) // insert '\r'
+      return EOF;
 #endif
   return __fputc(c, f);
 }
-- 
2.43.0


From 220c19072a4c612e6a2f612cacf6d5b0d631e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:25 +0000
Subject: [PATCH 19/26] fix: fgets returned a partial line as success after a
 read error

---
 v0100/srclib/fgets.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0100/srclib/fgets.c b/v0100/srclib/fgets.c
index 30811a3..6e85df3 100644
--- a/v0100/srclib/fgets.c
+++ b/v0100/srclib/fgets.c
@@ -11,7 +11,7 @@ char* fgets(char* s, int n, FILE* f)
   while (--n > 0 && (c = fgetc(f)) != EOF)
     if ((*s++ = c) == '\n')
       break;
-  if (c == EOF && s == res)
+  if (c == EOF && (s == res || !feof(f))) // nothing read or read error
     return NULL;
   *s = '\0';
   return res;
-- 
2.43.0


From c064222dbc9d101d6d101dc79e4eeba9df18f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:25 +0000
Subject: [PATCH 20/26] fix: puts ignored write errors before the final newline

---
 v0100/srclib/puts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/puts.c b/v0100/srclib/puts.c
index 0834124..5ed6ed7 100644
--- a/v0100/srclib/puts.c
+++ b/v0100/srclib/puts.c
@@ -8,6 +8,7 @@ int puts(char* s)
 {
   int c;
   while ((c = *s++) != '\0')
-    putchar(c);
+    if (putchar(c) == EOF)
+      return EOF;
   return putchar('\n');
 }
-- 
2.43.0


From 663caccd95a3541bf729af1398240531637dc247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:10 +0000
Subject: [PATCH 21/26] fix: driver: names and options with quotes and other
 shell characters were mangled by the shell on Unix

---
 v0100/smlrcc.c | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 2d80b1f..3ece235 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -574,6 +574,49 @@ void fatargs(int* pargc, char*** pargv)
   *pargv = pp;
 }
 
+#ifdef UNIX_LIKE
+int EscapingNeeded(char* s)
+{
+  // These characters are special to the shell
+  return *s == '\0' || strpbrk(s, " \t\n\"'\\`$&|;<>()[]{}*?!#~^") != NULL;
+}
+
+// Encloses the argument in single quotes since the shell takes
+// literally everything in between
+size_t Escape(char* out, char* in, size_t outsz)
+{
+  size_t sz = 0;
+  int c;
+
+  if (sz++ < outsz)
+    *out++ = '\'';
+
+  while ((c = *in++) != '\0')
+  {
+    if (c == '\'')
+    {
+      // ' -> '\''
+      if (sz++ < outsz)
+        *out++ = '\'';
+      if (sz++ < outsz)
+        *out++ = '\\';
+      if (sz++ < outsz)
+        *out++ = '\'';
+    }
+
+    if (sz++ < outsz)
+      *out++ = c;
+  }
+
+  if (sz++ < outsz)
+    *out++ = '\'';
+
+  if (sz++ < outsz)
+    *out++ = '\0';
+
+  return sz;
+}
+#else
 int EscapingNeeded(char* s)
 {
   // Looks like DOS' COMMAND.COM and Windows' cmd.exe handle %
@@ -634,6 +677,7 @@ size_t Escape(char* out, char* in, size_t outsz)
 
   return sz;
 }
+#endif
 
 void AddOptionInner(char** options, size_t* len, char* option, int escape)
 {
-- 
2.43.0


From 4f0e747e41faf647cdd406fa54487087945c90b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:18 +0000
Subject: [PATCH 22/26] fix: ucpp: # operator escapes quotes in character
 constants and backslashes pairwise

---
 v0100/ucpp/macro.c | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index e0eb931..4053346 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -950,29 +950,23 @@ tokenize_error:
 static inline char *stringify_string(char *x)
 {
 	size_t l;
-	int i, inside_str = 0, inside_cc = 0, must_quote, has_quoted = 0;
+	int i, inside, must_quote, has_quoted;
 	char *y, *d = NULL;
 
 	for (i = 0; i < 2; i ++) {
 		if (i) d[0] = '"';
+		inside = has_quoted = 0;
 		for (l = 1, y = x; *y; y ++, l ++) {
 			must_quote = 0;
-			if (inside_cc) {
-				if (*y == '\\') {
-					must_quote = 1;
-					has_quoted = 1;
-				} else if (!has_quoted && *y == '\'')
-					inside_cc = 0;
-			} else if (inside_str) {
-				if (*y == '"' || *y == '\\') must_quote = 1;
-				if (*y == '\\') has_quoted = 1;
-				else if (!has_quoted && *y == '"')
-					inside_str = 0;
-			} else if (*y == '"') {
-				inside_str = 1;
-				must_quote = 1;
-			} else if (*y == '\'') {
-				inside_cc = 1;
+			if (inside) {
+				/* in a string or a character constant */
+				must_quote = *y == '"' || *y == '\\';
+				if (has_quoted) has_quoted = 0;
+				else if (*y == '\\') has_quoted = 1;
+				else if (*y == inside) inside = 0;
+			} else if (*y == '"' || *y == '\'') {
+				inside = *y;
+				must_quote = *y == '"';
 			}
 			if (must_quote) {
 				if (i) d[l] = '\\';
-- 
2.43.0


From be4d8f2d381c827dc255300e3c2a1440c8d8b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:18 +0000
Subject: [PATCH 23/26] fix: n2f: an existing section can be continued when all
 32 sections are in use

---
 v0100/n2f.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v0100/n2f.c b/v0100/n2f.c
index 7d87644..c3f9af1 100644
--- a/v0100/n2f.c
+++ b/v0100/n2f.c
@@ -146,11 +146,11 @@ unsigned line; // input file line number
 unsigned addSection(char* name)
 {
   unsigned i;
-  if (secCnt >= MAX_SECS)
-    error("Too many sections\n");
-  for (i = 0; i < MAX_SECS; i++)
+  for (i = 0; i < secCnt; i++)
     if (!strcmp(secName[i], name))
       return i;
+  if (secCnt >= MAX_SECS)
+    error("Too many sections\n");
   strcpy(secName[secCnt], name);
   return secCnt++;
 }
-- 
2.43.0


From 23b1ddf449208e091f695f23ef40fb9979ee73c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:04 +0000
Subject: [PATCH 24/26] fix: scanf: a white-space directive at end of input
 must not count a character for %n

---
 v0100/srclib/doscan.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 29cecfb..8375656 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -28,13 +28,10 @@ int __doscan(FILE* f, char* fmt, va_list vl)
         c = (unsigned char)*fmt++;
       } while (isspace(c));
       fmt--;
-      do
-      {
-        c2 = fgetc(f);
+      while (isspace(c2 = fgetc(f)))
         chcnt++;
-      } while (isspace(c2));
       if (c2 != EOF)
-        ungetc(c2, f), chcnt--;
+        ungetc(c2, f);
     }
 
     else if (c != '%' || *fmt == '%')
-- 
2.43.0


From 35685504f8b3c6844c3b0ecdbb9616cbc15e2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:04 +0000
Subject: [PATCH 25/26] fix: scanf: %% skips leading white space

---
 v0100/srclib/doscan.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 8375656..69b8af8 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -36,7 +36,15 @@ int __doscan(FILE* f, char* fmt, va_list vl)
 
     else if (c != '%' || *fmt == '%')
     {
-      fmt += (c == '%');
+      if (c == '%')
+      {
+        // like most other directives, %% skips leading white space
+        fmt++;
+        while (isspace(c2 = fgetc(f)))
+          chcnt++;
+        if (c2 != EOF)
+          ungetc(c2, f);
+      }
       goto lmatchchars2;
 lmatchchars:
       if ((c = (unsigned char)*fmt++) == '\0')
-- 
2.43.0


From 936dd9a63112a88ce131f72b925bc013806c3c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:04 +0000
Subject: [PATCH 26/26] fix: scanf: ignored fraction digits beyond the digit
 limit must not change the exponent

---
 v0100/srclib/doscan.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 69b8af8..79f289b 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -378,8 +378,7 @@ lmatchchars2:
               chcnt++; width--;
               gotfrct = 2; // got fractional part digits: non-zero
               if (mcnt < MAX_FP_DIGITS)
-                digits[mcnt++] = c2 - '0';
-              mexp--; // TBD??? overflow
+                digits[mcnt++] = c2 - '0', mexp--; // TBD??? overflow
             }
             else if (toupper(c2) == 'E' && (gotint | gotfrct))
             {
-- 
2.43.0

