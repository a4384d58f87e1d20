/* Reference tokenizer for C's translation phases 1 to 3. */
struct tok { int s, n, line, lo, last, num, ws, bol, k; }; /* ws: white space before; bol: first on its line; k: N name, D number, S literal, P other */
struct ts { char b[12000]; int bn; struct tok t[300]; int n, err, dir; } A, B;
static unsigned char cs[12000]; static int cl[12000], cn, endline; static unsigned char raw[12000], lraw[12000]; static int rn;
static int al(int c) { return (c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z') | (c == '_'); }
static int di(int c) { return (c >= '0') & (c <= '9'); }
static int at(int i) { return i < cn ? cs[i] : -1; }
static void phases12(const unsigned char* p, int n, int on) { int i = 0, line = 1; cn = 0; while (i < n) { int c = p[i], w = 1;
    if (on && c == '?' && i + 2 < n && p[i + 1] == '?') { int d = p[i + 2], r = d == '=' ? '#' : d == '/' ? '\\' : d == '\'' ? '^' : d == '(' ? '[' : d == ')' ? ']' : d == '!' ? '|' : d == '<' ? '{' : d == '>' ? '}' : d == '-' ? '~' : 0; if (r) { c = r; w = 3; } }
    if (on && c == '\\' && i + w < n && p[i + w] == '\n') { i += w + 1; line++; continue; }
    cs[cn] = c; cl[cn++] = line; i += w; if (c == '\n') line++; } endline = line; }
static const char* const ops[] = {"%:%:", "...", "<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##", "<:", ":>", "<%", "%>", "%:", 0};
static void tokens(struct ts* T, int isout) { int i = 0, bol = 1, ws = 0, k_, bl; T->bn = T->n = T->err = T->dir = 0; int off = 0; /* line = cl + off */
  while (i < cn) { int c = cs[i], st = i; if (c == '\n') { bol = ws = 1; i++; continue; } if (c == ' ' || c == '\t' || c == '\v' || c == '\f') { ws = 1; i++; continue; }
    if (c == '/' && at(i + 1) == '*') { ws = 1; i += 2; for (;;) { if (i >= cn) { T->err = 1; return; } if (cs[i] == '*' && at(i + 1) == '/') break; i++; } i += 2; continue; }
    if (c == '/' && at(i + 1) == '/') { ws = 1; while (i < cn && cs[i] != '\n') i++; continue; }
    if (bol && c == '#' && isout && at(i + 1) == 'l' && at(i + 2) == 'i') { unsigned v = 0; while (!di(cs[i])) i++; while (di(cs[i])) v = v * 10 + cs[i++] - '0'; off = (int)v - (cl[st] + 1); while (i < cn && cs[i] != '\n') i++; continue; }
    if (bol && (c == '#' || c == '%' && at(i + 1) == ':')) T->dir = 1; bl = bol; bol = 0;
    int q = i + (c == 'L' && (at(i + 1) == '"' || at(i + 1) == '\''));
    if (cs[q] == '"' || cs[q] == '\'') { int e = cs[q]; k_ = 'S'; i = q + 1; for (;;) { if (i >= cn || cs[i] == '\n') { T->err = 1; return; } if (cs[i] == e) break; if (cs[i] == '\\') { i++; if (i >= cn || cs[i] == '\n') { T->err = 1; return; } } i++; } i++; }
    else if (al(c)) { k_ = 'N'; while (i < cn && (al(cs[i]) | di(cs[i]))) i++; }
    else if (di(c) || c == '.' && i + 1 < cn && di(cs[i + 1])) { k_ = 'D'; i++; /* malformed numbers such as 1ee or 1e. are left out */ while (i < cn && (al(cs[i]) | di(cs[i]) | (cs[i] == '.') | ((cs[i] == '+') | (cs[i] == '-')) & ((cs[i - 1] | 32) == 'e' | (cs[i - 1] | 32) == 'p'))) { int x = (cs[i - 1] | 32) == 'e' | (cs[i - 1] | 32) == 'p', y = (cs[i] == '.') | ((cs[i] | 32) == 'e') | ((cs[i] | 32) == 'p'); if (!isout) vs_assume(!(x & y)); i++; } }
    else { int k, l = 1; k_ = 'P'; for (k = 0; ops[k]; k++) { int z = 0; while (ops[k][z] && at(i + z) == ops[k][z]) z++; if (!ops[k][z]) { l = z; break; } } i += l; }
    struct tok* t = &T->t[T->n++]; t->s = T->bn; t->num = 0; t->ws = ws; t->bol = bl; t->k = k_; ws = 0; t->line = cl[st] + off; t->lo = (st ? cl[st - 1] + (cs[st - 1] == '\n') : 1) + off; { int j = i + (at(i) == '\\'); t->last = j < cn ? cl[j] + off : endline + off; } for (; st < i; st++) T->b[T->bn++] = cs[st]; t->n = T->bn - t->s;
    if (!isout && t->n == 8 && !memcmp(T->b + t->s, "__LINE__", 8)) t->num = 1; } }
