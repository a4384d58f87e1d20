/* S08: buffered streams against an unbuffered file, for every sequence of operations */
#include "vs.h"
#include "istdio.h"
#include <stdlib.h>
#include <unistd.h>
#define O_WR 3
#define CAP 40
typedef __SIZE_TYPE__ sz; typedef vs32 I;
void* memcpy(void* d, const void* q, sz n) { for (sz i = 0; i < n; i++) ((volatile char*)d)[i] = ((const char*)q)[i]; return d; }
/* ---- the operating system: one file ---- */
static unsigned char D[CAP]; static I dn, dpos; static int dopen, dflags, opens, closes, wfail, rfail, wfailed, rfailed, shortrd; static int tty;
static int nfree; static int live; static char pool[3][96] __attribute__((aligned(8))); static int used[3];
void* malloc(unsigned n) { if (n > 90) { static char big[1100]; static int bu; if (vs_param("nomem", 0) && vs_choice(2, "malloc fails")) return 0; vs_assert(n <= 1100, "malloc"); used[2] = 1; return big; } for (int i = 0; i < 2; i++) if (!used[i]) { used[i] = 1; for (int k = 0; k < 96; k++) pool[i][k] = (char)0xa5; return pool[i]; } return 0; }
void free(void* p) { nfree++; if (!p) return; for (int i = 0; i < 2; i++) if (p == pool[i]) { vs_assert(used[i], "block freed twice"); used[i] = 0; return; } vs_assert(used[2], "free of something that was never allocated"); used[2] = 0; }
int __open(char* name, int fl, ...) { opens++; if (dopen) return -1; dflags = fl; dopen = 1; dpos = 0; if (fl & 0x200) dn = 0; return 5; }
int __close(int fd) { vs_assert(dopen && fd == 5, "close of a file that is not open"); dopen = 0; closes++; return 0; }
int remove(char* n) { return 0; }
static int okfd(int fd) { return (dopen && fd == 5) || (tty && fd == tty - 1); }
static int wrok(void) { return tty ? tty != 1 : (dflags & 3) != 0; } static int rdok(void) { return tty ? tty == 1 : (dflags & 3) != 1; }
ssize_t __read(int fd, void* b, size_t n) { vs_assert(okfd(fd) && rdok() && n > 0, "read from the wrong file"); if (rfail && !rfailed && vs_choice(2, "read fails")) { rfailed = 1; vs_cover("read error"); return -1; }
  I k = dn - dpos; if (k < 0) k = 0; if ((unsigned)k > n) k = n; if (k > 1 && shortrd && vs_choice(2, "short read")) k = 1; for (I i = 0; i < k; i++) ((unsigned char*)b)[i] = D[dpos + i]; dpos += k; return k; }
ssize_t __write(int fd, void* b, size_t n) { vs_assert(okfd(fd) && wrok(), "write to the wrong file"); if (wfail && !wfailed && vs_choice(2, "write fails")) { wfailed = 1; vs_cover("write error"); if (n > 1 && vs_choice(2, "short write")) { return 1; } return -1; }
  if (dflags & 0x400) dpos = dn; vs_assert(dpos + (I)n <= CAP, "a write of more bytes than the program wrote"); for (I i = dn; i < dpos; i++) D[i] = 0; for (size_t i = 0; i < n; i++) D[dpos + i] = ((unsigned char*)b)[i]; dpos += n; if (dpos > dn) dn = dpos; return n; }
static I seek_(int fd, I o, int w) { vs_assert(okfd(fd), "seek in the wrong file"); if (w == 1) o += dpos; if (w == 2) o += dn; if (o < 0) return -1; return dpos = o; }
#ifdef __SMALLER_C_16__
int __lseekp(int fd, fpos_t* p, int w) { I r = seek_(fd, (I)(p->halves[0] | (vu32)p->halves[1] << 16) * (w != 1 || 1), w); if (r < 0) return -1; p->halves[0] = (unsigned short)r; p->halves[1] = (unsigned short)(r >> 16); return 0; }
static I FT(FILE* f) { fpos_t p; for (int i = 0; i < 2; i++) p.halves[i] = 0x1234; if (__ftell(f, &p)) return -1; return (I)(p.halves[0] | (vu32)p.halves[1] << 16); }
static int FS(FILE* f, I o, int w) { fpos_t p; p.halves[0] = (unsigned short)o; p.halves[1] = (unsigned short)(o >> 16); int r = __fseek(f, &p, w); vs_assert(p.halves[0] == (unsigned short)o && p.halves[1] == (unsigned short)(o >> 16), "fseek changed the caller's offset"); return r; }
#else
off_t __lseek(int fd, off_t o, int w) { return seek_(fd, o, w); }
static I FT(FILE* f) { return ftell(f); } static int FS(FILE* f, I o, int w) { return fseek(f, o, w); }
#endif
/* ---- the model: an unbuffered file ---- */
static unsigned char M[CAP]; static I mn, mp; static int push, pushc, mread, mwrite, eofw, meof, seof, txt, app, canrd, canwr, last;   /* last: 0 none, 1 read, 2 write */
static int mget1(void) { if (push) { push = 0; return pushc; } if (mp >= mn) { return -1; } return M[mp++]; }
static int mget(void) { int c; do c = mget1(); while (txt && c == '\r'); if (c < 0) meof = 1; return c; }
static void mput1(int c) { if (app) mp = mn; vs_assume(mp < CAP); for (I i = mn; i < mp; i++) M[i] = 0; M[mp++] = (unsigned char)c; if (mp > mn) mn = mp; }
static void mput(int c) { if (txt && c == '\n') mput1('\r'); mput1(c); }
static I mtell(void) { return mp - push; }
static void same(const char* m) { if (wfailed) return; vs_assert(dn == mn, m); for (I i = 0; i < mn; i++) vs_assert(D[i] == M[i], m); }
static FILE* f; void (*__pFileCloser)(void);
static void chk(int failed, const char* m) { if (wfailed) { vs_assert(failed, m); vs_assert(ferror(f) != 0, "a failed write does not set the error indicator"); } }
static unsigned char B[16];
static void rdone(int want, int got, int short_) { if (short_) { if (rfailed == 1) { vs_assert(ferror(f) != 0, "a failed read does not set the error indicator"); rfailed = 2; } else { vs_assert(feof(f) != 0, "end of file reached, but feof is false"); vs_cover("eof"); eofw = 1; seof = 1; } } }
static I pos0; static fpos_t sp = {{1, 2}}; static I spm = -1;
static I mseen; /* for a read error: how much the model may consume */
static int cond(int nl) { int c = vs_u8("byte"); if (txt && nl) { if (vs_choice(2, "newline")) c = '\n'; else vs_assume(c != '\n' && c != '\r'); } else if (txt || !nl) vs_assume(c != '\n' && c != '\r'); return c; }
static void sizes(int* es, int* ec) { int k = vs_choice(vs_param("nsz", 4), "element"); *es = 1 + (k & 1); *ec = k < 2 ? 2 : k < 4 ? 3 : k - 4; }
int main(void) {
  static const struct { const char* m; int rd, wr, tr, ap; } MD[] = {{"r", 1, 0, 0, 0}, {"w", 0, 1, 1, 0}, {"r+", 1, 1, 0, 0}, {"w+", 1, 1, 1, 0}, {"a", 0, 1, 0, 1}, {"rb", 1, 0, 0, 0}, {"wb", 0, 1, 1, 0}, {"r+b", 1, 1, 0, 0}, {"rb+", 1, 1, 0, 0}, {"wb+", 1, 1, 1, 0}, {"ab", 0, 1, 0, 1}};
  int md = vs_param("mode", 0), K = vs_param("K", 3), n0 = vs_param("size", 5), nb = vs_param("nbuf", 4), dos = 0; unsigned ops = vs_param("ops", 0xffff); rfail = vs_param("rfail", 0); wfail = vs_param("wfail", 0); shortrd = vs_param("short", 0); tty = vs_param("tty", 0);
#ifndef _LINUX
  dos = 1;
#endif
  if (vs_param("anysize", 0)) n0 = vs_choice(n0 + 1, "file size");
  for (int i = 0; i < n0; i++) { D[i] = vs_u8("contents"); if (!vs_param("nl", 0)) vs_assume(D[i] != '\n'); }
  dn = n0; if (vs_param("anymode", 0)) md = vs_choice(11, "mode");
  if (tty) { f = tty == 1 ? stdin : stdout; canrd = tty == 1; canwr = !canrd; txt = dos; }
  else { f = fopen("file", (char*)MD[md].m); vs_assert(f != 0 && opens == 1 && __pFileCloser == __FileCloser, "fopen failed"); canrd = MD[md].rd; canwr = MD[md].wr; app = MD[md].ap; txt = dos && !(md >= 5); if (MD[md].tr) n0 = 0; }
  vs_assert(dn == n0, "opening the file changed its size wrongly"); mn = n0; for (int i = 0; i < mn; i++) M[i] = D[i];
  static char xb[8]; int bm = vs_choice(nb, "buffering"); int bs = bm ? 1 + 2 * vs_choice(2, "buffer size") : 1; int lb = 0, ub = tty ? 0 : 0; if (tty) lb = 1;
  if (bm == 1) { vs_assert(setvbuf(f, xb, _IOFBF, bs) == 0, "setvbuf refused a buffer"); lb = 0; } else if (bm == 2) { vs_assert(setvbuf(f, xb, _IOLBF, bs + 1) == 0, "setvbuf refused a buffer"); lb = 1; } else if (bm == 3) { lb = 0; if (bs == 1) setbuf(f, 0), ub = 1; else vs_assert(setvbuf(f, 0, _IOFBF, 2) == 0, "setvbuf without a buffer failed"); } else if (bm == 4) { vs_assert(setvbuf(f, 0, _IONBF, 0) == 0, "setvbuf refused unbuffered mode"); ub = 1; lb = 0; }
  vs_assert(nb == 1 || bm == 0 || 1, "");
  for (int k = 0; k < K; k++) {
    int op = vs_choice(15, "op"); vs_assume(ops >> op & 1); int r; I e; int rdop = op < 4, wrop = op >= 4 && op < 9; if (tty) vs_assume(op < 9 || op == 13 || op == 12); else vs_assume(op != 8);
    if (rdop) { vs_assume(canrd && !(last == 2)); if (op != 3) { last = 1; eofw = 0; } } if (wrop) { vs_assume(canwr && (last != 1 || (eofw && !push))); last = 2; eofw = 0; seof = 0; }
    switch (op) {
    case 0: { int c = fgetc(f); if (c < 0) { rdone(1, 0, 1); if (rfailed != 2) { int m = meof ? -1 : mget(); vs_assert(m < 0, "fgetc returned EOF before the end of the file"); } else { rfailed = 3; } } else { int m = seof ? -1 : mget(); vs_assert(m >= 0, "fgetc returned a character past the end of the file"); vs_assert(c == m, "fgetc returned the wrong character"); mread = 1; vs_cover("read"); continue; } mread = 0; break; }
    case 1: { int es, ec; sizes(&es, &ec); r = fread(B, es, ec, f); vs_assert(r >= 0 && r <= ec, "fread returned an impossible count"); int tot = 0, m = 0; if (ec == 0) break; int bad = rfailed == 1; mread = 0; while (tot < es * ec && (!bad || tot < r * es) && !seof && (m = mget()) >= 0) { if (!bad || tot < r * es) vs_assert(B[tot] == m, "fread stored the wrong byte"); tot++; } 
        if (bad) { vs_assert(r < ec, "fread reported bytes it could not read"); rdone(0, 0, 1); rfailed = 3; if (es > 1) { vs_cover("partial element"); vs_stop(); } mread = 0; }
        else { vs_assert(r == tot / es, "fread returned the wrong count"); if (tot < es * ec) rdone(0, 0, 1); else mread = tot > 0; } vs_cover("read"); break; }
    case 2: { int n = 2 * vs_choice(3, "fgets size"); n += n == 0; for (int i = 0; i < 8; i++) B[i] = 0xEE; char* s = fgets((char*)B, n, f); int m = 0, i = 0; mread = 0; if (rfailed == 1) { vs_assert(s == 0, "fgets returned a line although reading failed"); rdone(0, 0, 1); vs_stop(); }
        while (i < n - 1) { m = seof ? -1 : mget(); if (m < 0) break; vs_assert(s != 0 && B[i] == m, "fgets stored the wrong character"); i++; mread = 1; if (m == '\n') break; } if (i < n - 1 && m < 0) { rdone(0, 0, 1); mread = 0; } if (i == 0 && n > 1) vs_assert(s == 0, "fgets returned a line at end of file"); else vs_assert(s == (char*)B && B[i] == 0, "fgets did not terminate the line"); for (i++; i < 8; i++) vs_assert(B[i] == 0xEE, "fgets wrote past the line"); vs_cover("line"); continue; }
    case 3: { vs_assume(mread && !push); int c = vs_u8("pushed"); if (txt) vs_assume(c != '\r'); r = ungetc(c, f); vs_assert(r == (unsigned char)c, "ungetc after a successful read failed"); vs_assert(!feof(f), "ungetc leaves the end-of-file indicator set"); push = 1; pushc = (unsigned char)c; meof = seof = 0; vs_cover("pushback"); mread = 0; continue; }
    case 4: { int c = cond(1); r = fputc(k & 1 ? (signed char)c : c, f); mput(c); if (!wfailed) { vs_assert(r == c, "fputc did not return the character"); if (ub || (lb && c == '\n')) same("an unbuffered or line-buffered write did not reach the file"); } else chk(r < 0, "fputc did not report a failed write"); vs_cover("write"); break; }
    case 5: { int es, ec; sizes(&es, &ec); int nlp = 0; for (int i = 0; i < es * ec; i++) { B[i] = (unsigned char)cond(i == 1); mput(B[i]); } r = fwrite(B, es, ec, f); if (!wfailed) { vs_assert(r == ec, "fwrite returned the wrong count"); if (ub) same("an unbuffered write did not reach the file"); } else chk(r < ec, "fwrite did not report a failed write"); vs_cover("write"); break; }
    case 6: { int n = vs_choice(2, "length") * 3; for (int i = 0; i < n; i++) { B[i] = (unsigned char)cond(i == 1); vs_assume(B[i] != 0); mput(B[i]); } B[n] = 0; r = fputs((char*)B, f); if (!wfailed) { vs_assert(r >= 0, "fputs failed"); if (ub) same("an unbuffered write did not reach the file"); } else chk(r < 0, "fputs did not report a failed write"); vs_cover("write"); break; }
    case 7: vs_assume(0); break;
    case 8: { int n = vs_choice(2, "length") * 2; for (int i = 0; i < n; i++) { B[i] = (unsigned char)cond(i == 1); vs_assume(B[i] != 0); mput(B[i]); } mput('\n'); B[n] = 0; r = puts((char*)B); if (!wfailed) { vs_assert(r >= 0, "puts failed"); if (ub || lb) same("a line written to a line-buffered stream did not reach the file"); } else chk(r < 0, "puts did not report a failed write"); vs_cover("write"); break; }
    case 9: { int w = vs_choice(3, "whence"), pick = vs_choice(5, "offset"); static const I ofs[] = {0, 1, -2, 5, -7}; I o = ofs[pick]; if (txt) vs_assume(w == 0 && o == 0 || w == 2 && o == 0 || w == 1 && o == 0); I base = w == 0 ? 0 : w == 1 ? mtell() : mn; r = FS(f, o, w); if (wfailed) { chk(r != 0, "fseek did not report a failed write"); break; }
        if (app) { vs_assert(r == 0, "fseek failed"); same("fseek did not write the buffered bytes"); break; } if (base + o < 0) { vs_assert(r != 0, "fseek before the beginning of the file succeeded"); if (last == 2) same("fseek did not write the buffered bytes"); vs_cover("bad seek"); eofw = 0; if (last == 2) last = 0; if (push) vs_stop(); if (seof || meof) vs_stop(); mread = 0; break; }
        vs_assert(r == 0, "fseek failed"); vs_assert(!feof(f), "fseek leaves the end-of-file indicator set"); push = 0; mp = base + o; meof = seof = 0; last = 0; mread = 0; same("fseek did not write the buffered bytes"); vs_assert(FT(f) == mp, "the position after fseek is wrong"); vs_cover("seek"); break; }
    case 10: { rewind(f); if (wfailed) vs_stop(); push = 0; if (!app) mp = 0; meof = seof = 0; last = 0; mread = 0; same("rewind did not write the buffered bytes"); vs_assert(!feof(f) && !ferror(f), "rewind leaves an indicator set"); vs_cover("seek"); break; }
    case 11: { vs_assume(!app); I p = FT(f); vs_assert(p == mtell(), "ftell returned the wrong position"); vs_cover("tell"); if (spm < 0) { r = fgetpos(f, &sp); vs_assert(r == 0, "fgetpos failed"); spm = mtell(); } continue; }
    case 12: { vs_assume(last != 1); r = fflush(vs_choice(2, "all") ? 0 : f); if (wfailed) { chk(r != 0, "fflush did not report a failed write"); break; } vs_assert(r == 0, "fflush failed"); same("fflush did not write the buffered bytes"); if (canrd) last = 0; vs_cover("flush"); break; }
    case 13: { clearerr(f); eofw = 0; vs_assert(!feof(f) && !ferror(f), "clearerr leaves an indicator set"); if (meof || seof) { vs_assume(!push); } meof = seof = 0; if (wfailed) vs_stop(); break; }
    case 14: { vs_assume(spm >= 0 && !app); r = fsetpos(f, &sp); if (wfailed) { chk(r != 0, "fsetpos did not report a failed write"); break; } vs_assert(r == 0, "fsetpos failed"); push = 0; mp = spm; meof = seof = 0; last = 0; mread = 0; same("fsetpos did not write the buffered bytes"); vs_assert(FT(f) == mp, "the position after fsetpos is wrong"); vs_cover("seek"); break; } }
    if (wfailed) { if (!tty) { vs_assert(closes == 0, "file closed early"); fclose(f); vs_assert(closes == 1, "fclose did not close the file"); } vs_stop(); }
  }
  if (tty) { int r = fflush(f); if (wfailed) chk(r != 0, "fflush did not report a failed write"); else same("the bytes in the file are not the bytes written"); return 0; }
  int how = vs_choice(2, "end"), r = 0; if (how) __FileCloser(); else r = fclose(f);
  if (wfailed) { if (!how) vs_assert(r != 0, "fclose did not report a failed write"); } else { if (!how) vs_assert(r == 0, "fclose failed"); same("the bytes in the file are not the bytes written"); }
  vs_assert(closes == 1 && !dopen, "the file was not closed exactly once"); vs_assert(!used[0] && !used[1] && !used[2], "memory of a closed stream was not freed"); vs_assert(__StreamsHead.next == &__StreamsHead && __StreamsHead.prev == &__StreamsHead, "a closed stream is still in the list"); return 0; }
