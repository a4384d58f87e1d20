/* Builds relocatable ELF objects (the kind NASM and smlrc -> assembler produce) in memory and reads linked images back the way
   each format's loader does. */
#ifndef LDOBJ_H
#define LDOBJ_H
#include "vs.h"
#include "vlibc.h"
#include <string.h>
#include <stdlib.h>
int smlrl_main(int, char**);
#define NSEC 24
struct sec { const char* name; vu32 type, flags, align, size; const vu8* data; vu32 link, info, ent; };
struct sym { const char* name; vu32 value; int info, shndx; };
struct rel { vu32 off; int sym, type; };
struct obj { struct sec s[NSEC]; int ns; struct sym y[40]; int ny; struct rel r[NSEC][40]; int nr[NSEC]; int sectab0; };
static void p16(vu8* p, vu32 v) { p[0] = (vu8)v; p[1] = (vu8)(v >> 8); }
static void p32(vu8* p, vu32 v) { p[0] = (vu8)v; p[1] = (vu8)(v >> 8); p[2] = (vu8)(v >> 16); p[3] = (vu8)(v >> 24); }
static vu32 g16(const vu8* p) { return p[0] | p[1] << 8; }
static vu32 g32(const vu8* p) { return p[0] | p[1] << 8 | p[2] << 16 | (vu32)p[3] << 24; }
static int osec(struct obj* o, const char* n, vu32 type, vu32 flags, vu32 align, vu32 size, const vu8* data) { if (!o->ns) o->ns = 1; struct sec* s = &o->s[o->ns]; s->name = n; s->type = type; s->flags = flags; s->align = align; s->size = size; s->data = data; return o->ns++; }
/* symbols are to be added locals first, then globals (index 0 is the null symbol) */
static int osym(struct obj* o, const char* n, vu32 v, int info, int shndx) { if (!o->ny) o->ny = 1; struct sym* y = &o->y[o->ny]; y->name = n; y->value = v; y->info = info; y->shndx = shndx; return o->ny++; }
static void orel(struct obj* o, int s, vu32 off, int sym, int type) { struct rel* r = &o->r[s][o->nr[s]++]; r->off = off; r->sym = sym; r->type = type; }
/* appends the object file to buf at n; returns the new length. early: section headers right behind the file header */
static unsigned obuild(struct obj* o, vu8* buf, unsigned n0, int early) {
  static char str[1024], shs[512]; unsigned sn = 1, hn = 1, n; int nloc = 1; str[0] = shs[0] = 0; vu8* b = buf + n0; vu32 nameoff[NSEC], off[NSEC], size[NSEC]; int ns = o->ns, i;
  int relsec[NSEC]; int first = ns, symt, strt, sht, tot; for (i = 1; i < first; i++) relsec[i] = 0; symt = ns; strt = ns + 1; sht = ns + 2; tot = ns + 3; for (i = 1; i < first; i++) if (o->nr[i]) relsec[i] = tot++;
  unsigned hdr = early ? 52 : 0; n = 52; if (early) n += tot * 40;
  for (i = 1; i < first; i++) { off[i] = n; if (o->s[i].type != 8) { for (unsigned k = 0; k < o->s[i].size; k++) b[n + k] = o->s[i].data[k]; n += o->s[i].size; while (n & 3) b[n++] = 0; } }
  unsigned symoff = n; for (i = 0; i < 16; i++) b[n++] = 0;
  for (i = 1; i < o->ny; i++) { struct sym* y = &o->y[i]; unsigned no = 0; if (y->name && y->name[0]) { no = sn; const char* p = y->name; do str[sn++] = *p; while (*p++); } p32(b + n, no); p32(b + n + 4, y->value); p32(b + n + 8, 0); b[n + 12] = (vu8)y->info; b[n + 13] = 0; p16(b + n + 14, y->shndx); n += 16; if ((y->info >> 4) == 0) nloc = i + 1; }
  unsigned stroff = n; for (unsigned k = 0; k < sn; k++) b[n++] = str[k]; while (n & 3) b[n++] = 0;
  for (i = 1; i < first; i++) { nameoff[i] = hn; const char* p = o->s[i].name; do shs[hn++] = *p; while (*p++); }
  unsigned no_sym = hn; strcpy(shs + hn, ".symtab"); hn += 8; unsigned no_str = hn; strcpy(shs + hn, ".strtab"); hn += 8; unsigned no_shs = hn; strcpy(shs + hn, ".shstrtab"); hn += 10; unsigned no_rel = hn; strcpy(shs + hn, ".rel"); hn += 5;
  unsigned shsoff = n; for (unsigned k = 0; k < hn; k++) b[n++] = shs[k]; while (n & 3) b[n++] = 0;
  unsigned reloff[NSEC]; for (i = 1; i < first; i++) if (relsec[i]) { reloff[i] = n; for (int k = 0; k < o->nr[i]; k++) { p32(b + n, o->r[i][k].off); p32(b + n + 4, (vu32)o->r[i][k].sym << 8 | o->r[i][k].type); n += 8; } }
  if (!early) hdr = n, n += tot * 40;
  vu8* h = b + hdr; for (i = 0; i < tot * 40; i++) h[i] = 0;
#define SH(idx, nm, ty, fl, of, sz, lk, inf, al, en) do { vu8* q = h + 40 * (idx); p32(q, nm); p32(q + 4, ty); p32(q + 8, fl); p32(q + 16, of); p32(q + 20, sz); p32(q + 24, lk); p32(q + 28, inf); p32(q + 32, al); p32(q + 36, en); } while (0)
  for (i = 1; i < first; i++) SH(i, nameoff[i], o->s[i].type, o->s[i].flags, off[i], o->s[i].size, 0, 0, o->s[i].align, 0);
  SH(symt, no_sym, 2, 0, symoff, 16 * (o->ny ? o->ny : 1), strt, nloc, 4, 16); SH(strt, no_str, 3, 0, stroff, sn, 0, 0, 1, 0); SH(sht, no_shs, 3, 0, shsoff, hn, 0, 0, 1, 0);
  for (i = 1; i < first; i++) if (relsec[i]) SH(relsec[i], no_rel, 9, 0, reloff[i], 8 * o->nr[i], symt, i, 4, 8);
  static const vu8 id[16] = {0x7f, 'E', 'L', 'F', 1, 1, 1}; for (i = 0; i < 52; i++) b[i] = i < 16 ? id[i] : 0; p16(b + 16, 1); p16(b + 18, 3); p32(b + 20, 1); p32(b + 32, hdr); p16(b + 40, 52); p16(b + 46, 40); p16(b + 48, tot); p16(b + 50, sht);
  return n0 + n; }
/* ---- image readers ---- */
enum { TINY = 1, SMALL, HUGE_, UNREAL, FLAT16, FLAT32, PE, ELF, AOUT, MACH };
static const char* const fmt_opt[] = {0, "-tiny", "-small", "-huge", "-unreal", "-flat16", "-flat32", "-pe", "-elf", "-aout", "-mach"};
struct seg { int space; vu32 va, off, fsz, msz; int x, w, zero; };
static struct seg sg[8]; static int nsg; static vu8* im; static vu32 imn; static vu32 im_entry; static vu32 im_end; /* end of the mapped memory */
/* the byte a program sees at address a (space: 0 code, 1 data; they differ in the small model only); -1 = not mapped */
static int rd(int space, vu32 a) { for (int i = 0; i < nsg; i++) if ((sg[i].space == space || sg[i].space == 2) && a >= sg[i].va && a - sg[i].va < sg[i].msz) { vu32 o = a - sg[i].va; if (o < sg[i].fsz) return im[sg[i].off + o]; return sg[i].zero ? 0 : -2; } return -1; }
static vu32 rdw(int space, vu32 a, int n) { vu32 v = 0; for (int i = 0; i < n; i++) { int c = rd(space, a + i); if (c < 0) { VS_FAIL("the image does not contain a byte that was linked into it"); vs_stop(); } v |= (vu32)c << 8 * i; } return v; }
static int seg_of(int space, vu32 a) { for (int i = 0; i < nsg; i++) if ((sg[i].space == space || sg[i].space == 2) && a >= sg[i].va && a - sg[i].va < sg[i].msz) return i; return -1; }
#endif
