/* L01, L03, L04: links one or two relocatable objects with the real linker, for every output format, and checks the image as its
   loader sees it. Section addresses are learnt from pointers inside the image itself (a table of relocated words at the entry
   point), so no layout algorithm is assumed; then every byte, relocated field, boundary symbol and header field is checked. */
#include "ldobj.h"
enum { T, R, D, B };
static const char* const cname[4] = {".text", ".rodata", ".data", ".bss"};
static const vu32 cfl[4] = {6, 2, 3, 3};
static const vu32 sizes[] = {0xffffffff, 0, 1, 4, 7, 16, 31, 1021, 1024, 1027, 4092, 4096, 4100, 30000, 65000, 300000};
static const vu32 aligns[] = {1, 2, 4, 8, 16, 32, 4096, 0, 3, 8192};
static const vu32 origins[] = {0, 0x1000, 0x12345, 0x400000, 0x70000000, 0xfffb, 0x3ff, 0xffffe000, 0xfffff000, 0x10000};
static int F, chk, W;
static unsigned pick(const char* param, int dflt, const char* what) { int m = vs_param(param, dflt), n = 0, k[32]; for (int i = 0; i < 31; i++) if (m >> i & 1) k[n++] = i; return n <= 1 ? (n ? k[0] : 0) : k[vs_choice(n, what)]; }
struct piece { int o, c, sec, here; vu32 size, align, addr; vu8* bytes; vu32 symsize; int symb; };
static struct piece pc[8]; static struct obj ob[2]; static int nob;
static vu8 bytes[8][301000]; static vu8 file[2][900000]; static vu8 keep[8][301000]; static vu8 isf[8][301000];
struct loc { int piece; const char* name; int kind; vu32 val; }; static struct loc lc[40]; static int nlc, loc1; /* kind 0: piece address, 1: global of obj1, 2: start, 3: stop */
struct fld { int p; vu32 off; int type, kind, piece; vu32 sv, add; vu32 got; int loc; }; static struct fld fd[8]; static int nfd; /* kind 0 global, 1 section symbol, 2 absolute, 3 start/stop symbol, 4 local symbol */
static struct piece* P(int o, int c) { return &pc[o * 4 + c]; }
static int space(int c) { return F == SMALL ? c != T : 2; }
static int rds(int c, vu32 a) { return rd(F == SMALL ? (c != T) : 0, a); }
static vu32 rdws(int c, vu32 a, int n) { return rdw(F == SMALL ? (c != T) : 0, a, n); }
static char nm[40][24]; static int nnm;
#define CK(p, c, m) do { if (chk & (p)) vs_assert(c, m); } while (0)
#define STOPIF(c, m) do { if (c) { vs_assert(0, m); vs_stop(); } } while (0)
static vu32 stack, origin = 0xffffffff; static int nobss, norel, stub, hasorg, hasstack;
static void addseg(int sp, vu32 va, vu32 off, vu32 fsz, vu32 msz, int x, int w, int zero) { struct seg s = {sp, va, off, fsz, msz, x, w, zero}; sg[nsg++] = s; if (va + msz > im_end) im_end = va + msz; }
static int symbss;
static int havedata;
/* headers -> segments; the checks of L04 that need no knowledge of the contents */
static void load(void) {
  struct h_file* f = h_find("out"); STOPIF(!f, "the link succeeded but left no output"); im = f->data; imn = f->size;
  if (F == TINY || F == FLAT16 || F == FLAT32) { vu32 o = F == TINY ? 0x100 : hasorg ? origin : 0; addseg(2, o, 0, imn, 0xffffffff - o, 1, 1, 0); im_entry = o; 
    if (im[0] == 0xe9 && nfd >= 0) { /* a jump to the entry point may have been put in front */ } return; }
  if (F == SMALL || F == HUGE_ || F == UNREAL) {
    STOPIF(imn < 64 || im[0] != 'M' || im[1] != 'Z', "no MZ header"); vu32 pp = g16(im + 2), pg = g16(im + 4), nrel = g16(im + 6), hs = g16(im + 8), mina = g16(im + 10), maxa = g16(im + 12), ss = g16(im + 14), sp = g16(im + 16), ip = g16(im + 20), cs = g16(im + 22);
    vu32 fs = pp ? (pg - 1) * 512 + pp : pg * 512; CK(4, pp < 512 && fs == imn, "the MZ header's file size is not the size of the file"); CK(4, nrel == 0, "unexpected MZ relocations"); CK(4, mina <= maxa, "MZ: minimum allocation above the maximum");
    vu32 hb = hs * 16, L = 0x10000; /* assume the load module at linear 0x10000 */ vu32 cb = (((cs << 4) + L) & 0xfffff), sb = (((ss << 4) + L) & 0xfffff), ml = fs - hb, mem = ((ml + 15) / 16 + mina) * 16;
    if (symbss) { /* MinAlloc, SS are symbolic: everything below stays an expression */ }
    if (F == SMALL) { /* addresses are offsets from CS for code and from SS (= DS) for data */
      addseg(0, L - cb, hb, (sb & 0xffff0) - L, (sb & 0xffff0) - L, 1, 0, 0); addseg(1, 0, hb + (sb - L), fs - hb - (sb - L), 0x10000, 0, 1, 0); im_entry = ip;
      CK(4, sb - L <= ml, "MZ: the data segment begins behind the image"); CK(4, sp == 0xfffc || sp == 0xfffe, "MZ: stack pointer"); CK(4, sb - L + 0x10000 <= mem, "MZ: the memory asked for does not cover the data segment and the stack"); }
    else { addseg(2, 64, hb, ml, 0x100000, 1, 1, 0); im_entry = cb + ip - L + 64; CK(4, cb >= L && ip < 16, "MZ: CS:IP"); CK(4, sp == stack, "MZ: the stack pointer is not the stack size"); CK(4, sb - L + sp <= mem, "MZ: the memory asked for does not cover the stack"); CK(4, sb >= L, "MZ: SS"); sg[0].msz = sb - L; }
    return; }
  if (F == ELF) {
    STOPIF(imn < 116, "file too short for the ELF headers"); static const vu8 id[7] = {0x7f, 'E', 'L', 'F', 1, 1, 1}; for (int i = 0; i < 7; i++) CK(4, im[i] == id[i], "ELF identification"); CK(4, g16(im + 16) == 2 && g16(im + 18) == 3 && g32(im + 20) == 1, "ELF type or machine"); CK(4, g16(im + 40) == 52 && g16(im + 42) == 32, "ELF header sizes"); CK(4, g16(im + 48) == 0, "ELF section count");
    vu32 po = g32(im + 28), n = g16(im + 44), end = 0; im_entry = g32(im + 24); STOPIF(n < 1 || n > 4 || po + n * 32 > imn, "ELF program headers");
    for (vu32 i = 0; i < n; i++) { vu8* h = im + po + i * 32; vu32 off = g32(h + 4), va = g32(h + 8), fs = g32(h + 16), ms = g32(h + 20), fl = g32(h + 24), al = g32(h + 28); CK(4, g32(h) == 1, "ELF segment type"); CK(4, al == 4096 && ((off ^ va) & 4095) == 0, "ELF segment: offset and address disagree modulo the page size"); CK(4, fs <= ms, "ELF segment: more in the file than in memory"); STOPIF(off > imn || fs > imn - off, "ELF segment reaches behind the end of the file"); CK(4, fl & 4, "ELF segment not readable"); CK(4, va + ms >= va || va + ms == 0, "ELF segment wraps");
      if (nsg) { vu32 pe = sg[nsg - 1].va + sg[nsg - 1].msz; CK(4, va >= ((pe + 4095) & ~4095u), "ELF segments overlap in memory"); } if (off + fs > end) end = off + fs; addseg(2, va, off, fs, ms, fl & 1, (fl & 2) != 0, 1); }
    CK(4, end == imn, "bytes in the file that no ELF segment describes"); return; }
  if (F == MACH) {
    STOPIF(imn < 28 || g32(im) != 0xfeedface, "no Mach-O header"); CK(4, g32(im + 4) == 7 && g32(im + 8) == 3 && g32(im + 12) == 2, "Mach-O cpu or file type"); vu32 n = g32(im + 16), sz = g32(im + 20), p = 28, end = 0, pend = 0; int le = 0, th = 0, sy = 0; STOPIF(n > 8 || 28 + sz > imn, "Mach-O load commands"); vu32 lo = 0, lofs = 0;
    for (vu32 i = 0; i < n; i++) { vu8* h = im + p; vu32 c = g32(h), cz = g32(h + 4); STOPIF(cz < 8 || p + cz > 28 + sz, "Mach-O load command size"); CK(4, cz % 4 == 0, "Mach-O load command size alignment");
      if (c == 1) { vu32 va = g32(h + 24), ms = g32(h + 28), off = g32(h + 32), fs = g32(h + 36), mp = g32(h + 40), ip = g32(h + 44), ns = g32(h + 48); CK(4, cz == 56 + 68 * ns, "Mach-O segment command size"); CK(4, i == 0 || va >= pend, "Mach-O segments overlap"); CK(4, (va & 4095) == 0 && (ms & 4095) == 0, "Mach-O segment not page-aligned"); pend = va + ms; int pz = !strcmp((char*)h + 8, "__PAGEZERO"), li = !strcmp((char*)h + 8, "__LINKEDIT"); STOPIF(fs && (off > imn || fs > imn - off), "Mach-O segment reaches behind the end of the file"); CK(4, fs <= ms, "Mach-O segment: more in the file than in memory"); CK(4, (ip & ~mp) == 0, "Mach-O protections");
        if (pz) CK(4, va == 0 && ip == 0 && fs == 0, "Mach-O __PAGEZERO"); else { CK(4, fs == 0 || ((off ^ va) & 4095) == 0, "Mach-O segment offset"); CK(4, fs == 0 || off == end, "Mach-O segments are not contiguous in the file"); if (fs) end = off + fs; if (li) { le = 1; lo = off; lofs = fs; } else { CK(4, ip & 1, "Mach-O segment not readable"); addseg(2, va, off, fs, ms, (ip & 4) != 0, (ip & 2) != 0, 1);
            for (vu32 k = 0; k < ns; k++) { vu8* q = h + 56 + 68 * k; vu32 sa = g32(q + 32), sl = g32(q + 36), so = g32(q + 40); CK(4, sa >= va && sa - va <= ms && sl <= ms - (sa - va), "Mach-O section outside its segment"); CK(4, sl == 0 || so - off == sa - va, "Mach-O section offset and address disagree"); } } } }
      else if (c == 2) { sy = 1; vu32 so = g32(h + 8), nn = g32(h + 12), st = g32(h + 16), sl = g32(h + 20); CK(4, le && so >= lo && so + 12 * nn <= lo + lofs && st >= lo && st + sl <= lo + lofs, "Mach-O symbol table outside __LINKEDIT"); }
      else if (c == 5) { th = 1; CK(4, g32(h + 8) == 1 && g32(h + 12) == 16 && cz == 16 + 64, "Mach-O thread command"); im_entry = g32(h + 16 + 40); }
      p += cz; }
    CK(4, p == 28 + sz, "Mach-O size of the load commands"); CK(4, th && le && sy, "Mach-O load command missing"); CK(4, end == imn, "bytes in the file that no Mach-O segment describes"); return; }
  if (F == AOUT) {
    vu32 h = stub ? 64 + 512 + 64 : 0; if (stub) { vu8* q = im + h - 64; CK(4, g32(q) == 0x21245044, "DPMI stub info"); CK(4, !hasstack || !stack || g32(q + 4) == ((stack + 4095) & ~4095u), "DPMI stack size"); CK(4, g32(q + 8) % 4096 == 0 && g32(q + 12) % 4096 == 0 && g32(q + 12) >= g32(q + 8), "DPMI heap sizes"); }
    STOPIF(imn < h + 32 || (g32(im + h) & 0xffff) != 0x107, "no a.out header"); vu32 t = g32(im + h + 4), d = g32(im + h + 8), b = g32(im + h + 12), tr = g32(im + h + 24), dr = g32(im + h + 28); im_entry = g32(im + h + 20); CK(4, g32(im + h + 16) == 0, "a.out symbols"); STOPIF(t > imn || d > imn || tr > imn || dr > imn, "a.out sizes"); CK(4, h + 32 + t + d + tr + dr == imn, "the a.out header does not describe the size of the file");
    addseg(2, 0, h + 32, t, t, 1, 1, 1); addseg(2, t, h + 32 + t, d, d + b, 0, 1, 1); return; }
  if (F == PE) {
    STOPIF(imn < 1024 || im[0] != 'M' || im[1] != 'Z', "no MZ header"); vu32 lf = g32(im + 60); STOPIF(lf + 248 + 200 > imn || g32(im + lf) != 0x4550, "no PE signature"); vu8* h = im + lf + 4; vu32 ns = g16(h + 2); CK(4, g16(h) == 0x14c && g16(h + 16) == 224 && (g16(h + 18) & 2), "PE file header"); CK(4, norel == ((g16(h + 18) & 1) != 0), "PE: relocations-stripped flag"); vu8* q = h + 20; CK(4, g16(q) == 0x10b, "PE magic");
    vu32 base = g32(q + 28), sa = g32(q + 32), fa = g32(q + 36), si = g32(q + 56), sh = g32(q + 60); im_entry = base + g32(q + 16); CK(4, sa == 4096 && fa == 512 && sh % 512 == 0 && base % 4096 == 0, "PE alignments"); CK(4, g32(q + 92) == 16, "PE directory count"); STOPIF(ns < 1 || ns > 6, "PE section count"); CK(4, lf + 24 + 224 + 40 * ns <= sh, "PE headers larger than announced");
    vu32 va = (sh + 4095) & ~4095u, ro = sh; int code = 0;
    for (vu32 i = 0; i < ns; i++) { vu8* s = q + 224 + 40 * i; vu32 vs = g32(s + 8), v = g32(s + 12), rs = g32(s + 16), rp = g32(s + 20), ch = g32(s + 36); CK(4, v == va, "PE sections are not adjacent in memory"); va = (v + (vs ? vs : rs) + 4095) & ~4095u; CK(4, rs % 512 == 0, "PE raw size alignment"); if (rs) { CK(4, rp % 512 == 0 && rp == ro, "PE raw data offset"); ro = rp + rs; } STOPIF(rp > imn || rs > imn - rp, "PE section reaches behind the end of the file"); CK(4, rs <= ((vs + 511) & ~511u), "PE section: more in the file than in memory"); CK(4, (ch >> 30 & 1), "PE section not readable"); if (ch & 0x20) code++; addseg(2, base + v, rp, rs, vs, ch >> 29 & 1, ch >> 31, 1); }
    CK(4, ro == imn, "bytes in the file that no PE section describes"); CK(4, si == va, "PE image size"); CK(4, code == 1, "PE code section"); vu32 dr = g32(q + 96 + 40), ds = g32(q + 96 + 44); CK(4, norel ? dr == 0 && ds == 0 : dr && ds, "PE relocation directory"); if (!norel) CK(4, base + dr == sg[nsg - 1].va && ds <= sg[nsg - 1].fsz, "PE relocation directory outside .reloc"); return; }
}
/* apply the image's own load-time relocation records for a load address moved by dl */
static void adj(vu32 off, int n, vu32 dl) { vu32 v = 0; for (int i = 0; i < n; i++) v |= (vu32)im[off + i] << 8 * i; v += dl; for (int i = 0; i < n; i++) im[off + i] = (vu8)(v >> 8 * i); }
static vu32 foff(vu32 a) { int s = seg_of(0, a); if (s < 0 || a - sg[s].va >= sg[s].fsz) { VS_FAIL("a relocation record points outside the image"); vs_stop(); } return sg[s].off + (a - sg[s].va); }
static void relocate(vu32 dl) {
  if (F == PE) { vu32 lf = g32(im + 60), q = lf + 24, base = g32(im + q + 28), dr = g32(im + q + 136), ds = g32(im + q + 140), p = foff(base + dr), e = p + ds; while (p < e) { vu32 pg = g32(im + p), n = g32(im + p + 4); STOPIF(n < 8 || n > e - p, "PE relocation block size"); CK(1, n % 4 == 0, "PE relocation block alignment"); for (vu32 i = 8; i < n; i += 2) { vu32 t = g16(im + p + i); if (t >> 12 == 0) continue; CK(1, t >> 12 == 3, "PE relocation type"); adj(foff(base + pg + (t & 4095)), 4, dl); } p += n; } }
  else if (F == AOUT) { vu32 h = stub ? 640 : 0, t = g32(im + h + 4), d = g32(im + h + 8), tr = g32(im + h + 24), dr = g32(im + h + 28), p = h + 32 + t + d; CK(1, tr % 8 == 0 && dr % 8 == 0, "a.out relocation table size"); for (vu32 i = 0; i < tr + dr; i += 8) { vu32 a = g32(im + p + i), w = g32(im + p + i + 4); int pcr = w >> 24 & 1, ln = w >> 25 & 3, da = i >= tr; STOPIF(a >= (da ? d : t), "a.out relocation outside its segment"); adj(h + 32 + (da ? t : 0) + a, 1 << ln, pcr ? 0 - dl : dl); } }
  else if (F == UNREAL) { vu32 s = 0, e = 0; for (int i = 0; i < nlc; i++) if (lc[i].name && strstr(lc[i].name, "relod")) { if (lc[i].kind == 2) s = lc[i].val; else e = lc[i].val; } static vu32 li[200]; int n = 0; for (vu32 a = s; a + 4 <= e && n < 200; a += 4) li[n++] = rdw(0, a, 4); for (int i = 0; i < n; i++) adj(foff(li[i]), 4, dl); }
}
static const char* deferred(int o, int c, int stop) { static const char* const n[] = {"_text", "_rodata", "_data", "_bss"}; char* p = nm[nnm++]; strcpy(p, stop ? "__stop_" : "__start_"); strcat(p, c == 4 ? "allcode__" : c == 5 ? "alldata__" : c == 6 ? "stack__" : c == 7 ? "_relod" : n[c]); return p; }
int main(void) {
  F = vs_param("fmt", FLAT32); chk = vs_param("chk", 7); W = F == TINY || F == SMALL || F == FLAT16 ? 2 : 4; nob = vs_param("objs", 2); nobss = pick("nobss", 1, "nobss"); norel = F == PE ? pick("norel", 1, "norel") : 0; stub = F == AOUT ? pick("stub", 1, "stub") : 0; int m0 = vs_param("main", 1) == 3 ? (int)vs_choice(2, "order") : 0; symbss = vs_param("symbss", 0); int early = vs_param("early", 1);
  { unsigned oi = pick("org", 0, "origin"); if (vs_param("org", 0)) { hasorg = 1; origin = origins[oi]; } }
  vu32 eoff = vs_param("eoff", 1) == 3 ? (vs_choice(2, "entry offset") ? 3 : 0) : vs_param("eoff", 1) == 2 ? 3 : 0;
  static const char* const spar[4] = {"st", "sr", "sd", "sb"}; static const char* const apar[4] = {"at", "ar", "ad", "ab"};
  /* pieces: object 0 has the entry point */
  vu32 slack = 64; int absent = 0;
  for (int o = 0; o < nob; o++) for (int c = 0; c < 4; c++) { struct piece* p = P(o, c); p->o = o; p->c = c; unsigned si; if (o == 0) si = pick(spar[c], 8, cname[c]); else if (c == B && symbss) si = 0; else si = pick(c == T ? "s1t" : "s1", 8, cname[c]); p->here = sizes[si] != 0xffffffff || c == T; p->size = sizes[si] == 0xffffffff ? 0 : sizes[si]; p->align = p->here ? aligns[pick(apar[c], c == T ? 16 : 4, "alignment")] : 1; if (o && c == T) p->align = aligns[pick("a1t", 4, "alignment")]; slack += p->align; p->bytes = bytes[o * 4 + c]; if (!p->here) absent |= 1 << (o * 4 + c); }
  if (vs_param("dup", 0)) P(0, D)->here = P(0, D)->here; 
  havedata = 0; for (int o = 0; o < nob; o++) for (int c = 1; c < 4; c++) havedata |= P(o, c)->here;
  int present[4]; for (int c = 0; c < 4; c++) { present[c] = 0; for (int o = 0; o < nob; o++) present[c] |= P(o, c)->here; }
  int relfield = chk & 1;
  /* the table of addresses at the entry point of object 0, and one at the beginning of object 1's code */
  for (int c = 0; c < 4; c++) if (P(0, c)->here) { lc[nlc].piece = c; lc[nlc].kind = 0; nlc++; }
  if (nob == 2) { loc1 = nlc; lc[nlc].piece = -1; lc[nlc++].kind = 1; }
  for (int c = 0; c < 4; c++) if (present[c]) for (int k = 0; k < 2; k++) { lc[nlc].name = deferred(0, c, k); lc[nlc].piece = c; lc[nlc++].kind = 2 + k; }
  for (int c = 4; c < 6; c++) if (c == 4 || havedata) for (int k = 0; k < 2; k++) { lc[nlc].name = deferred(0, c, k); lc[nlc].piece = c; lc[nlc++].kind = 2 + k; }
  if (F == TINY || F == SMALL) { lc[nlc].name = deferred(0, 6, 0); lc[nlc].piece = 6; lc[nlc++].kind = 2; }
  if (F == UNREAL) for (int k = 0; k < 2; k++) { lc[nlc].name = deferred(0, 7, k); lc[nlc].piece = 7; lc[nlc++].kind = 2 + k; }
  vu32 lbase = eoff + 5, lend = lbase + nlc * W; int n1 = 0, l1[4]; if (nob == 2) for (int c = 0; c < 4; c++) if (P(1, c)->here) l1[n1++] = c;
  P(0, T)->size += lend; if (nob == 2) P(1, T)->size += 1 + n1 * W;
  for (int o = 0; o < nob; o++) for (int c = 0; c < 3; c++) { struct piece* p = P(o, c); if (p->here) for (vu32 i = 0; i < p->size; i++) p->bytes[i] = (vu8)(o * 37 + c * 91 + i * 7 + (i >> 8) + 1); }
  if (!vs_param("cc", 0)) for (int i = 0; i < nob * 4; i++) if (pc[i].here && pc[i].c != B && pc[i].size) { pc[i].bytes[pc[i].size - 1] = vs_u8("last byte"); if (pc[i].c != T) pc[i].bytes[0] = vs_u8("first byte"); }
  P(0, T)->bytes[eoff] = 0x55; for (vu32 i = 0; i < lend - lbase; i++) P(0, T)->bytes[lbase + i] = 0; if (nob == 2) for (int i = 0; i < n1 * W; i++) P(1, T)->bytes[1 + i] = 0;
  struct piece* sb_ = 0; if (symbss && P(0, B)->here) { sb_ = P(0, B); sb_->symb = 1; sb_->size = vs_range(0, vs_param("bmax", 0x0fffffff), "bss size"); }
  /* sections, symbols */
  for (int o = 0; o < nob; o++) { struct obj* b = &ob[o]; for (int c = 0; c < 4; c++) if (P(o, c)->here) P(o, c)->sec = osec(b, cname[c], c == B ? 8 : 1, cfl[c], P(o, c)->align, P(o, c)->size, P(o, c)->bytes); osec(b, ".comment", 1, 0, 1, 5, (const vu8*)"hello"); }
  int ssym[2][4], lsym[2][4]; vu32 lv[2][4], gv[2][4]; int gsym[2][4];
  for (int o = 0; o < nob; o++) { osym(&ob[o], "file.c", 0, 4, 0xfff1); for (int c = 0; c < 4; c++) if (P(o, c)->here) ssym[o][c] = osym(&ob[o], "", 0, 3, P(o, c)->sec); for (int c = 0; c < 4; c++) if (P(o, c)->here) { lv[o][c] = relfield ? vs_u32("local symbol value") : 8; lsym[o][c] = osym(&ob[o], "gX", lv[o][c], (o + c) % 3, P(o, c)->sec); } }
  static const char* const gn[2][4] = {{"g0T", "g0R", "g0D", "g0B"}, {"g1T", "g1R", "g1D", "g1B"}}; int xsym[2][4];
  int start = osym(&ob[0], "__start", eoff, 0x10, P(0, T)->sec); (void)start; int l1sym = 0, esym[40]; 
  for (int o = 0; o < nob; o++) for (int c = 0; c < 4; c++) if (P(o, c)->here) { gv[o][c] = relfield ? vs_u32("global symbol value") : 4; gsym[o][c] = osym(&ob[o], gn[o][c], gv[o][c], 0x10 | (o + c + 2) % 3, P(o, c)->sec); }
  if (nob == 2) { osym(&ob[1], "loc1", 1, 0x10, P(1, T)->sec); l1sym = osym(&ob[0], "loc1", 0, 0x10, 0); for (int o = 0; o < 2; o++) for (int c = 0; c < 4; c++) if (P(1 - o, c)->here) xsym[o][c] = osym(&ob[o], gn[1 - o][c], 0, 0x10, 0); }
  for (int i = 0; i < nlc; i++) { if (lc[i].kind >= 2) esym[i] = osym(&ob[0], lc[i].name, 0, 0x10, 0); orel(&ob[0], P(0, T)->sec, lbase + i * W, lc[i].kind == 0 ? ssym[0][lc[i].piece] : lc[i].kind == 1 ? l1sym : esym[i], W == 2 ? 20 : 1); }
  for (int i = n1 - 1; i >= 0; i--) orel(&ob[1], P(1, T)->sec, 1 + i * W, ssym[1][l1[i]], W == 2 ? 20 : 1);
  /* fields with symbolic addends */
  int reject = 0;
  if (relfield) { static const vu32 offs[] = {0, 3, 1016, 1017, 1020, 1021, 1022, 1023, 1024, 1025, 4088, 4093, 2044, 2045, 2047}; static const int types[] = {1, 2, 20, 21}; int fo = nob == 2 && (vs_param("fobj", 1) == 3 ? vs_choice(2, "object") : vs_param("fobj", 1) == 2), fc = pick("fsec", 4, "section"); struct piece* p = P(fo, fc); if (!p->here) vs_stop(); vu32 off = offs[pick("foff", 1, "offset")]; if (fc == T && off < (fo ? (vu32)(1 + n1 * W) : lend)) off += fo ? 1 + n1 * W : lend;
    int nf = vs_param("nf", 2); 
    for (int k = 0; k < nf; k++) { struct fld* f = &fd[nfd]; f->p = fo * 4 + fc; f->off = off + 4 * k; if (f->off + 4 > p->size) break; f->type = types[pick(k ? "rt2" : "rt", k ? 1 : 15, "type")]; f->kind = (int)pick(k ? "tg2" : "tg", k ? 2 : 31, "target kind"); f->piece = (int)pick(k ? "tp2" : "tp", 15, "target section"); int other = f->kind == 0 && nob == 2 && vs_param("tobj", 1) ? (int)vs_choice(2, "target object") : 0; int to = other ? 1 - fo : fo, sy = 0;
      if (f->kind == 3) { if (fo) vs_stop(); f->loc = f->piece; if (f->piece + 1 >= nlc) vs_stop(); int li = -1, q = f->piece; for (int i = 0; i < nlc; i++) if (lc[i].kind >= 2 && q-- == 0) li = i; if (li < 0) vs_stop(); f->loc = li; sy = esym[li]; }
      else if (f->kind == 2) sy = 0; else { if (!P(to, f->piece)->here) vs_stop(); sy = f->kind == 0 ? (other ? xsym[fo][f->piece] : gsym[fo][f->piece]) : f->kind == 1 ? ssym[fo][f->piece] : lsym[fo][f->piece]; f->sv = f->kind == 0 ? gv[to][f->piece] : f->kind == 4 ? lv[fo][f->piece] : 0; f->piece += to * 4; }
      for (int i = 0; i < 4; i++) p->bytes[f->off + i] = vs_u8("field byte"); f->add = g32(p->bytes + f->off); for (vu32 i = 0; i < (f->type < 20 ? 4 : 2); i++) isf[f->p][f->off + i] = 1; nfd++;
      if (F == PE && !norel && (sy == 0 || f->type == 20)) reject = 1; (void)sy; orel(&ob[fo], p->sec, f->off, sy, f->type); }
    if (p->size > off + nfd * 4) p->bytes[off + nfd * 4] = vs_u8("byte behind"); if (off && !isf[p - pc][off - 1] && (fc != T || off > (fo ? (vu32)(1 + n1 * W) : lend))) p->bytes[off - 1] = vs_u8("byte before"); 
    /* the relocations are not in order of their offsets */
    struct obj* b = &ob[fo]; int nr = b->nr[p->sec]; for (int i = 0; i < nr / 2; i++) { struct rel t = b->r[p->sec][i]; b->r[p->sec][i] = b->r[p->sec][nr - 1 - i]; b->r[p->sec][nr - 1 - i] = t; } }
  for (int i = 0; i < nlc; i++) for (int k = 0; k < W; k++) isf[0][lbase + i * W + k] = 1; if (nob == 2) for (int i = 0; i < n1 * W; i++) isf[4][1 + i] = 1;
  const char* on[2] = {"a.o", "b.o"}; for (int o = 0; o < nob; o++) { unsigned n = obuild(&ob[o], file[o], 0, early); h_put(on[o], file[o], n); }
  static char* av[24]; int ac = 0; av[ac++] = (char*)"smlrl"; av[ac++] = (char*)fmt_opt[F]; static char ob_[24], sb2[24]; if (hasorg) { h_fmt(ob_, "0x%x", origin); av[ac++] = (char*)"-origin"; av[ac++] = ob_; } stack = F == TINY || F == SMALL ? 8192 : F == HUGE_ || F == UNREAL ? 32768 : 0;
  if (vs_param("stack", 0)) { int nd = vs_param("stack", 0); hasstack = 1; stack = 0; strcpy(sb2, "0x"); for (int i = 0; i < nd; i++) { unsigned d = vs_range(0, 15, "digit"); sb2[2 + i] = (char)(d < 10 ? '0' + d : 'a' + d - 10); stack = stack * 16 + d; } sb2[2 + nd] = 0; av[ac++] = (char*)"-stack"; av[ac++] = sb2; }
  if (nobss) av[ac++] = (char*)"-nobss"; if (norel) av[ac++] = (char*)"-norel"; if (stub) { static vu8 st[576]; st[0] = 'M'; st[1] = 'Z'; p16(st + 2, 64); p16(st + 4, 2); for (int i = 64; i < 576; i++) st[i] = (vu8)i; h_put("stub", st, 576); av[ac++] = (char*)"-stub"; av[ac++] = (char*)"stub"; }
  av[ac++] = (char*)"-o"; av[ac++] = (char*)"out"; if (m0) { av[ac++] = (char*)"b.o"; av[ac++] = (char*)"a.o"; } else { av[ac++] = (char*)"a.o"; if (nob == 2) av[ac++] = (char*)"b.o"; } av[ac] = 0; if (m0 && nob < 2) vs_stop();
  int rc = h_run(smlrl_main, ac, av);
  /* ---- must the link fail, may it fail? ---- */
  vu64 total = 0; for (int i = 0; i < nob * 4; i++) if (pc[i].here) total += pc[i].size; int badal = 0, bigal = 0; for (int i = 0; i < nob * 4; i++) if (pc[i].here) { if (pc[i].align & (pc[i].align - 1)) badal = 1; if (pc[i].align > ((F == HUGE_) ? 16u : F == PE || F == ELF || F == MACH ? 4096u : 0x80000000u)) bigal = 1; }
  if (rc) {
    vs_cover("rejected"); CK(7, h_outn > 0, "the link failed without a message"); CK(7, rc == 1, "exit status of a failed link"); CK(7, !h_find("out"), "a failed link left an output file");
    vu64 lim, org = hasorg ? origin : 0, code = 0, data = 0; for (int i = 0; i < nob * 4; i++) if (pc[i].here) { if (pc[i].c == T) code += pc[i].size + pc[i].align; else data += pc[i].size + pc[i].align; } if (F == PE || F == ELF || F == MACH) org &= ~0xfffull, slack += 5 * 4096 + (hasorg ? 0 : 0x8048000); int ok = badal || bigal || reject;
    switch (F) { case TINY: ok |= (total + 0x100 + slack + stack > 0xfffc) | (stack < 4096) | (stack > 0xfffc); break; case SMALL: ok |= (code + 64 + slack > 0x10000) | (data + 4 + slack + stack > 0xfffc) | (stack < 4096) | (stack > 0xfffc); break; case HUGE_: case UNREAL: ok |= (total + 64 + slack > 524288) | (stack < 8192) | (stack > 0xfffc); break; case FLAT16: ok |= org + total + slack + 3 > 0x10000; break; default: lim = 0x100000000ull; ok |= org + total + slack + 4096 * 2 >= lim; }
    vs_assert(ok, "a link that fits the format was rejected"); vs_stop(); }
  CK(7, !badal, "a section alignment that is no power of two was accepted"); CK(4, !bigal, "a section alignment the format cannot honour was accepted"); CK(1, !reject, "a relocation the format cannot express was accepted");
  if (F == SMALL || F == TINY) CK(4, stack >= 4096 && stack <= 0xfffc, "an impossible stack size was accepted"); if (F == HUGE_ || F == UNREAL) CK(4, stack >= 8192 && stack <= 0xfffc, "an impossible stack size was accepted");
  load(); vs_cover("linked");
  vu32 e = im_entry; if ((F == TINY || F == FLAT16 || F == FLAT32) && im[0] == 0xe9) { int w = F == FLAT32 ? 4 : 2; vu32 d = rdw(0, e + 1, w); e = e + 1 + w + d; if (w == 2) e &= 0xffff; }
  STOPIF(rds(T, e) != 0x55, "the entry point is not where the header (or the first byte) says"); { int s = seg_of(F == SMALL ? 0 : 0, e); CK(4, s >= 0 && sg[s].x, "the entry point is not in an executable segment"); }
  for (int i = 0; i < nlc; i++) { lc[i].val = rdws(T, e + 5 + i * W, W); if (lc[i].kind == 0) P(0, lc[i].piece)->addr = lc[i].val; }
  if (nob == 2) for (int i = 0; i < n1; i++) P(1, l1[i])->addr = rdws(T, lc[loc1].val + i * W, W);
  CK(1, e == P(0, T)->addr + eoff, "the entry point is not the symbol's address");
  /* ---- contents ---- */
  int bad = 0; for (int i = 0; i < nob * 4; i++) if (pc[i].here && pc[i].c != B) { struct piece* p = &pc[i]; for (vu32 k = 0; k < p->size; k++) { int b = rds(p->c, p->addr + k); STOPIF(b < 0, "a byte of a section is not in the image"); keep[i][k] = (vu8)b; if (!isf[i][k]) bad |= b ^ p->bytes[k]; } }
  CK(5, bad == 0, "the bytes of a section were altered or are not at the section's address"); CK(2, bad == 0, "the bytes of a section were altered or are not at the section's address");
  /* ---- addresses ---- */
  for (int i = 0; i < nob * 4; i++) if (pc[i].here) { struct piece* p = &pc[i]; vu32 al = p->align; if (p->c == T && (F == TINY || F == SMALL || F == FLAT16) && al > 4) al = 4; if (al > 1) CK(2, (p->addr & (al - 1)) == 0, "a section is not aligned as it asks");
    for (int j = 0; j < nob * 4; j++) if (j != i && pc[j].here && space(pc[j].c) == space(p->c)) { struct piece* q = &pc[j]; vu32 pe = p->addr + p->size, qe = q->addr + q->size; if (p->c < q->c) CK(2, pe <= q->addr, "sections out of order or overlapping"); if (p->c == q->c && ((i < j) != m0)) { CK(2, pe <= q->addr, "pieces of a section out of order or overlapping"); vu32 qa = q->align ? q->align : 1; if (F == HUGE_ || F == UNREAL) qa = qa < 4 ? 4 : qa; CK(2, q->addr - pe < qa, "a gap larger than the alignment between the pieces of a section"); } (void)qe; }
    if (p->c == B && F != SMALL && F != TINY && F != FLAT16 && F != FLAT32 && F != HUGE_ && F != UNREAL) { int s = -1; for (int k = 0; k < nsg; k++) if (p->addr >= sg[k].va && (p->size == 0 ? p->addr <= sg[k].va + sg[k].msz : p->addr < sg[k].va + sg[k].msz)) s = k; STOPIF(s < 0, "a zero-initialized section is not in any segment"); CK(6, p->addr + p->size <= sg[s].va + sg[s].msz, "a zero-initialized section reaches behind its segment"); CK(4, p->size == 0 || sg[s].w, "a zero-initialized section is not writable"); if (!p->symb) { int nz = 0; for (vu32 k = 0; k < p->size; k++) nz |= rd(0, p->addr + k); CK(2, nz == 0, "a zero-initialized section does not read as zero"); } }
    if (p->c == B && nobss) { int nz = 0; for (vu32 k = 0; k < p->size; k++) nz |= rds(B, p->addr + k); CK(2, nz == 0, "a zero-initialized section written to the file is not zero"); }
    if (p->size && p->c == D) { int s = seg_of(F == SMALL ? 1 : 0, p->addr); CK(4, sg[s].w, "the data segment is not writable"); } if (p->size && p->c == T) { int s = seg_of(0, p->addr); CK(4, sg[s].x, "the code segment is not executable"); CK(4, (F != ELF && F != PE && F != MACH) || !sg[s].w, "the code segment is writable"); } }
  if (F == HUGE_ || F == UNREAL) { for (int i = 0; i < nob * 4; i++) if (pc[i].here) CK(4, pc[i].addr - 64 + pc[i].size <= sg[0].msz, "MZ: a section reaches into the stack segment"); if (im_end) {} }
  if (W == 2) for (int i = 0; i < nob * 4; i++) if (pc[i].here) { vu32 lim = (F == TINY || F == SMALL) && (F == TINY || pc[i].c != T) ? 0xfffc - stack : 0x10000; CK(4, pc[i].addr + pc[i].size <= lim, "the image does not fit, yet the link succeeded"); }
  if (F == SMALL) for (int i = 0; i < nob * 4; i++) if (pc[i].here && pc[i].c != T) CK(2, pc[i].addr >= 4, "an object at address 0");
  /* ---- boundary symbols ---- */
  for (int i = 0; i < nlc; i++) if (lc[i].kind >= 2) { int c = lc[i].piece; vu32 lo = 0xffffffff, hi = 0; for (int k = 0; k < nob * 4; k++) if (pc[k].here && (c < 4 ? pc[k].c == c : c == 4 ? pc[k].c == T : pc[k].c != T)) { if (pc[k].addr < lo) lo = pc[k].addr; if (pc[k].addr + pc[k].size > hi) hi = pc[k].addr + pc[k].size; }
      vu32 m = W == 2 ? 0xffff : 0xffffffff; if (c < 4 || c == 4 || (c == 5 && F != UNREAL)) { if (lc[i].kind == 2) CK(2, lc[i].val == (lo & m), "a start symbol is not the beginning of its sections"); else CK(2, lc[i].val == (hi & m), "a stop symbol is not the end of its sections"); } else if (c == 5) { if (lc[i].kind == 2) CK(2, lc[i].val <= lo, "__start_alldata__ lies behind data"); else CK(2, lc[i].val >= hi, "__stop_alldata__ lies before the end of the data"); } else if (c == 6) CK(2, lc[i].val == ((0xfffc - stack) & m), "__start_stack__"); }
  /* ---- relocated fields ---- */
  vu32 exp0[8]; for (int i = 0; i < nfd; i++) { struct fld* f = &fd[i]; vu32 S = f->kind == 2 ? 0 : f->kind == 3 ? lc[f->loc].val : pc[f->piece].addr + f->sv, A = f->add, Pp = pc[f->p].addr + f->off, m = f->type < 20 ? 0xffffffff : 0xffff; exp0[i] = (A + S - (f->type == 2 || f->type == 21 ? Pp : 0)) & m; f->got = rdws(pc[f->p].c, Pp, m == 0xffff ? 2 : 4); CK(1, f->got == exp0[i], "a relocated field does not refer to its target"); vs_cover("field"); }
  if (F == PE || F == AOUT || F == UNREAL) if (!norel && relfield) { vu32 dl = F == PE ? (vu32)vs_u16("load address") << 16 : F == AOUT ? vs_u32("load address") : (vu32)vs_u16("load segment") << 4; 
    relocate(dl); int b2 = 0; for (int i = 0; i < nob * 4; i++) if (pc[i].here && pc[i].c != B) for (vu32 k = 0; k < pc[i].size; k++) if (!isf[i][k]) b2 |= rd(0, pc[i].addr + k) ^ keep[i][k]; CK(1, b2 == 0, "load-time relocation altered something else");
    for (int i = 0; i < nlc; i++) CK(1, rdw(0, e + 5 + i * W, W) == lc[i].val + dl, "an address was not relocated at load time (or more than once)"); if (nob == 2) for (int i = 0; i < n1; i++) CK(1, rdw(0, P(1, T)->addr + 1 + i * W, W) == P(1, l1[i])->addr + dl, "an address was not relocated at load time (or more than once)");
    for (int i = 0; i < nfd; i++) { struct fld* f = &fd[i]; int pcr = f->type == 2 || f->type == 21, ab = f->kind == 2; if (F == UNREAL && (f->type != 1) && !(pcr && !ab)) continue; vu32 m = f->type < 20 ? 0xffffffff : 0xffff, w = (exp0[i] + (ab ? 0 : dl) - (pcr ? dl : 0)) & m; CK(1, rdw(0, pc[f->p].addr + f->off, m == 0xffff ? 2 : 4) == w, "a field is wrong after relocation at load time"); } vs_cover("moved"); }
  return 0;
}
