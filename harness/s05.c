/* S05: malloc, calloc, realloc, free under every sequence of operations */
#include "vs.h"
void *malloc(unsigned), *calloc(unsigned, unsigned), *realloc(void*, unsigned); void free(void*);
typedef __UINTPTR_TYPE__ up;
void* memset(void* d, int c, __SIZE_TYPE__ n) { for (__SIZE_TYPE__ i = 0; i < n; i++) ((volatile char*)d)[i] = (char)c; return d; }
void* memcpy(void* d, const void* q, __SIZE_TYPE__ n) { for (__SIZE_TYPE__ i = 0; i < n; i++) ((volatile char*)d)[i] = ((const char*)q)[i]; return d; }
#define A (2 * 2 * sizeof(unsigned))            /* block granularity and alignment: 16 (8 with 16-bit int) */
static char *lo, *hi, *cur; char *h_lo, *h_hi; unsigned char *__dpmi_heap_start, *__dpmi_heap_stop;
static int shrunk;
#ifdef LINUXV
char* SysBrk(char* nb) { if (nb >= lo && nb <= hi && !vs_param("nobrk", 0)) { if (nb > cur) vs_unpoison(cur, nb - cur); else { shrunk |= nb < cur; vs_poison(nb, cur - nb); } cur = nb; } return cur; }
#endif
struct blk { unsigned char* p; unsigned n; unsigned char tag; }; static struct blk b[8]; static int nb_;
static void fill(struct blk* x) { for (unsigned i = 0; i < x->n; i++) x->p[i] = x->tag + (unsigned char)i * 37; }
static void check(const unsigned char* p, unsigned n, unsigned char tag, const char* m) { for (unsigned i = 0; i < n; i++) vs_assert(p[i] == (unsigned char)(tag + (unsigned char)i * 37), m); }
static void checkall(void) { for (int i = 0; i < nb_; i++) if (b[i].p) check(b[i].p, b[i].n, b[i].tag, "contents of a live block changed"); }
static void fresh(unsigned char* p, unsigned n) {
  vs_assert(((up)p & (A - 1)) == 0, "block is misaligned"); vs_assert((char*)p >= lo && (up)p + n >= (up)p && p + n <= (unsigned char*)hi, "block is outside the heap");
#ifdef LINUXV
  vs_assert(p + n <= (unsigned char*)cur, "block reaches past the program break");
#endif
  for (int i = 0; i < nb_; i++) if (b[i].p) vs_assert((up)p + n <= (up)b[i].p || (up)b[i].p + b[i].n <= (up)p, "block overlaps a live block"); }
static unsigned size_(int huge) { unsigned H = vs_param("maxsz", 40); if (huge) { unsigned z = sizeof(int) == 2 ? vs_u16("huge") : vs_u32("huge"); vs_assume(z > (unsigned)(hi - lo)); return z; }
  unsigned z = vs_range(0, H, "size"); return z ? vs_concretize((z + A - 1) / A) * A - (vs_choice(2, "slack") ? (A - 1) : 0) : 0; }
static int hs; static unsigned size(int* huge) { *huge = !hs && vs_param("huge", 1) && vs_choice(2, "huge?"); if (*huge) hs = 1; return size_(*huge); }
static int add(unsigned char* p, unsigned n) { int i = nb_++; b[i].p = p; b[i].n = n; b[i].tag = vs_u8("tag"); fill(&b[i]); return i; }
static int pick(void) { int k = vs_choice(nb_, "slot"); return k; }
int main(void) {
  unsigned R = vs_param("region", 200), K = vs_param("K", 3), off = vs_param("off", 0), off2 = vs_param("off2", 0); int useR = vs_param("realloc", 1), noshrink = 1, h;
  char* base = (char*)(((up)vs_alloc(R + 64) + 31) & ~(up)31); lo = base + off; hi = base + off + R + off2; h_lo = lo; h_hi = hi; __dpmi_heap_start = (unsigned char*)lo; __dpmi_heap_stop = (unsigned char*)hi; cur = lo;
#ifdef LINUXV
  vs_poison(lo, hi - lo);
#endif
  unsigned cap = 0; int first = 1;
  for (unsigned i = 0; i < K; i++) { int pre = vs_param("pre", 0); if (i < pre) { unsigned n = A * (1 + vs_choice(2, "presize")) - 3; unsigned char* p = malloc(n); vs_assert(p != 0, "heap with enough room refused a block"); fresh(p, n); checkall(); add(p, n); continue; }
    int op = vs_choice(nb_ ? (useR ? 4 : 3) : 2, "op");
    if (op == 0) { unsigned n = size(&h); unsigned char* p = malloc(n); if (n == 0 || h) vs_assert(!p, "malloc of an impossible size succeeded"); if (p) { fresh(p, n); checkall(); add(p, n); vs_cover("malloc"); } else if (n && !h) vs_cover("exhausted"); }
    else if (op == 1) { unsigned e, n; if (!hs && vs_choice(2, "overflow?")) { hs = 1; e = sizeof(int) == 2 ? vs_u16("e") : vs_u32("e"); unsigned es = 1u << vs_choice(sizeof(int) * 8, "es"); vs_assume((vu64)e * es > (vu64)(hi - lo)); vs_assert(!calloc(e, es), "calloc of an impossible size succeeded"); vs_assert(!calloc(es, e), "calloc of an impossible size succeeded"); vs_cover("calloc overflow"); checkall(); continue; }
      e = vs_choice(4, "ecnt"); n = vs_choice(5, "esize") * 3; unsigned char* p = calloc(e, n); if (e * n == 0) vs_assert(!p, "calloc of zero bytes"); if (p) { fresh(p, e * n); for (unsigned q = 0; q < e * n; q++) vs_assert(p[q] == 0, "calloc memory is not zero"); checkall(); add(p, e * n); vs_cover("calloc"); } }
    else if (op == 2) { int k = pick(); free(b[k].p); b[k].p = 0; checkall(); vs_cover("free"); }
    else { int k = pick(); unsigned n = size(&h); unsigned char *o = b[k].p, tg = b[k].tag; unsigned on = b[k].n; if (n && n < on) noshrink = 0; unsigned char* p = realloc(o, n); if (n == 0 || h) vs_assert(!p, "realloc to an impossible size succeeded");
      if (!p) { checkall(); vs_cover("realloc failed"); } else { unsigned m = on < n ? on : n; b[k].p = 0; fresh(p, n); if (o) check(p, m, tg, "realloc lost contents"); checkall(); b[k].p = p; b[k].n = n; fill(&b[k]); vs_cover(p == o ? "realloc in place" : "realloc moved"); } } }
  checkall(); vs_assert(!shrunk, "the program break was lowered");
  /* everything freed: the heap is one block again */
  if (noshrink) { for (int i = 0; i < nb_; i++) { free(b[i].p); b[i].p = 0; } unsigned start = ((unsigned)(up)lo + A / 2 - 1) & -(A / 2) | A / 2, stop = ((unsigned)(up)hi - A / 2) & -(A / 2) | A / 2; unsigned most = (stop - start - A) / A * A; 
#ifndef LINUXV
    unsigned char* p = malloc(most); vs_assert(p != 0, "freed memory cannot be allocated again"); fresh(p, most); vs_cover("coalesced");
#else
    unsigned char* p = malloc(most - 2 * A); vs_assert(p != 0, "freed memory cannot be allocated again"); fresh(p, most - 2 * A); vs_cover("coalesced");
#endif
  }
  return 0; }
