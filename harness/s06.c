/* S06: qsort and bsearch */
#include "vs.h"
void* bsearch(void*, void*, unsigned, unsigned, int (*)(void*, void*)); void qsort(void*, unsigned, unsigned, int (*)(void*, void*));
static unsigned char *B; static int n, sz, neg, pos; static void* KEY; static unsigned long calls;
static int in(void* p) { long d = (unsigned char*)p - B; return d >= 0 && d < (long)n * sz && d % sz == 0; }
static unsigned key(unsigned char* p) { return sz >= 4 ? p[0] | p[1] << 8 : p[0]; }
static int cmp(void* a, void* b) { calls++; vs_assert(in(a) && in(b), "qsort compares only elements of the array"); unsigned x = key(a), y = key(b); if (x < y) return neg; if (x > y) return pos; return 0; }
static int cmpb(void* a, void* b) { vs_assert(a == KEY, "bsearch passes the key first"); vs_assert(in(b), "bsearch compares only elements of the array"); unsigned x = key(a), y = key(b); if (x < y) return neg; if (x > y) return pos; return 0; }
int main(void) {
  int fn = vs_param("fn", 0), N = vs_param("N", 5); sz = vs_param("sz", 4); n = vs_param("n", -1); if (n < 0) n = vs_choice(N + 1, "n");
  neg = vs_choice(2, "mag") ? -1 : (int)0x80000000; pos = neg == -1 ? 1 : 0x7fffffff;
  B = vs_alloc(n * sz ? n * sz : 1); if (!n) vs_poison(B, 1); unsigned char old[256];
  for (int i = 0; i < n * sz; i++) B[i] = old[i] = vs_u8("byte");
  if (fn == 0) { if (sz > 1) for (int i = 0; i < n; i++) B[i * sz + sz - 1] = old[i * sz + sz - 1] = i; 
    qsort(B, n, sz, cmp);
    for (int i = 0; i + 1 < n; i++) vs_assert(key(B + i * sz) <= key(B + (i + 1) * sz), "the array is sorted");
    if (sz > 1) { int seen = 0; for (int i = 0; i < n; i++) { int t = B[i * sz + sz - 1]; vs_assert(t < n && !(seen >> t & 1), "the result is a permutation of the elements"); seen |= 1 << t; for (int k = 0; k < sz - 1; k++) vs_assert(B[i * sz + k] == old[t * sz + k], "elements are moved whole"); } }
    else for (int i = 0; i < n; i++) { int a = 0, b = 0; for (int k = 0; k < n; k++) a += old[k] == old[i], b += B[k] == old[i]; vs_assert(a == b, "the result is a permutation of the elements"); }
    if (n > 2) vs_cover("sorted"); }
  else { for (int i = 0; i + 1 < n; i++) vs_assume(key(B + i * sz) <= key(B + (i + 1) * sz)); unsigned char* k = vs_alloc(sz); KEY = k; for (int i = 0; i < sz; i++) k[i] = vs_u8("key"); int have = 0; for (int i = 0; i < n; i++) have |= key(B + i * sz) == key(k);
    unsigned char* r = bsearch(k, B, n, sz, cmpb); if (r) { vs_assert(in(r) && key(r) == key(k), "bsearch returns a matching element"); vs_cover("found"); } else { vs_assert(!have, "bsearch finds a present key"); if (n) vs_cover("absent"); } for (int i = 0; i < n * sz; i++) vs_assert(B[i] == old[i], "bsearch does not modify the array"); }
  return 0; }
