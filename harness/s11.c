/* S11: 32-bit arithmetic on 16-bit halves, and the small integer functions */
#include "vs.h"
typedef unsigned short us;
void __lngAdd(us*, us*), __lngSub(us*, us*), __lngFromSigned(us*, int), __lngFromUnsigned(us*, unsigned); int __lngEq(us*, us*), __lngLessThan0(us*), __lngSignedLess(us*, us*), __lngUnsignedLess(us*, us*), __lngToSigned(us*); unsigned __lngToUnsigned(us*); int abs(int);
typedef struct { int quot, rem; } div_t_; div_t_ div(int, int);
#define V32(p) ((vu32)(p)[0] | (vu32)(p)[1] << 16)
int main(void) {
  us *a = vs_alloc(4), *b = vs_alloc(4); a[0] = vs_u16("a0"); a[1] = vs_u16("a1"); b[0] = vs_u16("b0"); b[1] = vs_u16("b1"); vu32 A = V32(a), B = V32(b);
  vs_assert(!!__lngEq(a, b) == (A == B), "__lngEq"); vs_assert(!!__lngLessThan0(a) == ((vs32)A < 0), "__lngLessThan0"); vs_assert(!!__lngSignedLess(a, b) == ((vs32)A < (vs32)B), "__lngSignedLess"); vs_assert(!!__lngUnsignedLess(a, b) == (A < B), "__lngUnsignedLess");
  vs_assert(__lngToSigned(a) == (int)(vs32)A, "__lngToSigned"); vs_assert(__lngToUnsigned(a) == (unsigned)A, "__lngToUnsigned"); vs_assert(V32(a) == A && V32(b) == B, "comparisons do not modify");
  __lngAdd(a, b); vs_assert(V32(a) == A + B, "__lngAdd"); vs_assert(V32(b) == B, "__lngAdd modified its addend"); a[0] = (us)A; a[1] = (us)(A >> 16); __lngSub(a, b); vs_assert(V32(a) == A - B, "__lngSub"); vs_assert(V32(b) == B, "__lngSub modified its subtrahend");
  __lngAdd(a, a); vs_assert(V32(a) == (A - B) * 2, "__lngAdd of a value to itself"); __lngSub(a, a); vs_assert(V32(a) == 0, "__lngSub of a value from itself");
  int n = sizeof(int) == 2 ? (int)vs_u16("n") : (int)vs_u32("n"); __lngFromSigned(a, n); vs_assert(V32(a) == (vu32)(vs32)n, "__lngFromSigned"); __lngFromUnsigned(a, (unsigned)n); vs_assert(V32(a) == (vu32)(unsigned)n, "__lngFromUnsigned");
  vs_cover("lng");
  int mn = (int)((unsigned)1 << (sizeof(int) * 8 - 1)); if (n != mn) { vs_assert(abs(n) == (n < 0 ? -n : n), "abs"); }
  if (vs_param("div", 1)) { int d = sizeof(int) == 2 ? (int)vs_u16("d") : (int)vs_u32("d"); vs_assume(d != 0); vs_assume(!(d == -1 && n == mn)); div_t_ r = div(n, d); vs_assert(r.quot == n / d && r.rem == n % d, "div"); vs_cover("div"); }
  return 0; }
