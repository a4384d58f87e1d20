/* S02: strtol, strtoul, atoi, atol against the C definition of the subject sequence */
#include "vs.h"
long strtol(char*, char**, int); unsigned long strtoul(char*, char**, int); int atoi(char*); long atol(char*); extern int errno;
#define ERANGE_ ERANGE_VAL
#include <errno.h>
static int sp(int c) { return c == 32 || (c >= 9 && c <= 13); }
static int dg(int c) { if (c >= '0' && c <= '9') return c - '0'; if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) return (c & ~0x20) - ('A' - 10); return 99; }
struct ref { int end, any, neg; vu64 mag; };
static struct ref parse(const unsigned char* s, int base) { struct ref r = {0, 0, 0, 0}; int i = 0; while (sp(s[i])) i++; if (s[i] == '-' || s[i] == '+') r.neg = s[i++] == '-';
  if (base == 0 || base == 16) { if (s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && dg(s[i + 2]) < 16) i += 2, base = 16; else if (base == 0) base = s[i] == '0' ? 8 : 10; }
  for (; dg(s[i]) < base; i++) { r.any = 1; r.mag = r.mag * base + dg(s[i]); r.mag = r.mag > 0x100000000ull ? 0x100000000ull : r.mag; }
  r.end = r.any ? i : 0; return r; }
int main(void) {
  int mode = vs_param("mode", 0), N = vs_param("N", 4), fn = vs_param("fn", 0), base;
  int pre = 0, len; unsigned char ref[40];
  if (mode == 0) { static const unsigned char bs[] = {0, 10, 16, 8, 2, 36, 3, 35, 11, 17}; base = bs[vs_choice(vs_param("nb", 6), "base")]; len = vs_choice(N + 1, "len"); }
  else { base = vs_param("base", 10); len = vs_param("digits", 10); }
  if (mode == 2) base = 2 + vs_choice(35, "base");
  char* s = vs_alloc(len + 4 + 1 - 4 + (mode ? 3 : 0)); int k = 0;
  if (mode == 1) { int sg = vs_choice(3, "sign"); if (sg) s[k++] = sg == 1 ? '-' : '+'; if (base == 16 && vs_choice(2, "prefix")) { s[k++] = '0'; s[k++] = vs_choice(2, "X") ? 'x' : 'X'; } 
    for (int i = 0; i < len; i++) { if (base <= 10) s[k++] = (char)vs_range('0', '0' + base - 1, "digit"); else { int al = vs_param("alpha", 0); s[k++] = al == 0 ? (char)vs_range('0', '9', "digit") : al == 1 ? (char)vs_range('a', 'a' + base - 11, "digit") : (char)vs_range('A', 'A' + base - 11, "digit"); } } s[k] = 0; vs_poison(s + k + 1, len + 4 - (k + 1)); }
  else { for (; k < len; k++) { s[k] = (char)vs_u8("ch"); if (mode != 2) vs_assume(s[k] != 0); } s[k] = 0; if (mode) vs_poison(s + k + 1, 3); }
  for (int i = 0; i <= k; i++) ref[i] = (unsigned char)s[i]; ref[k + 1] = ref[k + 2] = 0;
  int e0 = (int)vs_range(0, 1000, "errno0"); vs_assume(e0 != ERANGE); errno = e0; char* end = (char*)1;
  if (fn == 0) { long r = strtol(s, &end, base); struct ref x = parse(ref, base); int ov = x.mag > 0x7fffffffull + x.neg; 
    vs_assert(r == (ov ? (x.neg ? (long)0x80000000 : 0x7fffffff) : (long)(x.neg ? 0 - x.mag : x.mag)), "strtol value"); vs_assert(end == s + x.end, "strtol end pointer"); vs_assert(errno == (ov ? ERANGE : e0), "strtol errno"); if (ov) vs_cover("overflow"); if (!x.any) vs_cover("none"); else if (!ov) vs_cover("value"); if (x.neg && x.any) vs_cover("negative"); vs_assert(strtol(s, 0, base) == r, "strtol with a null end pointer"); }
  else if (fn == 1) { unsigned long r = strtoul(s, &end, base); struct ref x = parse(ref, base); int ov = x.mag > 0xffffffffull; vs_assert(r == (ov ? 0xfffffffful : (unsigned long)(x.neg ? 0 - x.mag : x.mag)), "strtoul value"); vs_assert(end == s + x.end, "strtoul end pointer"); vs_assert(errno == (ov ? ERANGE : e0), "strtoul errno"); if (ov) vs_cover("overflow"); if (!x.any) vs_cover("none"); else if (!ov) vs_cover("value"); if (x.neg && x.any) vs_cover("negative"); vs_assert(strtoul(s, 0, base) == r, "strtoul with a null end pointer"); }
  else { struct ref x = parse(ref, 10); if (x.mag <= 0x7fffffffull + x.neg) { long e = (long)(x.neg ? 0 - x.mag : x.mag); vs_assert(atoi(s) == (int)e, "atoi value"); vs_assert(atol(s) == e, "atol value"); if (x.any) vs_cover("value"); else vs_cover("none"); if (x.neg && x.any) vs_cover("negative"); } else vs_cover("overflow"); }
  for (int i = 0; i <= k; i++) vs_assert((unsigned char)s[i] == ref[i], "the text is not modified");
  return 0; }
