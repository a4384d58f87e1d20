/* S10: <ctype.h> */
#include "vs.h"
int isalnum(int), isalpha(int), isblank(int), iscntrl(int), isdigit(int), isgraph(int), islower(int), isprint(int), ispunct(int), isspace(int), isupper(int), isxdigit(int), tolower(int), toupper(int);
int main(void) { int c = (int)vs_range(0, 256, "c") - 1; int up = c >= 'A' & c <= 'Z', lo = c >= 'a' & c <= 'z', dg = c >= '0' & c <= '9', pr = c >= 32 & c <= 126, gr = c >= 33 & c <= 126;
  vs_assert(!!isupper(c) == up, "isupper"); vs_assert(!!islower(c) == lo, "islower"); vs_assert(!!isalpha(c) == (up | lo), "isalpha"); vs_assert(!!isdigit(c) == dg, "isdigit"); vs_assert(!!isalnum(c) == (up | lo | dg), "isalnum");
  vs_assert(!!isxdigit(c) == (dg | (c >= 'A' & c <= 'F') | (c >= 'a' & c <= 'f')), "isxdigit"); vs_assert(!!isspace(c) == ((c == 32) | (c >= 9 & c <= 13)), "isspace"); vs_assert(!!isblank(c) == ((c == 32) | (c == 9)), "isblank");
  vs_assert(!!iscntrl(c) == ((c >= 0 & c < 32) | (c == 127)), "iscntrl"); vs_assert(!!isprint(c) == pr, "isprint"); vs_assert(!!isgraph(c) == gr, "isgraph"); vs_assert(!!ispunct(c) == (gr & !(up | lo | dg)), "ispunct");
  vs_assert(tolower(c) == (up ? c + 32 : c), "tolower"); vs_assert(toupper(c) == (lo ? c - 32 : c), "toupper"); vs_cover("all"); if (vs_feasible(c == -1)) vs_cover("EOF"); return 0; }
