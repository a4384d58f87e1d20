/* S07: calendar conversions and formatting */
#include "vs.h"
typedef unsigned long time_t;
struct tm { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; };
struct tm *gmtime(time_t*), *localtime(time_t*); time_t mktime(struct tm*); char *asctime(struct tm*), *ctime(time_t*); unsigned strftime(char*, unsigned, char*, struct tm*); double difftime(time_t, time_t);
static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static const unsigned char ml[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static int mlen(int y, int m) { return ml[m] + (m == 1 && leap(y)); }
/* days from 1970-01-01 to y-01-01 counting leap years before y */
static unsigned jan1(int y) { int p = y - 1; return 365u * (y - 1970) + (p / 4 - p / 100 + p / 400) - (1969 / 4 - 1969 / 100 + 1969 / 400); }
static unsigned mon1(int y, int m) { unsigned d = 0; for (int i = 0; i < m; i++) d += mlen(y, i); return d; }
static int pick_year(void) { int lo = vs_param("ylo", 1970), hi = vs_param("yhi", 2105); return lo + (int)vs_choice(hi - lo + 1, "year"); }
static unsigned char out[64]; static int on;
static void pc(int c) { out[on++] = (unsigned char)c; }
static void ps(const char* s) { while (*s) pc(*s++); }
static void p2(int n, int pad) { if (n < 10) { pc(pad); pc('0' + n); } else { vs_assert(n < 100, "oracle"); pc('0' + n / 10); pc('0' + n % 10); } }
static void p4(int n) { pc('0' + n / 1000); pc('0' + n / 100 % 10); pc('0' + n / 10 % 10); pc('0' + n % 10); }
static const char* const dn[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const char* const mn[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static void p3(const char* s) { for (int i = 0; i < 3; i++) pc(s[i]); }
static void isoweek(struct tm* t, int* y, int* w) { int yr = t->tm_year + 1900, th = t->tm_yday - (t->tm_wday + 6) % 7 + 3; if (th < 0) { yr--; th += 365 + leap(yr); } else if (th >= 365 + leap(yr)) { th -= 365 + leap(yr); yr++; } *y = yr; *w = th / 7 + 1; }
static void ref(int c, struct tm* t) { int y, w, h = t->tm_hour % 12;
  switch (c) { case 'a': p3(dn[t->tm_wday]); break; case 'A': ps(dn[t->tm_wday]); break; case 'h': case 'b': p3(mn[t->tm_mon]); break; case 'B': ps(mn[t->tm_mon]); break;
  case 'c': ref('a', t); pc(' '); ref('b', t); pc(' '); ref('e', t); pc(' '); ref('T', t); pc(' '); ref('Y', t); break;
  case 'C': p2((t->tm_year + 1900) / 100, '0'); break; case 'd': p2(t->tm_mday, '0'); break; case 'x': case 'D': ref('m', t); pc('/'); ref('d', t); pc('/'); ref('y', t); break; case 'e': p2(t->tm_mday, ' '); break;
  case 'F': ref('Y', t); pc('-'); ref('m', t); pc('-'); ref('d', t); break; case 'g': isoweek(t, &y, &w); p2(y % 100, '0'); break; case 'G': isoweek(t, &y, &w); p4(y); break; case 'V': isoweek(t, &y, &w); p2(w, '0'); break;
  case 'H': p2(t->tm_hour, '0'); break; case 'I': p2(h ? h : 12, '0'); break; case 'j': { int n = t->tm_yday + 1; pc('0' + n / 100); pc('0' + n / 10 % 10); pc('0' + n % 10); break; } case 'm': p2(t->tm_mon + 1, '0'); break; case 'M': p2(t->tm_min, '0'); break;
  case 'n': pc('\n'); break; case 't': pc('\t'); break; case 'p': ps(t->tm_hour < 12 ? "AM" : "PM"); break; case 'r': ref('I', t); pc(':'); ref('M', t); pc(':'); ref('S', t); pc(' '); ref('p', t); break; case 'R': ref('H', t); pc(':'); ref('M', t); break;
  case 'S': p2(t->tm_sec, '0'); break; case 'X': case 'T': ref('H', t); pc(':'); ref('M', t); pc(':'); ref('S', t); break; case 'u': pc('0' + (t->tm_wday ? t->tm_wday : 7)); break; case 'w': pc('0' + t->tm_wday); break;
  /* week number: days of the given weekday seen so far this year */
  case 'U': { int n = 0, s = t->tm_yday - t->tm_wday; if (s >= 0) n = s / 7 + 1; p2(n, '0'); break; } case 'W': { int n = 0, s = t->tm_yday - (t->tm_wday + 6) % 7; if (s >= 0) n = s / 7 + 1; p2(n, '0'); break; }
  case 'y': p2((t->tm_year + 1900) % 100, '0'); break; case 'Y': p4(t->tm_year + 1900); break; case 'z': case 'Z': break; case '%': pc('%'); break; } }
static void cmp(const char* s, int n, const char* what) { for (int i = 0; i < n; i++) vs_assert((unsigned char)s[i] == out[i], what); }
static const char specs[] = "aAbBhcCdDeFgGHIjmMnprRStTuUVwWxXyYzZ%";
int main(void) {
  int mode = vs_param("mode", 0);
  if (mode == 6) { time_t t = vs_range(49673u * 86400u, 0xffffffffu, "t"); vs_assert(gmtime(&t) == 0 && localtime(&t) == 0, "a time past 2105 was converted"); vs_cover("rejected"); return 0; }
  if (mode == 0) { int a = vs_param("ylo", 1970), b = vs_param("yhi", 2106); /* every t in [a, b) is exactly one day number and one time of day */
    unsigned D = vs_range(jan1(a), jan1(b) - 1, "day"), hh = vs_range(0, 23, "hh"), mi = vs_range(0, 59, "mi"), ss = vs_range(0, 59, "ss"); time_t t = D * 86400u + hh * 3600u + mi * 60u + ss;
    struct tm* r = vs_param("local", 0) ? localtime(&t) : gmtime(&t);
    if (!r) { vs_assert(t >= (time_t)(jan1(2106) * 86400u) || t == (time_t)-1, "conversion of a representable time failed"); vs_cover("rejected"); return 0; }
    int y = vs_concretize(r->tm_year) + 1900, m = vs_concretize(r->tm_mon); vs_assert(y >= 1970 && y <= 2106, "year range"); vs_assert(m >= 0 && m < 12, "month range");
    vs_assert(r->tm_sec >= 0 && r->tm_sec < 60 && r->tm_min >= 0 && r->tm_min < 60 && r->tm_hour >= 0 && r->tm_hour < 24, "time-of-day fields in range"); vs_assert(r->tm_mday >= 1 && r->tm_mday <= mlen(y, m), "day of month in range");
    unsigned yd = mon1(y, m) + r->tm_mday - 1, day = jan1(y) + yd;
    vs_assert(r->tm_hour == hh && r->tm_min == mi && r->tm_sec == ss, "time of day"); vs_assert(day == D, "date"); vs_assert((unsigned)r->tm_yday == yd, "tm_yday"); vs_assert(((unsigned)r->tm_wday) < 7 && (day + 4 + 7 - r->tm_wday) % 7 == 0, "tm_wday"); vs_assert(r->tm_isdst == 0, "tm_isdst"); vs_cover("converted");
    if (vs_param("rt", 1)) { struct tm c = *r; vs_assert(mktime(&c) == t, "mktime(gmtime(t)) != t"); }
    return 0; }
  if (mode == 1) { struct tm t; int y = pick_year(), m = vs_choice(12, "mon"); t.tm_year = y - 1900; t.tm_mon = m; t.tm_mday = 1 + (int)vs_range(0, mlen(y, m) - 1, "mday"); t.tm_hour = vs_range(0, 23, "hour"); t.tm_min = vs_range(0, 59, "min"); t.tm_sec = vs_range(0, 59, "sec"); t.tm_wday = vs_u32("wday"); t.tm_yday = vs_u32("yday"); t.tm_isdst = 0;
    struct tm o = t; time_t r = mktime(&t); unsigned day = jan1(y) + mon1(y, m) + o.tm_mday - 1; 
    vs_assert(r == day * 86400u + o.tm_hour * 3600u + o.tm_min * 60u + o.tm_sec, "mktime value"); vs_assert(t.tm_year == o.tm_year && t.tm_mon == m && t.tm_mday == o.tm_mday && t.tm_hour == o.tm_hour && t.tm_min == o.tm_min && t.tm_sec == o.tm_sec, "mktime changed in-range fields");
    vs_assert((unsigned)t.tm_yday == day - jan1(y), "mktime tm_yday"); vs_assert((unsigned)t.tm_wday < 7 && (day + 4 + 7 - t.tm_wday) % 7 == 0, "mktime tm_wday"); vs_cover("built"); return 0; }
  if (mode == 2) { struct tm t; t.tm_year = vs_u32("year"); t.tm_mon = vs_u32("mon"); t.tm_mday = vs_u32("mday"); t.tm_hour = vs_u32("hour"); t.tm_min = vs_u32("min"); t.tm_sec = vs_u32("sec"); t.tm_wday = t.tm_yday = t.tm_isdst = 0;
    int bad = t.tm_year < 70 || t.tm_year > 205 || t.tm_mon < 0 || t.tm_mon > 11 || t.tm_mday < 1 || t.tm_hour < 0 || t.tm_hour > 23 || t.tm_min < 0 || t.tm_min > 59 || t.tm_sec < 0 || t.tm_sec > 60; 
    if (!bad) { static const unsigned char mm[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int y = t.tm_year + 1900; bad = t.tm_mday > mm[t.tm_mon] + (t.tm_mon == 1 && leap(y)); }
    vs_assume(bad); vs_assert(mktime(&t) == (time_t)-1, "mktime accepted an impossible calendar time"); vs_cover("refused"); return 0; }
  struct tm t; int y, big = 0; char fmt[8]; int fn = 0; 
  t.tm_hour = vs_range(0, 23, "hour"); t.tm_min = vs_range(0, 59, "min"); t.tm_sec = vs_range(0, 60, "sec"); t.tm_isdst = 0;
  if (mode == 3) { /* one conversion, independent fields */ int si = vs_choice(sizeof specs - 1, "spec"), c = specs[si]; if (c == 'c') big = 24;
    if (c == 'g' || c == 'G' || c == 'V' || c == 'U' || c == 'W') { y = pick_year(); t.tm_yday = vs_range(0, 364 + leap(y), "yday"); int j = (jan1(y) + 4) % 7; t.tm_wday = (j + t.tm_yday) % 7; t.tm_year = y - 1900; t.tm_mon = t.tm_mday = 0; }
    else { t.tm_year = vs_range(0, 8099, "year"); t.tm_mon = vs_range(0, 11, "mon"); t.tm_mday = vs_range(1, 31, "mday"); t.tm_yday = vs_range(0, 365, "yday"); t.tm_wday = vs_range(0, 6, "wday"); if (c == 'Y' || c == 'c' || c == 'F') vs_assume(t.tm_year >= -900); }
    int mod = c == '%' ? 0 : vs_choice(3, "mod"); fmt[fn++] = '%'; if (mod) fmt[fn++] = mod == 1 ? 'E' : 'O'; fmt[fn++] = (char)c; fmt[fn] = 0; on = 0; ref(c, &t);
    char* b = vs_alloc(40); unsigned r = strftime(b, 40, fmt, &t); vs_assert(r == on, "strftime length"); vs_assert(b[on] == 0, "strftime terminator"); cmp(b, on, "strftime text"); vs_cover("formatted"); return 0; }
  t.tm_year = vs_range(0, 8099, "year"); t.tm_mon = vs_range(0, 11, "mon"); t.tm_mday = vs_range(1, 31, "mday"); t.tm_yday = 0; t.tm_wday = vs_range(0, 6, "wday"); 
  if (mode == 4) { static const char* const fs[] = {"%d/%m", "x%Hy", "%%%S%%", "%T", "abc", "", "%y%y", "%n%t%p"}; int f = vs_choice(8, "fmt"), N = vs_choice(11, "size"); on = 0; for (const char* p = fs[f]; *p; p++) if (*p == '%') ref(*++p, &t); else pc(*p);
    char* b = vs_alloc(N); unsigned r = strftime(b, N, (char*)fs[f], &t); if (on + 1 <= N) { vs_assert(r == on, "strftime length"); cmp(b, on, "strftime text"); vs_assert(b[on] == 0, "strftime terminator"); vs_cover("fits"); } else { vs_assert(r == 0, "strftime must return 0 when the result does not fit"); vs_cover("too small"); } return 0; }
  if (mode == 5) { vs_assume(t.tm_sec < 60); on = 0; p3(dn[t.tm_wday]); pc(' '); p3(mn[t.tm_mon]); pc(' '); p2(t.tm_mday, ' '); pc(' '); p2(t.tm_hour, '0'); pc(':'); p2(t.tm_min, '0'); pc(':'); p2(t.tm_sec, '0'); pc(' '); p4(1900 + t.tm_year); pc('\n'); char* r = asctime(&t); cmp(r, on, "asctime text"); vs_assert(r[on] == 0, "asctime terminator"); vs_cover("asctime"); return 0; }
  return 0; }
