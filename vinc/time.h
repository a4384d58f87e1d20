#ifndef _VTIME
#define _VTIME
#include <stddef.h>
typedef long time_t; typedef long clock_t; struct tm { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; };
time_t time(time_t*); struct tm* localtime(const time_t*); struct tm* gmtime(const time_t*); size_t strftime(char*, size_t, const char*, const struct tm*); clock_t clock(void); time_t mktime(struct tm*); char* ctime(const time_t*); char* asctime(const struct tm*);
#endif
