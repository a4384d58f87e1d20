#ifndef _VLIMITS
#define _VLIMITS
#define CHAR_BIT 8
#define SCHAR_MIN (-128)
#define SCHAR_MAX 127
#define UCHAR_MAX 255
#define CHAR_MIN SCHAR_MIN
#define CHAR_MAX SCHAR_MAX
#define SHRT_MIN (-32768)
#define SHRT_MAX 32767
#define USHRT_MAX 65535
#define INT_MAX __INT_MAX__
#define INT_MIN (-INT_MAX-1)
#define UINT_MAX (INT_MAX*2U+1U)
#define LONG_MAX __LONG_MAX__
#define LONG_MIN (-LONG_MAX-1L)
#define ULONG_MAX (LONG_MAX*2UL+1UL)
#define LLONG_MAX __LONG_LONG_MAX__
#define LLONG_MIN (-LLONG_MAX-1LL)
#define ULLONG_MAX (LLONG_MAX*2ULL+1ULL)
#define PATH_MAX 4096
#define MB_LEN_MAX 16
#endif
