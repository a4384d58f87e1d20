#ifndef _VSTDDEF
#define _VSTDDEF
typedef __SIZE_TYPE__ size_t; typedef __PTRDIFF_TYPE__ ptrdiff_t;
#ifndef __cplusplus
typedef __WCHAR_TYPE__ wchar_t;
#endif
#undef NULL
#define NULL ((void*)0)
#define offsetof(t,m) __builtin_offsetof(t,m)
#endif
