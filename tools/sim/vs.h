#ifndef VS_H
#define VS_H
typedef unsigned char vu8; typedef unsigned short vu16; typedef __UINT32_TYPE__ vu32; typedef __UINT64_TYPE__ vu64;
typedef signed char vs8; typedef short vs16; typedef __INT32_TYPE__ vs32; typedef __INT64_TYPE__ vs64;
vu8 vs_u8(const char*); vu16 vs_u16(const char*); vu32 vs_u32(const char*); vu64 vs_u64(const char*);
unsigned vs_range(unsigned lo, unsigned hi, const char* name);   /* symbolic value in [lo,hi] */
unsigned vs_choice(unsigned n, const char* name);                /* forked concrete value in [0,n) */
void vs_assume(int); void vs_assert(int, const char* msg); void vs_cover(const char*);
int vs_is_symbolic(vu64); unsigned vs_ph_new(vu64); vu64 vs_ph_get(unsigned);
void* vs_alloc(__SIZE_TYPE__); void vs_free(void*, __SIZE_TYPE__);
int vs_catch(int (*fn)(void*), void*);                           /* value of vs_throw, or of fn's return */
void vs_throw(int) __attribute__((noreturn));
void vs_log(const char*); int vs_param(const char* name, int dflt); void vs_stop(void) __attribute__((noreturn));
unsigned vs_concretize(unsigned); vu32 vs_ite(int c, vu32 a, vu32 b);
void vs_poison(void*, __SIZE_TYPE__); void vs_unpoison(void*, __SIZE_TYPE__); int vs_valid(const void*, __SIZE_TYPE__);
void vs_sample(const char*); void vs_show(const char*, vu64); int vs_feasible(int);
#define VS_FAIL(m) vs_assert(0, m)
#endif
