/* replaces the compiler's decimal conversion (checked on its own) in jobs that need symbolic float constants: the digit
   selects a symbolic value of the harness */
extern unsigned flv[];
void vs_stub_bad(void);
unsigned d2f(unsigned char* digits, int cnt, int eexp) { if (cnt != 1 || eexp) vs_stub_bad(); return flv[digits[0]]; }
