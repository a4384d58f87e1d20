#ifndef _VSTDIO
#define _VSTDIO
#include <stddef.h>
#include <stdarg.h>
typedef struct vFILE FILE; typedef long fpos_t; typedef long off_t;
#define EOF (-1)
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2
#define BUFSIZ 512
#define FILENAME_MAX 4096
#define L_tmpnam 20
#define TMP_MAX 1000
#define FOPEN_MAX 16
#define _IOFBF 0
#define _IOLBF 1
#define _IONBF 2
extern FILE *stdin, *stdout, *stderr;
#define stdin stdin
#define stdout stdout
#define stderr stderr
FILE* fopen(const char*, const char*); FILE* freopen(const char*, const char*, FILE*); int fclose(FILE*); int fgetc(FILE*); int getc(FILE*); int getchar(void); int fputc(int, FILE*); int putc(int, FILE*); int putchar(int); int fputs(const char*, FILE*); int puts(const char*); char* fgets(char*, int, FILE*);
size_t fread(void*, size_t, size_t, FILE*); size_t fwrite(const void*, size_t, size_t, FILE*); int fseek(FILE*, long, int); long ftell(FILE*); void rewind(FILE*); int fgetpos(FILE*, fpos_t*); int fsetpos(FILE*, const fpos_t*); int feof(FILE*); int ferror(FILE*); void clearerr(FILE*); int fflush(FILE*); int ungetc(int, FILE*); int setvbuf(FILE*, char*, int, size_t); void setbuf(FILE*, char*);
int printf(const char*, ...); int fprintf(FILE*, const char*, ...); int sprintf(char*, const char*, ...); int snprintf(char*, size_t, const char*, ...); int vprintf(const char*, va_list); int vfprintf(FILE*, const char*, va_list); int vsprintf(char*, const char*, va_list); int vsnprintf(char*, size_t, const char*, va_list); int sscanf(const char*, const char*, ...);
int remove(const char*); int rename(const char*, const char*); char* tmpnam(char*); FILE* tmpfile(void); void perror(const char*);
#endif
