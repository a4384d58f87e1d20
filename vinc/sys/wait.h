#ifndef _VSW
#define _VSW
#define WIFEXITED(s) (((s)&0x7f)==0)
#define WEXITSTATUS(s) (((s)>>8)&0xff)
#define WIFSIGNALED(s) (((s)&0x7f)!=0)
#define WTERMSIG(s) ((s)&0x7f)
#endif
