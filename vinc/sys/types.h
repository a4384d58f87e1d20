#ifndef _VST
#define _VST
#include <stddef.h>
typedef long ssize_t; typedef int pid_t; typedef unsigned mode_t; typedef long off_t;
#endif
