/* -include this: a POSIX system with threads but without barriers */
#include <unistd.h>
#undef _POSIX_BARRIERS
#define _POSIX_BARRIERS 0
