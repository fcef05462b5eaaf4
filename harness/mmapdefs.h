/* -include this: a system with mmap but without posix_memalign */
#define _DEFAULT_SOURCE
#define _BSD_SOURCE
#include <unistd.h>
#undef _POSIX_ADVISORY_INFO
#define _POSIX_ADVISORY_INFO 0
