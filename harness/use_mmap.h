/* makes allocator.c choose its mmap variant on a system that has posix_memalign */
#include <unistd.h>
#undef _POSIX_ADVISORY_INFO
#define _POSIX_ADVISORY_INFO 0
