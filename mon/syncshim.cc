// Delays at mutex operations, and a count of close calls made by the library.
#include "delay.h"
#include <errno.h>
#include <fcntl.h>
extern "C" {
std::atomic<uint64_t> mon_closes{0};
std::atomic<int> mon_bad_close{0};
int __real_close(int);
static bool in_lib_close = true;
int __wrap_close(int fd)
{
	(void)in_lib_close;
	int r = __real_close(fd);
	if (r < 0 && errno == EBADF) ++mon_bad_close;
	++mon_closes;
	return r;
}
}
