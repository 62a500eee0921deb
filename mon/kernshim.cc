#include "kern.h"
#include <stdarg.h>
namespace kern { std::function<int(int, unsigned long, void *)> on_ioctl; std::function<void(int, struct stat *)> on_fstat; }
extern "C" int __real_ioctl(int, unsigned long, void *);
extern "C" int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *p = va_arg(ap, void *); va_end(ap);
	if (kern::on_ioctl) return kern::on_ioctl(fd, req, p);
	return __real_ioctl(fd, req, p);
}
extern "C" int __real_fstat(int, struct stat *);
extern "C" int __wrap_fstat(int fd, struct stat *st) {
	int r = __real_fstat(fd, st);
	if (!r && kern::on_fstat) kern::on_fstat(fd, st);
	return r;
}
extern "C" int __real_fstat64(int, struct stat64 *);
extern "C" int __wrap_fstat64(int fd, struct stat64 *st) {
	int r = __real_fstat64(fd, st);
	if (!r && kern::on_fstat) kern::on_fstat(fd, (struct stat *)st);
	return r;
}
