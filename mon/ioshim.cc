// kernshim.cc, and read/write calls on chosen descriptors answered by a script
#include "kernshim.cc"
namespace kern { std::function<bool(char op, int fd, void *buf, size_t n, long off, ssize_t *out)> on_io; }
extern "C" ssize_t __real_read(int, void *, size_t); extern "C" ssize_t __real_write(int, const void *, size_t);
extern "C" ssize_t __real_pread(int, void *, size_t, off_t); extern "C" ssize_t __real_pwrite(int, const void *, size_t, off_t);
extern "C" ssize_t __wrap_read(int fd, void *b, size_t n) { ssize_t o; return kern::on_io && kern::on_io('r', fd, b, n, -1, &o) ? o : __real_read(fd, b, n); }
extern "C" ssize_t __wrap_write(int fd, const void *b, size_t n) { ssize_t o; return kern::on_io && kern::on_io('w', fd, const_cast<void *>(b), n, -1, &o) ? o : __real_write(fd, b, n); }
extern "C" ssize_t __wrap_pread(int fd, void *b, size_t n, off_t p) { ssize_t o; return kern::on_io && kern::on_io('R', fd, b, n, p, &o) ? o : __real_pread(fd, b, n, p); }
extern "C" ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t p) { ssize_t o; return kern::on_io && kern::on_io('W', fd, const_cast<void *>(b), n, p, &o) ? o : __real_pwrite(fd, b, n, p); }
extern "C" ssize_t __real_pread64(int, void *, size_t, off_t);
extern "C" ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t p) { ssize_t o; return kern::on_io && kern::on_io('R', fd, const_cast<void *>((const void *)b), n, p, &o) ? o : __real_pread64(fd, b, n, p); }
extern "C" ssize_t __real_pwrite64(int, const void *, size_t, off_t);
extern "C" ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t p) { ssize_t o; return kern::on_io && kern::on_io('W', fd, const_cast<void *>((const void *)b), n, p, &o) ? o : __real_pwrite64(fd, b, n, p); }
