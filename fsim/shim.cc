// System-call shim linked into the daemon under test with -Wl,--wrap=...
// Every wrapped call is reported to the harness, which plays the kernel for
// everything btrfs-specific and may delay, fail or truncate calls.
// The shim keeps no state of its own apart from one connection per thread.
#include "proto.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <sys/utsname.h>
#include <sys/vfs.h>
#include <unistd.h>
#include <linux/openat2.h>
#include <linux/fs.h>
#include <linux/btrfs.h>
#include <linux/fiemap.h>

#define REAL(x) __real_##x
extern "C" {
int __real_ioctl(int, unsigned long, ...);
int __real_fstat64(int, struct stat64 *);
int __real_lstat64(const char *, struct stat64 *);
int __real_fstatfs64(int, struct statfs64 *);
int __real_open64(const char *, int, ...);
int __real_openat64(int, const char *, int, ...);
int __real_close(int);
ssize_t __real_pread64(int, void *, size_t, off64_t);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_pwrite64(int, const void *, size_t, off64_t);
ssize_t __real_write(int, const void *, size_t);
int __real_ftruncate64(int, off64_t);
int __real_fallocate64(int, int, off64_t, off64_t);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_unlinkat(int, const char *, int);
int __real_unlink(const char *);
int __real_rename(const char *, const char *);
int __real_renameat(int, const char *, int, const char *);
int __real_posix_fadvise64(int, off64_t, off64_t, int);
ssize_t __real_readahead(int, off64_t, size_t);
int __real_getrusage(int, struct rusage *);
int __real_uname(struct utsname *);
int __real_getloadavg(double *, int);
int __real_mlock(const void *, size_t);
void __real__exit(int);
int __real_setrlimit64(int, const struct rlimit64 *);
}

namespace {
const char *sock_path()
{
	static const char *p = getenv("FAKEFS_SOCK");
	return p;
}

struct Conn {
	int fd = -1;
	uint64_t sys_usec = 0;
	bool get()
	{
		if (fd >= 0) return true;
		const char *p = sock_path();
		if (!p) return false;
		fd = syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
		if (fd < 0) { perror("shim: socket"); abort(); }
		struct sockaddr_un sa; memset(&sa, 0, sizeof sa); sa.sun_family = AF_UNIX;
		strncpy(sa.sun_path, p, sizeof(sa.sun_path) - 1);
		if (syscall(SYS_connect, fd, &sa, sizeof sa)) { perror("shim: connect"); syscall(SYS_exit_group, 97); }
		return true;
	}
	~Conn() { if (fd >= 0) syscall(SYS_close, fd); fd = -1; }
};
thread_local Conn t_conn;

void xfer_all(int fd, bool out, void *p, size_t n)
{
	char *c = static_cast<char *>(p);
	while (n) {
		// (write under sendto with MSG_NOSIGNAL: the harness may be gone)
		ssize_t r = out ? syscall(SYS_sendto, fd, c, n, MSG_NOSIGNAL, nullptr, 0) : syscall(SYS_read, fd, c, n);
		if (r < 0 && errno == EINTR) continue;
		if (r <= 0) syscall(SYS_exit_group, 98);
		c += r; n -= r;
	}
}

Ident ident(int fd)
{
	Ident id = { 0, 0 };
	struct stat64 st;
	if (fd >= 0 && !REAL(fstat64)(fd, &st)) { id.dev = st.st_dev; id.ino = st.st_ino; }
	return id;
}

struct Call {
	ReqHdr q; RepHdr r; std::vector<char> pay, rep;
	Call(Op op, int fd)
	{
		memset(&q, 0, sizeof q); memset(&r, 0, sizeof r);
		q.op = op; q.tid = syscall(SYS_gettid);
		q.id = ident(fd);
		q.a[5] = fd;
	}
	void add(const void *p, size_t n) { pay.insert(pay.end(), static_cast<const char *>(p), static_cast<const char *>(p) + n); }
	void go()
	{
		const int e = errno;
		if (!t_conn.get()) { r.verdict = 0; r.err = ENOTTY; r.ret = -1; errno = e; return; }
		q.len = pay.size();
		std::vector<char> b(sizeof q + pay.size());
		memcpy(b.data(), &q, sizeof q);
		if (!pay.empty()) memcpy(b.data() + sizeof q, pay.data(), pay.size());
		xfer_all(t_conn.fd, true, b.data(), b.size());
		xfer_all(t_conn.fd, false, &r, sizeof r);
		rep.resize(r.len);
		if (r.len) xfer_all(t_conn.fd, false, rep.data(), r.len);
		t_conn.sys_usec += r.sys_usec;
		errno = e;
	}
	bool failed() { if (r.verdict == 1) { errno = r.err; return true; } return false; }
};

int do_open(int dirfd, const char *path, uint64_t flags, uint64_t mode, uint64_t resolve, bool is2)
{
	Call pre(OP_OPEN_PRE, dirfd == AT_FDCWD ? -1 : dirfd);
	pre.q.a[0] = flags; pre.q.a[1] = mode; pre.q.a[2] = resolve;
	pre.add(path, strlen(path) + 1);
	pre.go();
	if (pre.failed()) return -1;
	int fd;
	if (is2) {
		struct open_how how; memset(&how, 0, sizeof how);
		how.flags = flags; how.mode = mode; how.resolve = resolve;
		if (!(flags & (O_CREAT | __O_TMPFILE))) how.mode = 0;
		// Only the harness knows about subvolume boundaries, the real scratch filesystem has none
		fd = syscall(SYS_openat2, dirfd, path, &how, sizeof how);
	} else {
		fd = REAL(openat64)(dirfd, path, static_cast<int>(flags), static_cast<mode_t>(mode));
	}
	const int e = errno;
	Call post(OP_OPEN_POST, fd);
	post.q.id2 = ident(dirfd == AT_FDCWD ? -1 : dirfd);
	post.q.a[0] = flags; post.q.a[1] = mode; post.q.a[2] = resolve; post.q.a[3] = fd < 0 ? e : 0; post.q.a[4] = fd;
	post.add(path, strlen(path) + 1);
	post.go();
	if (fd >= 0 && post.r.verdict == 1) {
		REAL(close)(fd);
		errno = post.r.err;
		return -1;
	}
	errno = e;
	return fd;
}

// common PRE/do/POST for calls on one fd
template <class F> int64_t around(Op pre_op, int fd, uint64_t a0, uint64_t a1, const void *payload, size_t plen, size_t want, F f)
{
	Call pre(pre_op, fd);
	pre.q.a[0] = a0; pre.q.a[1] = a1; pre.q.a[2] = want;
	pre.go();
	if (pre.failed()) return -1;
	size_t n = want;
	if (pre.r.verdict == 2 && pre.r.a[0] < n) n = pre.r.a[0];
	const int64_t rv = f(n);
	const int e = errno;
	Call post(static_cast<Op>(pre_op + 1), fd);
	post.q.a[0] = a0; post.q.a[1] = a1; post.q.a[2] = want; post.q.a[3] = rv; post.q.a[4] = rv < 0 ? e : 0;
	if (payload && rv > 0) post.add(payload, std::min<size_t>(plen, rv));
	post.go();
	errno = e;
	return rv;
}
}

extern "C" {

int __wrap_open64(const char *path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, mode_t); va_end(ap);
	return do_open(AT_FDCWD, path, static_cast<unsigned>(flags), mode, 0, false);
}
int __wrap_open(const char *path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, mode_t); va_end(ap);
	return do_open(AT_FDCWD, path, static_cast<unsigned>(flags), mode, 0, false);
}
int __wrap_openat64(int dirfd, const char *path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, mode_t); va_end(ap);
	return do_open(dirfd, path, static_cast<unsigned>(flags), mode, 0, false);
}
int __wrap_openat(int dirfd, const char *path, int flags, ...)
{
	va_list ap; va_start(ap, flags); mode_t mode = va_arg(ap, mode_t); va_end(ap);
	return do_open(dirfd, path, static_cast<unsigned>(flags), mode, 0, false);
}
// strong definition overrides the weak one in libcrucible
int openat2(int dirfd, const char *path, const struct open_how *how, size_t)
{
	return do_open(dirfd, path, how->flags, how->mode, how->resolve, true);
}
int __wrap_close(int fd)
{
	Call c(OP_CLOSE, fd); c.q.a[0] = fd;
	c.go();
	return REAL(close)(fd);
}
static void fake_stat(Call &c, struct stat64 *st)
{
	if (c.r.a[3]) { st->st_dev = c.r.a[0]; st->st_ino = c.r.a[1]; }
}
int __wrap_fstat64(int fd, struct stat64 *st)
{
	int rv = REAL(fstat64)(fd, st);
	if (rv) return rv;
	Call c(OP_FSTAT, fd); c.go();
	if (c.failed()) return -1;
	fake_stat(c, st);
	return 0;
}
int __wrap_fstat(int fd, struct stat *st) { return __wrap_fstat64(fd, reinterpret_cast<struct stat64 *>(st)); }
int __wrap_lstat64(const char *path, struct stat64 *st)
{
	int rv = REAL(lstat64)(path, st);
	if (rv) return rv;
	Call c(OP_LSTAT, -1);
	c.q.id.dev = st->st_dev; c.q.id.ino = st->st_ino;
	c.add(path, strlen(path) + 1);
	c.go();
	if (c.failed()) return -1;
	fake_stat(c, st);
	return 0;
}
int __wrap_fstatfs64(int fd, struct statfs64 *st)
{
	int rv = REAL(fstatfs64)(fd, st);
	if (rv) return rv;
	Call c(OP_FSTATFS, fd); c.go();
	if (c.failed()) return -1;
	if (c.r.a[3]) st->f_type = c.r.a[0];
	return 0;
}
int __wrap_fstatfs(int fd, struct statfs *st) { return __wrap_fstatfs64(fd, reinterpret_cast<struct statfs64 *>(st)); }

ssize_t __wrap_pread64(int fd, void *buf, size_t n, off64_t off)
{
	return around(OP_READ_PRE, fd, off, 0, nullptr, 0, n, [&](size_t m) { return REAL(pread64)(fd, buf, m, off); });
}
ssize_t __wrap_pread(int fd, void *buf, size_t n, off_t off) { return __wrap_pread64(fd, buf, n, off); }
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
	return around(OP_READ_PRE, fd, lseek64(fd, 0, SEEK_CUR), 1, nullptr, 0, n, [&](size_t m) { return REAL(read)(fd, buf, m); });
}
ssize_t __wrap_pwrite64(int fd, const void *buf, size_t n, off64_t off)
{
	return around(OP_WRITE_PRE, fd, off, 0, buf, n, n, [&](size_t m) { return REAL(pwrite64)(fd, buf, m, off); });
}
ssize_t __wrap_pwrite(int fd, const void *buf, size_t n, off_t off) { return __wrap_pwrite64(fd, buf, n, off); }
ssize_t __wrap_write(int fd, const void *buf, size_t n)
{
	const off64_t pos = lseek64(fd, 0, SEEK_CUR);
	return around(OP_WRITE_PRE, fd, pos, 1, buf, n, n, [&](size_t m) { return REAL(write)(fd, buf, m); });
}
int __wrap_ftruncate64(int fd, off64_t size)
{
	return around(OP_TRUNC_PRE, fd, size, 0, nullptr, 0, 0, [&](size_t) { return REAL(ftruncate64)(fd, size); });
}
int __wrap_ftruncate(int fd, off_t size) { return __wrap_ftruncate64(fd, size); }
int __wrap_fallocate64(int fd, int mode, off64_t off, off64_t len)
{
	Call pre(OP_FALLOC_PRE, fd); pre.q.a[0] = off; pre.q.a[1] = len; pre.q.a[2] = mode; pre.go();
	if (pre.failed()) return -1;
	int rv = REAL(fallocate64)(fd, mode, off, len); int e = errno;
	Call post(OP_FALLOC_POST, fd); post.q.a[0] = off; post.q.a[1] = len; post.q.a[2] = mode; post.q.a[3] = rv; post.go();
	errno = e; return rv;
}
int __wrap_fallocate(int fd, int mode, off_t off, off_t len) { return __wrap_fallocate64(fd, mode, off, len); }
int __wrap_fsync(int fd)
{
	return around(OP_FSYNC_PRE, fd, 0, 0, nullptr, 0, 0, [&](size_t) { return 0; });
}
int __wrap_fdatasync(int fd)
{
	return around(OP_FSYNC_PRE, fd, 1, 0, nullptr, 0, 0, [&](size_t) { return 0; });
}
int __wrap_syncfs(int fd)
{
	return around(OP_FSYNC_PRE, fd, 2, 0, nullptr, 0, 0, [&](size_t) { return 0; });
}
int __wrap_unlinkat(int dirfd, const char *path, int flags)
{
	Call pre(OP_UNLINK_PRE, dirfd == AT_FDCWD ? -1 : dirfd); pre.add(path, strlen(path) + 1); pre.go();
	if (pre.failed()) return -1;
	int rv = REAL(unlinkat)(dirfd, path, flags); int e = errno;
	Call post(OP_UNLINK_POST, dirfd == AT_FDCWD ? -1 : dirfd); post.q.a[3] = rv; post.add(path, strlen(path) + 1); post.go();
	errno = e; return rv;
}
int __wrap_unlink(const char *path) { return __wrap_unlinkat(AT_FDCWD, path, 0); }
int __wrap_renameat(int d1, const char *p1, int d2, const char *p2)
{
	for (int phase = 0; phase < 2; ++phase) {
		static thread_local int rv, e;
		if (phase == 1) { rv = REAL(renameat)(d1, p1, d2, p2); e = errno; }
		Call c(phase ? OP_RENAME_POST : OP_RENAME_PRE, d1 == AT_FDCWD ? -1 : d1);
		c.q.id2 = ident(d2 == AT_FDCWD ? -1 : d2);
		c.add(p1, strlen(p1) + 1); c.add(p2, strlen(p2) + 1);
		if (phase) c.q.a[3] = rv;
		c.go();
		if (!phase && c.failed()) return -1;
		if (phase) { errno = e; return rv; }
	}
	return -1;
}
int __wrap_rename(const char *p1, const char *p2) { return __wrap_renameat(AT_FDCWD, p1, AT_FDCWD, p2); }
int __wrap_posix_fadvise64(int fd, off64_t off, off64_t len, int advice)
{
	Call c(OP_FADVISE, fd); c.q.a[0] = off; c.q.a[1] = len; c.q.a[2] = advice; c.go();
	if (c.failed()) return c.r.err;
	return 0;
}
int __wrap_posix_fadvise(int fd, off_t off, off_t len, int advice) { return __wrap_posix_fadvise64(fd, off, len, advice); }
ssize_t __wrap_readahead(int, off64_t, size_t) { return 0; }
int __wrap_mlock(const void *, size_t) { return 0; }
int __wrap_setrlimit64(int res, const struct rlimit64 *r)
{
	// the real limit may exceed what this sandbox allows; a large but allowed limit is enough
	struct rlimit64 l = *r;
	if (l.rlim_cur > 65536) l.rlim_cur = l.rlim_max = 65536;
	return REAL(setrlimit64)(res, &l);
}
int __wrap_setrlimit(int res, const struct rlimit *r) { return __wrap_setrlimit64(res, reinterpret_cast<const struct rlimit64 *>(r)); }
int __wrap_getrusage(int who, struct rusage *ru)
{
	int rv = REAL(getrusage)(who, ru);
	if (!rv && who == RUSAGE_THREAD) {
		// real cpu time is replaced, so that decisions depend only on what the simulated kernel charged
		ru->ru_stime.tv_sec = t_conn.sys_usec / 1000000;
		ru->ru_stime.tv_usec = t_conn.sys_usec % 1000000;
	}
	return rv;
}
int __wrap_uname(struct utsname *u)
{
	int rv = REAL(uname)(u);
	if (rv) return rv;
	Call c(OP_UNAME, -1); c.go();
	if (!c.rep.empty()) { strncpy(u->release, c.rep.data(), sizeof(u->release) - 1); u->release[sizeof(u->release) - 1] = 0; }
	return 0;
}
int __wrap_getloadavg(double *la, int n)
{
	int rv = REAL(getloadavg)(la, n);
	Call c(OP_LOADAVG, -1); c.go();
	if (c.r.a[3]) for (int i = 0; i < n; ++i) la[i] = c.r.a[0] / 1000.0;
	return rv;
}
void __wrap__exit(int code)
{
	Call c(OP_EXIT, -1); c.q.a[0] = code; c.go();
	REAL(_exit)(code);
	abort();
}

// calls the daemon has no business making on user files: reported, then performed
#define FOREIGN_FD(name, fd) do { Call c(OP_FOREIGN, fd); c.add(name, sizeof(name)); c.go(); } while (0)
#define FOREIGN_PATH(name, dirfd, path) do { Call c(OP_FOREIGN, (dirfd) == AT_FDCWD ? -1 : (dirfd)); c.add(name, sizeof(name)); c.add(path, strlen(path) + 1); c.go(); } while (0)
int __real_fchmod(int, mode_t);
int __wrap_fchmod(int fd, mode_t m) { FOREIGN_FD("fchmod", fd); return __real_fchmod(fd, m); }
int __real_fchown(int, uid_t, gid_t);
int __wrap_fchown(int fd, uid_t u, gid_t g) { FOREIGN_FD("fchown", fd); return __real_fchown(fd, u, g); }
int __real_futimens(int, const struct timespec *);
int __wrap_futimens(int fd, const struct timespec *t) { FOREIGN_FD("futimens", fd); return __real_futimens(fd, t); }
int __real_fsetxattr(int, const char *, const void *, size_t, int);
int __wrap_fsetxattr(int fd, const char *n, const void *v, size_t s, int f) { FOREIGN_FD("fsetxattr", fd); return __real_fsetxattr(fd, n, v, s, f); }
int __real_truncate64(const char *, off64_t);
int __wrap_truncate64(const char *p, off64_t s) { FOREIGN_PATH("truncate", AT_FDCWD, p); return __real_truncate64(p, s); }
int __real_linkat(int, const char *, int, const char *, int);
int __wrap_linkat(int a, const char *b, int c_, const char *d, int e) { FOREIGN_PATH("linkat", c_, d); return __real_linkat(a, b, c_, d, e); }
int __real_mkdirat(int, const char *, mode_t);
int __wrap_mkdirat(int a, const char *b, mode_t m) { FOREIGN_PATH("mkdirat", a, b); return __real_mkdirat(a, b, m); }
ssize_t __real_copy_file_range(int, off64_t *, int, off64_t *, size_t, unsigned);
ssize_t __wrap_copy_file_range(int a, off64_t *b, int c_, off64_t *d, size_t e, unsigned f) { FOREIGN_FD("copy_file_range", c_); return __real_copy_file_range(a, b, c_, d, e, f); }

int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	req = static_cast<uint32_t>(req);
	Call c(OP_IOCTL, fd);
	c.q.a[0] = req;
	switch (req) {
		case FS_IOC_GETFLAGS: {
			c.go(); if (c.r.ret < 0) { errno = c.r.err; return -1; }
			*static_cast<int *>(arg) = c.r.a[0];
			return 0;
		}
		case FS_IOC_SETFLAGS: {
			c.q.a[1] = *static_cast<int *>(arg);
			c.go(); if (c.r.ret < 0) { errno = c.r.err; return -1; }
			return 0;
		}
		case BTRFS_IOC_FS_INFO: {
			c.go(); if (c.r.ret < 0) { errno = c.r.err; return -1; }
			memcpy(arg, c.rep.data(), std::min(c.rep.size(), sizeof(struct btrfs_ioctl_fs_info_args)));
			return 0;
		}
		case BTRFS_IOC_INO_LOOKUP: {
			c.add(arg, sizeof(struct btrfs_ioctl_ino_lookup_args));
			c.go(); if (c.r.ret < 0) { errno = c.r.err; return -1; }
			memcpy(arg, c.rep.data(), sizeof(struct btrfs_ioctl_ino_lookup_args));
			return 0;
		}
		case BTRFS_IOC_TREE_SEARCH_V2: {
			auto *p = static_cast<struct btrfs_ioctl_search_args_v2 *>(arg);
			c.add(p, sizeof(*p));
			c.go();
			if (c.rep.size() >= sizeof(p->key)) memcpy(&p->key, c.rep.data(), sizeof(p->key));
			if (c.r.ret < 0) { if (c.r.a[0]) p->buf_size = c.r.a[0]; errno = c.r.err; return -1; }
			if (c.rep.size() - sizeof(p->key) > p->buf_size) abort();
			memcpy(p->buf, c.rep.data() + sizeof(p->key), c.rep.size() - sizeof(p->key));
			return 0;
		}
		case BTRFS_IOC_LOGICAL_INO:
		case BTRFS_IOC_LOGICAL_INO_V2: {
			auto *p = static_cast<struct btrfs_ioctl_logical_ino_args *>(arg);
			c.add(p, sizeof(*p));
			c.go(); if (c.r.ret < 0) { errno = c.r.err; return -1; }
			memcpy(reinterpret_cast<void *>(static_cast<uintptr_t>(p->inodes)), c.rep.data(), std::min<size_t>(c.rep.size(), p->size));
			return 0;
		}
		case BTRFS_IOC_INO_PATHS: {
			auto *p = static_cast<struct btrfs_ioctl_ino_path_args *>(arg);
			c.add(p, sizeof(*p));
			c.go(); if (c.r.ret < 0) { errno = c.r.err; return -1; }
			memcpy(reinterpret_cast<void *>(static_cast<uintptr_t>(p->fspath)), c.rep.data(), std::min<size_t>(c.rep.size(), p->size));
			return 0;
		}
		case FIDEDUPERANGE: {
			auto *p = static_cast<struct file_dedupe_range *>(arg);
			c.add(p, sizeof(*p) + p->dest_count * sizeof(p->info[0]));
			for (unsigned i = 0; i < p->dest_count; ++i) { Ident id = ident(p->info[i].dest_fd); c.add(&id, sizeof id); }
			c.go(); if (c.r.ret < 0) { errno = c.r.err; return -1; }
			memcpy(arg, c.rep.data(), sizeof(*p) + p->dest_count * sizeof(p->info[0]));
			return 0;
		}
		case FICLONERANGE: {
			auto *p = static_cast<struct file_clone_range *>(arg);
			c.add(p, sizeof(*p)); Ident id = ident(p->src_fd); c.add(&id, sizeof id);
			c.go(); if (c.r.ret < 0) { errno = c.r.err; return -1; }
			return 0;
		}
		case BTRFS_IOC_DEFRAG_RANGE:
		default:
			c.go(); if (c.r.ret < 0) { errno = c.r.err; return -1; }
			return c.r.ret;
	}
}
}
