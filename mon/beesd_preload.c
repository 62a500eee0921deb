// Makes names below /dev/disk/by-uuid/ appear as block devices if the monitor lists them.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <fcntl.h>
static const char *map(const char *p, char *b, size_t n)
{
	static const char pre[] = "/dev/disk/by-uuid/"; const char *d = getenv("BEESD_DISKS");
	if (!p || !d || strncmp(p, pre, sizeof pre - 1)) return NULL;
	snprintf(b, n, "%s/%s", d, p + sizeof pre - 1); return b;
}
int stat(const char *p, struct stat *s)
{
	char b[4096]; const char *m = map(p, b, sizeof b); int (*f)(const char *, struct stat *) = dlsym(RTLD_NEXT, "stat");
	int r = f(m ? m : p, s); if (!r && m) s->st_mode = S_IFBLK | 0600; return r;
}
int fstatat(int fd, const char *p, struct stat *s, int fl)
{
	char b[4096]; const char *m = map(p, b, sizeof b); int (*f)(int, const char *, struct stat *, int) = dlsym(RTLD_NEXT, "fstatat");
	int r = f(fd, m ? m : p, s, fl); if (!r && m) s->st_mode = S_IFBLK | 0600; return r;
}
int access(const char *p, int mode)
{
	char b[4096]; const char *m = map(p, b, sizeof b); int (*f)(const char *, int) = dlsym(RTLD_NEXT, "access");
	return f(m ? m : p, mode);
}
