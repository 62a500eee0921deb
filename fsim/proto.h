// Wire protocol between the system-call shim linked into the daemon under test
// and the simulated filesystem ("server") in the harness process.
#ifndef FSIM_PROTO_H
#define FSIM_PROTO_H
#include <cstdint>

enum Op : uint32_t {
	OP_HELLO = 1,
	OP_OPEN_PRE, OP_OPEN_POST, OP_CLOSE,
	OP_FSTAT, OP_LSTAT, OP_FSTATFS,
	OP_READ_PRE, OP_READ_POST,
	OP_WRITE_PRE, OP_WRITE_POST,
	OP_TRUNC_PRE, OP_TRUNC_POST,
	OP_FALLOC_PRE, OP_FALLOC_POST,
	OP_FSYNC_PRE, OP_FSYNC_POST,
	OP_UNLINK_PRE, OP_UNLINK_POST,
	OP_RENAME_PRE, OP_RENAME_POST,
	OP_FADVISE,
	OP_IOCTL,
	OP_UNAME, OP_LOADAVG,
	OP_FOREIGN,          // a mutating call that the daemon is not expected to make
	OP_EXIT,
};
static const char *const op_names[] = { "none", "hello", "open_pre", "open", "close", "fstat", "lstat", "fstatfs",
	"read_pre", "read", "write_pre", "write", "trunc_pre", "trunc", "falloc_pre", "falloc", "fsync_pre", "fsync",
	"unlink_pre", "unlink", "rename_pre", "rename", "fadvise", "ioctl", "uname", "loadavg", "foreign", "exit" };

struct Ident { uint64_t dev, ino; };          // identity of the real backing object (0,0 = none)

struct ReqHdr {
	uint32_t op, len;                     // len = payload bytes after this header
	uint64_t tid;
	Ident    id;                          // main fd
	Ident    id2;                         // second fd (rename target directory)
	uint64_t a[6];                        // op specific
};
// verdict for *_PRE: 0 proceed, 1 fail with err, 2 short transfer of a[0] bytes
struct RepHdr {
	int64_t  ret;
	int32_t  err;
	uint32_t verdict;
	uint64_t a[4];
	uint64_t sys_usec;                    // fake kernel cpu time charged to the calling thread
	uint32_t len, pad;
};
#endif
