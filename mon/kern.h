// A scripted kernel for the monitor programs: ioctl and fstat calls made by the code under
// test are answered by functions the program installs.  Contents of metadata trees are kept
// as plain sorted maps; a search is answered by scanning them.
#pragma once
#include "mon.h"
#include <linux/btrfs.h>
#include <linux/btrfs_tree.h>
#include <linux/fiemap.h>
#include <linux/fs.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <errno.h>
namespace kern {
using mon::u64; using std::string; using std::vector;
// installed by the program; return value and errno are passed on
extern std::function<int(int fd, unsigned long req, void *arg)> on_ioctl;
extern std::function<void(int fd, struct stat *st)> on_fstat;
struct Key { u64 o; uint8_t t; u64 f;
	bool operator<(const Key &k) const { return std::tie(o, t, f) < std::tie(k.o, k.t, k.f); }
	bool operator==(const Key &k) const { return std::tie(o, t, f) == std::tie(k.o, k.t, k.f); } };
struct Item { u64 transid; string data; };
typedef std::map<Key, Item> Tree;
struct Trees {
	std::mutex mu; std::map<u64, Tree> t;
	u64 searches = 0, overflows = 0, returned = 0; int batch = 0; // batch: at most this many items per call (0: as many as fit)
	// the documented behaviour of BTRFS_IOC_TREE_SEARCH_V2
	int search(btrfs_ioctl_search_args_v2 *a) {
		std::lock_guard<std::mutex> l(mu); ++searches;
		auto &k = a->key; auto ti = t.find(k.tree_id);
		if (ti == t.end()) { errno = ENOENT; return -1; }
		size_t cap = a->buf_size, used = 0; u64 n = 0, want = k.nr_items;
		if (cap < sizeof(btrfs_ioctl_search_header)) { a->buf_size = sizeof(btrfs_ioctl_search_header); errno = EOVERFLOW; return -1; }
		Key lo{k.min_objectid, (uint8_t)k.min_type, k.min_offset}, hi{k.max_objectid, (uint8_t)k.max_type, k.max_offset};
		char *p = (char *)a->buf;
		for (auto i = ti->second.lower_bound(lo); i != ti->second.end() && n < want; ++i) {
			if (hi < i->first) break;
			if (i->second.transid < k.min_transid || i->second.transid > k.max_transid) continue;
			btrfs_ioctl_search_header h = {}; h.objectid = i->first.o; h.type = i->first.t; h.offset = i->first.f; h.transid = i->second.transid; h.len = i->second.data.size();
			if (sizeof h + h.len > cap && n == 0) {
				++overflows; a->buf_size = sizeof h + h.len; h.len = 0;
				memcpy(p + used, &h, sizeof h); errno = EOVERFLOW; return -1;
			}
			if (used + sizeof h + h.len > cap) break;
			memcpy(p + used, &h, sizeof h); memcpy(p + used + sizeof h, i->second.data.data(), h.len); used += sizeof h + h.len; ++n; ++returned;
			if (batch && (int)n >= batch) break;
		}
		k.nr_items = n; return 0;
	}
};
inline int fail(int e) { errno = e; return -1; }
template <class T> inline string pod(const T &t) { return string((const char *)&t, sizeof t); }
}
