// A model of the parts of btrfs that bees can see.
// Real files in a scratch directory hold the bytes; this model holds
// subvolumes, inodes, extents, references, generations and transactions.
// It lives in the harness process, so it survives a SIGKILL of the daemon.
#ifndef FSIM_SIM_H
#define FSIM_SIM_H
#include "proto.h"
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <vector>
#include <sys/types.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
const u64 BLK = 4096;

struct RefKey {
	u64 root, ino, off;
	bool operator==(const RefKey &o) const { return root == o.root && ino == o.ino && off == o.off; }
	bool operator<(const RefKey &o) const { return std::tie(root, ino, off) < std::tie(o.root, o.ino, o.off); }
};

struct Ext {
	u64 id = 0;                       // never reused, unlike bytenr
	u64 bytenr = 0, disk_len = 0, ram_len = 0, gen = 0;
	u8 comp = 0;
	bool nodatasum = false, prealloc = false;
	bool in_tree = false;             // visible in the extent tree (after commit)
	bool reused = false;              // occupies space that another extent occupied before
	bool dead = false;                // no references, freed at next commit
	bool by_sut = false;              // allocated for data the daemon wrote
	u64 slow_usec = 0;                // kernel cpu time charged to reference lookups
	bool slow_seen = false;           // a slow lookup has been completed
	u64 lookups = 0, slow_lookups = 0;
	std::set<RefKey> refs;            // keyed by file extent item position
	std::vector<u8> read;             // per 4K block: read by daemon (bit0: current run, bit1: ever)
	u64 max_refs_seen = 0;
	u64 searched = 0, search_gen = 0; // times shown by an extent tree search, generation at the last one
	u64 tree_gen = 0;                 // generation when it became visible in the extent tree
	u64 nblocks() const { return ram_len / BLK; }
};

enum ItemType { IT_INLINE = 0, IT_REG = 1, IT_PREALLOC = 2 };

struct Item {
	u64 len = 0;                      // bytes of file covered (4K multiple except inline)
	int type = IT_REG;
	Ext *e = nullptr;                 // null: hole (disk_bytenr == 0)
	u64 eoff = 0;
	u64 gen = 0;
	u8 comp = 0;
};

struct Name { u64 parent; std::string name; };

enum Kind { K_USER, K_TMP, K_HOME, K_OUT };

struct Inode {
	u64 root = 0, ino = 0;
	bool dir = false;
	bool symlink = false;
	Kind kind = K_USER;
	u64 size = 0;
	u64 flags = 0;                    // BTRFS_INODE_NODATASUM=1 NODATACOW=2 COMPRESS=0x400 NOCOMPRESS=8
	u32 ioc_flags = 0;                // as seen by FS_IOC_GETFLAGS (derived bits added)
	std::vector<Name> names;
	std::map<u64, Item> items;
	std::map<u64, Item> gone;         // what they were when the subvolume was deleted (for open descriptors)
	std::map<u64, std::pair<u64,u64>> gone_at; // where: bytenr and id of those extents
	std::string data;                 // what the users of this file expect to read (shadow)
	int opens = 0;                    // open descriptors held by the daemon
	int hfd = -1;                     // harness' own descriptor on the backing file
	u64 rdev = 0, rino = 0;
	std::vector<std::pair<u64,u64>> dirty; // delalloc ranges [begin,end)
	bool deleted = false;
	u64 ctransid = 0;
	// durability bookkeeping for state files
	bool unsynced = false;
	u64 sut_writes = 0;
	bool write_failed = false;
	u64 modcount = 0;                 // content modifications by users
	std::map<std::string,u64> children; // directories: name -> ino (or subvol root marker)
	std::map<std::string,u64> subvols;  // directories: name -> root id
};
typedef std::shared_ptr<Inode> IP;

struct Root {
	u64 id = 0, parent = 5, parent_dir = 256; std::string name;
	std::string rpath;                // real path of the top directory
	bool ro = false, snap = false;
	u64 gen = 0, otransid = 0;
	u64 next_ino = 257;
	u64 dev = 0;                      // st_dev reported
	std::map<u64, IP> inodes;
};

struct Chunk { u64 start, len, type; u64 gen; };

struct WriteOpts { u8 comp = 0; u64 max_extent = 128 << 20; bool inl = false; };

struct TItem { u64 obj, type, off, transid; std::string pay; };

class Sim {
public:
	std::recursive_mutex mu;
	std::string base;                 // scratch directory
	std::mt19937_64 rng;
	std::map<u64, Root> roots;
	std::map<u64, std::unique_ptr<Ext>> exts;      // by bytenr, alive or dead-not-yet-freed
	std::map<std::pair<u64,u64>, IP> by_real;
	std::vector<Chunk> chunks;
	bool reused = false;                           // result of the last alloc() had been in use before
	std::map<u64,u64> free_list;                   // bytenr -> len, reusable
	bool reuse_bytenr = false;
	bool shuffle_refs = true;
	u64 running = 100;                // running transaction id
	bool trans_dirty = false;
	u64 next_ext_id = 1;
	u64 want_bytenr = 0;              // place the next extent here if that space is free
	u64 alloc_ptr = 0; size_t alloc_chunk = 0;
	u64 chunk_size = 64 << 20;
	u64 alloc_gap = 0;                // bytes skipped between extents
	u64 inode_group_shift = 2, extent_group_shift = 20;
	std::map<u64, std::map<u64,u64>> leafgen;      // tree -> group -> generation
	u64 next_root = 256 ;
	std::atomic<u64> commits{0};
	u64 home_dir_real_dev = 0, home_dir_real_ino = 0;
	u64 dedupe_cap = 0;               // nonzero: kernel handles only this many bytes per call
	bool send_in_progress = false;
	std::set<u64> slow_bytenr;

	Sim(const std::string &base, u64 seed);
	~Sim();

	// --- transactions
	void touch() { trans_dirty = true; }
	u64 committed() const { return running - 1; }
	void commit(bool force = false);
	void flush_inode(Inode &i);

	// --- user operations (all return/take model objects, bytes mirrored to real files)
	IP create(u64 root, const std::string &path, u64 flags = 0);
	IP lookup(u64 root, const std::string &path);
	IP get(u64 root, u64 ino);
	u64 mkdir(u64 root, const std::string &path);
	void write(Inode &i, u64 off, const std::string &d, WriteOpts o = WriteOpts());
	void truncate(Inode &i, u64 size);
	void punch(Inode &i, u64 off, u64 len);
	void prealloc(Inode &i, u64 off, u64 len, bool keep_size = false);
	void reflink(Inode &src, u64 soff, u64 len, Inode &dst, u64 doff);
	void unlink(u64 root, const std::string &path);
	void rename(u64 root, const std::string &from, const std::string &to);   // within one subvolume
	void link(u64 root, const std::string &from, const std::string &to);
	void symlink(u64 root, const std::string &target, const std::string &path);
	void set_flags(Inode &i, u64 flags);
	u64 subvol(u64 parent_root, const std::string &path);
	u64 snapshot(u64 src, u64 parent_root, const std::string &path, bool ro);
	void delete_subvol(u64 root);
	void swap_subvols(u64 a, u64 b);               // exchange the places of two subvolumes that contain no others
	void set_ro(u64 root, bool ro);
	std::string real_path(u64 root, const std::string &path);
	std::string check_content(Inode &i);           // "" or description of difference
	std::string self_check();                      // model consistency

	// --- daemon-visible kernel operations
	int tree_search(u64 root_of_fd, const std::string &args, std::string &out, u64 &need);
	int logical_ino(const std::string &args, bool v2, std::string &out, u64 &sys_usec, Ext **found);
	int ino_paths(Inode &fd, const std::string &args, std::string &out);
	int ino_lookup(Inode &fd, std::string &args);
	void fs_info(std::string &out);
	// returns status for one destination: 0, 1 (differs) or -errno; deduped set
	int dedupe(Inode &src, u64 soff, u64 len, Inode &dst, u64 doff, u64 &deduped);

	// --- daemon side bookkeeping
	IP by_ident(const Ident &id);
	IP adopt(const Ident &id, u64 root, Kind k);   // new inode created by the daemon
	void forget_if_dead(const IP &i);
	void sut_wrote(Inode &i, u64 off, u64 len, const char *d);
	void sut_truncated(Inode &i, u64 size);
	void mark_read(Inode &i, u64 off, u64 len);
	void sut_gone();                               // daemon died: all its descriptors are closed
	IP dir_of(u64 root, const std::string &path, std::string &leaf);
	void attach(const IP &d, const std::string &name, const IP &i);
	void detach(const IP &d, const std::string &name);

	// --- queries
	u64 phys_at(Inode &i, u64 off, Ext **e = nullptr);  // 0: hole; physical identity of the block: bytenr + eoff (per ram offset)
	u64 referenced_bytes();                         // sum of disk_len of extents with references
	u64 user_referenced_bytes();
	std::vector<Ext *> user_extents();
	std::string describe(Inode &i);

	Ext *new_ext(u64 ram, u64 disk, u8 comp, Inode &i);
	void free_now(Ext *e);
private:
	void drop_range(Inode &i, u64 b, u64 e, bool touch_leaf = true);
	void add_item(Inode &i, u64 off, const Item &it);
	void unref(Inode &i, u64 off, Item &it);
	void write_extents(Inode &i, u64 b, u64 e, const WriteOpts &o, bool sut);
	void touch_inode(Inode &i);
	void touch_ext(Ext &e);
	void iter(u64 tree, u64 obj, u64 type, u64 off, const std::function<bool(const TItem &)> &f);
	u64 leaf(u64 tree, u64 group);
	std::vector<std::string> paths_of(Inode &i);
	bool dir_path(u64 root, u64 ino, std::string &out);
	void copy_tree(Root &src, Root &dst);
	u64 alloc(u64 len);
};

// physical identity of a block
struct PhysBlk { Ext *e; u64 eoff; };

#endif
