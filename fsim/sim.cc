#include "sim.h"
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <linux/btrfs.h>
#include <linux/btrfs_tree.h>
#include <linux/fs.h>

using std::string;
typedef std::unique_lock<std::recursive_mutex> Lk;

static void die(const string &s) { fprintf(stderr, "fsim: internal error: %s (errno %s)\n", s.c_str(), strerror(errno)); fflush(stderr); _exit(70); }
static u64 up(u64 x) { return (x + BLK - 1) & ~(BLK - 1); }
static u64 dn(u64 x) { return x & ~(BLK - 1); }

Sim::Sim(const string &b, u64 seed) : base(b), rng(seed)
{
	// chunk layout: system, metadata, data ...
	u64 p = 1 << 20;
	chunks.push_back({p, 4 << 20, BTRFS_BLOCK_GROUP_SYSTEM, 1}); p += 4 << 20;
	chunks.push_back({p, 16 << 20, BTRFS_BLOCK_GROUP_METADATA, 1}); p += 16 << 20;
	chunks.push_back({p, chunk_size, BTRFS_BLOCK_GROUP_DATA, 1});
	alloc_chunk = 2; alloc_ptr = p;
	Root r; r.id = 5; r.parent = 0; r.rpath = base + "/fs"; r.dev = 0x1005; r.gen = running;
	if (::mkdir(r.rpath.c_str(), 0755)) die("mkdir " + r.rpath);
	roots[5] = r;
	auto d = std::make_shared<Inode>();
	d->root = 5; d->ino = 256; d->dir = true;
	roots[5].inodes[256] = d;
	struct stat st; if (stat(r.rpath.c_str(), &st)) die("stat");
	d->rdev = st.st_dev; d->rino = st.st_ino; by_real[{st.st_dev, st.st_ino}] = d;
	leafgen[5][256 >> inode_group_shift] = 1;
}

Sim::~Sim()
{
	for (auto &r : roots) for (auto &i : r.second.inodes) if (i.second->hfd >= 0) { ::close(i.second->hfd); i.second->hfd = -1; }
}

u64 Sim::leaf(u64 tree, u64 group) { auto &m = leafgen[tree]; auto f = m.find(group); return f == m.end() ? 1 : f->second; }
void Sim::touch_inode(Inode &i) { leafgen[i.root][i.ino >> inode_group_shift] = running; i.ctransid = running; auto r = roots.find(i.root); if (r != roots.end()) r->second.gen = running; touch(); }
void Sim::touch_ext(Ext &e) { leafgen[2][e.bytenr >> extent_group_shift] = running; touch(); }

u64 Sim::alloc(u64 len)
{
	reused = true;
	if (want_bytenr) {
		const u64 b = want_bytenr; want_bytenr = 0;
		auto n = exts.lower_bound(b); bool used = n != exts.end() && n->first < b + len;
		if (n != exts.begin()) { auto p = n; --p; if (p->first + p->second->disk_len > b) used = true; }
		if (!used && b + len <= alloc_ptr) {
			for (auto f = free_list.begin(); f != free_list.end();) { if (f->first < b + len && f->first + f->second > b) f = free_list.erase(f); else ++f; }
			return b;
		}
	}
	if (reuse_bytenr) {
		for (auto f = free_list.begin(); f != free_list.end(); ++f) {
			if (f->second >= len) {
				u64 b = f->first, l = f->second; free_list.erase(f);
				if (l > len) free_list[b + len] = l - len;
				return b;
			}
		}
	}
	reused = false;
	alloc_ptr += alloc_gap;
	while (alloc_ptr + len > chunks[alloc_chunk].start + chunks[alloc_chunk].len) {
		// new metadata chunk now and then, then a new data chunk
		u64 p = chunks.back().start + chunks.back().len;
		if (chunks.size() % 3 == 0) { chunks.push_back({p, 16 << 20, BTRFS_BLOCK_GROUP_METADATA, running}); p += 16 << 20; }
		if (chunks.size() % 5 == 0) p += 8 << 20; // unallocated gap
		chunks.push_back({p, std::max(chunk_size, len), BTRFS_BLOCK_GROUP_DATA, running});
		alloc_chunk = chunks.size() - 1; alloc_ptr = p;
		leafgen[3][0] = running; touch();
	}
	u64 b = alloc_ptr; alloc_ptr += len;
	return b;
}

Ext *Sim::new_ext(u64 ram, u64 disk, u8 comp, Inode &i)
{
	auto e = std::make_unique<Ext>();
	e->id = next_ext_id++;
	e->bytenr = alloc(disk); e->reused = reused; e->disk_len = disk; e->ram_len = ram; e->comp = comp; e->gen = running;
	e->nodatasum = i.flags & 1;
	e->read.assign(ram / BLK, 0);
	Ext *p = e.get();
	exts[p->bytenr] = std::move(e);
	touch_ext(*p);
	return p;
}

void Sim::unref(Inode &i, u64 off, Item &it)
{
	if (!it.e) return;
	it.e->refs.erase({i.root, i.ino, off});
	touch_ext(*it.e);
	if (it.e->refs.empty()) it.e->dead = true;
}

void Sim::add_item(Inode &i, u64 off, const Item &it)
{
	i.items[off] = it;
	if (it.e) { it.e->refs.insert({i.root, i.ino, off}); it.e->dead = false; it.e->max_refs_seen = std::max<u64>(it.e->max_refs_seen, it.e->refs.size()); touch_ext(*it.e); }
	touch_inode(i);
}

void Sim::drop_range(Inode &i, u64 b, u64 e, bool)
{
	if (b >= e) return;
	auto f = i.items.upper_bound(b);
	if (f != i.items.begin()) --f;
	std::vector<std::pair<u64, Item>> hit;
	for (; f != i.items.end() && f->first < e; ++f) if (f->first + std::max<u64>(f->second.len, 1) > b) hit.push_back(*f);
	for (auto &h : hit) {
		u64 o = h.first; Item it = h.second;
		// insert the remaining pieces before dropping the reference, so that the extent never looks dead
		i.items.erase(o);
		if (it.type == IT_INLINE) { touch_inode(i); continue; }
		bool keep_at_o = false;
		if (o < b) { Item l = it; l.len = b - o; add_item(i, o, l); keep_at_o = true; }
		if (o + it.len > e) { Item r = it; r.eoff += e - o; r.len = o + it.len - e; add_item(i, e, r); if (e == o) keep_at_o = true; }
		if (!keep_at_o) unref(i, o, it);
		touch_inode(i);
	}
}

void Sim::write_extents(Inode &i, u64 b, u64 e, const WriteOpts &o, bool sut)
{
	drop_range(i, b, e);
	// converting an inline file: the rest of the inline data becomes regular too (caller rewrites from 0)
	while (b < e) {
		u64 l = e - b;
		u8 comp = o.comp;
		if (comp) l = std::min<u64>(l, 128 << 10);
		l = std::min<u64>(l, o.max_extent);
		if (l < 2 * BLK) comp = 0;
		u64 disk = comp ? std::max<u64>(BLK, up(l / 2)) : l;
		Ext *x = new_ext(l, disk, comp, i);
		x->by_sut = sut;
		Item it; it.len = l; it.type = IT_REG; it.e = x; it.gen = running; it.comp = comp;
		add_item(i, b, it);
		b += l;
	}
}

void Sim::flush_inode(Inode &i)
{
	if (i.dirty.empty()) return;
	auto d = i.dirty; i.dirty.clear();
	std::sort(d.begin(), d.end());
	std::vector<std::pair<u64,u64>> m;
	for (auto &r : d) { if (!m.empty() && r.first <= m.back().second) m.back().second = std::max(m.back().second, r.second); else m.push_back(r); }
	for (auto &r : m) {
		u64 e = std::min(r.second, up(i.size));
		if (r.first >= e) continue;
		WriteOpts o; o.comp = 0;
		write_extents(i, r.first, e, o, true);
	}
}

void Sim::free_now(Ext *e)
{
	leafgen[2][e->bytenr >> extent_group_shift] = running;
	if (reuse_bytenr) free_list[e->bytenr] = e->disk_len;
	exts.erase(e->bytenr);
}

void Sim::commit(bool force)
{
	Lk lk(mu);
	for (auto &r : roots) for (auto &i : r.second.inodes) if (!i.second->dirty.empty()) flush_inode(*i.second);
	if (!trans_dirty && !force) return;
	std::vector<Ext *> gone;
	for (auto &x : exts) { if (x.second->dead) gone.push_back(x.second.get()); else { if (!x.second->in_tree) x.second->tree_gen = running; x.second->in_tree = true; } }
	for (auto e : gone) free_now(e);
	leafgen[1][0] = running;   // the root tree is rewritten by every commit
	++running;
	trans_dirty = false;
	++commits;
}

// ---------------------------------------------------------------- namespace

string Sim::real_path(u64 root, const string &path) { return roots.at(root).rpath + (path.empty() || path[0] != '/' ? "/" : "") + path; }

IP Sim::dir_of(u64 root, const string &path, string &leafname)
{
	IP d = roots.at(root).inodes.at(256);
	std::istringstream is(path); string part, prev;
	std::vector<string> parts;
	while (std::getline(is, part, '/')) if (!part.empty()) parts.push_back(part);
	if (parts.empty()) die("empty path");
	for (size_t n = 0; n + 1 < parts.size(); ++n) {
		auto f = d->children.find(parts[n]);
		if (f == d->children.end()) die("no dir " + path);
		d = roots.at(root).inodes.at(f->second);
	}
	leafname = parts.back();
	return d;
}
IP Sim::lookup(u64 root, const string &path)
{
	Lk lk(mu);
	string l; IP d = dir_of(root, path, l);
	auto f = d->children.find(l);
	if (f == d->children.end()) return nullptr;
	return roots.at(root).inodes.at(f->second);
}
IP Sim::get(u64 root, u64 ino)
{
	auto r = roots.find(root); if (r == roots.end()) return nullptr;
	auto f = r->second.inodes.find(ino); return f == r->second.inodes.end() ? nullptr : f->second;
}
void Sim::attach(const IP &d, const string &name, const IP &i)
{
	d->children[name] = i->ino;
	i->names.push_back({d->ino, name});
	touch_inode(*d); touch_inode(*i);
}
void Sim::detach(const IP &d, const string &name)
{
	auto f = d->children.find(name); if (f == d->children.end()) return;
	IP i = get(d->root, f->second);
	d->children.erase(f);
	touch_inode(*d);
	if (!i) return;
	for (size_t n = 0; n < i->names.size(); ++n) if (i->names[n].parent == d->ino && i->names[n].name == name) { i->names.erase(i->names.begin() + n); break; }
	touch_inode(*i);
	forget_if_dead(i);
}
void Sim::forget_if_dead(const IP &i)
{
	if (i->deleted || !i->names.empty() || i->opens > 0 || i->ino == 256) return;
	i->deleted = true;
	i->dirty.clear();
	drop_range(*i, 0, ~0ULL >> 1);
	for (auto &x : i->items) unref(*i, x.first, x.second);
	i->items.clear();
	// its identity stays known: the daemon may have opened it a moment ago
	if (i->hfd >= 0) { ::close(i->hfd); i->hfd = -1; }
	touch_inode(*i);
	auto r = roots.find(i->root); if (r != roots.end()) r->second.inodes.erase(i->ino);
}
IP Sim::create(u64 root, const string &path, u64 flags)
{
	Lk lk(mu);
	string l; IP d = dir_of(root, path, l);
	auto i = std::make_shared<Inode>();
	Root &r = roots.at(root);
	i->root = root; i->ino = r.next_ino++; i->flags = flags;
	string rp = real_path(root, path);
	i->hfd = ::open(rp.c_str(), O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, 0644);
	if (i->hfd < 0) die("create " + rp);
	struct stat st; fstat(i->hfd, &st); i->rdev = st.st_dev; i->rino = st.st_ino;
	by_real[{i->rdev, i->rino}] = i;
	r.inodes[i->ino] = i;
	attach(d, l, i);
	return i;
}
u64 Sim::mkdir(u64 root, const string &path)
{
	Lk lk(mu);
	string l; IP d = dir_of(root, path, l);
	string rp = real_path(root, path);
	if (::mkdir(rp.c_str(), 0755)) die("mkdir " + rp);
	auto i = std::make_shared<Inode>(); Root &r = roots.at(root);
	i->root = root; i->ino = r.next_ino++; i->dir = true;
	struct stat st; stat(rp.c_str(), &st); i->rdev = st.st_dev; i->rino = st.st_ino;
	by_real[{i->rdev, i->rino}] = i; r.inodes[i->ino] = i;
	attach(d, l, i);
	return i->ino;
}
void Sim::symlink(u64 root, const string &target, const string &path)
{
	Lk lk(mu);
	if (::symlink(target.c_str(), real_path(root, path).c_str())) die("symlink " + path);
	touch();
}
void Sim::unlink(u64 root, const string &path)
{
	Lk lk(mu);
	string l; IP d = dir_of(root, path, l);
	::unlink(real_path(root, path).c_str());
	detach(d, l);
}
void Sim::rename(u64 root, const string &from, const string &to)
{
	Lk lk(mu);
	string lf, lt; IP df = dir_of(root, from, lf), dt = dir_of(root, to, lt);
	auto f = df->children.find(lf); if (f == df->children.end()) return;
	IP i = get(root, f->second);
	if (::rename(real_path(root, from).c_str(), real_path(root, to).c_str())) die("rename " + from + " " + to);
	if (dt->children.count(lt)) { if (dt->children[lt] == i->ino) return; detach(dt, lt); }
	df->children.erase(lf);
	for (auto &n : i->names) if (n.parent == df->ino && n.name == lf) { n.parent = dt->ino; n.name = lt; break; }
	dt->children[lt] = i->ino;
	touch_inode(*df); touch_inode(*dt); touch_inode(*i);
}
void Sim::link(u64 root, const string &from, const string &to)
{
	Lk lk(mu);
	IP i = lookup(root, from); string l; IP d = dir_of(root, to, l);
	if (::link(real_path(root, from).c_str(), real_path(root, to).c_str())) die("link");
	attach(d, l, i);
}
void Sim::set_flags(Inode &i, u64 flags) { Lk lk(mu); i.flags = flags; touch_inode(i); }

u64 Sim::subvol(u64 parent_root, const string &path)
{
	Lk lk(mu);
	string l; IP d = dir_of(parent_root, path, l);
	Root r; r.id = next_root++; r.parent = parent_root; r.parent_dir = d->ino; r.name = l; r.rpath = real_path(parent_root, path);
	r.gen = running; r.otransid = running; r.dev = 0x1000 + r.id;
	if (::mkdir(r.rpath.c_str(), 0755)) die("mkdir subvol " + r.rpath);
	roots[r.id] = r;
	auto t = std::make_shared<Inode>(); t->root = r.id; t->ino = 256; t->dir = true;
	struct stat st; stat(r.rpath.c_str(), &st); t->rdev = st.st_dev; t->rino = st.st_ino;
	by_real[{st.st_dev, st.st_ino}] = t;
	roots[r.id].inodes[256] = t;
	d->subvols[l] = r.id;
	touch_inode(*d); touch_inode(*t);
	return r.id;
}
void Sim::copy_tree(Root &src, Root &dst)
{
	// directories first (parents have been created before children, but renames may reorder: iterate until done)
	std::map<u64, string> dirpath; dirpath[256] = dst.rpath;
	auto srcdirpath = std::map<u64, string>{{256, src.rpath}};
	bool more = true;
	while (more) {
		more = false;
		for (auto &ip : src.inodes) {
			Inode &i = *ip.second;
			if (!i.dir || dirpath.count(i.ino) || i.names.empty()) continue;
			auto p = dirpath.find(i.names[0].parent); if (p == dirpath.end()) { more = true; continue; }
			dirpath[i.ino] = p->second + "/" + i.names[0].name;
			if (::mkdir(dirpath[i.ino].c_str(), 0755)) die("snapshot mkdir");
		}
	}
	for (auto &ip : src.inodes) {
		Inode &i = *ip.second;
		if (i.ino == 256) continue;
		if (i.names.empty()) continue; // orphan (unlinked but open) inodes are not visible in the snapshot
		flush_inode(i);
		auto n = std::make_shared<Inode>(i);
		n->root = dst.id; n->opens = 0; n->hfd = -1;
		struct stat st;
		if (i.dir) {
			stat(dirpath[i.ino].c_str(), &st);
			n->subvols.clear();
		} else {
			string rp = dirpath.at(i.names[0].parent) + "/" + i.names[0].name;
			n->hfd = ::open(rp.c_str(), O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, 0644);
			if (n->hfd < 0) die("snapshot create " + rp);
			if (!i.data.empty() && pwrite(n->hfd, i.data.data(), i.data.size(), 0) != ssize_t(i.data.size())) die("snapshot write");
			if (ftruncate(n->hfd, i.size)) die("snapshot truncate");
			for (size_t k = 1; k < i.names.size(); ++k) if (::link(rp.c_str(), (dirpath.at(i.names[k].parent) + "/" + i.names[k].name).c_str())) die("snapshot link");
			fstat(n->hfd, &st);
			for (auto &x : n->items) if (x.second.e) { x.second.e->refs.insert({n->root, n->ino, x.first}); x.second.e->max_refs_seen = std::max<u64>(x.second.e->max_refs_seen, x.second.e->refs.size()); touch_ext(*x.second.e); }
		}
		n->rdev = st.st_dev; n->rino = st.st_ino; by_real[{n->rdev, n->rino}] = n;
		dst.inodes[n->ino] = n;
	}
	auto t = dst.inodes.at(256);
	t->children = src.inodes.at(256)->children;
	dst.next_ino = src.next_ino;
	leafgen[dst.id] = leafgen[src.id];
}
u64 Sim::snapshot(u64 src, u64 parent_root, const string &path, bool ro)
{
	Lk lk(mu);
	commit(true);              // snapshots force a commit
	u64 id = subvol(parent_root, path);
	copy_tree(roots.at(src), roots.at(id));
	roots.at(id).ro = ro; roots.at(id).snap = true;
	touch();
	commit(true);
	return id;
}
void Sim::delete_subvol(u64 root)
{
	Lk lk(mu);
	Root &r = roots.at(root);
	auto inodes = r.inodes;
	for (auto &ip : inodes) {
		IP i = ip.second;
		i->names.clear();
		i->dirty.clear();
		if (i->opens) for (auto &x : i->items) if (x.second.e) { i->gone[x.first] = x.second; i->gone[x.first].e = nullptr; i->gone_at[x.first] = { x.second.e->bytenr, x.second.e->id }; }
		drop_range(*i, 0, ~0ULL >> 1);
		for (auto &x : i->items) unref(*i, x.first, x.second);
		i->items.clear();
		i->deleted = true;
		if (i->hfd >= 0) { ::close(i->hfd); i->hfd = -1; }
	}
	string cmd = r.rpath;
	// remove the real tree; paths are generated by this harness below its own scratch directory
	if (cmd.compare(0, base.size(), base)) die("delete_subvol path");
	string sh = "rm -rf -- '" + cmd + "'";
	if (system(sh.c_str())) die("rm");
	IP d = get(r.parent, r.parent_dir); if (d) { d->subvols.erase(r.name); touch_inode(*d); }
	roots.erase(root);
	leafgen.erase(root);
	touch();
	commit(true);
}
void Sim::swap_subvols(u64 a, u64 b)
{
	Lk lk(mu);
	Root &x = roots.at(a), &y = roots.at(b);
	string px = x.rpath, py = y.rpath, t = px + ".swap";
	if (::rename(px.c_str(), t.c_str()) || ::rename(py.c_str(), px.c_str()) || ::rename(t.c_str(), py.c_str())) die("swap subvolumes");
	std::swap(x.rpath, y.rpath); std::swap(x.name, y.name); std::swap(x.parent, y.parent); std::swap(x.parent_dir, y.parent_dir);
	IP dx = get(x.parent, x.parent_dir), dy = get(y.parent, y.parent_dir);
	if (dx) { dx->subvols[x.name] = a; touch_inode(*dx); }
	if (dy) { dy->subvols[y.name] = b; touch_inode(*dy); }
	x.gen = y.gen = running; leafgen[1][0] = running; touch();
}
void Sim::set_ro(u64 root, bool ro) { Lk lk(mu); roots.at(root).ro = ro; roots.at(root).gen = running; touch(); commit(true); }

// ---------------------------------------------------------------- data

static void mirror(Inode &i, u64 off, const string &d)
{
	if (!d.empty() && pwrite(i.hfd, d.data(), d.size(), off) != ssize_t(d.size())) die("mirror write");
}

void Sim::write(Inode &i, u64 off, const string &d, WriteOpts o)
{
	Lk lk(mu);
	if (d.empty() || i.deleted) return;
	flush_inode(i);
	u64 oldsize = i.size;
	if (off + d.size() > i.data.size()) i.data.resize(off + d.size(), 0);
	i.data.replace(off, d.size(), d);
	i.size = std::max(i.size, off + d.size());
	mirror(i, off, d);
	++i.modcount;
	auto f = i.items.find(0);
	bool was_inline = f != i.items.end() && f->second.type == IT_INLINE;
	if (o.inl && i.size <= 2048 && (oldsize == 0 || was_inline)) {
		i.items.clear();
		Item it; it.type = IT_INLINE; it.len = i.size; it.gen = running;
		add_item(i, 0, it);
		return;
	}
	u64 b = dn(off), e = up(off + d.size());
	if (was_inline) { i.items.clear(); b = 0; }
	write_extents(i, b, e, o, false);
}
void Sim::truncate(Inode &i, u64 size)
{
	Lk lk(mu);
	if (i.deleted) return;
	flush_inode(i);
	auto f = i.items.find(0);
	if (f != i.items.end() && f->second.type == IT_INLINE && size != i.size) { i.items.clear(); if (std::min(size, i.size)) write_extents(i, 0, BLK, WriteOpts(), false); }
	u64 old = i.size;
	if (size < i.size) { drop_range(i, up(size), ~0ULL >> 1); }
	i.size = size; i.data.resize(size, 0);
	if (ftruncate(i.hfd, size)) die("truncate");
	++i.modcount;
	// the partial last block is rewritten (zeroed) if it is shortened
	if (size < old && (size & (BLK - 1))) {
		u64 b = dn(size); auto g = i.items.upper_bound(b); 
		if (g != i.items.begin()) { --g; if (g->first + g->second.len > b && (g->second.e) && g->second.type == IT_REG) write_extents(i, b, b + BLK, WriteOpts(), false); }
	}
	touch_inode(i);
}
void Sim::punch(Inode &i, u64 off, u64 len)
{
	Lk lk(mu);
	if (i.deleted) return;
	flush_inode(i);
	auto f = i.items.find(0);
	if (f != i.items.end() && f->second.type == IT_INLINE) return;
	u64 b = dn(off), e = std::min(dn(off + len), up(i.size));
	if (b >= e) return;
	drop_range(i, b, e);
	u64 ee = std::min(e, i.size);
	std::fill(i.data.begin() + b, i.data.begin() + ee, 0);
	mirror(i, b, string(ee - b, 0));
	++i.modcount;
	touch_inode(i);
}
void Sim::prealloc(Inode &i, u64 off, u64 len, bool keep_size)
{
	Lk lk(mu);
	if (i.deleted) return;
	flush_inode(i);
	auto f = i.items.find(0);
	if (f != i.items.end() && f->second.type == IT_INLINE) return;
	u64 b = dn(off), e = up(off + len);
	// only fills holes
	for (u64 p = b; p < e; ) {
		auto g = i.items.upper_bound(p); 
		u64 cover = 0;
		if (g != i.items.begin()) { auto h = g; --h; if (h->first + h->second.len > p) cover = h->first + h->second.len; }
		if (cover) { p = cover; continue; }
		u64 q = g == i.items.end() ? e : std::min(e, g->first);
		Ext *x = new_ext(q - p, q - p, 0, i);
		x->prealloc = true;
		Item it; it.len = q - p; it.type = IT_PREALLOC; it.e = x; it.gen = running;
		add_item(i, p, it);
		p = q;
	}
	if (!keep_size && off + len > i.size) { i.size = off + len; i.data.resize(i.size, 0); if (ftruncate(i.hfd, i.size)) die("prealloc"); }
	++i.modcount;
	touch_inode(i);
}
struct Piece { u64 rel, len; Item it; };
static std::vector<Piece> pieces(Inode &i, u64 b, u64 e)
{
	std::vector<Piece> v;
	auto f = i.items.upper_bound(b); if (f != i.items.begin()) --f;
	for (; f != i.items.end() && f->first < e; ++f) {
		u64 s = std::max(f->first, b), t = std::min(f->first + f->second.len, e);
		if (f->second.type == IT_INLINE) { if (f->first >= b) v.push_back({0, f->second.len, f->second}); continue; }
		if (s >= t) continue;
		Item it = f->second; it.eoff += s - f->first; it.len = t - s;
		v.push_back({s - b, t - s, it});
	}
	return v;
}
void Sim::reflink(Inode &src, u64 soff, u64 len, Inode &dst, u64 doff)
{
	Lk lk(mu);
	if (src.deleted || dst.deleted) return;
	if ((src.flags & 1) != (dst.flags & 1)) return;
	flush_inode(src); flush_inode(dst);
	if (soff + len > src.size) len = src.size - soff;
	u64 alen = up(len);
	for (auto x : {&src, &dst}) { auto f = x->items.find(0); if (f != x->items.end() && f->second.type == IT_INLINE) return; }
	if (doff + len < dst.size && (len & (BLK - 1))) return; // not allowed by the kernel
	string d = src.data.substr(soff, len);
	auto v = pieces(src, soff, soff + alen);
	if (doff + len > dst.data.size()) dst.data.resize(doff + len, 0);
	dst.data.replace(doff, len, d); dst.size = std::max(dst.size, doff + len);
	mirror(dst, doff, d);
	if (ftruncate(dst.hfd, dst.size)) die("reflink");
	// take references first, so that nothing dies in between
	std::vector<Piece> w = v;
	drop_range(dst, doff, doff + alen);
	for (auto &p : w) { if (p.it.e) p.it.e->dead = false; add_item(dst, doff + p.rel, p.it); }
	++dst.modcount;
	touch_inode(dst);
}
string Sim::check_content(Inode &i)
{
	Lk lk(mu);
	if (i.dir || i.hfd < 0) return "";
	struct stat st; fstat(i.hfd, &st);
	std::ostringstream os;
	if (u64(st.st_size) != i.size) { os << "size is " << st.st_size << " expected " << i.size; return os.str(); }
	string b(i.size, 0);
	if (i.size && pread(i.hfd, &b[0], i.size, 0) != ssize_t(i.size)) return "short read";
	if (b != i.data) {
		u64 n = 0; while (n < i.size && b[n] == i.data[n]) ++n;
		os << "content differs at byte " << n; return os.str();
	}
	return "";
}
u64 Sim::phys_at(Inode &i, u64 off, Ext **e)
{
	if (e) *e = nullptr;
	auto f = i.items.upper_bound(off); if (f == i.items.begin()) return 0;
	--f;
	if (f->first + f->second.len <= off) return 0;
	if (f->second.type == IT_INLINE) return 1;
	if (!f->second.e) return 0;
	if (e) *e = f->second.e;
	return f->second.e->bytenr + f->second.eoff + (off - f->first);
}
u64 Sim::referenced_bytes() { Lk lk(mu); u64 n = 0; for (auto &x : exts) if (!x.second->dead) n += x.second->disk_len; return n; }
std::vector<Ext *> Sim::user_extents()
{
	std::vector<Ext *> v;
	for (auto &x : exts) { if (x.second->dead) continue;
		for (auto &r : x.second->refs) { IP i = get(r.root, r.ino); if (i && i->kind == K_USER) { v.push_back(x.second.get()); break; } } }
	return v;
}
u64 Sim::user_referenced_bytes() { Lk lk(mu); u64 n = 0; for (auto e : user_extents()) n += e->disk_len; return n; }
string Sim::describe(Inode &i)
{
	Lk lk(mu);
	std::ostringstream os; os << "root " << i.root << " ino " << i.ino << " size " << i.size << " [";
	int n = 0;
	for (auto &x : i.items) { if (++n > 40) { os << "..."; break; } os << " " << x.first << "+" << x.second.len << (x.second.type == IT_INLINE ? "i" : x.second.type == IT_PREALLOC ? "p" : "") << "="; if (x.second.e) os << x.second.e->bytenr << "+" << x.second.eoff << "#" << x.second.e->id << (x.second.comp ? "c" : ""); else os << "hole"; }
	os << " ]"; return os.str();
}
string Sim::self_check()
{
	Lk lk(mu);
	std::map<u64, std::set<RefKey>> want;
	for (auto &r : roots) for (auto &ip : r.second.inodes) {
		Inode &i = *ip.second; u64 end = 0;
		for (auto &x : i.items) {
			if (x.first < end) return "overlapping items: " + describe(i);
			end = x.first + x.second.len;
			if (x.second.e) {
				auto f = exts.find(x.second.e->bytenr);
				if (f == exts.end() || f->second.get() != x.second.e) return "dangling extent: " + describe(i);
				if (x.second.eoff + x.second.len > x.second.e->ram_len) return "item beyond extent: " + describe(i);
				want[x.second.e->bytenr].insert({i.root, i.ino, x.first});
			}
		}
	}
	for (auto &x : exts) {
		if (x.second->refs != want[x.first]) return "reference set mismatch at bytenr " + std::to_string(x.first);
		if (x.second->dead != x.second->refs.empty()) return "dead flag mismatch at bytenr " + std::to_string(x.first);
	}
	return "";
}

// ---------------------------------------------------------------- daemon bookkeeping

IP Sim::by_ident(const Ident &id) { auto f = by_real.find({id.dev, id.ino}); return f == by_real.end() ? nullptr : f->second; }
IP Sim::adopt(const Ident &id, u64 root, Kind k)
{
	auto i = std::make_shared<Inode>(); Root &r = roots.at(root);
	i->root = root; i->ino = r.next_ino++; i->kind = k; i->rdev = id.dev; i->rino = id.ino;
	by_real[{id.dev, id.ino}] = i; r.inodes[i->ino] = i;
	touch_inode(*i);
	return i;
}
void Sim::sut_wrote(Inode &i, u64 off, u64 len, const char *d)
{
	if (!len) return;
	if (off + len > i.data.size()) i.data.resize(off + len, 0);
	if (d) i.data.replace(off, len, d, len);
	i.size = std::max(i.size, off + len);
	i.dirty.push_back({dn(off), up(off + len)});
	i.unsynced = true; ++i.sut_writes;
	touch_inode(i);
}
void Sim::sut_truncated(Inode &i, u64 size)
{
	if (size < i.size) { flush_inode(i); drop_range(i, up(size), ~0ULL >> 1); }
	i.size = size; i.data.resize(size, 0);
	i.unsynced = true;
	touch_inode(i);
}
void Sim::mark_read(Inode &i, u64 off, u64 len)
{
	u64 e = std::min(off + len, i.size);
	for (u64 p = dn(off); p < e; p += BLK) {
		if (i.deleted && !i.gone.empty()) {
			// the extent is marked while other files still use it
			auto f = i.gone.upper_bound(p); if (f == i.gone.begin()) continue;
			--f;
			if (f->first + f->second.len <= p) continue;
			auto at = i.gone_at[f->first]; auto x = exts.find(at.first); if (x == exts.end() || x->second->id != at.second) continue;
			u64 b = (f->second.eoff + p - f->first) / BLK;
			if (b < x->second->read.size()) x->second->read[b] |= 3;
			continue;
		}
		auto f = i.items.upper_bound(p); if (f == i.items.begin()) continue;
		--f;
		if (f->first + f->second.len <= p || !f->second.e) continue;
		u64 b = (f->second.eoff + p - f->first) / BLK;
		if (b < f->second.e->read.size()) f->second.e->read[b] |= 3;
	}
}
void Sim::sut_gone()
{
	Lk lk(mu);
	std::vector<IP> all; for (auto &x : by_real) all.push_back(x.second);
	for (auto &i : all) { i->opens = 0; forget_if_dead(i); }
	for (auto &x : exts) for (auto &b : x.second->read) b &= ~1;
}

// ---------------------------------------------------------------- tree search

static void put_key(btrfs_disk_key &k, u64 o, u8 t, u64 off) { k.objectid = o; k.type = t; k.offset = off; }

void Sim::iter(u64 tree, u64 obj, u64 type, u64 off, const std::function<bool(const TItem &)> &f)
{
	auto ge = [&](u64 o, u64 t, u64 x) { return std::tie(o, t, x) >= std::tie(obj, type, off); };
	auto emit = [&](u64 o, u64 t, u64 x, u64 tr, string pay) -> bool {
		if (!ge(o, t, x)) return true;
		TItem i{o, t, x, tr, std::move(pay)};
		return f(i);
	};
	auto str = [](const void *p, size_t n) { return string(static_cast<const char *>(p), n); };
	if (tree == 1) {
		u64 tr = committed();
		auto root_item = [&](u64 gen, bool ro, u64 otransid) {
			btrfs_root_item ri; memset(&ri, 0, sizeof ri);
			ri.generation = gen; ri.root_dirid = 256; ri.refs = 1; ri.flags = ro ? BTRFS_ROOT_SUBVOL_RDONLY : 0; ri.generation_v2 = gen; ri.ctransid = gen; ri.otransid = otransid;
			return str(&ri, sizeof ri);
		};
		auto root_ref = [&](const Root &r) {
			btrfs_root_ref rr; rr.dirid = r.parent_dir; rr.sequence = 3; rr.name_len = r.name.size();
			return str(&rr, sizeof rr) + r.name;
		};
		std::set<u64> ids = {2, 3, 4, 7, 9}; for (auto &r : roots) ids.insert(r.first);
		for (u64 id : ids) {
			if (id < obj) continue;
			auto fr = roots.find(id);
			if (fr == roots.end()) { if (!emit(id, BTRFS_ROOT_ITEM_KEY, 0, tr, root_item(tr, false, 0))) return; continue; }
			Root &r = fr->second;
			if (!emit(id, BTRFS_ROOT_ITEM_KEY, r.snap ? r.otransid : 0, tr, root_item(std::min(r.gen, committed()), r.ro, r.otransid))) return;
			if (r.parent && !emit(id, BTRFS_ROOT_BACKREF_KEY, r.parent, tr, root_ref(r))) return;
			for (auto &c : roots) if (c.second.parent == id && !emit(id, BTRFS_ROOT_REF_KEY, c.first, tr, root_ref(c.second))) return;
		}
		// orphan and log items beyond the subvolume range
		emit(BTRFS_ORPHAN_OBJECTID, BTRFS_ORPHAN_ITEM_KEY, 999, tr, "");
		return;
	}
	if (tree == 3) {
		u64 tr = leaf(3, 0);
		if (!emit(1, BTRFS_DEV_ITEM_KEY, 1, tr, string(sizeof(btrfs_dev_item), 0))) return;
		for (auto &c : chunks) {
			btrfs_chunk k; memset(&k, 0, sizeof k);
			k.length = c.len; k.owner = 2; k.stripe_len = 65536; k.type = c.type; k.io_align = k.io_width = 65536; k.sector_size = 4096; k.num_stripes = 1; k.sub_stripes = 1;
			if (!emit(BTRFS_FIRST_CHUNK_TREE_OBJECTID, BTRFS_CHUNK_ITEM_KEY, c.start, tr, str(&k, sizeof k))) return;
		}
		return;
	}
	if (tree == 2) {
		auto ext_item = [&](u64 refs, u64 gen, u64 flags) { btrfs_extent_item e; e.refs = refs; e.generation = gen; e.flags = flags; return str(&e, sizeof e); };
		for (auto &c : chunks) {
			if (c.start + c.len <= obj) continue;
			if (c.type & BTRFS_BLOCK_GROUP_DATA) {
				bool bg = false;
				auto bgi = [&]() { bg = true; return emit(c.start, BTRFS_BLOCK_GROUP_ITEM_KEY, c.len, leaf(2, c.start >> extent_group_shift), string(sizeof(btrfs_block_group_item), 0)); };
				for (auto x = exts.lower_bound(std::max(c.start, obj)); x != exts.end() && x->first < c.start + c.len; ++x) {
					Ext &e = *x->second;
					if (!bg && x->first > c.start && obj <= c.start) if (!bgi()) return;
					if (e.in_tree) {
						string p = ext_item(e.refs.size(), e.gen, BTRFS_EXTENT_FLAG_DATA);
						p += string(std::min<size_t>(e.refs.size(), 8) * 29, 'r');
						++e.searched; e.search_gen = running;
						if (!emit(x->first, BTRFS_EXTENT_ITEM_KEY, e.disk_len, leaf(2, x->first >> extent_group_shift), p)) return;
					}
					if (!bg && x->first == c.start) if (!bgi()) return;
				}
				if (!bg && obj <= c.start) if (!bgi()) return;
			} else {
				if (!emit(c.start, BTRFS_BLOCK_GROUP_ITEM_KEY, c.len, committed(), string(sizeof(btrfs_block_group_item), 0))) return;
				if (c.type & BTRFS_BLOCK_GROUP_METADATA) for (u64 b = c.start + 16384; b < c.start + c.len; b += 1 << 20) {
					if (b < obj) continue;
					if (!emit(b, BTRFS_METADATA_ITEM_KEY, 0, committed(), ext_item(1, committed(), BTRFS_EXTENT_FLAG_TREE_BLOCK) + string(9, 0))) return;
				}
			}
		}
		return;
	}
	auto fr = roots.find(tree);
	if (fr == roots.end()) return;
	Root &r = fr->second;
	for (auto ip = r.inodes.lower_bound(obj); ip != r.inodes.end(); ++ip) {
		Inode &i = *ip->second; u64 tr = leaf(tree, i.ino >> inode_group_shift);
		btrfs_inode_item ii; memset(&ii, 0, sizeof ii);
		ii.generation = 1; ii.transid = i.ctransid; ii.size = i.size; ii.nbytes = i.size; ii.nlink = i.names.size(); ii.mode = (i.dir ? S_IFDIR : S_IFREG) | 0644; ii.flags = i.flags;
		if (!emit(i.ino, BTRFS_INODE_ITEM_KEY, 0, tr, str(&ii, sizeof ii))) return;
		u64 idx = 2;
		for (auto &n : i.names) {
			btrfs_inode_ref rf; rf.index = idx++; rf.name_len = n.name.size();
			if (!emit(i.ino, BTRFS_INODE_REF_KEY, n.parent, tr, str(&rf, sizeof rf) + n.name)) return;
		}
		if (i.ino % 3 == 0 && !emit(i.ino, BTRFS_XATTR_ITEM_KEY, 0x1234567 + i.ino, tr, string(50, 'x'))) return;
		if (i.dir) {
			u64 h = 0; for (auto &c : i.children) { btrfs_dir_item di; memset(&di, 0, sizeof di); put_key(di.location, c.second, BTRFS_INODE_ITEM_KEY, 0); di.name_len = c.first.size(); if (!emit(i.ino, BTRFS_DIR_INDEX_KEY, 2 + h++, tr, str(&di, sizeof di) + c.first)) return; }
			continue;
		}
		auto x = i.items.begin();
		if (i.ino == obj && type == BTRFS_EXTENT_DATA_KEY) { x = i.items.lower_bound(off); }
		for (; x != i.items.end(); ++x) {
			btrfs_file_extent_item fi; memset(&fi, 0, sizeof fi);
			Item &t = x->second;
			fi.generation = t.gen; fi.compression = t.comp; fi.type = t.type;
			if (t.type == IT_INLINE) {
				fi.ram_bytes = t.len;
				if (!emit(i.ino, BTRFS_EXTENT_DATA_KEY, x->first, tr, str(&fi, offsetof(btrfs_file_extent_item, disk_bytenr)) + i.data.substr(0, t.len))) return;
				continue;
			}
			fi.ram_bytes = t.e ? t.e->ram_len : t.len;
			fi.disk_bytenr = t.e ? t.e->bytenr : 0; fi.disk_num_bytes = t.e ? t.e->disk_len : 0;
			fi.offset = t.e ? t.eoff : 0; fi.num_bytes = t.len;
			if (!emit(i.ino, BTRFS_EXTENT_DATA_KEY, x->first, tr, str(&fi, sizeof fi))) return;
		}
	}
}

int Sim::tree_search(u64 root_of_fd, const string &args, string &out, u64 &need)
{
	Lk lk(mu);
	btrfs_ioctl_search_args_v2 a; memcpy(&a, args.data(), sizeof a);
	btrfs_ioctl_search_key &sk = a.key;
	u64 buf = std::min<u64>(a.buf_size, 16 << 20);
	need = 0;
	out.assign(reinterpret_cast<const char *>(&sk), sizeof sk);
	if (a.buf_size < sizeof(btrfs_ioctl_search_header)) { need = sizeof(btrfs_ioctl_search_header); return -EOVERFLOW; }
	u64 tree = sk.tree_id ? sk.tree_id : root_of_fd;
	if (tree > 3 && !roots.count(tree)) return -ENOENT;
	string items; u32 n = 0; u64 used = 0; int rv = 0;
	iter(tree, sk.min_objectid, sk.min_type, sk.min_offset, [&](const TItem &t) -> bool {
		u64 o = t.obj, ty = t.type, x = t.off; u64 mo = sk.max_objectid, mt = sk.max_type, mx = sk.max_offset;
		if (std::tie(o, ty, x) > std::tie(mo, mt, mx)) return false;
		if (t.transid < sk.min_transid || t.transid > sk.max_transid) return true;
		u64 len = t.pay.size();
		if (sizeof(btrfs_ioctl_search_header) + len > buf) {
			if (n) return false;
			need = sizeof(btrfs_ioctl_search_header) + len; rv = -EOVERFLOW; return false;
		}
		if (sizeof(btrfs_ioctl_search_header) + len + used > buf) return false;
		if (n >= sk.nr_items) return false;
		btrfs_ioctl_search_header h; memset(&h, 0, sizeof h);
		h.objectid = t.obj; h.type = t.type; h.offset = t.off; h.transid = t.transid; h.len = len;
		items.append(reinterpret_cast<const char *>(&h), sizeof h); items += t.pay; used += sizeof h + len; ++n;
		return n < sk.nr_items;
	});
	if (rv) return rv;
	sk.nr_items = n;
	out.assign(reinterpret_cast<const char *>(&sk), sizeof sk);
	out += items;
	return 0;
}

int Sim::logical_ino(const string &args, bool v2, string &out, u64 &sys_usec, Ext **found)
{
	Lk lk(mu);
	btrfs_ioctl_logical_ino_args a; memcpy(&a, args.data(), sizeof a);
	sys_usec = 0; if (found) *found = nullptr;
	bool ignore = false;
	if (v2) { if (a.flags & ~1ULL) return -EINVAL; ignore = a.flags & 1; }
	u64 size = std::min<u64>(a.size, v2 ? 16 << 20 : 65536);
	auto f = exts.upper_bound(a.logical);
	if (f == exts.begin()) return -ENOENT;
	--f;
	Ext &e = *f->second;
	if (a.logical >= e.bytenr + e.disk_len || !e.in_tree) return -ENOENT;
	if (found) *found = &e;
	if (slow_bytenr.count(e.bytenr)) e.slow_usec = std::max<u64>(e.slow_usec, 1);
	sys_usec = e.slow_usec;
	std::vector<u64> v;
	u64 pos = a.logical - e.bytenr;
	for (auto &r : e.refs) {
		IP i = get(r.root, r.ino); if (!i) continue;
		Item &it = i->items.at(r.off);
		u64 offset = 0;
		if (!ignore && !it.comp) { if (pos < it.eoff || pos >= it.eoff + it.len) continue; offset = pos - it.eoff; }
		v.push_back(r.ino); v.push_back(r.off + offset); v.push_back(r.root);
	}
	if (shuffle_refs) for (size_t n = v.size() / 3; n > 1; --n) { size_t k = rng() % n; for (int j = 0; j < 3; ++j) std::swap(v[(n - 1) * 3 + j], v[k * 3 + j]); }
	btrfs_data_container c; memset(&c, 0, sizeof c);
	u64 left = 0, missing = 0;
	if (size >= sizeof c) left = size - sizeof c; else missing = sizeof c - size;
	std::vector<u64> keep;
	for (size_t n = 0; n < v.size(); n += 3) {
		if (left >= 24) { keep.insert(keep.end(), v.begin() + n, v.begin() + n + 3); left -= 24; c.elem_cnt += 3; }
		else { missing += 24 - left; left = 0; c.elem_missed += 3; }
	}
	c.bytes_left = left; c.bytes_missing = missing;
	out.assign(reinterpret_cast<const char *>(&c), sizeof c);
	out.append(reinterpret_cast<const char *>(keep.data()), keep.size() * 8);
	return 0;
}

bool Sim::dir_path(u64 root, u64 ino, string &out)
{
	string p;
	while (ino != 256) {
		IP d = get(root, ino); if (!d || d->names.empty()) return false;
		p = d->names[0].name + "/" + p; ino = d->names[0].parent;
	}
	out = p; return true;
}
std::vector<string> Sim::paths_of(Inode &i)
{
	std::vector<string> v;
	for (auto &n : i.names) { string p; if (dir_path(i.root, n.parent, p)) v.push_back(p + n.name); }
	return v;
}
int Sim::ino_paths(Inode &fd, const string &args, string &out)
{
	Lk lk(mu);
	btrfs_ioctl_ino_path_args a; memcpy(&a, args.data(), sizeof a);
	u64 size = std::min<u64>(a.size, 4096);
	IP i = get(fd.root, a.inum);
	if (!i || i->names.empty()) return -ENOENT;
	auto v = paths_of(*i);
	btrfs_data_container c; memset(&c, 0, sizeof c);
	u64 left = size > sizeof c ? size - sizeof c : 0;
	// offsets grow from the front, strings from the back
	std::vector<std::pair<string, u64>> keep;
	string tail(left, 0); u64 back = left, front = 0;
	for (auto &p : v) {
		if (front + 8 + p.size() + 1 <= back) { back -= p.size() + 1; memcpy(&tail[back], p.c_str(), p.size() + 1); memcpy(&tail[front], &back, 8); front += 8; ++c.elem_cnt; }
		else { ++c.elem_missed; c.bytes_missing += p.size() + 1 + 8; }
	}
	c.bytes_left = back - front;
	out.assign(reinterpret_cast<const char *>(&c), sizeof c);
	out += tail;
	return 0;
}
int Sim::ino_lookup(Inode &fd, string &args)
{
	Lk lk(mu);
	auto *a = reinterpret_cast<btrfs_ioctl_ino_lookup_args *>(&args[0]);
	if (!a->treeid) a->treeid = fd.root;
	if (!roots.count(a->treeid)) return -ENOENT;
	if (a->objectid == 256) { a->name[0] = 0; return 0; }
	IP i = get(a->treeid, a->objectid); if (!i || i->names.empty()) return -ENOENT;
	auto v = paths_of(*i); if (v.empty()) return -ENOENT;
	strncpy(a->name, (v[0] + "/").c_str(), sizeof(a->name) - 1);
	return 0;
}
void Sim::fs_info(string &out)
{
	Lk lk(mu);
	btrfs_ioctl_fs_info_args f; memset(&f, 0, sizeof f);
	f.max_id = 1; f.num_devices = 1; memset(f.fsid, 0x5a, sizeof f.fsid); f.nodesize = 16384; f.sectorsize = 4096; f.clone_alignment = 4096;
	f.generation = running; f.flags = BTRFS_FS_INFO_FLAG_GENERATION;
	out.assign(reinterpret_cast<const char *>(&f), sizeof f);
}

int Sim::dedupe(Inode &src, u64 soff, u64 len, Inode &dst, u64 doff, u64 &deduped)
{
	Lk lk(mu);
	deduped = 0;
	if (src.dir || dst.dir) return -EISDIR;
	if (send_in_progress && roots.count(src.root) && (roots.at(src.root).ro || (roots.count(dst.root) && roots.at(dst.root).ro))) return -EAGAIN;
	if (src.kind == K_OUT || dst.kind == K_OUT) return -EXDEV;
	if (src.deleted || dst.deleted) return -ENOENT;
	flush_inode(src); flush_inode(dst);
	if (len == 0) return 0;
	if ((soff | doff) & (BLK - 1)) return -EINVAL;
	if (soff + len < soff || doff + len < doff) return -EINVAL;
	if (soff >= src.size || soff + len > src.size || doff >= dst.size || doff + len > dst.size) return -EINVAL;
	if ((src.flags & 1) != (dst.flags & 1)) return -EINVAL;
	u64 count = len, b;
	if (soff + count == src.size && doff + count == dst.size) b = up(src.size) - soff;
	else { count = dn(count); b = count; }
	if (&src == &dst && doff + b > soff && doff < soff + b) return -EINVAL;
	if (!count) { deduped = len; return 0; }
	if (dedupe_cap && count > dedupe_cap) { count = b = dedupe_cap; }
	if (memcmp(src.data.data() + soff, dst.data.data() + doff, count)) return 1;
	if (src.data.size() < soff + count || dst.data.size() < doff + count) die("shadow size");
	auto v = pieces(src, soff, soff + b);
	std::vector<std::pair<u64, Item>> add;
	for (auto &p : v) {
		if (p.it.type == IT_INLINE) return -EOPNOTSUPP;
		add.push_back({doff + p.rel, p.it});
	}
	drop_range(dst, doff, doff + b);
	for (auto &p : add) { if (p.second.e) p.second.e->dead = false; add_item(dst, p.first, p.second); }
	touch_inode(dst);
	deduped = (dedupe_cap && len > dedupe_cap) ? count : len;
	return 0;
}
