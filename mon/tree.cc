// L09: searching metadata trees.  L10: walking the extents of a file.  L11: kernel interface wrappers.
// The kernel side is answered by kern.h; every answer of the library is compared with what a plain
// scan of the same tree, layout or reply selects.
#define MON_MAIN
#include "kern.h"
#include "crucible/btrfs-tree.h"
#include "crucible/btrfs.h"
#include "crucible/extentwalker.h"
#include "crucible/fs.h"
#include "crucible/fd.h"
#include "crucible/seeker.h"
#include <sys/mman.h>
#include <climits>
#include <random>
using namespace mon; using namespace kern; using namespace crucible; using std::make_shared; using std::tie;
static Trees T; static u64 sector = 4096, csum_sz = 4, root_of_fd = 5;
static const u64 MAX = ~0ull;
static int base_ioctl(int, unsigned long req, void *arg) {
	switch (req) {
	case BTRFS_IOC_TREE_SEARCH_V2: return T.search((btrfs_ioctl_search_args_v2 *)arg);
	case BTRFS_IOC_FS_INFO: { auto p = (btrfs_ioctl_fs_info_args_v3 *)arg; auto fl = p->flags; memset(p, 0, sizeof *p); p->flags = fl; p->nodesize = 65536; p->sectorsize = sector; p->clone_alignment = sector; p->csum_size = csum_sz; p->csum_type = 0; return 0; }
	case BTRFS_IOC_INO_LOOKUP: { auto p = (btrfs_ioctl_ino_lookup_args *)arg; p->treeid = root_of_fd; return 0; }
	}
	return fail(ENOTTY);
}
static string data(Rng &r, size_t n) { string s(n, 0); for (size_t i = 0; i < n; i += 8) { u64 v = r.next(); memcpy(&s[i], &v, std::min<size_t>(8, n - i)); } return s; }
static size_t item_size(Rng &r, int bigness) {
	switch (r(bigness ? 12 : 6)) { case 0: return 0; case 6: return 900 + r(300); case 7: return 3800 + r(600); case 8: return 16000 + r(800); case 9: return 16283 + r(3); case 10: return bigness > 1 ? r.range(20000, 65409) : r(2000); case 11: return bigness > 1 && r.chance(.3) ? 65409 - r(40) : r(500); default: return r(180); }
}
static string ks(const Key &k) { return hex(k.o) + "/" + S((int)k.t) + "/" + hex(k.f); }
static string ks(const BtrfsTreeItem &i) { return !i ? string("none") : ks(Key{i.objectid(), i.type(), i.offset()}); }
static bool same(const BtrfsTreeItem &i, const Key &k, const Item &m) {
	return i.objectid() == k.o && i.type() == k.t && i.offset() == k.f && i.transid() == m.transid && i.data().size() == m.data.size() && !memcmp(m.data.data(), m.data.empty() ? "" : (const char *)i.data().data(), m.data.size());
}
static void ck(const char *op, u64 l, const BtrfsTreeItem &got, const Tree &t, const Key *want, const string &info) {
	stat("lookups"); ++progress();
	if (!want) { if (!!got) viol("L09", string(op) + "-invented", string(op) + "(" + hex(l) + ") returned " + ks(got) + ", a scan finds nothing; " + info); return; }
	if (!got) { viol("L09", string(op) + "-missed", string(op) + "(" + hex(l) + ") returned nothing, a scan finds " + ks(*want) + " (" + S(t.at(*want).data.size()) + " bytes); " + info); return; }
	stat("found");
	if (!same(got, *want, t.at(*want))) viol("L09", string(op) + "-wrong", string(op) + "(" + hex(l) + ") returned " + ks(got) + " (" + S(got.data().size()) + " bytes), a scan finds " + ks(*want) + " (" + S(t.at(*want).data.size()) + " bytes); " + info);
}
template <class F> static bool guarded(const char *what, const char *prop, const string &info, F f) {
	try { f(); return true; } catch (std::exception &e) { viol(prop, string("exception:") + what, string(what) + ": " + string(e.what()).substr(0, 500) + "; " + info); return false; }
}
// all four lookups of a fetcher against the list of (logical -> first key) a scan selects
static void check_fetcher(Rng &r, BtrfsTreeFetcher &f, const Tree &t, const std::map<u64, Key> &sel, vector<u64> probes, const string &info) {
	u64 sc = f.scale_size();
	for (auto &s : sel) { if (r.chance(200.0 / sel.size())) { probes.push_back(s.first); probes.push_back(s.first - std::min(s.first, sc)); if (s.first < MAX - 2 * sc) probes.push_back(s.first + sc); } }
	probes.push_back(0);
	std::shuffle(probes.begin(), probes.end(), std::mt19937(r(1 << 30)));
	if (probes.size() > 160) probes.resize(160);
	auto key = [&](std::map<u64, Key>::const_iterator i) -> const Key * { return i == sel.end() ? nullptr : &i->second; };
	auto below = [&](u64 l) -> const Key * { auto i = sel.upper_bound(l); return i == sel.begin() ? nullptr : &(--i)->second; };
	for (u64 p : probes) {
		int w = r(6);
		if (w == 0) guarded("at", "L09", info, [&] { ck("at", p, f.at(p), t, key(sel.find(p)), info); });
		if (w == 1) guarded("lower_bound", "L09", info, [&] { ck("lower_bound", p, f.lower_bound(p), t, key(sel.lower_bound(p)), info); });
		if (w == 2) guarded("next", "L09", info, [&] { ck("next", p, f.next(p), t, key(sel.upper_bound(p)), info); });
		if (w == 3) guarded("prev", "L09", info, [&] { ck("prev", p, f.prev(p), t, p ? below(p - 1) : nullptr, info); });
		if (w >= 4) guarded("rlower_bound", "L09", info, [&] { ck("rlower_bound", p, f.rlower_bound(p), t, below(p), info); });
	}
	// walk all of it in both directions
	if (r.chance(.3) && sel.size() < 400) {
		size_t n = 0; u64 p = 0; bool first = true; auto it = sel.begin();
		guarded("walk", "L09", info, [&] { for (;;) { auto i = first ? f.lower_bound(0) : f.next(p); first = false; ck("walk", p, i, t, key(it), info); if (!i || it == sel.end()) break; p = it->first; ++it; if (++n > sel.size() + 2) break; } });
		if (!sel.empty()) { auto ri = std::prev(sel.end()); p = ri->first; n = 0;
			guarded("walk-back", "L09", info, [&] { for (;;) { auto i = f.prev(p); const Key *w = ri == sel.begin() ? nullptr : &std::prev(ri)->second; ck("walk-back", p, i, t, w, info); if (!i || !w) break; --ri; p = ri->first; if (++n > sel.size() + 2) break; } }); }
		stat("walks");
	}
}
struct OpenOffset : BtrfsTreeOffsetFetcher { using BtrfsTreeOffsetFetcher::BtrfsTreeOffsetFetcher; };
static u64 pick_logical(Rng &r, u64 sc, int spread) {
	u64 v;
	switch (spread) { case 0: v = r(60) * sc; break; case 1: v = r(1 << 20) * sc; break; case 2: v = (r.next() >> r.range(14, 62)) * sc; break; default: v = (1ull << r.range(0, 40)) * sc + r(3) * sc; }
	return v;
}
static void l09(Rng &r) {
	Fd fd(open("/", O_RDONLY));
	double end = now() + optn("secs", 6);
	while (now() < end) {
		{ std::lock_guard<std::mutex> l(T.mu); T.t.clear(); T.batch = 0; }
		int spread = r(4), big = r.chance(.4) ? r.range(1, 2) : 0, n = r.chance(.1) ? r(4) : r.range(3, r.chance(.3) ? 300 : 60);
		u64 tree = 256 + r(3); auto &t = T.t[tree]; u64 tmax = r.chance(.4) ? 9 : 1;
		u64 mint = tmax > 1 && r.chance(.6) ? r(8) : 0, maxt = tmax > 1 && r.chance(.4) ? r.range(mint, 9) : MAX;
		string info = "seed " + S(g().seed) + " case " + S(g().stat["cases"]) + " items " + S(n) + " spread " + S(spread) + " big " + S(big) + " batch " + S(T.batch) + " transid " + S(mint) + ".." + S(maxt);
		stat("cases"); ++progress();
		int kind = r(7);
		if (kind == 0) {
			// keys near a target only: the search algorithm alone
			std::set<u64> s; for (int i = 0; i < n; ++i) s.insert(pick_logical(r, 1, spread)); if (r.chance(.2)) s.insert(MAX - 1 - r(10));
			for (int i = 0; i < 60; ++i) {
				u64 target = r.chance(.5) && !s.empty() ? *std::next(s.begin(), r(s.size())) + r(3) - 1 : pick_logical(r, 1, spread); if (r.chance(.05)) target = MAX - r(3);
				if (r.chance(.05)) target = 0;
				size_t calls = 0; auto q = s.upper_bound(target); u64 want = q == s.begin() ? 0 : *std::prev(q); u64 extra = r(4);
				guarded("seek_backward", "L09", info, [&] {
					u64 got = seek_backward(target, [&](u64 lo, u64 hi) { ++calls; std::set<u64> rv; auto i = s.lower_bound(lo); for (; i != s.end() && *i <= hi; ++i) rv.insert(*i); for (u64 x = 0; x < extra && i != s.end(); ++x, ++i) rv.insert(*i); if (calls > 1000) throw std::runtime_error("does not end"); return rv; }, (u64)1 << r(20));
					stat("seeks"); if (got != want) viol("L09", "seek-wrong", "seek_backward(" + hex(target) + ") returned " + hex(got) + ", expected " + hex(want) + "; " + info); });
			}
			continue;
		}
		if (kind <= 2) {
			// one object, positions in it
			BtrfsTreeOffsetFetcher f(fd); u64 sc = r.chance(.5) ? 4096 : 1; uint8_t ty = r.chance(.7) ? BTRFS_EXTENT_DATA_KEY : BTRFS_DIR_INDEX_KEY; u64 obj = 257 + r(5);
			for (int i = 0; i < n; ++i) { Key k{obj, ty, pick_logical(r, sc, spread)}; switch (r(7)) { case 0: k.o += 1 + r(2); break; case 1: k.o -= 1; break; case 2: k.t += 1 + r(3); break; case 3: k.t -= 1 + r(3); break; }
				t[k] = {1 + r(tmax), data(r, item_size(r, big))}; }
			if (sc == 1 && r.chance(.1)) t[Key{obj, ty, MAX - 1}] = {1, data(r, 20)};
			f.scale_size(sc); f.lookbehind_size(sc << r(18)); f.tree(tree); f.type(ty); f.objectid(obj); f.transid(mint, maxt);
			std::map<u64, Key> sel; for (auto &i : t) if (i.first.o == obj && i.first.t == ty && i.second.transid >= mint && i.second.transid <= maxt) sel.emplace(i.first.f, i.first);
			vector<u64> pr; for (int i = 0; i < 40; ++i) pr.push_back(pick_logical(r, sc, spread));
			check_fetcher(r, f, t, sel, pr, info + " offsets");
		} else if (kind <= 4) {
			// objects of one type
			BtrfsTreeObjectFetcher f(fd); u64 sc = r.chance(.5) ? 4096 : 1; uint8_t ty = r.chance(.5) ? BTRFS_EXTENT_ITEM_KEY : BTRFS_INODE_ITEM_KEY;
			double other = r.chance(.3) ? .9 : .4;
			for (int i = 0; i < n; ++i) { Key k{pick_logical(r, sc, spread), ty, r.chance(.8) ? 4096 * (1 + r(5)) : r.chance(.1) ? MAX : r.next()}; if (r.chance(other)) k.t = r.chance(.5) ? ty + 1 + r(5) : ty - (1 + r(ty)); t[k] = {1 + r(tmax), data(r, item_size(r, big))}; }
			if (sc == 1 && r.chance(.2)) t[Key{(u64)-9ll, ty, 0}] = {1, data(r, 30)};
			f.scale_size(sc); f.lookbehind_size(sc << r(18)); f.tree(tree); f.type(ty); f.transid(mint, maxt);
			std::map<u64, Key> sel; for (auto &i : t) if (i.first.t == ty && i.second.transid >= mint && i.second.transid <= maxt) sel.emplace(i.first.o, i.first);
			vector<u64> pr; for (int i = 0; i < 40; ++i) pr.push_back(pick_logical(r, sc, spread));
			check_fetcher(r, f, t, sel, pr, info + " objects");
		} else if (kind == 5) {
			// data extents, skipping block groups without data
			t.clear(); auto &et = T.t[BTRFS_EXTENT_TREE_OBJECTID], &ct = T.t[BTRFS_CHUNK_TREE_OBJECTID]; u64 pos = r(3) << 20; vector<std::tuple<u64, u64, bool>> bgs;
			for (int i = r.range(1, 8); i; --i) { u64 len = (1 + r(8)) << 20; bool d = r.chance(.55); btrfs_chunk c = {}; c.length = len; c.type = d ? BTRFS_BLOCK_GROUP_DATA | (r.chance(.2) ? BTRFS_BLOCK_GROUP_METADATA : 0) : r.chance(.8) ? BTRFS_BLOCK_GROUP_METADATA : BTRFS_BLOCK_GROUP_SYSTEM;
				ct[Key{BTRFS_FIRST_CHUNK_TREE_OBJECTID, BTRFS_CHUNK_ITEM_KEY, pos}] = {1, pod(c)}; bgs.push_back(std::make_tuple(pos, len, d)); pos += len + (r.chance(.4) ? r(5) << 20 : 0); }
			std::map<u64, Key> sel;
			for (auto &b : bgs) { u64 p = std::get<0>(b), e = p + std::get<1>(b); int m = r(40);
				while (m-- && p < e) { p += r(40) * 4096; u64 len = 4096 * (1 + r(32)); if (p + len > e) break; bool d = std::get<2>(b); Key k{p, BTRFS_EXTENT_ITEM_KEY, len};
					if (!d && r.chance(.8)) k = Key{p, BTRFS_METADATA_ITEM_KEY, r(4)};
					btrfs_extent_item x = {}; x.refs = 1; x.generation = 5; x.flags = d ? BTRFS_EXTENT_FLAG_DATA : BTRFS_EXTENT_FLAG_TREE_BLOCK; et[k] = {1, pod(x) + data(r, r(60))}; if (d) sel.emplace(p, k); p += d ? len : 16384;
					if (d && r.chance(.3)) et[Key{k.o, BTRFS_EXTENT_DATA_REF_KEY, r.next()}] = {1, data(r, 28)}; } 
				et[Key{std::get<0>(b), BTRFS_BLOCK_GROUP_ITEM_KEY, std::get<1>(b)}] = {1, data(r, 24)}; }
			BtrfsDataExtentTreeFetcher f(fd); f.scale_size(4096);
			// an item outside the data block groups may or may not be shown; all others must be
			auto ok_extra = [&](const BtrfsTreeItem &i) { for (auto &b : bgs) if (i.objectid() >= std::get<0>(b) && i.objectid() < std::get<0>(b) + std::get<1>(b)) return !std::get<2>(b); return false; };
			u64 p = r(4) ? 0 : r(pos >> 12) << 12; auto it = sel.lower_bound(p); size_t n2 = 0; bool up = r.chance(.7); string in2 = info + " data extents from " + hex(p);
			if (up) guarded("data-walk", "L09", in2, [&] { auto i = f.lower_bound(p);
				for (; !!i; i = f.next(p)) { p = i.objectid(); if (ok_extra(i)) { stat("extra"); continue; } ck("data-walk", p, i, et, it == sel.end() ? nullptr : &it->second, in2); if (it == sel.end() || it->first != p) break; ++it; if (++n2 > sel.size() + 2) break; }
				if (!i && it != sel.end()) ck("data-walk", p, i, et, &it->second, in2); });
			else for (int q = 0; q < 30; ++q) { u64 l = r(pos >> 12) << 12; auto x = sel.upper_bound(l);
				guarded("data-rlower", "L09", in2, [&] { auto i = f.rlower_bound(l); if (!!i && ok_extra(i) && (x == sel.begin() || std::prev(x)->first < i.objectid()) && i.objectid() <= l) { stat("extra"); return; } ck("data-rlower", l, i, et, x == sel.begin() ? nullptr : &std::prev(x)->second, in2); }); }
		} else {
			// checksums of a range
			csum_sz = r.chance(.5) ? 4 : r.chance(.5) ? 32 : 8; auto &ct = T.t[BTRFS_CSUM_TREE_OBJECTID]; std::map<u64, string> sums; u64 p = r(100) * 4096;
			for (int i = r(30); i; --i) { size_t c = 1 + r(r.chance(.2) ? 65000 / csum_sz / (big > 1 ? 1 : 4) : 40); Key k{(u64)BTRFS_EXTENT_CSUM_OBJECTID, BTRFS_EXTENT_CSUM_KEY, p}; string d = data(r, c * csum_sz); ct[k] = {1, d}; for (size_t j = 0; j < c; ++j) sums[p + j * 4096] = d.substr(j * csum_sz, csum_sz); p += c * 4096 + (r.chance(.6) ? 4096 * r(50) : 0); }
			guarded("csum", "L09", info, [&] { BtrfsCsumTreeFetcher f(fd);
			for (int q = 0; q < 20; ++q) { u64 l = r(p / 4096 + 20) * 4096; size_t c = 1 + r(r.chance(.3) ? 3000 : 60); std::map<u64, string> got; bool bad = false; u64 last = 0;
				f.get_sums(l, c, [&](u64 at, const uint8_t *b, size_t n) { if (n % csum_sz || at % 4096 || at < last) bad = true; for (size_t j = 0; j + csum_sz <= n; j += csum_sz) { if (got.count(at)) bad = true; got[at] = string((const char *)b + j, csum_sz); at += 4096; } last = at; });
				stat("sum_lookups"); ++progress(); std::map<u64, string> want(sums.lower_bound(l), sums.lower_bound(l + c * 4096));
				if (bad || got != want) viol("L09", "sums-wrong", "get_sums(" + hex(l) + ", " + S(c) + ") returned " + S(got.size()) + " sums, a scan finds " + S(want.size()) + (bad ? ", badly ordered" : got.size() == want.size() ? ", different" : "") + "; " + info); } });
			csum_sz = 4;
		}
		// plain iteration over a range of keys
		if (r.chance(.5) && T.t.count(tree) && !T.t[tree].empty()) {
			auto &tt = T.t[tree]; BtrfsIoctlSearchKey sk; Key lo{r.chance(.3) ? 0 : r(300), (uint8_t)r(200), r(100)}, hi{MAX, 255, MAX};
			if (r.chance(.3)) { auto i = std::next(tt.begin(), r(tt.size())); hi = i->first; } if (r.chance(.3)) lo = std::next(tt.begin(), r(tt.size()))->first;
			sk.tree_id = tree; sk.min_objectid = lo.o; sk.min_type = lo.t; sk.min_offset = lo.f; sk.max_objectid = hi.o; sk.max_type = hi.t; sk.max_offset = hi.f; sk.min_transid = mint; sk.max_transid = maxt; u64 want_n = r.range(1, 20);
			vector<Key> want, got; for (auto &i : tt) if (!(i.first < lo) && !(hi < i.first) && i.second.transid >= mint && i.second.transid <= maxt) want.push_back(i.first);
			bool bytes = true;
			guarded("iterate", "L09", info, [&] { for (size_t calls = 0; calls < want.size() + 5; ++calls) { sk.nr_items = want_n; sk.do_ioctl(fd); if (sk.m_result.empty()) break; BtrfsIoctlSearchHeader lasth; for (auto &h : sk.m_result) { Key k{h.objectid, (uint8_t)h.type, h.offset}; got.push_back(k); auto f = tt.find(k); if (f == tt.end() || f->second.data.size() != h.m_data.size() || (h.m_data.size() && memcmp(h.m_data.data(), f->second.data.data(), h.m_data.size()))) bytes = false; lasth = h; } if (lasth.objectid == MAX && lasth.offset == MAX) break; sk.next_min(lasth); } });
			stat("iterations"); stat("iterated", got.size());
			if (!(got == want)) viol("L09", "iteration", "iterating keys " + ks(lo) + ".." + ks(hi) + " returned " + S(got.size()) + " items, a scan finds " + S(want.size()) + "; " + info);
			else if (!bytes) viol("L09", "item-data", "iterating returned items with other contents than stored; " + info);
		}
		mix(T.searches * 31 + T.overflows);
	}
	g().stat["searches"] = T.searches; g().stat["overflows"] = T.overflows; g().stat["items_returned"] = T.returned;
}
// ---------------------------------------------------------------- L10
struct Ex { u64 b, e, phys, fl; u64 gen = 0, off = 0; };
static string es(const Ex &e) { return "[" + hex(e.b) + ".." + hex(e.e) + " at " + hex(e.phys) + " flags " + hex(e.fl) + "]"; }
static const u64 CARE = Extent::HOLE | Extent::PREALLOC | FIEMAP_EXTENT_ENCODED | FIEMAP_EXTENT_DATA_INLINE | FIEMAP_EXTENT_LAST;
static bool same(const Extent &x, const Ex &e) { return (u64)x.begin() == e.b && (u64)x.end() == e.e && (x.flags() & CARE & ~(e.fl & Extent::HOLE ? FIEMAP_EXTENT_LAST : 0)) == (e.fl & ~(e.fl & Extent::HOLE ? FIEMAP_EXTENT_LAST : 0)) && ((e.fl & (Extent::HOLE | FIEMAP_EXTENT_DATA_INLINE)) || (x.physical() == e.phys && x.generation() == e.gen && (u64)x.offset() == e.off)); }
static string es(const Extent &e) { return es(Ex{(u64)e.begin(), (u64)e.end(), e.physical(), e.flags()}); }
static string fex(uint8_t type, uint8_t comp, u64 gen, u64 ram, u64 bytenr, u64 dlen, u64 off, u64 num) {
	btrfs_file_extent_item x = {}; x.generation = gen; x.ram_bytes = ram; x.compression = comp; x.type = type; x.disk_bytenr = bytenr; x.disk_num_bytes = dlen; x.offset = off; x.num_bytes = num; return pod(x);
}
static void l10(Rng &r) {
	double end = now() + optn("secs", 6);
	while (now() < end) {
		Fd fd(memfd_create("f", 0)); struct stat st; fstat(fd, &st); u64 ino = st.st_ino; root_of_fd = 256 + r(20);
		{ std::lock_guard<std::mutex> l(T.mu); T.t.clear(); T.batch = 0; }
		auto &t = T.t[root_of_fd]; vector<Ex> ex; int kind = r(10); u64 size = 0, p = 0; int n = r.chance(.1) ? 1 + r(3) : r.chance(.2) ? r.range(100, 600) : r.range(1, 50); u64 B = 4096;
		u64 hole_max = r.chance(.25) ? 1ull << r.range(3, 34) : 64, len_max = r.chance(.3) ? 4 : r.chance(.3) ? 32768 : 64; double ph = r.chance(.3) ? .8 : r.chance(.3) ? 0 : .3; bool explicit_holes = r.chance(.3);
		auto k = [&](u64 o) { return Key{ino, BTRFS_EXTENT_DATA_KEY, o}; };
		if (kind == 0) { size = 1 + r(r.chance(.5) ? 100 : 4095); bool z = r.chance(.3); string h = fex(BTRFS_FILE_EXTENT_INLINE, z, 7, size, 0, 0, 0, 0).substr(0, offsetof(btrfs_file_extent_item, disk_bytenr)); t[k(0)] = {7, h + data(r, z ? size / 2 + 1 : size)}; ex.push_back({0, size, 0, FIEMAP_EXTENT_DATA_INLINE | (z ? FIEMAP_EXTENT_ENCODED : 0)}); }
		else {
			u64 phys = 1 << 20; bool was_hole = false;
			if (kind == 1) n = 0;
			for (int i = 0; i < n; ++i) {
				if (!was_hole && r.chance(ph)) { u64 len = B * (1 + r(hole_max)); ex.push_back({p, p + len, 0, Extent::HOLE}); if (explicit_holes) t[k(p)] = {5, fex(BTRFS_FILE_EXTENT_REG, 0, 5, len, 0, 0, 0, len)}; p += len; was_hole = true; continue; }
				was_hole = false; u64 gen = 1 + r(1000), len = B * (1 + r(len_max)); bool z = r.chance(.3), pre = !z && r.chance(.15);
				if (z) { u64 ram = B * (1 + r(32)), off = B * r(ram / B); len = std::min(len, ram - off); u64 dl = B * (1 + r(ram / B)); t[k(p)] = {gen, fex(BTRFS_FILE_EXTENT_REG, 1 + r(3), gen, ram, phys, dl, off, len)}; ex.push_back({p, p + len, phys, FIEMAP_EXTENT_ENCODED, gen, off}); phys += dl + B * r(5); }
				else { u64 off = r.chance(.3) ? B * r(10) : 0, ram = off + len + (r.chance(.3) ? B * r(9) : 0); t[k(p)] = {gen, fex(pre ? BTRFS_FILE_EXTENT_PREALLOC : BTRFS_FILE_EXTENT_REG, 0, gen, ram, phys, ram, off, len)}; ex.push_back({p, p + len, phys + off, pre ? Extent::PREALLOC : 0, gen, off}); phys += ram + (r.chance(.5) ? 0 : B * r(100)); }
				p += len;
			}
			size = p;
			if (kind == 1) { size = 1 + r(1 << 24); ex.push_back({0, size, 0, Extent::HOLE}); }
			else {
				// cut the end of the file: unaligned, or a hole, or allocated space after the end
				int c = r(5); auto &l = ex.back(); bool lh = l.fl & Extent::HOLE;
				if (c == 0) size -= r(4096);
				else if (c == 1 && !lh && l.e - l.b > B) size -= r(l.e - l.b - 1);
				else if (c == 2) { u64 extra = 1 + r(200000); if (lh && !explicit_holes) l.e += extra; else ex.push_back({p, p + extra, 0, Extent::HOLE}); size += extra; }
				else if (c == 3) { u64 q = p; for (int i = 1 + r(3); i; --i) { if (r.chance(.3)) q += B * (1 + r(30)); u64 len = B * (1 + r(30)); t[k(q)] = {3, fex(BTRFS_FILE_EXTENT_PREALLOC, 0, 3, len, phys, len, 0, len)}; phys += len; q += len; } if (r.chance(.5)) size -= r(4096); }
				ex.back().e = size;
			}
		}
		ex.back().fl |= FIEMAP_EXTENT_LAST;
		// neighbours of the file
		if (r.chance(.8)) t[Key{ino, BTRFS_INODE_ITEM_KEY, 0}] = {5, data(r, 160)};
		if (r.chance(.6)) t[Key{ino, BTRFS_XATTR_ITEM_KEY, r.next() >> 32}] = {5, data(r, r(3000))};
		if (r.chance(.6)) t[Key{ino - 1, BTRFS_EXTENT_DATA_KEY, r(20) * B}] = {5, fex(BTRFS_FILE_EXTENT_REG, 0, 5, B, B, B, 0, B)};
		if (r.chance(.7)) for (int i = 1 + r(20); i; --i) { u64 o = ino + 1 + r(5); if (r.chance(.5)) t[Key{o, BTRFS_INODE_ITEM_KEY, 0}] = {5, data(r, 160)}; else t[Key{o, BTRFS_EXTENT_DATA_KEY, r(2000) * B}] = {5, fex(BTRFS_FILE_EXTENT_REG, 0, 5, B, B, B, 0, B)}; }
		if (ftruncate(fd, size)) { g().inconclusive = "no space"; return; }
		string info = "seed " + S(g().seed) + " case " + S(g().stat["cases"]) + " extents " + S(ex.size()) + " size " + hex(size) + " kind " + S(kind) + " batch " + S(T.batch) + (explicit_holes ? " explicit holes" : "");
		stat("cases"); stat("extents", ex.size()); ++progress();
		auto at = [&](u64 pos) { size_t i = 0; if (pos >= size) return ex.size() - 1; size_t lo = 0, hi = ex.size(); while (hi - lo > 1) { i = (lo + hi) / 2; if (ex[i].b <= pos) lo = i; else hi = i; } return lo; };
		auto judge = [&](const char *op, const Extent &got, size_t i) { stat("positions"); if (!same(got, ex[i])) viol("L10", string("wrong-") + op, string(op) + ": got " + es(got) + ", the file has " + es(ex[i]) + " (number " + S(i) + "); " + info); };
		// seek anywhere, then step around
		for (int q = 0; q < 12; ++q) {
			u64 pos = r.chance(.2) ? 0 : (r.chance(.5) ? ex[r(ex.size())].b + B * r(3) : r(size)) & ~(B - 1); if (r.chance(.05)) pos = (size + B * r(4)) & ~(B - 1); if (kind == 0) pos = 0;
			bool root_fd = r.chance(.3);
			guarded("seek", "L10", info + " at " + hex(pos), [&] {
				BtrfsExtentWalker ew(fd); if (root_fd) ew.set_root_fd(fd); ew.seek(pos); size_t i = at(pos); judge("seek", ew.current(), i);
				int steps = pos < size ? r.range(1, 30) : 0;     // a position after the end finds the last extent, and nothing more is promised
				for (int s = 0; s < steps; ++s) { ++progress();
					int w = r(5);
					if (w < 2) { bool m = ew.next(); stat("steps"); if (m != (i + 1 < ex.size())) { viol("L10", "next-end", string("next() returned ") + (m ? "true" : "false") + " at extent " + S(i) + " of " + S(ex.size()) + "; " + info); return; } if (m) judge("next", ew.current(), ++i); }
					else if (w < 4) { bool m = ew.prev(); stat("steps"); if (m != (i > 0)) { viol("L10", "prev-end", string("prev() returned ") + (m ? "true" : "false") + " at extent " + S(i) + "; " + info); return; } if (m) judge("prev", ew.current(), --i); }
					else { pos = kind == 0 ? 0 : r(size) & ~(B - 1); ew.seek(pos); i = at(pos); judge("seek", ew.current(), i); }
				} });
		}
		if (ex.size() < 200 && r.chance(.5)) guarded("walk", "L10", info, [&] {
			BtrfsExtentWalker ew(fd); ew.seek(0); size_t i = 0; for (;;) { judge("next", ew.current(), i); bool m = ew.next(); if (m != (i + 1 < ex.size())) { viol("L10", "next-end", "walk ended at extent " + S(i) + " of " + S(ex.size()) + "; " + info); break; } if (!m) break; ++i; }
			for (;;) { judge("prev", ew.current(), i); bool m = ew.prev(); if (m != (i > 0)) { viol("L10", "prev-end", "walk back ended at extent " + S(i) + "; " + info); break; } if (!m) break; --i; } stat("walks"); });
		mix(ex.size() * 131 + size);
	}
	g().stat["searches"] = T.searches;
}
// ---------------------------------------------------------------- L11
static void l11(Rng &r) {
	double end = now() + optn("secs", 4);
	Fd fd(memfd_create("f", 0)); ftruncate(fd, 1 << 20);
	while (now() < end) {
		string info = "seed " + S(g().seed) + " case " + S(g().stat["cases"]); stat("cases"); ++progress();
		switch (r(5)) {
		case 0: { // dedupe
			u64 so = r.next() >> r.range(10, 50), dof = r.next() >> r.range(10, 50), len = 1 + (r.chance(.3) ? r(1 << 12) : r.chance(.5) ? r(1 << 24) : r(1ull << 28)); int sfd = 100 + r(50), dfd = 200 + r(50);
			u64 cap = r.chance(.3) ? 16 << 20 : r.chance(.3) ? 1 << 20 : len + r(100); int calls = 0, failat = r.chance(.4) ? 1 + r(4) : 0, how = r(4); int eno = r.chance(.5) ? EINVAL : r.chance(.5) ? ETXTBSY : EPERM; u64 done = 0; string bad;
			bool failed = false;
			on_ioctl = [&](int f, unsigned long req, void *a) -> int {
				if (req != BTRFS_IOC_FILE_EXTENT_SAME) { return fail(ENOTTY); }
				auto p = (btrfs_ioctl_same_args *)a; ++calls; ++progress();
				if (f != sfd || p->dest_count != 1 || p->reserved1 || p->reserved2 || p->info[0].fd != dfd) bad = "wrong files";
				if (p->logical_offset != so + done || p->info[0].logical_offset != dof + done || p->length > len - done || !p->length) bad = "request " + S(calls) + " is for " + hex(p->logical_offset) + "->" + hex(p->info[0].logical_offset) + " length " + hex(p->length) + " after " + hex(done) + " bytes were done";
				if (p->info[0].status || p->info[0].bytes_deduped || p->info[0].reserved) bad = "uninitialised fields";
				if (calls == failat) { failed = true; if (how == 0) return fail(eno); if (how == 1) { p->info[0].status = -eno; return 0; } if (how == 2) { p->info[0].status = FILE_DEDUPE_RANGE_DIFFERS; return 0; } p->info[0].bytes_deduped = 0; return 0; }
				u64 n = std::min<u64>(p->length, r.chance(.3) ? 1 + r(cap) : cap); done += n; p->info[0].bytes_deduped = n; return 0; };
			bool rv = false, threw = false; 
			try { rv = btrfs_extent_same(sfd, so, len, dfd, dof); } catch (std::exception &e) { threw = true; }
			on_ioctl = base_ioctl; stat("dedupes"); stat("dedupe_calls", calls); if (failed) stat("dedupe_failures");
			if (bad != "") viol("L11", "dedupe-request", "dedupe " + hex(so) + "->" + hex(dof) + " length " + hex(len) + ": " + bad + "; " + info);
			else if (!failed && (!rv || threw || done != len)) viol("L11", "dedupe-incomplete", "dedupe of " + hex(len) + " bytes returned " + (threw ? "an error" : rv ? "success" : "failure") + " after the kernel did " + hex(done) + " without error; " + info);
			else if (failed && rv) viol("L11", "dedupe-false-success", "dedupe reported success although the kernel refused after " + hex(done) + " of " + hex(len) + " bytes (how " + S(how) + "); " + info);
			else if (failed && how == 2 && threw) viol("L11", "dedupe-differs-error", "different data was reported as an error; " + info);
			else if (failed && how != 2 && !threw) viol("L11", "dedupe-lost-error", "a failed dedupe was reported as different data; " + info);
			break; }
		case 1: { // references of an address
			u64 addr = r.next() >> 20 << 12; size_t nref = r.chance(.1) ? 0 : r.chance(.1) ? r(60000) : r(40), sz = 4096 << r(12); u64 flags = r.chance(.5) ? BTRFS_LOGICAL_INO_ARGS_IGNORE_OFFSET : 0; bool v1only = false, er = r.chance(.15); int eno = r.chance(.5) ? ENOENT : ENOMEM; int calls = 0; string bad; vector<std::array<u64, 3>> refs(nref); for (auto &x : refs) x = {256 + r(1000), r(1 << 20) << 12, 5 + r(300)};
			size_t fit = (std::min<size_t>(sz, 16 << 20) - offsetof(btrfs_data_container, val)) / 24, ret = std::min(nref, fit);
			on_ioctl = [&](int f, unsigned long req, void *a) -> int { if (req != BTRFS_IOC_LOGICAL_INO_V2 && req != BTRFS_IOC_LOGICAL_INO) return fail(ENOTTY); auto p = (btrfs_ioctl_logical_ino_args *)a; ++calls; if (f != (int)fd) bad = "wrong file"; if (p->logical != addr) bad = "address " + hex(p->logical); if (p->size != sz) bad = "size " + S(p->size); if (*(&p->reserved[0] + 3) != flags && req == BTRFS_IOC_LOGICAL_INO_V2) bad = "flags"; 
				if (er) return fail(eno); auto c = (btrfs_data_container *)p->inodes; memset((void *)c, 0x5a, sz); c->elem_cnt = ret * 3; c->elem_missed = (nref - ret) * 3; c->bytes_left = 0; c->bytes_missing = 0; for (size_t i = 0; i < ret; ++i) memcpy((char *)c->val + i * 24, refs[i].data(), 24); return 0; };
			(void)v1only;
			BtrfsIoctlLogicalInoArgs l(addr + (r.chance(.3) ? 4096 : 0), r.chance(.5) ? sz : 4096); l.set_logical(addr); l.set_size(sz); l.set_flags(flags); bool ok = false, threw = false; if (r.chance(.7)) ok = l.do_ioctl_nothrow(fd); else try { l.do_ioctl(fd); ok = true; } catch (std::exception &) { threw = true; } 
			(void)threw; on_ioctl = base_ioctl; stat("logical_inos"); if (er) stat("kernel_errors");
			if (bad != "") viol("L11", "refs-request", "reference lookup passed a wrong request: " + bad + "; " + info);
			if (er && ok) viol("L11", "refs-lost-error", "a failed reference lookup was reported as success; " + info);
			if (!er && !ok) viol("L11", "refs-false-error", "a successful reference lookup was reported as failure; " + info);
			if (er && l.m_iors.size()) viol("L11", "refs-after-error", "references reported although the lookup failed; " + info);
			if (!er && ok) { bool same = l.m_iors.size() == ret; size_t i = 0; if (same) for (auto &x : l.m_iors) { if (x.m_inum != refs[i][0] || x.m_offset != refs[i][1] || x.m_root != refs[i][2]) same = false; ++i; } stat("refs_compared", ret); if (!same) viol("L11", "refs-wrong", "reference lookup returned " + S(l.m_iors.size()) + " records, the kernel gave " + S(ret) + "; " + info); }
			break; }
		case 2: { // paths of an inode
			u64 ino = 256 + r(100000); size_t np = r(30), sz = r.chance(.5) ? 65536 : 4096; vector<string> paths; size_t used = offsetof(btrfs_data_container, val); 
			for (size_t i = 0; i < np; ++i) { string s; for (int c = r(r.chance(.1) ? 3000 : 60); c >= 0; --c) s += (char)(1 + r(255)); if (used + 8 + s.size() + 1 > sz) break; used += 8 + s.size() + 1; paths.push_back(s); }
			bool er = r.chance(.15); string bad;
			on_ioctl = [&](int f, unsigned long req, void *a) -> int { if (req != BTRFS_IOC_INO_PATHS) return fail(ENOTTY); auto p = (btrfs_ioctl_ino_path_args *)a; if (f != (int)fd || p->inum != ino) bad = "inode " + S(p->inum); if (p->size > sz || p->size < 24) bad = "size " + S(p->size); if (er) return fail(ENOENT); auto c = (btrfs_data_container *)p->fspath; c->elem_cnt = paths.size(); char *v = (char *)c->val; size_t o = p->size - offsetof(btrfs_data_container, val); for (size_t i = 0; i < paths.size(); ++i) { o -= paths[i].size() + 1; memcpy(v + o, paths[i].c_str(), paths[i].size() + 1); c->val[i] = o; } return 0; };
			bool ok = false; vector<string> got; guarded("ino_paths", "L11", info, [&] { BtrfsIoctlInoPathArgs ip(ino, sz); ok = ip.do_ioctl_nothrow(fd); got.assign(ip.m_paths.begin(), ip.m_paths.end()); }); on_ioctl = base_ioctl; stat("ino_paths"); if (er) stat("kernel_errors");
			if (bad != "") viol("L11", "paths-request", "path lookup passed a wrong request: " + bad + "; " + info);
			if (ok == er) viol("L11", "paths-status", string("path lookup ") + (er ? "succeeded although the kernel failed" : "failed although the kernel succeeded") + "; " + info);
			if (!er && got != paths) viol("L11", "paths-wrong", "path lookup returned " + S(got.size()) + " paths, the kernel gave " + S(paths.size()) + "; " + info); else stat("paths_compared", got.size());
			break; }
		case 3: { // extents of a file by the generic interface
			size_t n = r(200); vector<fiemap_extent> ex; u64 p = r(10) * 4096; for (size_t i = 0; i < n; ++i) { fiemap_extent e = {}; e.fe_logical = p; e.fe_length = 4096 * (1 + r(9)); e.fe_physical = r.next() >> 20; e.fe_flags = r.chance(.2) ? FIEMAP_EXTENT_ENCODED : 0; p += e.fe_length + (r.chance(.4) ? 4096 * r(9) : 0); ex.push_back(e); } if (n) ex.back().fe_flags |= FIEMAP_EXTENT_LAST;
			u64 start = r.chance(.4) ? 0 : r(p + 1) & ~4095ull, len = r.chance(.4) ? (u64)LLONG_MAX - start : r(p + 4096) + 1; bool er = r.chance(.1); int calls = 0; string bad; 
			auto sel = [&](u64 s, u64 l) { vector<fiemap_extent> v; for (auto &e : ex) if (e.fe_logical + e.fe_length > s && e.fe_logical < s + l) v.push_back(e); return v; };
			on_ioctl = [&](int f, unsigned long req, void *a) -> int { if (req != FS_IOC_FIEMAP) return fail(ENOTTY); auto m = (fiemap *)a; ++calls; if (f != (int)fd) bad = "wrong file"; if (calls > 400) return fail(EIO); if (er && calls == 2) return fail(EIO); auto v = sel(m->fm_start, m->fm_length); m->fm_mapped_extents = std::min<size_t>(v.size(), m->fm_extent_count); for (size_t i = 0; i < m->fm_mapped_extents; ++i) m->fm_extents[i] = v[i]; return 0; };
			Fiemap fm(start, len); fm.m_min_count = 1 + r(20); fm.m_max_count = fm.m_min_count + (r.chance(.5) ? r(300) : 0); bool threw = false; size_t maxn = fm.m_max_count; auto want = sel(start, len); if (want.size() > maxn) want.resize(maxn);
			try { fm.do_ioctl(fd); } catch (std::exception &) { threw = true; } on_ioctl = base_ioctl; stat("fiemaps"); bool failed = er && calls >= 2; if (failed) stat("kernel_errors");
			if (bad != "") viol("L11", "fiemap-request", bad + "; " + info);
			if (failed != threw) viol("L11", "fiemap-status", string("fiemap ") + (failed ? "succeeded although the kernel failed" : "failed although the kernel succeeded") + "; " + info);
			if (!failed && !threw) { bool ok = fm.m_extents.size() == want.size(); for (size_t i = 0; ok && i < want.size(); ++i) if (memcmp(static_cast<fiemap_extent *>(&fm.m_extents[i]), &want[i], sizeof want[i])) ok = false; if (!ok) viol("L11", "fiemap-wrong", "fiemap returned " + S(fm.m_extents.size()) + " extents, the kernel has " + S(want.size()) + " (limit " + S(maxn) + "); " + info); }
			break; }
		default: { // tree search: errors, a missing tree, items of every size
			{ std::lock_guard<std::mutex> l(T.mu); T.t.clear(); T.batch = 0; } auto &t = T.t[300]; size_t want_n = 1 + r(20), n = r(25); for (size_t i = 0; i < n; ++i) t[Key{256 + r(50), (uint8_t)(1 + r(200)), r(1000)}] = {1 + r(50), data(r, item_size(r, 2))};
			int mode = r(8); int eno = r.chance(.5) ? EPERM : EIO; string bad; int calls = 0; BtrfsIoctlSearchKey sk(r.chance(.5) ? 1024 : r(70000)); u64 mo = r(300); sk.tree_id = mode == 0 ? 999 : 300; sk.min_objectid = mo; sk.nr_items = want_n; btrfs_ioctl_search_key asked = sk; size_t prev = 0;
			on_ioctl = [&](int f, unsigned long req, void *a) -> int { if (req != BTRFS_IOC_TREE_SEARCH_V2) return base_ioctl(f, req, a); auto p = (btrfs_ioctl_search_args_v2 *)a; ++calls; if (memcmp(&p->key, &asked, sizeof asked)) bad = "search key changed before the call"; if (p->buf_size <= prev) bad = "buffer did not grow"; if (p->buf_size > 16 << 20) bad = "buffer larger than the kernel accepts"; prev = p->buf_size; if (mode == 1) return fail(eno); return T.search(p); };
			bool ok = false; guarded("search", "L11", info, [&] { ok = sk.do_ioctl_nothrow(fd); }); on_ioctl = base_ioctl; stat("searches"); if (mode == 1) stat("kernel_errors");
			if (bad != "") viol("L11", "search-request", bad + "; " + info);
			if (mode == 0 ? !ok || sk.m_result.size() : mode == 1 ? ok : !ok) viol("L11", "search-status", string("tree search ") + (ok ? "succeeded" : "failed") + " with " + S(sk.m_result.size()) + " items, mode " + S(mode) + "; " + info);
			if (mode > 1 && ok) { // the results are a gapless prefix of what the tree holds, and not empty if it holds anything
				auto i = t.lower_bound(Key{mo, 0, 0}); bool good = true; for (auto &h : sk.m_result) { if (i == t.end() || !(Key{h.objectid, (uint8_t)h.type, h.offset} == i->first) || h.transid != i->second.transid || h.m_data.size() != i->second.data.size() || (h.m_data.size() && memcmp(h.m_data.data(), i->second.data.data(), h.m_data.size()))) { good = false; break; } ++i; }
				stat("items_compared", sk.m_result.size()); if (!good) viol("L11", "search-wrong", "tree search returned other items than the tree holds; " + info); else if (sk.m_result.empty() && i != t.end()) viol("L11", "search-empty", "tree search returned nothing although the next item has " + S(i->second.data.size()) + " bytes; " + info); else if (sk.m_result.size() > want_n) viol("L11", "search-too-many", info); }
			break; }
		}
		u64 d = 0; for (auto &x : g().stat) d = d * 31 + x.second; mix(d);
	}
}
namespace mon { void run(Rng &r) {
	on_ioctl = base_ioctl; watchdog(20);
	string p = opt("part", "L09"); g().prop = p;
	std::cerr.setstate(std::ios::failbit);
	if (p == "L09") l09(r); else if (p == "L10") l10(r); else l11(r);
	if (!g().stat.count("distinct")) g().stat["distinct"] = g().stat["cases"];
} }
