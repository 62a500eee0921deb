// L12: block addresses, file ranges and the growth of matching pairs.  L13: fingerprints of blocks.
// L14: I/O helpers under scripted short, interrupted and failed calls; byte buffers; conversions.
#define MON_MAIN
#include "kern.h"
#include "bees.h"
#include "crucible/bytevector.h"
#include "crucible/crc64.h"
#include "crucible/hexdump.h"
#include "crucible/limits.h"
#include "crucible/ntoa.h"
#include "crucible/path.h"
#include "crucible/string.h"
#include "crucible/table.h"
#include <climits>
#include <optional>
#include <sys/mman.h>
namespace kern { extern std::function<bool(char op, int fd, void *buf, size_t n, long off, ssize_t *out)> on_io; }
using namespace mon; using namespace kern; using namespace crucible; using std::make_shared; using std::tie; using std::optional;
static const u64 B = 4096;
static Trees T; static std::mutex root_mu; static std::map<u64, u64> root_of_ino; static u64 top_ino = 0;
static int base_ioctl(int fd, unsigned long req, void *arg) {
	switch (req) {
	case BTRFS_IOC_TREE_SEARCH_V2: return T.search((btrfs_ioctl_search_args_v2 *)arg);
	case BTRFS_IOC_INO_LOOKUP: { struct stat st; if (fstat(fd, &st)) return -1; std::lock_guard<std::mutex> l(root_mu); auto i = root_of_ino.find(st.st_ino); ((btrfs_ioctl_ino_lookup_args *)arg)->treeid = i == root_of_ino.end() ? 5 : i->second; return 0; }
	}
	return fail(ENOTTY);
}
template <class F> static bool guarded(const char *what, const char *prop, const string &info, F f) {
	try { f(); return true; } catch (std::exception &e) { viol(prop, string("exception:") + what, string(what) + ": " + string(e.what()).substr(0, 500) + "; " + info); return false; }
}
static string bytes(Rng &r, size_t n) { string s(n, 0); for (size_t i = 0; i < n; i += 8) { u64 v = r.next(); memcpy(&s[i], &v, std::min<size_t>(8, n - i)); } return s; }
// the documented function: reflected CRC-64, polynomial 0xd800000000000000, one bit at a time
static u64 crc_ref(const uint8_t *p, size_t n) { u64 c = 0; while (n--) { c ^= *p++; for (int i = 0; i < 8; ++i) c = c & 1 ? (c >> 1) ^ 0xd800000000000000ull : c >> 1; } return c; }
static u64 crc_fast(const uint8_t *p, size_t n) { static u64 t[256]; static bool once = [] { for (int i = 0; i < 256; ++i) { u64 c = i; for (int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0xd800000000000000ull : c >> 1; t[i] = c; } return true; }(); (void)once; u64 c = 0; while (n--) c = t[(c ^ *p++) & 255] ^ (c >> 8); return c; }

// ---------------------------------------------------------------- files with layouts
struct MExt { u64 b, e, phys, off; bool comp, hole, inl; };          // e may exceed the file size
struct MFile { Fd fd; u64 root, ino, size; string data; vector<MExt> ex;
	const MExt &at(u64 pos) const { for (auto &x : ex) if (pos >= x.b && pos < x.e) return x; return ex.back(); }
	// physical address used to tell blocks apart
	u64 phys(u64 pos) const { auto &x = at(pos); return x.hole || x.inl ? 0 : x.comp ? x.phys : x.phys + x.off + (pos - x.b); }
	u64 eend(u64 pos) const { return std::min(at(pos).e, size); }
	string block(u64 pos) const { return data.substr(pos, B); } };
static string fex(uint8_t type, uint8_t comp, u64 ram, u64 bytenr, u64 dlen, u64 off, u64 num) { btrfs_file_extent_item x = {}; x.generation = 7; x.ram_bytes = ram; x.compression = comp; x.type = type; x.disk_bytenr = bytenr; x.disk_num_bytes = dlen; x.offset = off; x.num_bytes = num; return pod(x); }
static MFile make_file(Rng &r, const vector<string> &blocks, u64 size, u64 root, u64 &phys, const vector<MExt> *share_from) {
	MFile f; f.fd = memfd_create("f", 0); struct stat st; fstat(f.fd, &st); f.ino = st.st_ino; f.root = root; f.size = size;
	for (auto &b : blocks) f.data += b; f.data.resize(size);
	{ std::lock_guard<std::mutex> l(root_mu); root_of_ino[f.ino] = root; }
	std::lock_guard<std::mutex> l(T.mu); auto &t = T.t[root];
	u64 p = 0, top = (size + B - 1) / B * B, lenmax = r.chance(.3) ? 3 : r.chance(.5) ? 40 : 200; bool washole = false;
	while (p < top) {
		MExt e = {}; e.b = p; u64 len = std::min(B * (1 + r(lenmax)), top - p);
		if (!washole && r.chance(.1)) { e.hole = true; e.e = p + len; for (u64 q = p; q < std::min(p + len, size); ++q) f.data[q] = 0; if (r.chance(.3)) t[Key{f.ino, BTRFS_EXTENT_DATA_KEY, p}] = {7, fex(BTRFS_FILE_EXTENT_REG, 0, len, 0, 0, 0, len)}; washole = true; f.ex.push_back(e); p += len; continue; }
		washole = false;
		e.comp = r.chance(.25);
		if (e.comp) { u64 ram = B * (1 + r(32)); e.off = r.chance(.3) ? B * r(ram / B) : 0; len = std::min(len, ram - e.off); e.phys = phys; t[Key{f.ino, BTRFS_EXTENT_DATA_KEY, p}] = {7, fex(BTRFS_FILE_EXTENT_REG, 1 + r(3), ram, phys, B, e.off, len)}; phys += ram; }
		else { e.off = r.chance(.3) ? B * r(8) : 0; u64 ram = e.off + len + (r.chance(.3) ? B * r(8) : 0); u64 at = phys;
			if (share_from && r.chance(.15)) { auto &s = (*share_from)[r(share_from->size())]; if (!s.hole && !s.comp && !s.inl) at = s.phys; }     // storage used by the other file too
			if (at == phys) phys += ram; e.phys = at; t[Key{f.ino, BTRFS_EXTENT_DATA_KEY, p}] = {7, fex(BTRFS_FILE_EXTENT_REG, 0, ram, at, ram, e.off, len)}; }
		e.e = p + len; f.ex.push_back(e); p += len;
	}
	t[Key{f.ino, BTRFS_INODE_ITEM_KEY, 0}] = {7, string(160, 0)};
	ftruncate(f.fd, size); for (u64 o = 0; o < size;) { ssize_t n = pwrite(f.fd, &f.data[o], size - o, o); if (n <= 0) { g().inconclusive = "no space"; break; } o += n; }
	return f;
}
static shared_ptr<BeesContext> the_ctx() {
	static shared_ptr<BeesContext> c = [] {
		string d = g().scratch + "/fs"; mkdir(d.c_str(), 0700); mkdir((d + "/.beeshome").c_str(), 0700);
		{ int f = open((d + "/.beeshome/beeshash.dat").c_str(), O_CREAT | O_RDWR, 0600); ftruncate(f, 128 << 10); close(f); }
		struct stat st; stat(d.c_str(), &st); top_ino = st.st_ino;
		on_fstat = [](int, struct stat *s) { if (s->st_ino == top_ino && S_ISDIR(s->st_mode)) s->st_ino = 256; };
		unsetenv("BEESHOME"); bees_log_level = 0;
		auto x = make_shared<BeesContext>(); x->set_root_path(d); return x;
	}();
	return c;
}
// ---------------------------------------------------------------- L12
static void addresses(Rng &r) {
	string info = "seed " + S(g().seed) + " round " + S(g().stat["rounds"]);
	// values: decode what was encoded
	vector<BeesAddress> v;
	for (int i = 0; i < 60; ++i) {
		u64 phys = (r.next() >> r.range(12, 45)) << 12; if (!phys) phys = B; phys &= ~(1ull << 63); bool comp = r.chance(.5), tox = r.chance(.3), eof = r.chance(.3); u64 off = comp && r.chance(.7) ? 1 + r(32) : 0;
		u64 raw = phys | (comp ? 1 << 11 : 0) | (eof ? 1 << 10 : 0) | (tox ? 1 << 9 : 0) | off;
		BeesAddress a(raw);
		bool ok = u64(a) == raw && a.get_physical_or_zero() == phys && a.is_compressed() == comp && a.is_toxic() == tox && a.is_unaligned_eof() == eof && a.has_compressed_offset() == (off != 0) && !a.is_magic();
		if (ok && off && a.get_compressed_offset() != (off - 1) * B) ok = false;
		if (!ok) viol("L12", "address-decode", "address " + hex(raw) + " decodes wrongly; " + info);
		if (!off) { bool threw = false; try { a.get_compressed_offset(); } catch (std::exception &) { threw = true; } if (!threw) viol("L12", "address-offset", "address " + hex(raw) + " has no block offset but returns one; " + info); }
		BeesAddress b = a; b.set_toxic(); if (!b.is_toxic() || (u64(b) & ~512ull) != (raw & ~512ull)) viol("L12", "address-toxic", "marking " + hex(raw) + " toxic gives " + hex(u64(b)) + "; " + info);
		v.push_back(a); if (r.chance(.5)) v.push_back(BeesAddress(raw & ~63ull)); if (comp && r.chance(.5)) v.push_back(BeesAddress((raw & ~63ull) | (1 + r(32)))); if (r.chance(.2)) v.push_back(b);
		stat("addresses");
	}
	for (u64 m = 0; m < 4; ++m) { BeesAddress a{m}; v.push_back(a); if (!a.is_magic() || a.is_compressed() || a.is_toxic() || a.has_compressed_offset() || a.is_unaligned_eof() || a.get_physical_or_zero()) viol("L12", "address-magic", "special value " + S(m) + " is taken for a location; " + info); bool threw = false; try { a.set_toxic(); } catch (std::exception &) { threw = true; } if (!threw) viol("L12", "address-toxic", "a special value can be marked toxic; " + info); }
	auto key = [](const BeesAddress &a, bool nooff) { return nooff ? u64(a) & ~63ull : u64(a); };
	for (auto &a : v) for (int k = 0; k < 12; ++k) { auto &b = v[r(v.size())]; bool nooff = a.has_compressed_offset() != b.has_compressed_offset(); u64 x = key(a, nooff), y = key(b, nooff); stat("compared");
		if ((a == b) != (x == y) || (a != b) != (x != y) || (a < b) != (x < y) || (b < a) != (y < x)) viol("L12", "address-compare", hex(u64(a)) + " and " + hex(u64(b)) + " compare inconsistently; " + info); 
		int n = (a < b) + (b < a) + (a == b); if (n != 1) viol("L12", "address-order", hex(u64(a)) + " and " + hex(u64(b)) + ": " + S(n) + " of less, greater, equal hold; " + info); }
}
static void file_addresses(Rng &r) {
	{ std::lock_guard<std::mutex> l(T.mu); T.t.clear(); } { std::lock_guard<std::mutex> l(root_mu); root_of_ino.clear(); }
	u64 phys = 1 << 20, nb = 1 + r(120); vector<string> bl; for (u64 i = 0; i < nb; ++i) bl.push_back(string(B, 1 + (i & 7)));
	u64 size = nb * B - (r.chance(.5) ? r(B) : 0); MFile f = make_file(r, bl, size, 256 + r(9), phys, nullptr); string info = "seed " + S(g().seed) + " round " + S(g().stat["rounds"]) + " file of " + hex(size);
	for (int k = 0; k < 30; ++k) { u64 pos = r(nb) * B; auto &x = f.at(pos); bool eof = !x.hole && (size & (B - 1)) && pos == (size & ~(B - 1)); ++progress();
		guarded("BeesAddress", "L12", info + " at " + hex(pos), [&] {
			BeesAddress a = r.chance(.5) ? BeesAddress(f.fd, pos) : BeesBlockData(f.fd, pos, std::min(B, size - pos)).addr(); u64 want;
			if (x.hole) want = u64(BeesAddress(BeesAddress::HOLE)); else if (x.comp) want = x.phys | 1 << 11 | ((pos - x.b + x.off) / B + 1); else want = x.phys + x.off + (pos - x.b);
			if (eof) want |= 1 << 10;
			stat("located"); if (u64(a) != want) viol("L12", "address-encode", "block at " + hex(pos) + " has address " + hex(u64(a)) + ", its layout says " + hex(want) + "; " + info); }); }
	mix(size * 31 + f.ex.size());
}
static void ranges(Rng &r) {
	{ std::lock_guard<std::mutex> l(root_mu); root_of_ino.clear(); }
	vector<Fd> fds; vector<BeesFileId> ids; vector<u64> sizes; int n = 1 + r(3);
	for (int i = 0; i < n; ++i) { Fd fd(memfd_create("r", 0)); u64 sz = r(1 << 20); ftruncate(fd, sz); struct stat st; fstat(fd, &st); u64 root = 256 + r(2); { std::lock_guard<std::mutex> l(root_mu); root_of_ino[st.st_ino] = root; } fds.push_back(fd); ids.push_back(BeesFileId(root, st.st_ino)); sizes.push_back(sz); }
	string info = "seed " + S(g().seed) + " round " + S(g().stat["rounds"]);
	for (int i = 0; i < n; ++i) { BeesFileId a{int(fds[i])}; if (!(a == ids[i]) || a != ids[i]) viol("L12", "file-id", "identity of an open file is " + S(a) + ", expected " + S(ids[i]) + "; " + info); for (int j = 0; j < n; ++j) { auto &x = ids[i], &y = ids[j]; bool lt = x.ino() != y.ino() ? x.ino() < y.ino() : x.root() < y.root(); if ((x < y) != lt || (x == y) != (i == j) || (x != y) != (i != j)) viol("L12", "file-id-order", S(x) + " and " + S(y) + " compare inconsistently; " + info); } }
	struct R { int f; u64 b, e; bool open; };
	auto gen = [&](int small) { R x; x.f = r(n); u64 lim = small ? 6 : 200; x.b = r(lim) * B; x.e = x.b + r(lim) * B; if (r.chance(.2)) x.e += r(B); x.open = r.chance(.5); return x; };
	auto mk = [&](const R &x) { return x.open ? BeesFileRange(fds[x.f], x.b, x.e) : BeesFileRange(ids[x.f], x.b, x.e); };
	auto rs = [&](const R &x) { return S(x.f) + (x.open ? "(fd)" : "") + "[" + hex(x.b) + ".." + hex(x.e) + "]"; };
	for (int k = 0; k < 150; ++k) {
		R x = gen(r(2)), y = gen(r(2)); if (r.chance(.2)) { y = x; y.open = r.chance(.5); } BeesFileRange a = mk(x), b = mk(y); stat("ranges"); ++progress();
		guarded("ranges", "L12", info + " " + rs(x) + " " + rs(y), [&] {
			if ((u64)a.size() != x.e - x.b || a.empty() != (x.b == x.e) || (u64)a.begin() != x.b || (u64)a.end() != x.e) viol("L12", "range-size", rs(x) + " has size " + S(a.size()) + "; " + info);
			bool eq = x.f == y.f && x.b == y.b && x.e == y.e; if ((a == b) != eq || (a != b) == eq) viol("L12", "range-equal", rs(x) + " and " + rs(y) + " compare " + (a == b ? "equal" : "different") + "; " + info);
			if (a.is_same_file(b) != (x.f == y.f)) viol("L12", "range-file", rs(x) + " and " + rs(y) + ": same file is " + S(x.f != y.f) + "; " + info);
			if (x.b != x.e && y.b != y.e) { bool ov = x.f == y.f && x.b < y.e && y.b < x.e; if (a.overlaps(b) != ov || b.overlaps(a) != ov) viol("L12", "range-overlap", rs(x) + " and " + rs(y) + (ov ? " overlap" : " do not overlap") + ", the library says otherwise; " + info); }
			auto ik = [&](const R &q) { return tie(q.b, q.e); }; bool lt = x.f == y.f ? ik(x) < ik(y) : ids[x.f] < ids[y.f]; if ((a < b) != lt) viol("L12", "range-order", rs(x) + " and " + rs(y) + " are ordered wrongly; " + info);
			BeesFileRange c = a.copy_closed(); if (!!c.fd() || c.fid() != ids[x.f] || (u64)c.begin() != x.b || (u64)c.end() != x.e || c != a) viol("L12", "range-copy", "the closed copy of " + rs(x) + " differs; " + info);
			// growing and shrinking
			R z = x; BeesFileRange d = mk(z); if (z.open && (z.e > sizes[z.f])) { z.e = std::min(z.e, sizes[z.f]); z.b = std::min(z.b, z.e); d = mk(z); }
			for (int s = 0; s < 4; ++s) { u64 del = r.chance(.7) ? B * (1 + r(5)) : 1 + r(100000); int op = r(4); bool threw = false; R w = z;
				if (op == 0 && !z.open) continue;
				try { if (op == 0) d.grow_end(del); else if (op == 1) d.grow_begin(del); else if (op == 2) d.shrink_begin(del); else { if (z.e < del || z.e - del < z.b) continue; d.shrink_end(del); } } catch (std::exception &) { threw = true; }
				if (op == 0) w.e = std::min(z.e + del, sizes[z.f]); else if (op == 1) w.b = z.b > del ? z.b - del : 0; else if (op == 2) { if (z.b + del < z.e) w.b += del; else { if (!threw) viol("L12", "range-shrink", "shrinking " + rs(z) + " by " + hex(del) + " from the beginning was not refused; " + info); continue; } } else w.e -= del;
				if (threw) { viol("L12", "range-grow", "operation " + S(op) + " on " + rs(z) + " by " + hex(del) + " failed; " + info); break; }
				stat("resized"); if ((u64)d.begin() != w.b || (u64)d.end() != w.e) { viol("L12", "range-resize", "operation " + S(op) + " on " + rs(z) + " by " + hex(del) + " gives [" + hex(d.begin()) + ".." + hex(d.end()) + "], file size " + hex(sizes[z.f]) + "; " + info); break; } z = w; }
		});
	}
}
static void grow(Rng &r) {
	{ std::lock_guard<std::mutex> l(T.mu); T.t.clear(); } { std::lock_guard<std::mutex> l(root_mu); root_of_ino.clear(); }
	auto ctx = the_ctx(); auto ht = ctx->hash_table();
	// blocks from a small alphabet, long runs in common
	u64 nsym = r.range(1, 6), salt = r.next(); auto sym = [&](u64 s) { if (s == 0) return string(B, 0); Rng q(salt + s); return bytes(q, B); };
	std::map<string, bool> toxic; vector<string> al; for (u64 i = 0; i < nsym; ++i) al.push_back(sym(r.chance(.15) ? 0 : i + 1));
	for (auto &s : al) if (s != string(B, 0) && r.chance(.12)) { toxic[s] = true; BeesAddress ta(B * (1 + r(1 << 20))); ta.set_toxic(); ht->push_random_hash_addr(crc_fast((const uint8_t *)s.data(), B), ta); }
	double same_p = r.chance(.5) ? .97 : .85; u64 na = 2 + r(r.chance(.2) ? 300 : 50); vector<string> ba, bb; bool one = r.chance(.25);
	for (u64 i = 0; i < na; ++i) ba.push_back(al[r(nsym)]);
	u64 sa = na * B - (r.chance(.4) ? r(B) : 0); if (!one) { u64 skip = r(na); for (u64 i = 0, n = r(6); i < n; ++i) bb.push_back(al[r(nsym)]); for (u64 i = skip; i < na; ++i) bb.push_back(r.chance(same_p) ? ba[i] : al[r(nsym)]); for (u64 i = 0, n = r.chance(.5) ? 0 : r(6); i < n; ++i) bb.push_back(al[r(nsym)]); }
	u64 phys = 1 << 20; MFile A = make_file(r, ba, sa, 256, phys, nullptr); MFile C; if (!one) { u64 sb = bb.size() * B; if (r.chance(.4)) sb -= r(B); else if (bb.size() && r.chance(.5)) sb -= (B - sa % B) % B; C = make_file(r, bb, sb ? sb : 1, 256 + r(2), phys, &A.ex); } MFile &D = one ? A : C;
	string info = "seed " + S(g().seed) + " round " + S(g().stat["rounds"]) + (one ? " within one file" : " between files") + " of " + hex(A.size) + " and " + hex(D.size);
	for (int k = 0; k < 12; ++k) {
		// a pair of equal aligned ranges
		u64 p = r((A.size + B - 1) / B) * B, q = r((D.size + B - 1) / B) * B, n = 0, maxn = 1 + (r.chance(.6) ? 0 : r(5));
		while (n < maxn * B && p + n < A.size && q + n < D.size) { string x = A.block(p + n), y = D.block(q + n); if (x != y || A.at(p + n).hole || D.at(q + n).hole) break; n += x.size(); if (x.size() < B) break; }
		if (!n) { --k; if (r.chance(.1)) break; continue; }
		auto ov = [&](u64 p, u64 q, u64 n) { return one && p < q + n && q < p + n; };
		if (ov(p, q, n)) continue;
		bool constrained = r.chance(.5); stat("grows"); ++progress();
		guarded("grow", "L12", info + " pair " + hex(p) + "," + hex(q) + "+" + hex(n), [&] {
			BeesRangePair bp(BeesFileRange(A.fd, p, p + n), BeesFileRange(D.fd, q, q + n)); bool rv = bp.grow(ctx, constrained);
			u64 fb = bp.first.begin(), fe = bp.first.end(), sb = bp.second.begin(), se = bp.second.end();
			string got = "pair [" + hex(p) + ".." + hex(p + n) + "] [" + hex(q) + ".." + hex(q + n) + "] grew to [" + hex(fb) + ".." + hex(fe) + "] [" + hex(sb) + ".." + hex(se) + "]" + (constrained ? " constrained" : "") + "; " + info;
			bool grew = fb != p || fe != p + n; if (grew) { stat("grown"); stat("grown_blocks", (fe - fb - n) / B); }
			if (rv != grew) viol("L12", "grow-result", string("grow reported ") + (rv ? "growth" : "no growth") + ": " + got);
			if (fb > p || fe < p + n || sb > q || se < q + n) { viol("L12", "grow-shrank", got); return; }
			if (fe - fb != se - sb || p - fb != q - sb) { viol("L12", "grow-uneven", got); return; }
			if (fe > A.size || se > D.size) { viol("L12", "grow-beyond-eof", got); return; }
			if (A.data.compare(fb, fe - fb, D.data, sb, se - sb)) { viol("L12", "grow-content", "the contents differ: " + got); return; }
			if (ov(fb, sb, fe - fb)) { viol("L12", "grow-overlap", got); return; }
			if (fb % B || sb % B) viol("L12", "grow-unaligned", got);
			if (fe - fb > (u64)BLOCK_SIZE_MAX_EXTENT) viol("L12", "grow-too-long", got);
			if (sb < D.at(q).b && sb < q) viol("L12", "grow-before-extent", got);
			if (constrained && se > std::max(q + n, D.eend(q))) viol("L12", "grow-beyond-extent", got);
			for (u64 d = 0; d < fe - fb; d += B) if ((fb + d < p || fb + d >= p + n) && A.phys(fb + d) == D.phys(sb + d)) { viol("L12", "grow-same-storage", "block " + hex(d) + " is already shared: " + got); break; }
			for (u64 d = 0; d < fe - fb; d += B) if ((fb + d < p || fb + d >= p + n) && toxic.count(A.block(fb + d))) { viol("L12", "grow-toxic", "block " + hex(d) + " has a toxic fingerprint: " + got); break; }
			// could it have gone further?
			auto ok = [&](u64 x, u64 y, u64 nb, u64 ny, u64 len) { if (x >= A.size || y >= D.size) return false; string u = A.block(x), v = D.block(y); if (u != v || A.phys(x) == D.phys(y) || ov(nb, ny, len) || toxic.count(u)) return false; return u.find_first_not_of('\0') != string::npos; };
			if (sb > D.at(q).b && fb >= B && sb >= B && ok(fb - B, sb - B, fb - B, sb - B, fe - fb + B)) viol("L12", "grow-stopped-early", "the preceding blocks match too: " + got);
			if (fe % B == 0 && (se < D.eend(q) || (!constrained && se < D.size && !D.at(se).hole)) && ok(fe, se, fb, sb, fe - fb + B)) viol("L12", "grow-stopped-early", "the following blocks match too: " + got);
			mix(fb * 31 + fe * 7 + sb);
			BeesRangePair cc = bp.copy_closed(); if (cc.first != bp.first || cc.second != bp.second || !!cc.first.fd()) viol("L12", "pair-copy", got);
			if (fe - fb > B) { BeesRangePair h = bp; u64 d = B * (1 + r((fe - fb - 1) / B)); if (d < fe - fb) { if (r.chance(.5)) { h.shrink_begin(d); fb += d; sb += d; } else { h.shrink_end(d); fe -= d; se -= d; } if ((u64)h.first.begin() != fb || (u64)h.first.end() != fe || (u64)h.second.begin() != sb || (u64)h.second.end() != se) viol("L12", "pair-shrink", "shrinking by " + hex(d) + ": " + got); } }
		});
	}
}
// ---------------------------------------------------------------- L13
static void l13(Rng &r) {
	double end = now() + optn("secs", 4); std::atomic<bool> stop{false};
	// the tables are built on first use, by whichever thread comes first
	int nt = r.range(2, 8); vector<std::thread> th; std::atomic<int> ready{0}; std::mutex mu; 
	vector<string> pool; for (int i = 0; i < 40; ++i) { string s = bytes(r, r.chance(.5) ? B : 1 + r(B)); if (r.chance(.4)) for (auto &c : s) if (r.chance(.97)) c = 0; pool.push_back(s); }
	vector<u64> want; for (auto &s : pool) want.push_back(crc_ref((const uint8_t *)s.data(), s.size()));
	for (int t = 0; t < nt; ++t) th.emplace_back([&, t, s = r.next()] {
		Rng q(s); vector<uint8_t> buf(2 * B + 64); ++ready; while (ready < nt) std::this_thread::yield();
		for (int k = 0; !stop && now() < end; ++k) { int i = q(pool.size()), al = q(64); memcpy(&buf[al], pool[i].data(), pool[i].size()); buf[al + pool[i].size()] = q(256); u64 c = Digest::CRC::crc64(&buf[al], pool[i].size()); ++progress(); if (k % 256 == 0) stat("fingerprints", 256);
			if (c != want[i]) { viol("L13", "fingerprint-wrong", "fingerprint of " + S(pool[i].size()) + " bytes at alignment " + S(al % 8) + " is " + hex(c) + ", the documented checksum is " + hex(want[i]) + "; seed " + S(g().seed)); break; } } });
	// meanwhile, blocks read from files
	bees_log_level = 0; on_ioctl = base_ioctl;
	while (now() < end) {
		Fd f1(memfd_create("a", 0)), f2(memfd_create("b", 0)); u64 n = 1 + r(40), tail = r.chance(.5) ? r(B) : 0, size = n * B - tail; string d; vector<string> al{string(B, 0)}; for (int i = 0; i < 4; ++i) { string s(B, 0); switch (r(5)) { case 0: s[r(B)] = 1 + r(255); break; case 1: s[B - 1] = 1; break; case 2: s[0] = 0x80; break; default: s = bytes(r, B); } al.push_back(s); }
		vector<int> ix; for (u64 i = 0; i < n; ++i) { ix.push_back(r(al.size())); d += al[ix[i]]; } d.resize(size); std::string d2 = d; u64 shift = r(5) * B; d2.insert(0, string(shift, 'x'));
		if (pwrite(f1, d.data(), d.size(), 0) != (ssize_t)d.size() || pwrite(f2, d2.data(), d2.size(), 0) != (ssize_t)d2.size()) { g().inconclusive = "no space"; break; }
		vector<BeesBlockData> v1, v2; for (u64 p = 0; p < size; p += B) { v1.push_back(BeesBlockData(f1, p, std::min(B, size - p))); v2.push_back(BeesBlockData(f2, p + shift, std::min(B, size - p))); }
		guarded("block", "L13", "seed " + S(g().seed), [&] { for (size_t i = 0; i < v1.size(); ++i) { string blk = d.substr(i * B, B); u64 w = crc_fast((const uint8_t *)blk.data(), blk.size()); stat("blocks");
			bool hash_first = r.chance(.5); bool z = false; if (!hash_first) z = v1[i].is_data_zero(); u64 h1 = v1[i].hash(); if (hash_first) z = v1[i].is_data_zero(); u64 h2 = v2[i].hash();
			if (h1 != w || h2 != w) viol("L13", "block-fingerprint", "block " + S(i) + " of " + hex(blk.size()) + " bytes has fingerprints " + hex(h1) + " and " + hex(h2) + " in two files, expected " + hex(w) + "; seed " + S(g().seed));
			if (z != (blk.find_first_not_of('\0') == string::npos)) viol("L13", "zero-wrong", "block " + S(i) + (z ? " is taken for zero, byte " + S(blk.find_first_not_of('\0')) + " is not" : " is all zero, and not recognised") + "; seed " + S(g().seed));
			if (v1[i].data().size() != blk.size() || memcmp(v1[i].data().data(), blk.data(), blk.size())) viol("L13", "block-data", "block " + S(i) + " was read wrongly; seed " + S(g().seed));
			size_t j = r(v1.size()); if (v1[i].size() == v2[j].size()) { bool eq = blk == d.substr(j * B, B); if (v1[i].is_data_equal(v2[j]) != eq) viol("L13", "equal-wrong", "blocks " + S(i) + " and " + S(j) + (eq ? " are equal" : " differ") + ", the comparison says otherwise; seed " + S(g().seed)); stat("compared"); } ++progress(); } });
		mix(size);
	}
	stop = true; for (auto &t : th) t.join();
}
// ---------------------------------------------------------------- L14
static thread_local int tl_dummy;
static void io(Rng &r) {
	string info = "seed " + S(g().seed) + " round " + S(g().stat["rounds"]);
	for (int k = 0; k < 40; ++k) {
		size_t n = r.chance(.1) ? 0 : r.chance(.3) ? r.range(1, 30) : r.range(1, 100000); string src = bytes(r, n + 64), buf(n + 64, '~'); size_t pos = 0, limit = n; int fault = r(6), calls = 0, at = 1 + r(3); int eno = r.chance(.5) ? EIO : ENOSPC; char op = "rRwW"[r(4)]; int variant = r(3); off_t off = r(1 << 30); bool bad = false, failed = false, shorted = false; int fd = 777; u64 eintrs = 0;
		// fault: 0 none, 1 short pieces, 2 interruptions, 3 error, 4 end of file early, 5 mixture of 1 and 2
		if (fault == 4 && n) limit = r(n); string sink;
		on_io = [&](char o, int f, void *b, size_t len, long at_off, ssize_t *out) -> bool {
			if (f != fd) return false; ++calls; ++progress();
			if (o != op) bad = true; if ((o == 'R' || o == 'W') && at_off != off) bad = true; if (len > n - std::min(pos, n)) bad = true;
			if (fault == 3 && calls == at) { failed = true; errno = eno; *out = -1; return true; }
			if ((fault == 2 || fault == 5) && r.chance(.4)) { ++eintrs; errno = EINTR; *out = -1; return true; }
			size_t give = std::min(len, limit - std::min(limit, pos)); if ((fault == 1 || fault == 5) && give > 1 && r.chance(.7)) give = 1 + r(give - 1); if (give < len) shorted = true;
			if (o == 'r' || o == 'R') memcpy(b, src.data() + pos, give); else sink.append((const char *)b, give); pos += give; *out = give; return true; };
		bool threw = false; int code = 0; size_t got = ~0ull; string rs; bool have = false; stat("transfers");
		try {
			if (op == 'r') { if (variant == 0) { read_or_die(fd, &buf[0], n); } else if (variant == 1) { read_partial_or_die(fd, &buf[0], n, got); } else { rs = read_string(fd, n); have = true; } }
			else if (op == 'R') { if (variant == 2) { ByteVector bv(n ? n : 1); if (n) { pread_or_die(fd, bv, off); memcpy(&buf[0], bv.data(), n); } } else pread_or_die(fd, &buf[0], n, off); }
			else if (op == 'w') { if (variant == 2) write_or_die(fd, src.substr(0, n)); else write_or_die(fd, src.data(), n); }
			else { if (variant == 2) pwrite_or_die(fd, src.substr(0, n), off); else pwrite_or_die(fd, src.data(), n, off); }
		} catch (std::system_error &e) { threw = true; code = e.code().value(); } catch (std::exception &) { threw = true; }
		on_io = nullptr; string what = string(op == 'r' ? "read" : op == 'R' ? "pread" : op == 'w' ? "write" : "pwrite") + " of " + S(n) + " bytes, fault " + S(fault) + ", variant " + S(variant) + "; " + info;
		if (eintrs) stat("interruptions", eintrs); if (shorted) stat("short_transfers"); if (failed) stat("io_errors");
		if (bad) viol("L14", "io-request", "the helper passed a wrong request: " + what);
		bool partial = op == 'r' && variant != 0;
		if (failed && !threw) viol("L14", "io-lost-error", "an error was not reported: " + what);
		if (failed && threw && code != eno) viol("L14", "io-error-code", "error " + S(eno) + " was reported as " + S(code) + ": " + what);
		if (op == 'r' && !failed) {
			if (!partial && threw != (limit < n)) viol("L14", "io-short-read", string("the read ") + (threw ? "failed although all data arrived" : "succeeded although the file ended early") + ": " + what);
			if (partial && threw) viol("L14", "io-false-error", "a partial read failed: " + what);
			if (partial && !threw && (have ? rs.size() : got) != limit) viol("L14", "io-count", "a partial read returned " + S(have ? rs.size() : got) + " of " + S(limit) + " bytes: " + what);
			if (!threw && (have ? rs != src.substr(0, limit) : memcmp(buf.data(), src.data(), limit))) viol("L14", "io-data", "the data read differs: " + what);
		} else if (op == 'R' && !failed && n) { bool ok = pos == n && !shorted; if (threw == ok) viol("L14", "io-short-read", string("the read ") + (threw ? "failed although all data arrived" : "succeeded with a part of the data") + ": " + what); if (!threw && memcmp(buf.data(), src.data(), n)) viol("L14", "io-data", "the data read differs: " + what); }
		else if ((op == 'w' || op == 'W') && !failed) { if (!threw && sink != src.substr(0, n)) viol("L14", "io-data", "the write succeeded, " + S(sink.size()) + " bytes arrived: " + what); if (threw && sink.size() == n && !eintrs) viol("L14", "io-false-error", "the write failed although all data arrived: " + what); }
		for (size_t i = n; i < buf.size(); ++i) if (buf[i] != '~') { viol("L14", "io-overrun", "memory after the buffer was changed: " + what); break; }
		// calls that the kernel refuses: its reason must arrive
		if (r.chance(.05)) { const int bf = 778; int c2 = 0, which = r(6); stat("refused_calls"); char c[4] = {};
			try { switch (which) { case 0: ftruncate_or_die(bf, 4096); break; case 1: openat_or_die(bf, "x", O_RDONLY, 0); break; case 2: renameat_or_die(bf, "a", bf, "b"); break; case 3: pwrite_or_die(bf, c, 4, 0); break; case 4: mmap_or_die(nullptr, 4096, PROT_READ, MAP_PRIVATE, bf, 0); break; default: pread_or_die(bf, c, 4, 0); } } catch (std::system_error &e) { c2 = e.code().value(); } catch (std::exception &) { c2 = -1; }
			if (c2 != EBADF) viol("L14", "io-error-code", "error EBADF of call " + S(which) + " on a descriptor that is not open was reported as " + S(c2) + "; " + info); }
		for (int bf : {-1}) { bool t2 = false; if (r.chance(.05)) { try { char c[4] = {}; switch (r(4)) { case 0: read_or_die(bf, c, 4); break; case 1: write_or_die(bf, c, 4); break; case 2: pread_or_die(bf, c, 4, 0); break; default: pwrite_or_die(bf, c, 4, 0); } } catch (std::exception &) { t2 = true; } if (!t2) viol("L14", "io-closed", "I/O on a closed descriptor succeeded; " + info); } }
		mix(calls * 131 + n);
	}
	// names
	string dir = g().scratch + "/l"; mkdir(dir.c_str(), 0700); string ln = dir + "/x"; unlink(ln.c_str()); size_t tl = r.chance(.5) ? r.range(1, 4094) : r.range(4080, 4095); string tg; for (size_t i = 0; i < tl; ++i) tg += (char)('!' + r(90)); if (!symlink(tg.c_str(), ln.c_str())) guarded("readlink", "L14", info, [&] { string s = readlink_or_die(ln); stat("links"); if (s != tg) viol("L14", "readlink", "a link of " + S(tl) + " bytes was read as " + S(s.size()) + " bytes; " + info); });
}
static void buffers(Rng &r) {
	string info = "seed " + S(g().seed) + " round " + S(g().stat["rounds"]);
	// buffers share storage when sliced: a model of (storage, offset, length)
	struct M { std::shared_ptr<string> s; size_t o, n; ByteVector bv; };
	vector<std::shared_ptr<M>> v; auto str = [](const M &m) { return m.s ? m.s->substr(m.o, m.n) : string(); };
	auto add = [&](std::shared_ptr<string> s, size_t o, size_t n, const ByteVector &b) { v.emplace_back(new M{s, o, n, b}); if (v.size() > 12) v.erase(v.begin() + r(v.size())); };
	{ string s = bytes(r, 1 + r(300)); ByteVector b(reinterpret_cast<uint8_t *>(&s[0]), reinterpret_cast<uint8_t *>(&s[0]) + s.size()); add(std::make_shared<string>(s), 0, s.size(), b); }
	for (int k = 0; k < 200; ++k) {
		auto mp = v[r(v.size())]; M &m = *mp; stat("buffer_ops"); ++progress(); int op = r(10); string st = "operation " + S(op) + " on " + S(m.n) + " bytes; " + info;
		try { switch (op) {
		case 0: { string s = bytes(r, r(r.chance(.3) ? 5 : 300)); size_t mn = r.chance(.5) ? 0 : r(400); ByteVector b(reinterpret_cast<uint8_t *>(&s[0]), reinterpret_cast<uint8_t *>(&s[0]) + s.size(), mn); if (b.size() != std::max(mn, s.size())) viol("L14", "buffer-size", "a buffer of " + S(s.size()) + " bytes and at least " + S(mn) + " has " + S(b.size()) + "; " + info); for (size_t i = s.size(); i < b.size(); ++i) b.data()[i] = 0; string z = s; z.resize(b.size()); if (z.size()) add(std::make_shared<string>(z), 0, z.size(), b); break; }
		case 1: case 2: { size_t a = r(m.n + 3), l = r.chance(.5) ? r(m.n + 3) : (a <= m.n ? m.n - a : 0); if (r.chance(.05)) l = ~0ull - r(10); if (r.chance(.05)) a = ~0ull - r(10); bool ok = m.s && a <= m.n && l <= m.n - a, threw = false; optional<ByteVector> b; try { b.emplace(op == 1 ? ByteVector(m.bv, a, l) : m.bv.at(a, l)); } catch (std::out_of_range &) { threw = true; }
			stat("slices"); if (threw == ok) viol("L14", "buffer-slice", "a slice of " + S(l) + " bytes at " + S(a) + " of a buffer of " + S(m.n) + " was " + (threw ? "refused" : "given out") + "; " + info); else if (ok && b->size() != l) viol("L14", "buffer-slice", "a slice of " + S(l) + " bytes has " + S(b->size()) + "; " + info); else if (ok && l) add(m.s, m.o + a, l, *b); break; }
		case 3: { size_t i = r(m.n + 3); bool ok = m.s && i < m.n, threw = false; int c = -1; try { c = m.bv.at(i); } catch (std::out_of_range &) { threw = true; } if (threw == ok) viol("L14", "buffer-at", "byte " + S(i) + " of " + S(m.n) + " was " + (threw ? "refused" : "given out") + "; " + info); else if (ok && (c != (uint8_t)(*m.s)[m.o + i] || m.bv[i] != c)) viol("L14", "buffer-data", "byte " + S(i) + " is wrong; " + info); break; }
		case 4: if (m.n) { size_t i = r(m.n); uint8_t c = r(256); m.bv[i] = c; (*m.s)[m.o + i] = c; } break;   // seen by every slice of the same storage
		case 5: { M &q = *v[r(v.size())]; bool eq = !m.s ? !q.s : q.s && str(m) == str(q); if ((m.bv == q.bv) != eq) viol("L14", "buffer-equal", S(m.n) + " and " + S(q.n) + " bytes compare " + (eq ? "different" : "equal") + "; " + info); break; }
		case 6: { M &q = *v[r(v.size())]; m.bv = q.bv; m.s = q.s; m.o = q.o; m.n = q.n; break; }
		case 7: { if (!m.n) break; size_t a = r.chance(.5) ? 0 : r(m.n), b = r.chance(.4) ? m.n : a + r(m.n - a + 1); auto p = m.bv.begin(); bool threw = false; bool one = r.chance(.2) && a < m.n; if (one) b = a + 1; try { if (one) m.bv.erase(p + a); else m.bv.erase(p + a, p + b); } catch (std::out_of_range &) { threw = true; } bool ok = a == b || a == 0 || b == m.n; stat("erasures"); if (threw == ok) viol("L14", "buffer-erase", "erasing " + S(a) + ".." + S(b) + " of " + S(m.n) + " was " + (threw ? "refused" : "done") + "; " + info); if (!threw && ok && a != b) { if (a == 0) { m.o += b; m.n -= b; if (!m.n) m.s.reset(); } else m.n = a; } break; }
		case 8: if (r.chance(.1) && v.size() > 1) { m.bv.clear(); m.s.reset(); m.n = 0; } break;
		case 9: { struct X { u64 a, b; char c[9]; } x; bool ok = m.n >= sizeof x, threw = false; try { m.bv.get<X>(); } catch (std::out_of_range &) { threw = true; } if (threw == ok && m.s) viol("L14", "buffer-get", "a record of " + S(sizeof x) + " bytes in a buffer of " + S(m.n) + " was " + (threw ? "refused" : "given out") + "; " + info); memset(&x, 7, sizeof x); size_t mn = r(100); ByteVector b(x, mn); if (b.size() != std::max(mn, sizeof x) || memcmp(b.data(), &x, sizeof x)) viol("L14", "buffer-object", "a buffer made from a record differs; " + info); break; }
		} } catch (std::exception &e) { viol("L14", "exception:buffer", string(e.what()).substr(0, 300) + " in " + st); }
		if (m.bv.size() != m.n || m.bv.empty() != (m.n == 0) || (size_t)(m.bv.end() - m.bv.begin()) != m.n) { viol("L14", "buffer-size", "the buffer has " + S(m.bv.size()) + " bytes, expected " + S(m.n) + " after " + st); return; }
		if (r.chance(.2)) for (auto &q : v) if (q->n && memcmp(q->bv.data(), q->s->data() + q->o, q->n)) { viol("L14", "buffer-data", "the contents differ after " + st); return; }
	}
	// one buffer, many threads
	if (r.chance(.15)) { ByteVector sh(64); memset(sh.data(), 'a', 64); vector<ByteVector> src; for (int i = 0; i < 3; ++i) { ByteVector b(16 + 16 * i); memset(b.data(), 'a' + i, b.size()); src.push_back(b); } vector<std::thread> th; std::atomic<bool> bad{false};
		for (int t = 0; t < 4; ++t) th.emplace_back([&, s = r.next()] { Rng q(s); for (int i = 0; i < 300; ++i) { ++progress(); if (q.chance(.3)) sh = src[q(3)]; else { ByteVector c(sh); size_t n = c.size(); uint8_t *p = c.data(); if (n && (p[0] != p[n - 1] || (n != 64 && n != size_t(16 + 16 * (p[0] - 'a'))))) bad = true; if (q.chance(.2)) (void)(sh == src[q(3)]); if (q.chance(.2)) try { ByteVector h = sh.at(8, 8); p = h.data(); if (p[0] != p[7] || h.size() != 8) bad = true; } catch (std::out_of_range &) { bad = true; } } } });
		for (auto &t : th) t.join(); stat("shared_buffers"); if (bad) viol("L14", "buffer-torn", "a copy of a buffer that other threads assign to has one buffer's size and another's contents; " + info); }
}
template <class To, class From> static void cast1(From f, const string &info) {
	bool threw = false; To t{}; try { t = ranged_cast<To>(f); } catch (std::out_of_range &) { threw = true; }
	bool ok = (__int128)f >= (__int128)std::numeric_limits<To>::min() && (__int128)f <= (__int128)std::numeric_limits<To>::max(); stat("casts");
	if (threw == ok || (ok && (__int128)t != (__int128)f)) viol("L14", "cast", "value " + S((long double)f) + " of " + S(sizeof(From)) + (std::is_signed<From>::value ? " signed" : " unsigned") + " bytes cast to " + S(sizeof(To)) + (std::is_signed<To>::value ? " signed" : " unsigned") + " bytes was " + (threw ? "refused" : "changed") + "; " + info);
}
template <class From> static void casts(From f, const string &i) { cast1<int8_t>(f, i); cast1<uint8_t>(f, i); cast1<int16_t>(f, i); cast1<uint16_t>(f, i); cast1<int32_t>(f, i); cast1<uint32_t>(f, i); cast1<int64_t>(f, i); cast1<uint64_t>(f, i); }
static void conversions(Rng &r) {
	string info = "seed " + S(g().seed) + " round " + S(g().stat["rounds"]);
	for (int k = 0; k < 60; ++k) { u64 x = r.chance(.3) ? r.next() >> r(64) : (1ull << r(64)) + r(3) - 1; if (r.chance(.3)) x = -x; ++progress();
		guarded("cast", "L14", info, [&] { casts<int64_t>(x, info); casts<uint64_t>(x, info); casts<int32_t>(x, info); casts<uint32_t>(x, info); casts<int16_t>(x, info); casts<uint8_t>(x, info); casts<int8_t>(x, info); });
		guarded("hex", "L14", info, [&] { stat("numbers"); if (from_hex(to_hex(x)) != x) viol("L14", "hex", hex(x) + " is formatted as " + to_hex(x) + "; " + info); });
		double d = (double)(x >> 1) * (r.chance(.5) ? 1 : 0.37); string p = pretty(d); static const string U = "KMGTPE"; char *e; double b = strtod(p.c_str(), &e); if (*e) { auto i = U.find(*e); if (i == string::npos || e[1]) b = -1; else b *= pow(1024.0, i + 1); } double tol = std::max(0.0006 * pow(1024.0, *e && U.find(*e) != string::npos ? U.find(*e) + 1 : 0), d * 1e-5); stat("sizes"); if (!(fabs(b - d) <= tol)) viol("L14", "pretty", "size " + S(d) + " is formatted as " + p + "; " + info);
	}
	// split is the inverse of joining non-empty words
	for (int k = 0; k < 20; ++k) { string delim = r.chance(.5) ? "," : r.chance(.5) ? "\n" : "--"; vector<string> w; string s; for (int i = r(8); i > 0; --i) { string x; for (int c = r(4); c > 0; --c) x += (char)('a' + r(3)); if (r.chance(.2)) s += delim; if (x.size()) w.push_back(x); s += x + delim; } if (s.size() && r.chance(.5)) s.resize(s.size() - delim.size()); guarded("split", "L14", info, [&] { stat("splits"); auto g2 = split(delim, s); if (g2 != w) viol("L14", "split", "splitting '" + s + "' gives " + S(g2.size()) + " words, expected " + S(w.size()) + "; " + info); }); }
	// bit names: what is printed stands for exactly the value
	for (int k = 0; k < 20; ++k) { vector<bits_ntoa_table> t; int n = 1 + r(8); static const char *N[] = {"A", "B", "C", "D", "E", "F", "G", "H"}; bool enums = r.chance(.3); u64 used = 0; for (int i = 0; i < n; ++i) { u64 b = enums ? i + 1 : 1ull << r(64); if (!enums && (used & b)) continue; used |= b; t.push_back({b, enums ? ~0ull : b, N[i]}); } auto names = t; t.push_back({0, 0, nullptr}); u64 x = 0; if (enums) x = r(n + 3); else for (auto &e : names) if (r.chance(.5)) x |= e.n; if (r.chance(.3)) x |= r.next(); guarded("bits", "L14", info, [&] { string s = bits_ntoa(x, t.data()); u64 y = 0; stat("bit_names"); bool okp = true; for (auto &w : split("|", s)) { bool f = false; for (auto &e : names) if (w == e.a) { y |= e.n; f = true; } if (!f) { char *e; y |= strtoull(w.c_str(), &e, 0); if (*e) okp = false; } } if (!okp || y != x) viol("L14", "bits", hex(x) + " is printed as " + s + "; " + info); }); }
	// hexdump
	{ string s = bytes(r, r(100)); ByteVector b(reinterpret_cast<uint8_t *>(&s[0]), reinterpret_cast<uint8_t *>(&s[0]) + s.size()); std::ostringstream o; o << b; string t = o.str(), got; size_t lineno = 0; bool ok = true; for (auto &l : split("\n", t)) { if (l[0] != '\t') continue; unsigned at = strtoul(l.c_str() + 1, 0, 16); if (at != lineno * 8) ok = false; ++lineno; for (int i = 0; i < 8; ++i) { string h = l.substr(10 + 3 * i, 2); if (h != "  ") got += (char)strtoul(h.c_str(), 0, 16); } } stat("dumps"); if (!ok || got != s || t.find("size = " + S(s.size()) + ",") == string::npos) viol("L14", "hexdump", "a dump of " + S(s.size()) + " bytes shows " + S(got.size()) + "; " + info); }
	// paths
	{ string d, b; for (int i = 1 + r(20); i; --i) d += r.chance(.2) ? '/' : (char)('a' + r(26)); for (int i = 1 + r(300); i; --i) b += (char)('a' + r(26)); guarded("path", "L14", info, [&] { stat("paths"); if (basename(join(d, b)) != b || basename(b) != b) viol("L14", "path", "the last part of '" + join(d, b) + "' is given as '" + basename(join(d, b)) + "'; " + info); }); }
	// tables: every cell once, in its place, columns aligned
	{ Table::Table t; vector<vector<string>> m; int nc = 1 + r(6); vector<size_t> w(nc, 1); for (int i = 0, nr = 1 + r(8); i < nr; ++i) { vector<string> row; vector<Table::Content> c; for (int j = 0; j < nc; ++j) { string s; for (int q = r(9); q > 0; --q) s += (char)('a' + r(26)); row.push_back(s); c.push_back(Table::Text(s)); } size_t at = r.chance(.5) ? Table::endpos : r(m.size() + 1); t.insert_row(at, c); m.insert(m.begin() + std::min(at, m.size()), row); } if (r.chance(.3) && m.size() > 1) { size_t i = r(m.size()); t.rows().erase(i); m.erase(m.begin() + i); } for (auto &row : m) for (int j = 0; j < nc; ++j) w[j] = std::max(w[j], row[j].size()); string want; for (auto &row : m) { want += "<"; for (int j = 0; j < nc; ++j) want += (j ? "|" : "") + string(w[j] - row[j].size(), ' ') + row[j]; want += ">\n"; } t.left("<"); t.mid("|"); t.right(">"); std::ostringstream o; guarded("table", "L14", info, [&] { o << t; stat("tables"); if (o.str() != want) viol("L14", "table", "a table of " + S(m.size()) + " rows prints as\n" + o.str() + "expected\n" + want + info); }); }
	mix(g().stat["casts"]);
}
namespace mon { void run(Rng &r) {
	watchdog(20); string p = opt("part", "L12"); g().prop = p; on_ioctl = base_ioctl; double end = now() + optn("secs", 4);
	std::cerr.setstate(std::ios::failbit);
	if (p == "L13") { l13(r); return; }
	while (now() < end) { stat("rounds"); ++progress();
		if (p == "L12") { switch (r(6)) { case 0: addresses(r); break; case 1: file_addresses(r); break; case 2: ranges(r); break; default: grow(r); } }
		else { switch (r(4)) { case 0: io(r); break; case 1: case 2: buffers(r); break; default: conversions(r); } } }
} }
