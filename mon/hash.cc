// B09: the hash table kept by src/bees-hash.cc.  Every operation is compared with a model of
// its bucket; every image handed to pwrite, the file at quiescence and the contents found by
// the next instance are compared with what the table returned.  B21: the statistics file.
#define MON_MAIN
#include "kern.h"
#include "bees.h"
#include <sys/mman.h>
namespace kern { extern std::function<bool(char op, int fd, void *buf, size_t n, long off, ssize_t *out)> on_io; }
using namespace mon; using namespace kern; using namespace crucible; using std::make_shared; using std::shared_ptr; using std::make_pair; using std::pair; using std::thread;
static const u64 EXT = 128 << 10, PAGE = 4096, CELLS = 256, TOXIC = 1 << 9;
static u64 top_ino = 0; static string dir;
typedef BeesHashTable::Cell Cell;
static shared_ptr<BeesContext> the_ctx() {
	static shared_ptr<BeesContext> c = [] {
		string d = g().scratch + "/fs"; mkdir(d.c_str(), 0700); dir = d + "/.beeshome"; mkdir(dir.c_str(), 0700);
		{ int f = open((dir + "/beeshash.dat").c_str(), O_CREAT | O_RDWR, 0600); ftruncate(f, EXT); close(f); }
		struct stat st; stat(d.c_str(), &st); top_ino = st.st_ino;
		on_fstat = [](int, struct stat *s) { if (s->st_ino == top_ino && S_ISDIR(s->st_mode)) s->st_ino = 256; };
		unsetenv("BEESHOME"); bees_log_level = 0;
		auto x = make_shared<BeesContext>(); x->set_root_path(d); return x;
	}();
	return c;
}
// ---------------------------------------------------------------- what goes to the file
static std::mutex pin_mu; static std::map<pair<u64, u64>, int> pins;      // entries whose presence in any image is known: 1 present, 0 absent
static u64 pin_buckets = 1; static std::atomic<int> fail_writes{0}, failed{0}, slow_us{0}; static std::atomic<u64> images{0}, in_write{0};
static string cur_info; static std::atomic<u64> write_rnd{1};
static bool io(char op, int fd, void *buf, size_t n, long off, ssize_t *out) {
	if (op != 'W' || n < PAGE) return false;
	(void)fd; ++progress(); ++in_write;
	Rng q(write_rnd++);
	{
		std::lock_guard<std::mutex> l(pin_mu); const Cell *c = (const Cell *)buf; std::map<u64, std::set<pair<u64, u64>>> want; std::map<pair<u64, u64>, int> got;
		if (off % EXT || n != EXT) viol("B09", "write-unaligned", "write of " + hex(n) + " at " + hex(off) + "; " + cur_info);
		for (auto &p : pins) want[p.first.first % pin_buckets].insert(p.first);
		for (auto &w : want) { if (w.first * PAGE < (u64)off || (w.first + 1) * PAGE > off + n) continue;
			const Cell *b = c + (w.first * PAGE - off) / 16; for (u64 i = 0; i < CELLS; ++i) { pair<u64, u64> k{b[i].e_hash, b[i].e_addr}; if (w.second.count(k)) ++got[k]; }
			for (auto &k : w.second) { int e = pins[k], have = got[k]; if (have != e) { viol("B09", have < e ? "image-lost" : e ? "image-duplicate" : "image-stale", "the table written to the file has entry " + hex(k.first) + "/" + hex(k.second) + " " + S(have) + " times, the table had it " + S(e) + " times throughout; " + cur_info); break; } } stat("image_buckets"); }
		++images;
	}
	if (slow_us) usleep(q(slow_us));
	int f = fail_writes.load(); while (f > 0 && !fail_writes.compare_exchange_weak(f, f - 1)) {}
	--in_write;
	if (f > 0) { ++failed; switch (q(4)) { case 0: errno = EIO; *out = -1; break; case 1: errno = ENOSPC; *out = -1; break; case 2: errno = EDQUOT; *out = -1; break; default: *out = q(n); pwrite(fd, buf, 0, off); break; } return true; }
	return false;
}
static string slurp(const string &f) { string s; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return s; char b[65536]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; }
static vector<Cell> raw_bucket(const string &file, u64 b) { vector<Cell> v; if (file.size() < (b + 1) * PAGE) return v; const Cell *c = (const Cell *)(file.data() + b * PAGE); v.assign(c, c + CELLS); return v; }
static vector<u64> addrs(const vector<Cell> &v) { vector<u64> r; for (auto &c : v) r.push_back(c.e_addr); return r; }
static vector<u64> in_file(const string &file, u64 h, u64 nb) { vector<u64> r; for (auto &c : raw_bucket(file, h % nb)) if (c.e_hash == h && c.e_addr >= 0x1000) r.push_back(c.e_addr); return r; }
static string show(const vector<u64> &v) { string s = S(v.size()) + " [" ; for (size_t i = 0; i < v.size() && i < 6; ++i) s += (i ? " " : "") + hex(v[i]); return s + (v.size() > 6 ? " ...]" : "]"); }

struct Tab {
	shared_ptr<BeesHashTable> t; string name; u64 nb; vector<u64> hashes; Rng &r; string info;
	Tab(Rng &r_) : r(r_) {}
	vector<u64> find(u64 h) { vector<u64> v; for (auto &c : t->find_cell(h)) { if (c.e_hash != h) viol("B09", "wrong-hash", "looking up " + hex(h) + " returned an entry for " + hex(c.e_hash) + "; " + info); v.push_back(c.e_addr); } return v; }
	std::map<u64, vector<u64>> all(u64 bucket) { std::map<u64, vector<u64>> m; for (auto h : hashes) if (h % nb == bucket) m[h] = find(h); return m; }
	void open() { t = make_shared<BeesHashTable>(the_ctx(), name); ++progress(); }
	// all changes have reached the file
	bool settled(const char *when) {
		string why; double t0 = now(); Rng q(r.next());
		auto ok = [&] { string f = slurp(dir + "/" + name); for (auto h : hashes) { auto a = find(h), b = in_file(f, h, nb); if (a != b) { why = "hash " + hex(h) + " has entries " + show(a) + ", the file has " + show(b); return false; } } return true; };
		double lim = 12 * g().scale; while (!ok()) { usleep(300); ++progress(); if (now() - t0 > lim) { if (ok()) break; viol("B09", "not-written", string("changes were not written to the file within ") + S(lim) + " s " + when + ": " + why + "; " + info); return false; } }
		stat("settled"); return true;
	}
	void stop() {
		double t0 = now(); t->stop_request(); t->stop_wait(); double d = now() - t0; if (d > 10 * g().scale) viol("B09", "slow-stop", "stopping took " + S(d) + " s; " + info);
		string f = slurp(dir + "/" + name); if (f.size() != nb * PAGE) viol("B09", "size-changed", "the file has " + S(f.size()) + " bytes, it had " + S(nb * PAGE) + "; " + info);
		for (auto h : hashes) { auto a = find(h), b = in_file(f, h, nb); if (a != b) { viol("B09", "lost-at-stop", "after stopping hash " + hex(h) + " has entries " + show(a) + ", the file has " + show(b) + "; " + info); break; } }
		stat("stops"); ++progress();
	}
	void close() { t.reset(); }
	// the next instance finds what this one had
	void reopen() {
		std::map<u64, vector<u64>> had; for (auto h : hashes) had[h] = find(h);
		stop(); close(); open();
		for (auto h : hashes) {
			auto a = find(h); std::set<u64> x, y(a.begin(), a.end()); for (auto v : had[h]) x.insert(v & ~TOXIC);
			if (x != y || a.size() != y.size()) { viol("B09", "lost-at-restart", "hash " + hex(h) + " had entries " + show(had[h]) + ", the next instance finds " + show(a) + "; " + info); break; } }
		stat("reopens");
	}
};
static u64 addr_of(Rng &r, u64 salt) { u64 a = (salt + 1) << 12; if (r.chance(.2)) a |= 1 << 11 | (1 + r(32)); if (r.chance(.1)) a |= 1 << 10; return a; }
// ---------------------------------------------------------------- one thread: every operation against the bucket
static u64 hist[4], hist_n = 0;
static void judge(Tab &T, int op, u64 h, u64 a, bool rv, std::map<u64, vector<u64>> &b, std::map<u64, vector<u64>> &n) {
	static const char *N[] = {"push_front", "push_random", "erase"};
	string what = string(N[op]) + " of " + hex(h) + "/" + hex(a) + " in a bucket of "; u64 live = 0; for (auto &x : b) live += x.second.size(); what += S(live) + " entries: ";
	auto &bl = b[h], &nl = n[h]; bool was = std::find(bl.begin(), bl.end(), a) != bl.end(); bool is = std::find(nl.begin(), nl.end(), a) != nl.end();
	string info = "; " + T.info;
	if (op < 2) {
		if (rv != was) viol("B09", "push-result", what + "returned " + S(rv) + info);
		if (!is) { viol("B09", "push-lost", what + "the entry is not found afterwards" + info); return; }
		if (op == 0 && nl.front() != a) viol("B09", "not-first", what + "the entry is not the first found" + info);
	} else if (is) { viol("B09", "erase-failed", what + "the entry is still found" + info); return; }
	// all others stay, in their order; a full bucket gives up its last entry for a new one
	u64 lost = 0, extra = 0; string lostw;
	for (auto &x : b) { vector<u64> p = x.second, q = n[x.first]; if (x.first == h) { p.erase(std::remove(p.begin(), p.end(), a), p.end()); auto qa = std::count(q.begin(), q.end(), a); if (qa > 1) viol("B09", "duplicate", what + "the entry is found " + S(qa) + " times" + info); q.erase(std::remove(q.begin(), q.end(), a), q.end()); }
		if (p == q) continue;
		if (p.size() == q.size() + 1 && std::equal(q.begin(), q.end(), p.begin())) { ++lost; lostw = hex(x.first) + "/" + hex(p.back()); continue; }
		std::set<u64> ps(p.begin(), p.end()), qs(q.begin(), q.end()); for (auto v : p) if (!qs.count(v)) { ++lost; lostw = hex(x.first) + "/" + hex(v); } for (auto v : q) if (!ps.count(v)) ++extra;
		if (q.size() != qs.size()) viol("B09", "duplicate", what + "an entry of " + hex(x.first) + " is found twice" + info);
		if (extra) viol("B09", "invented", what + S(extra) + " entries appeared" + info);
		if (p.size() == q.size() && !extra) viol("B09", "reordered", what + "the order of other entries changed" + info);
		else if (lost) viol("B09", "wrong-eviction", what + "lost " + lostw + ", which was not the last" + info); }
	u64 may = op < 2 && !was && live >= CELLS ? 1 : 0;
	if (lost != may) viol("B09", lost > may ? "entry-lost" : "too-many", what + S(lost) + " other entries were lost" + (lost ? " (" + lostw + ")" : "") + info);
	if (op == 1 && was) { auto bi = std::find(bl.begin(), bl.end(), a) - bl.begin(), ni = std::find(nl.begin(), nl.end(), a) - nl.begin(); if (ni > bi) viol("B09", "moved-back", what + "a known entry moved from place " + S(bi) + " to " + S(ni) + info); }
	if (op == 1 && may && b.size() == 1) { auto ni = std::find(nl.begin(), nl.end(), a) - nl.begin(); ++hist[ni / 64]; ++hist_n; }
	if (may) stat("evictions"); if (was && op < 2) stat("known_pushed"); stat("ops"); mix(n[h].size() * 31 + op);
}
static void one_op(Tab &T, Rng &r, u64 h, u64 a, int op) {
	auto b = T.all(h % T.nb); bool rv = false; ++progress();
	try { if (op == 0) rv = T.t->push_front_hash_addr(h, a); else if (op == 1) rv = T.t->push_random_hash_addr(h, a); else T.t->erase_hash_addr(h, a); }
	catch (std::exception &e) { viol("B09", "exception", string(e.what()).substr(0, 400) + "; " + T.info); return; }
	auto n = T.all(h % T.nb); judge(T, op, h, a, rv, b, n); (void)r;
}
static u64 pick_addr(Tab &T, Rng &r, u64 h, u64 universe) { if (r.chance(.3)) { auto v = T.find(h); if (v.size()) return r.chance(.3) ? v.back() : v[r(v.size())]; } return addr_of(r, r(universe)); }
static void sequential(Tab &T, Rng &r) {
	u64 universe = r.chance(.4) ? 100 : 900; int nops = r.range(50, 700); double erase = r.chance(.5) ? .05 : .3, front = r.chance(.5) ? .5 : .15; int every = r.chance(.3) ? 1 : r.range(20, 200);
	if (r.chance(.5)) for (auto h : T.hashes) for (int i = 0, n = CELLS + 20; i < n; ++i) T.t->push_random_hash_addr(h, addr_of(r, i));
	for (int k = 0; k < nops; ++k) { u64 h = r.pick(T.hashes); one_op(T, r, h, pick_addr(T, r, h, universe), r.chance(erase) ? 2 : r.chance(front) ? 0 : 1);
		if (every > 1 && k % every == 0) { T.settled("while idle"); } }
	// one change at a time, on a table whose file is up to date
	for (int k = 0; k < 40; ++k) { if (!T.settled("while idle")) return; u64 h = r.pick(T.hashes); auto im = images.load(); one_op(T, r, h, pick_addr(T, r, h, universe), r.chance(erase) ? 2 : r.chance(front) ? 0 : 1); T.settled("after a single change"); if (images != im) stat("single_changes"); }
	T.settled("at the end");
}
// ---------------------------------------------------------------- several threads
static void concurrent(Tab &T, Rng &r) {
	int nt = r.range(2, 5), nops = r.range(100, 900); bool overflow = r.chance(.3); u64 per = CELLS / (nt + 1); std::atomic<bool> bad{false};
	// each thread owns some addresses; entries of the last group are known to be present throughout, those of one more group to be absent
	auto own = [&](int t, u64 i) { return ((u64)(t + 1) * 10000 + i + 1) << 12; };
	for (auto h : T.hashes) { auto v = T.find(h); for (auto a : v) T.t->erase_hash_addr(h, a); }
	std::map<u64, u64> nper; for (auto h : T.hashes) ++nper[h % T.nb]; u64 worst = 1; for (auto &x : nper) worst = std::max(worst, x.second);
	u64 mine = std::max<u64>(1, per / worst); if (overflow) mine = CELLS;
	vector<pair<u64, u64>> fixed; if (!overflow) for (auto h : T.hashes) for (u64 i = 0; i < mine; ++i) { if (T.t->push_random_hash_addr(h, own(nt, i))) viol("B09", "push-result", "a new entry was reported as known; " + T.info); fixed.push_back({h, own(nt, i)}); }
	if (!T.settled("before")) return;
	if (!overflow) { std::lock_guard<std::mutex> l(pin_mu); pin_buckets = T.nb; for (auto &f : fixed) pins[f] = 1; for (auto h : T.hashes) { u64 gone = own(nt + 1, 0); pins[{h, gone}] = 0; } }
	vector<std::set<pair<u64, u64>>> have(nt); vector<thread> th;
	for (int t = 0; t < nt; ++t) { u64 seed = r.next(); th.emplace_back([&, t, seed] { Rng q(seed); auto &mineset = have[t]; u64 n = 0;
		try { for (int k = 0; k < nops && !bad; ++k) { ++n; ++progress(); u64 h = q.pick(T.hashes);
			int c = q(10); if (!overflow && c < 2 && fixed.size()) { auto &f = q.pick(fixed); bool rv = q.chance(.5) ? T.t->push_front_hash_addr(f.first, f.second) : T.t->push_random_hash_addr(f.first, f.second); if (!rv) { viol("B09", "entry-lost", "an entry no one erased was not known any more; " + T.info); bad = true; } continue; }
			u64 a = own(t, q(mine)); bool was = mineset.count({h, a});
			if (c < 7) { bool rv = q.chance(.5) ? T.t->push_front_hash_addr(h, a) : T.t->push_random_hash_addr(h, a); mineset.insert({h, a}); if (!overflow && rv != was) { viol("B09", "push-result", "push of " + hex(h) + "/" + hex(a) + " by the only thread using it returned " + S(rv) + "; " + T.info); bad = true; } }
			else if (c < 9 && !overflow) { T.t->erase_hash_addr(h, a); mineset.erase({h, a}); }
			else { auto v = T.find(h); std::set<u64> s(v.begin(), v.end()); if (s.size() != v.size()) { viol("B09", "duplicate", "an entry was found twice; " + T.info); bad = true; }
				if (!overflow) { for (u64 i = 0; i < mine; ++i) { bool e = mineset.count({h, own(t, i)}); if (e != !!s.count(own(t, i))) { viol("B09", e ? "entry-lost" : "erase-failed", "entry " + hex(h) + "/" + hex(own(t, i)) + " is " + (e ? "missing" : "back") + " though only this thread uses it; " + T.info); bad = true; break; } } for (auto &f : fixed) if (f.first == h && !s.count(f.second)) { viol("B09", "entry-lost", "entry " + hex(h) + "/" + hex(f.second) + " is missing during concurrent operations; " + T.info); bad = true; break; } }
				else for (auto x : s) if ((x >> 12) < 10001 || (x >> 12) > (u64)(nt + 1) * 10000 + CELLS || (x & 4095)) { viol("B09", "invented", "an entry " + hex(x) + " no one inserted was found; " + T.info); bad = true; break; } }
			if (q.chance(.02)) nap(q);
		} } catch (std::exception &e) { viol("B09", "exception", string(e.what()).substr(0, 400) + "; " + T.info); }
		stat("concurrent_ops", n); }); }
	for (auto &x : th) x.join();
	// conservation
	for (auto &x : nper) { u64 live = 0; std::set<pair<u64, u64>> got; for (auto h : T.hashes) if (h % T.nb == x.first) for (auto a : T.find(h)) { ++live; if (!got.insert({h, a}).second) viol("B09", "duplicate", "entry " + hex(h) + "/" + hex(a) + " is in the table twice; " + T.info); }
		std::set<pair<u64, u64>> want; for (auto &s : have) for (auto &e : s) if (e.first % T.nb == x.first) want.insert(e); for (auto &e : fixed) if (e.first % T.nb == x.first) want.insert(e);
		if (!overflow && got != want) viol("B09", "not-conserved", "a bucket has " + S(got.size()) + " entries, " + S(want.size()) + " were inserted and not erased; " + T.info);
		if (overflow) { for (auto &e : got) if (!want.count(e)) { viol("B09", "invented", "entry " + hex(e.first) + "/" + hex(e.second) + " was never inserted; " + T.info); break; } if (got.size() != std::min<u64>(want.size(), CELLS)) viol("B09", "not-conserved", "a bucket has " + S(got.size()) + " entries after " + S(want.size()) + " were inserted; " + T.info); }
		stat("conserved"); }
	T.settled("after concurrent operations"); { std::lock_guard<std::mutex> l(pin_mu); pins.clear(); }
	stat("images", images.exchange(0));
}
// ---------------------------------------------------------------- failing and slow writes
static void failing(Tab &T, Rng &r) {
	if (!T.settled("before")) return;
	failed = 0; fail_writes = 1 + r(3); int n = 1 + r(30); double t0 = now();
	for (int k = 0; k < n; ++k) { u64 h = r.pick(T.hashes); one_op(T, r, h, addr_of(r, r(2000)), r.chance(.2) ? 2 : r.chance(.5)); }
	while (fail_writes > 0 && now() - t0 < 5) { u64 h = r.pick(T.hashes); T.t->push_front_hash_addr(h, addr_of(r, r(1 << 20))); usleep(200); ++progress(); }
	fail_writes = 0; stat("write_failures", failed.load());
	if (r.chance(.5)) { T.reopen(); return; }            // at the latest when stopping
	// with the next change: it may be in any part of the table
	usleep(1000 * r(20)); u64 h = r.pick(T.hashes); T.t->push_front_hash_addr(h, addr_of(r, 1 << 21)); T.settled("after writes that failed");
}
static void stopping(Tab &T, Rng &r) {
	// changes made while a slow write of the same extent is under way, then an immediate stop
	slow_us = 3000; int n = 1 + r(60); for (int k = 0; k < n; ++k) { u64 h = r.pick(T.hashes); if (r.chance(.3)) { double t0 = now(); while (!in_write && now() - t0 < .01) usleep(20); stat(in_write ? "during_write" : "between_writes"); } one_op(T, r, h, pick_addr(T, r, h, 900), r.chance(.2) ? 2 : r.chance(.5)); }
	T.reopen(); slow_us = r.chance(.5) ? 1500 : 0;
}
static void garbage(Tab &T, Rng &r) {
	T.stop(); T.close();
	string f(T.nb * PAGE, 0); Cell *c = (Cell *)&f[0]; u64 total = f.size() / 16; int kind = r(4);
	for (u64 i = 0; i < total; ++i) { u64 b = i / CELLS; c[i].e_hash = r.next(); c[i].e_addr = r.next() >> r(64);
		if (kind == 1 && r.chance(.5)) c[i] = Cell(0, 0);
		if (r.chance(.3)) for (auto h : T.hashes) if (h % T.nb == b && r.chance(.5)) { c[i].e_hash = h; if (r.chance(.4)) c[i].e_addr = r(0x3000); else if (r.chance(.6)) c[i].e_addr = ((1 + r(40)) << 12) | (r.chance(.5) ? TOXIC : 0); } }
	if (kind == 2) for (u64 i = 0; i < f.size(); ++i) f[i] = r.next(); if (kind == 3) memset(&f[0], 0xff, f.size());
	{ int fd = ::open((dir + "/" + T.name).c_str(), O_WRONLY); for (size_t o = 0; o < f.size();) { ssize_t n = pwrite(fd, &f[o], std::min<size_t>(f.size() - o, 2048), o); if (n <= 0) break; o += n; } ::close(fd); }
	T.open(); string info = T.info + " garbage of kind " + S(kind);
	auto hs = T.hashes; if (kind >= 2) for (int i = 0; i < 200; ++i) hs.push_back(c[r(total)].e_hash); else for (int i = 0; i < 200; ++i) hs.push_back(c[r(total)].e_hash);
	for (auto h : hs) { std::set<u64> want; for (auto &x : raw_bucket(f, h % T.nb)) if (x.e_hash == h && (x.e_addr & ~TOXIC) >= 0x1000) want.insert(x.e_addr & ~TOXIC);
		try { auto v = T.find(h); std::set<u64> got(v.begin(), v.end()); stat("garbage_lookups");
			for (auto x : got) { u64 c = 0, t = 0; for (auto &y : raw_bucket(f, h % T.nb)) if (y.e_hash == h) { if (y.e_addr == x) ++c; else if (y.e_addr == (x | TOXIC)) ++t; } u64 n = std::count(v.begin(), v.end(), x); if (n > (c ? c : t)) { viol("B09", "duplicate", "entry " + hex(h) + "/" + hex(x) + " is found " + S(n) + " times, the file has it " + S(c) + " times and " + S(t) + " times marked; " + info); break; } }
			if (got != want) { viol("B09", got.size() > want.size() ? "invented" : "not-found", "hash " + hex(h) + ": found " + show(v) + ", the file has " + show(vector<u64>(want.begin(), want.end())) + "; " + info); break; } } catch (std::exception &e) { viol("B09", "exception", string(e.what()).substr(0, 300) + "; " + info); } }
	for (int k = 0; k < 300; ++k) { u64 h = r.chance(.5) ? r.pick(hs) : r.next(), a = addr_of(r, r(50)); ++progress(); try { int op = r(3); if (op == 0) T.t->push_front_hash_addr(h, a); else if (op == 1) T.t->push_random_hash_addr(h, a); else T.t->erase_hash_addr(h, a); if (op < 2) { auto v = T.find(h); if (std::find(v.begin(), v.end(), a) == v.end()) viol("B09", "push-lost", "entry " + hex(h) + "/" + hex(a) + " is not found after it was inserted; " + info); } } catch (std::exception &e) { viol("B09", "exception", string(e.what()).substr(0, 300) + "; " + info); } }
	stat("garbage_files");
	// what is written must read back the same
	T.settled("after operations on garbage"); T.stop(); T.close();
	{ int fd = ::open((dir + "/" + T.name).c_str(), O_RDWR | O_TRUNC); ftruncate(fd, T.nb * PAGE); ::close(fd); } T.open();
}
// ---------------------------------------------------------------- B21: what beesstats.txt says about the table
static void statistics(Tab &T, Rng &r) {
	for (auto h : T.hashes) for (auto a : T.find(h)) T.t->erase_hash_addr(h, a);
	for (int i = 0, n = r(600); i < n; ++i) { u64 h = r.pick(T.hashes), a = addr_of(r, r(3000)) | (r.chance(.2) ? TOXIC : 0); if (r.chance(.5)) T.t->push_front_hash_addr(h, a); else T.t->push_random_hash_addr(h, a); }
	u64 occ = 0, comp = 0, tox = 0, eof = 0; for (auto h : T.hashes) for (auto a : T.find(h)) { ++occ; if (a >> 11 & 1) ++comp; if (a >> 9 & 1) ++tox; if (a >> 10 & 1) ++eof; }
	if (!T.settled("before reading statistics")) return;
	string want = S(occ) + "/" + S(T.nb * CELLS) + " cells occupied", text; double t0 = now(), lim = 15 * g().scale; string why;
	auto num = [&](const string &k) -> long { auto p = text.find(k); return p == string::npos ? -1 : atol(text.c_str() + p + k.size()); };
	auto ok = [&] { text = slurp(dir + "/beesstats.txt"); auto p = text.find(" cells occupied"); if (p == string::npos) { why = "no statistics"; return false; } if (text.find("(" + want) == string::npos) { auto q = text.rfind('(', p); why = text.substr(q, p - q) + " cells occupied instead of " + want; return false; }
		if (num("\ncompressed ") != (long)comp || num(" toxic ") != (long)tox || num(" unaligned_eof ") != (long)eof) { why = "compressed " + S(num("\ncompressed ")) + " toxic " + S(num(" toxic ")) + " unaligned_eof " + S(num(" unaligned_eof ")) + " instead of " + S(comp) + " " + S(tox) + " " + S(eof); return false; }
		// the histogram counts each page once
		std::map<size_t, u64> cols; size_t at = text.find("%)\n"); std::istringstream is(at == string::npos ? "" : text.substr(at + 3)); string line; vector<string> rows; while (std::getline(is, line) && line.compare(0, 2, "0%")) rows.push_back(line);
		u64 lo = 0, hi = 0; for (size_t x = 0; x < 64; ++x) { u64 top = 0; for (auto &l : rows) if (l.size() > 64 && l[x] == '#') top = std::max<u64>(top, strtoull(l.c_str() + 64, 0, 10)); lo += top; hi += top ? 2 * top - 1 : 0; }
		if (rows.empty() || T.nb < lo || T.nb > hi) { why = "histogram of " + S(rows.size()) + " rows shows between " + S(lo) + " and " + S(hi) + " pages instead of " + S(T.nb); return false; }
		return true; };
	while (!ok()) { usleep(20000); ++progress(); if (now() - t0 > lim) { viol("B21", "table-stats", "the statistics file keeps showing " + why + "; " + T.info); return; } }
	stat("stats_checked"); mix(occ * 31 + comp);
}
namespace mon { void run(Rng &r) {
	watchdog(30); string part = opt("part", "table"); g().prop = part == "stats" ? "B21" : "B09"; double end = now() + optn("secs", 4);
	setenv("BEES_VERIF_BEES_FLUSH_RATE", r.chance(.6) ? "1e12" : "3e7", 1); setenv("BEES_VERIF_BEES_HASH_TABLE_ANALYZE_INTERVAL", part == "stats" || r.chance(.4) ? "0.05" : "100", 1);
	on_ioctl = [](int, unsigned long req, void *arg) { if (req == BTRFS_IOC_INO_LOOKUP) { ((btrfs_ioctl_ino_lookup_args *)arg)->treeid = 5; return 0; } return fail(ENOTTY); }; std::cerr.setstate(std::ios::failbit); the_ctx(); write_rnd = r.next(); on_io = io; delays(0);
	while (now() < end) {
		Tab T(r); u64 round = g().stat["rounds"]; stat("rounds"); T.name = "t" + S(round) + ".dat"; u64 ne = 1 + r(4); T.nb = ne * EXT / PAGE; cur_info = T.info = "seed " + S(g().seed) + " round " + S(round);
		bool create = r.chance(.3); if (!create) { int f = ::open((dir + "/" + T.name).c_str(), O_CREAT | O_RDWR, 0600); ftruncate(f, T.nb * PAGE); ::close(f); T.open(); } else { T.t = make_shared<BeesHashTable>(the_ctx(), T.name, T.nb * PAGE); stat("created"); }
		int nbk = 1 + r(3), nh = r.chance(.5) ? 1 : 1 + r(3); for (int i = 0; i < nbk; ++i) { u64 base = r(T.nb); if (r.chance(.2)) base = T.nb - 1; for (int k = 0; k < nh; ++k) { u64 h = base + T.nb * (r.next() % (~0ull / T.nb - 1)); if (std::find(T.hashes.begin(), T.hashes.end(), h) == T.hashes.end()) T.hashes.push_back(h); } }
		slow_us = r.chance(.5) ? 1500 : 0;
		for (int k = 0, n = 1 + r(3); k < n; ++k) {
			if (part == "stats") { statistics(T, r); continue; }
			switch (r(8)) { case 0: case 1: sequential(T, r); break; case 2: case 3: case 4: concurrent(T, r); break; case 5: failing(T, r); break; case 6: stopping(T, r); break; default: garbage(T, r); }
			if (now() > end + 10) break; }
		T.stop(); T.close(); unlink((dir + "/" + T.name).c_str());
	}
	if (hist_n >= 400) for (int i = 0; i < 4; ++i) if (hist[i] < hist_n / 20) viol("B09", "not-spread", "of " + S(hist_n) + " entries inserted at random places only " + S(hist[i]) + " went to quarter " + S(i) + " of the bucket; seed " + S(g().seed));
	stat("random_places", hist_n);
} }
