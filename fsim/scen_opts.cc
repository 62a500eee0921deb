// Command line options: what each one promises, in any spelling and order, and that
// a command line that is refused leaves everything alone.
#include "scen.h"
#include <cmath>
#include <ctime>
#include <dirent.h>
#include <regex>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>

static int threads_of(pid_t p)
{
	int n = 0; DIR *d = opendir(("/proc/" + S(p) + "/task").c_str()); if (!d) return -1;
	while (auto e = readdir(d)) if (e->d_name[0] != '.') ++n;
	closedir(d); return n;
}
static off_t size_of(const string &p) { struct stat s; return stat(p.c_str(), &s) ? 0 : s.st_size; }
static string listing(Harness &h, const string &dir)
{
	std::vector<string> v; DIR *d = opendir(dir.c_str()); if (!d) return "";
	while (auto e = readdir(d)) if (e->d_name[0] != '.' || !strcmp(e->d_name, ".beeshome")) v.push_back(e->d_name);
	closedir(d); std::sort(v.begin(), v.end());
	string r; for (auto &n : v) { struct stat s; string p = dir + "/" + n; if (lstat(p.c_str(), &s)) continue; r += n + ":" + S(s.st_mode) + ":" + S(s.st_size) + ":" + (S_ISREG(s.st_mode) ? S(std::hash<string>()(h.read_file(p))) : string()) + "\n"; }
	return r;
}
static u64 changes(Harness &h)
{
	std::lock_guard<std::mutex> l(h.srv.lmu); u64 n = 0;
	for (auto &c : h.srv.count) for (const char *k : { "write", "trunc", "rename", "unlink", "falloc", "foreign", "ioctl:DEDUPE", "ioctl:SETFLAGS", "ioctl:CLONE" }) if (c.first == k) n += c.second;
	return n;
}
struct Line { int level; bool stamped; string text; time_t t; long pid; };
// Splits what was logged into lines; a line in neither of the two forms has level -1
static std::vector<Line> parse_log(const string &s)
{
	static const std::regex a("^(\\d{4})-(\\d\\d)-(\\d\\d) (\\d\\d):(\\d\\d):(\\d\\d) (\\d+)\\.(\\d+)<(\\d)>(.*)$"), b("^<(\\d)>(.*)$");
	std::vector<Line> v; std::istringstream is(s); string l; std::smatch m;
	while (std::getline(is, l)) {
		Line x{ -1, false, l, 0, 0 };
		if (l.size() > 4000) l.resize(4000);
		if (std::regex_match(l, m, b)) { x.level = m[1].str()[0] - '0'; x.text = m[2]; }
		else if (std::regex_match(l, m, a)) {
			struct tm tm = {}; tm.tm_year = stoi(m[1]) - 1900; tm.tm_mon = stoi(m[2]) - 1; tm.tm_mday = stoi(m[3]); tm.tm_hour = stoi(m[4]); tm.tm_min = stoi(m[5]); tm.tm_sec = stoi(m[6]); tm.tm_isdst = -1;
			x.t = mktime(&tm); x.pid = stol(m[7]); x.stamped = true; x.level = m[9].str()[0] - '0'; x.text = m[10];
		}
		v.push_back(x);
	}
	return v;
}

struct Cmd {                    // a command line and what it promises
	std::vector<string> a; int v = 8; bool stamps = true, strip = false; unsigned c = 0; double factor = 0; string text;
	unsigned threads() const { if (c) return c; double f = factor ? factor : 1.0; return std::max(1U, unsigned(std::ceil(std::thread::hardware_concurrency() * f))); }
};
static void spell(Harness &h, std::vector<string> &a, const string &sh, const string &lo, const string &val = "")
{
	int k = h.rnd(4);
	if (sh.empty()) k = 2 + h.rnd(2);
	if (val.empty()) { a.push_back(k < 2 ? "-" + sh : "--" + lo); return; }
	switch (k) {
	case 0: a.push_back("-" + sh + val); break;
	case 1: a.push_back("-" + sh); a.push_back(val); break;
	case 2: a.push_back("--" + lo + "=" + val); break;
	default: a.push_back("--" + lo); a.push_back(val);
	}
}

static void sc_options(Harness &h)
{
	h.mode = h.cfg.num("mode", h.rnd(3) ? 4 : h.rnd(4)); h.stat["mode"] = h.mode;
	Gen g(h); g.make_dirs();
	const string fs = h.dir + "/fs";
	string sub; { u64 r = h.sim.subvol(5, "optsub"); (void)r; sub = fs + "/optsub"; }
	for (int k = 0; k < 3; ++k) { string d = g.blocks(1 + h.rnd(8)); IP a = g.file(), b = g.file("g"); h.sim.write(*a, 0, d); h.sim.write(*b, 0, d); }
	{ IP p = h.sim.create(5, "plainfile"); h.sim.write(*p, 0, g.blocks(2)); }
	h.sim.commit(true);
	h.make_home();
	h.use_raw = true; h.cwd = fs;
	u64 boots = 0;
	auto fresh_dups = [&] { string d = g.blocks(2 + h.rnd(6)); IP a = h.sim.create(5, g.name("n")), b = h.sim.create(5, g.name("n")); h.sim.write(*a, 0, d); h.sim.write(*b, 0, d); h.sim.commit(true); };
	auto cmdline = [&] { string s; for (auto &x : h.raw_args) s += (s.empty() ? "" : " ") + x; return s; };
	// How much had been logged when the filesystem was first looked at
	std::atomic<long> mark{-1};
	auto launch = [&] {
		h.srv.clear_rules(); mark = -1; ++boots;
		Rule r; r.op = OP_IOCTL; r.count = 1; r.hook = [&](const Ev &) { mark = size_of(h.logf); }; h.srv.add_rule(r);
		::unlink(h.logf.c_str()); ::unlink(h.status_file.c_str());
		h.start();
	};
	int t1 = 0; std::set<int> usual;
	auto good = [&](Cmd &c, bool ref) -> bool {
		// options in any order, the path anywhere among them
		h.raw_args = c.a;
		fresh_dups();
		const time_t began = time(nullptr); const u64 dd = h.srv.dedupe_ok;
		launch();
		const string where = "'" + cmdline() + "'";
		if (!settle(h, 60, "command line " + where)) return false;
		h.check_integrity("with options");
		// worker threads
		if (ref) {
			int n = 0, same = 0;
			h.wait_until(10, [&] { int k = threads_of(h.pid); same = k == n ? same + 1 : 0; n = k; return same > 20; });
			t1 = n;
		} else {
			int want = t1 - 1 + int(c.threads()), got = 0;
			h.wait_until(15, [&] { got = threads_of(h.pid); return got == want; });
			if (!h.alive()) { h.died("with options " + where); return false; }
			++h.stat["thread_checks"];
			if (got != want) h.viol("B23", "threads", where + " must run " + S(c.threads()) + " worker threads, but has " + S(got - t1 + 1) + " (" + S(got) + " threads in all; with -c1 there are " + S(t1) + ")");
		}
		const bool status = h.wait_until(h.no_status ? 1.5 : 10, [&] { return size_of(h.status_file) > 0; });
		++h.stat["status_checks"];
		if (status == h.no_status) h.viol("B23", "status-file", h.no_status ? "a status file was written although BEESSTATUS was not set" : "BEESSTATUS was set, but no status file was written in 10 s");
		const pid_t pid = h.pid; const u64 deduped = h.srv.dedupe_ok - dd;
		if (!h.stop_clean(30)) return false;
		const time_t ended = time(nullptr);
		string log = h.read_file(h.logf); const long m = mark;
		if (m < 0) { h.inconclusive = "the daemon never looked at the filesystem"; return false; }
		size_t from = std::min<size_t>(m, log.size());
		auto lines = parse_log(log.substr(from));
		std::set<int> seen; u64 absolute = 0;
		for (auto &l : lines) {
			++h.stat["log_lines"];
			const string q = ": '" + l.text.substr(0, 200) + "'";
			if (l.level < 0) { h.viol("B23", "log-form", where + ": a line was logged without a level" + q); continue; }
			seen.insert(l.level);
			if (l.level >= c.v) h.viol("B23", "too-verbose", where + ": verbosity " + S(c.v) + " was asked for, but a message of level " + S(l.level) + " was logged" + q);
			if (l.stamped != c.stamps) h.viol("B23", "timestamps", where + ": timestamps must be " + (c.stamps ? "present" : "absent") + q);
			if (l.stamped && (l.t < began - 2 || l.t > ended + 2)) h.viol("B23", "wrong-time", where + ": a message carries a time that is not the present" + q);
			if (l.stamped && l.pid != pid) h.viol("B23", "wrong-pid", where + ": a message carries the process number " + S(l.pid) + ", not " + S(pid) + q);
			if (l.text.find(fs + "/") != string::npos) { ++absolute; if (c.strip) h.viol("B23", "not-stripped", where + ": paths must have their prefix stripped" + q); }
		}
		if (ref) usual = seen;
		else for (int l : usual) if (l < c.v && !seen.count(l)) h.viol("B23", "too-quiet", where + ": verbosity " + S(c.v) + " was asked for, but no message of level " + S(l) + " was logged");
		if (!c.strip && c.v == 8 && deduped) { ++h.stat["path_checks"]; if (!absolute) h.viol("B23", "not-absolute", where + ": paths must be absolute, but none is although duplicates were found"); }
		if (c.strip) ++h.stat["strip_checks"];
		++h.stat["options_judged"]; ++h.stat["verbosity." + S(c.v)];
		return true;
	};
	h.no_status = h.chance(0.3);
	Cmd ref; ref.a = { "-c1", "-v8", "-m" + S(h.mode), fs }; ref.c = 1;
	if (!good(ref, true)) return;
	const int rounds = h.cfg.num("rounds", 3);
	for (int k = 0; k < rounds; ++k) {
		Cmd c; std::vector<std::vector<string>> parts;
		auto part = [&](const string &sh, const string &lo, const string &val = "") { std::vector<string> a; spell(h, a, sh, lo, val); parts.push_back(a); };
		part("m", "scan-mode", S(h.mode));
		if (h.chance(0.8)) {
			// settings that override each other: the order among them counts
			if (h.chance(0.6)) { if (h.chance(0.3)) part("c", "thread-count", S(1 + h.rnd(30))); c.c = 1 + h.rnd(9); part("c", "thread-count", S(c.c)); }
			if (h.chance(0.5)) { static const char *const f[] = { "0.01", "0.3", "0.5", "1.0", "1.7", "2.0", "2.6" }; string s = f[h.rnd(7)]; c.factor = strtod(s.c_str(), nullptr); part("C", "thread-factor", s); }
		}
		if (h.chance(0.9)) { if (h.chance(0.2)) part("v", "verbose", S(h.rnd(9))); static const int vs[] = { 0, 8, 5, 6, 7, 4, 3, 1 }; c.v = vs[h.rnd(8)]; part("v", "verbose", S(c.v)); }
		for (int n = h.rnd(3); n; --n) { c.stamps = h.chance(0.4); if (c.stamps) part("t", "timestamps"); else part("T", "no-timestamps"); }
		for (int n = h.rnd(3); n; --n) { c.strip = h.chance(0.6); if (c.strip) part("P", "strip-paths"); else part("p", "absolute-paths"); }
		if (h.chance(0.3)) part("", "throttle-factor", h.chance(0.5) ? "0" : "0.5");
		parts.insert(parts.begin() + h.rnd(parts.size() + 1), { fs });
		for (auto &p : parts) for (auto &x : p) c.a.push_back(x);
		if (!good(c, false)) return;
	}
	// command lines that must not start anything
	h.no_status = false;
	for (int k = h.cfg.num("refused", 6); k; --k) {
		std::vector<string> a; bool ok_exit = false, any_exit = false; string says;
		if (h.chance(0.3)) spell(h, a, "c", "thread-count", S(1 + h.rnd(4)));
		if (h.chance(0.3)) spell(h, a, "m", "scan-mode", S(h.rnd(5)));
		int what = h.rnd(14);
		switch (what) {
		case 0: break;                                                                        // no path
		case 1: a.push_back(fs); a.push_back(h.chance(0.5) ? fs : sub); break;                // two paths
		case 2: a.push_back(fs + "/nosuch"); break;
		case 3: a.push_back(fs + "/plainfile"); break;
		case 4: a.push_back(sub); break;                                                      // not the root of the filesystem
		case 5: { static const char *const m[] = { "5", "99", "x", "" , "4294967295", "4294967300" }; spell(h, a, "m", "scan-mode", m[h.rnd(6)]); a.push_back(fs); break; }
		case 6: { static const char *const m[] = { "9", "-1", "loud", "100" }; spell(h, a, "v", "verbose", m[h.rnd(4)]); a.push_back(fs); break; }
		case 7: spell(h, a, "c", "thread-count", "many"); a.push_back(fs); break;
		case 8: spell(h, a, "C", "thread-factor", h.chance(0.5) ? "-0.5" : "some"); a.push_back(fs); break;
		case 9: a.push_back(h.chance(0.5) ? "-Z" : "--no-such-option"); a.push_back(fs); any_exit = true; break;
		case 10: a.push_back(fs); a.push_back(h.chance(0.5) ? "-c" : "--thread-count"); any_exit = true; break;   // argument missing
		case 11: a.push_back(fs); a.insert(a.begin() + h.rnd(a.size() + 1), h.chance(0.5) ? "-h" : "--help"); ok_exit = true; says = "Usage:"; break;
		case 12: a.push_back(fs); a.push_back("--version"); ok_exit = true; says = "bees version"; break;
		case 13: { string d = "optdir" + S(k); h.sim.mkdir(5, d); a.push_back(fs + "/" + d); break; }  // a directory below the root
		}
		h.raw_args = a; h.sim.commit(true);
		const string where = "'" + cmdline() + "'";
		const string home0 = listing(h, h.home), fs0 = listing(h, fs); const u64 ch0 = changes(h);
		launch();
		if (!h.reap(40)) { h.viol("B23", "not-refused", where + " must not start the daemon, but it is still running after 40 s; log: " + h.log_tail(600)); h.kill9(); continue; }
		string out = h.read_file(h.logf);
		++h.stat["refused_checks"]; ++h.stat["refused." + S(what)];
		if (!h.sanitizer_report().empty()) return;
		if (!WIFEXITED(h.wstatus)) { h.viol("B23", "refused-crash", where + " ended by signal " + S(WTERMSIG(h.wstatus)) + "; log: " + h.log_tail(600)); continue; }
		const int code = WEXITSTATUS(h.wstatus);
		if (ok_exit && code) h.viol("B23", "help-status", where + " must succeed, but the exit status is " + S(code));
		if (!ok_exit && !any_exit && !code) h.viol("B23", "refused-status", where + " must fail, but the exit status is 0; log: " + h.log_tail(600));
		if (!says.empty() && out.find(says) == string::npos) h.viol("B23", "help-text", where + " must print '" + says + "'; it printed: " + out.substr(0, 300));
		if (changes(h) != ch0 || listing(h, h.home) != home0 || listing(h, fs) != fs0) h.viol("B23", "refused-changes", where + " was not to start anything, but files were changed");
		if (size_of(h.status_file)) h.viol("B23", "refused-status-file", where + " was not to start anything, but wrote the status file");
	}
	h.stat["boots"] = boots;
}


// ---------------------------------------------------------------- order: what is read first
static void sc_order(Harness &h)
{
	base_config(h);
	h.mode = h.cfg.num("mode", h.rnd(5)); h.stat["mode"] = h.mode;
	h.workers = 1; h.stat["workers"] = 1;                 // several workers overtake each other
	Gen g(h); Sim &sim = h.sim;
	const int nsub = 2 + h.rnd(3); std::vector<u64> subs;
	for (int k = 0; k < nsub; ++k) subs.push_back(sim.subvol(5, "ord" + S(k)));
	if (h.chance(0.5)) subs.push_back(5);
	std::vector<u64> shuffled = subs; std::shuffle(shuffled.begin(), shuffled.end(), h.rng);
	u64 serial = 0;
	auto fill = [&](u64 root, int n, bool small = false) {
		for (int k = 0; k < n; ++k) {
			IP i = sim.create(root, "u" + S(serial++));
			WriteOpts o; static const u64 me[] = { 128 << 20, 4096, 16384, 128 << 20 }; o.max_extent = me[h.rnd(4)];
			u64 nb = 1 + h.rnd(6);
			if (!small && h.mode == 4 && h.chance(0.2)) { nb = h.chance(0.5) ? 40 + h.rnd(60) : 130 + h.rnd(100); o.max_extent = 128 << 20; }
			u64 at = h.chance(0.15) ? BLK * (1 + h.rnd(4)) : 0;
			if (h.chance(0.2)) o.comp = 1 + h.rnd(3);
			sim.write(*i, at, g.blocks(nb), o);
			if (h.chance(0.3)) sim.write(*i, at + nb * BLK + BLK * h.rnd(3), g.blocks(1 + h.rnd(3)), o);
			if (h.chance(0.2)) sim.commit();
		}
	};
	for (auto r : shuffled) fill(r, 4 + h.rnd(h.mode == 4 ? 25 : 50));
	sim.commit(true);
	h.make_home();
	h.srv.log_cap = 4000000;
	if (h.chance(0.4)) random_delays(h, 0.3);
	h.start();
	if (!settle_until(h, 60, "first scan", [&] { return !h.coverage().missed; })) return;
	h.check_integrity("after the scan");
	struct Rd { double t; u64 root, ino, off; };
	auto reads = [&] { std::vector<Rd> v; std::lock_guard<std::mutex> l(h.srv.lmu); for (auto &e : h.srv.log) if (e.op == OP_READ_POST && e.kind == K_USER && e.rv > 0) v.push_back({ e.t, e.root, e.ino, e.a0 }); return v; };
	auto rs = reads();
	h.stat["reads_judged"] = rs.size();
	if (rs.empty()) { h.inconclusive = "no reads were recorded"; return; }
	const u64 polls0 = h.srv.polls;
	// inodes in the order of their first read; offsets within an inode
	std::vector<std::pair<u64, u64>> first; std::map<std::pair<u64, u64>, u64> reached;
	for (auto &r : rs) {
		auto k = std::make_pair(r.root, r.ino); auto f = reached.find(k);
		if (f == reached.end()) { first.push_back(k); reached[k] = r.off; continue; }
		if (h.mode != 4 && r.off < f->second) { h.viol("B24", "offset-order", "mode " + S(h.mode) + ": root " + S(r.root) + " inode " + S(r.ino) + " was read at offset " + S(r.off) + " after offset " + S(f->second)); }
		f->second = std::max(f->second, r.off);
	}
	h.stat["inodes_judged"] = first.size();
	if (h.mode != 4) {
		std::map<u64, u64> last; u64 lockstep = 0, seq = 0; std::map<u64, u64> total, begun;
		for (auto &x : first) ++total[x.first];
		for (auto &x : first) {
			const string who = "mode " + S(h.mode) + ": root " + S(x.first) + " inode " + S(x.second) + " was begun after ";
			if (x.second < last[x.first]) h.viol("B24", "inode-order", who + "inode " + S(last[x.first]) + " of the same subvolume");
			last[x.first] = x.second;
			if (h.mode == 0) { if (x.second < lockstep) h.viol("B24", "lockstep", who + "inode " + S(lockstep) + " of another subvolume"); lockstep = std::max(lockstep, x.second); }
			if (h.mode == 2) { if (x.first < seq) h.viol("B24", "sequential", who + "subvolume " + S(seq)); seq = std::max(seq, x.first); }
			if (h.mode == 1 || h.mode == 3) {
				++begun[x.first];
				// every subvolume gets its turn; each poll can start a new round
				for (auto &o : total) if (begun[o.first] < o.second && begun[x.first] > begun[o.first] + 3 + polls0) h.viol("B24", "turns", who + S(begun[x.first] - 1) + " inodes of the same subvolume, while only " + S(begun[o.first]) + " of " + S(o.second) + " inodes of subvolume " + S(o.first) + " had been");
			}
		}
	} else {
		// extents of a size class in the order of their address
		static const u64 top[] = { 128 << 10, 512 << 10, 2 << 20, 8 << 20, 32 << 20, ~0ULL };
		std::map<int, std::pair<u64, u64>> at; std::set<u64> seen;
		Lk lk(sim.mu);
		for (auto &r : rs) {
			IP i = sim.get(r.root, r.ino); if (!i) continue;
			auto it = i->items.upper_bound(r.off); if (it == i->items.begin()) continue;
			--it; if (!it->second.e || r.off >= it->first + it->second.len) continue;
			Ext &e = *it->second.e; if (!seen.insert(e.id).second) continue;
			int c = 0; while (e.disk_len > top[c]) ++c;
			auto f = at.find(c);
			if (f != at.end() && e.bytenr < f->second.first) h.viol("B24", "address-order", "extent " + S(e.bytenr) + " (length " + S(e.disk_len) + ") was read after extent " + S(f->second.first) + " (length " + S(f->second.second) + ") of the same size class");
			at[c] = { e.bytenr, e.disk_len }; ++h.stat["extents_judged"];
		}
		h.stat["size_classes"] = at.size();
	}
	if (h.mode >= 1 && h.mode <= 3) {
		// new data in a subvolume that had been scanned completely does not wait
		// for the end of the first scan of a new one
		h.srv.clear_rules();
		const u64 nb = h.cfg.num("newfiles", 300), delay = 100000;
		u64 b = sim.subvol(5, "ordnew"); 
		Rule r; r.op = OP_READ_PRE; r.kind = K_USER; r.root = b; r.delay_us = delay; int rid = h.srv.add_rule(r);
		fill(b, nb, true); sim.commit(true);
		auto begun_of = [&](u64 root, u64 above) { std::set<u64> s; for (auto &x : reads()) if (x.root == root && x.ino > above) s.insert(x.ino); return s.size(); };
		auto beat = [&](double secs, const std::function<bool()> &f) { double hb = 0; return h.wait_until(secs, [&] { if (now_s() - hb > 0.35) { hb = now_s(); sim.commit(true); } std::this_thread::sleep_for(std::chrono::milliseconds(30)); return !h.alive() || f(); }); };
		if (!beat(60, [&] { return begun_of(b, 0) > 3; })) { h.inconclusive = "the new subvolume is not being read"; return; }
		const u64 a = subs[0]; u64 top = 0; { Lk lk(sim.mu); for (auto &i : sim.roots[a].inodes) top = std::max(top, i.first); }
		// several rounds later
		u64 p0 = h.srv.polls; beat(20, [&] { return h.srv.polls >= p0 + 3; });
		const int na = 1 + h.rnd(4); fill(a, na, true); sim.commit(true); p0 = h.srv.polls;
		const size_t left0 = nb - std::min<u64>(nb, begun_of(b, 0));
		bool done = beat(60, [&] { return begun_of(a, top) == size_t(na) || begun_of(b, 0) == nb; });
		if (!h.alive()) { h.died("while new data was scanned"); return; }
		const size_t left = nb - std::min<u64>(nb, begun_of(b, 0)); const u64 polls = h.srv.polls - p0;
		if (done && left0 > nb / 2) {
			++h.stat["recent_judged"]; h.stat["recent_left"] += left;
			if (begun_of(a, top) < size_t(na) && !left && polls >= 6) h.viol("B24", "recent-data", "mode " + S(h.mode) + ": " + S(na) + " new files in subvolume " + S(a) + ", which had been scanned completely, were not read before all of the " + S(left0) + " files left in the new subvolume " + S(b) + " (" + S(polls) + " polls)");
		}
		h.srv.release_rule(rid); h.srv.clear_rules();
		if (!settle_until(h, 60, "new subvolume", [&] { return !h.coverage().missed; })) return;
		h.cov_report("B05", "after a subvolume was added", h.coverage());
	}
	h.stop_clean(30);
}

ScenarioFn find_opts(const string &n) { return n == "options" ? sc_options : n == "order" ? sc_order : nullptr; }
