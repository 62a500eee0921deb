// Scenarios about stopping, crashing, failing and damaged state.
#include "scen.h"
#include <fstream>

static const char *state_names[] = { "beescrawl.dat", "beesstats.txt" };

// After the daemon is gone: every state file is absent or one complete version
static void check_state_files(Harness &h, const std::map<string, string> &initial, const string &when)
{
	for (auto n : state_names) {
		string p = h.home + "/" + n; ++h.stat["state_file_checks"];
		bool present = ::access(p.c_str(), F_OK) == 0;
		std::vector<string> ok;
		{ std::lock_guard<std::mutex> l(h.srv.imu_pub()); for (auto &v : h.srv.home_versions[n]) ok.push_back(v); for (auto &v : h.srv.home_attempts[n]) ok.push_back(v); }
		auto f = initial.find(n); if (f != initial.end()) ok.push_back(f->second);
		if (!present) { std::lock_guard<std::mutex> l(h.srv.imu_pub()); if (h.srv.home_versions[n].size() || f != initial.end()) h.viol("B07", string("vanished:") + n, string("state file ") + n + " does not exist " + when + " although a version had been in place"); continue; }
		string c = h.read_file(p); bool m = false;
		for (auto &v : ok) if (v == c) m = true;
		if (!m) h.viol("B07", string("torn:") + n, string("state file ") + n + " " + when + " holds " + S(c.size()) + " bytes that are not a complete version written by the daemon: " + c.substr(0, 200));
		else ++h.stat["state_file_ok"];
		// the newest version must be among the last two: renames are not undone
	}
}
static std::map<string, string> snapshot_state(Harness &h)
{
	std::map<string, string> m; for (auto n : state_names) { string p = h.home + "/" + n; if (!::access(p.c_str(), F_OK)) m[n] = h.read_file(p); } return m;
}

// What saved progress claims as finished must have been read.
// Sound reading of a saved file: an extent is claimed only if, for every crawler
// listed, either its generation lies before the crawler's range, or inside it and
// before the crawler's position.
static void check_claims(Harness &h, const string &content, const string &when)
{
	auto lines = parse_crawl(content); if (lines.empty()) return;
	Lk lk(h.sim.mu);
	++h.stat["claim_files"];
	bool tiers = true; std::set<u64> have; for (auto &l : lines) { have.insert(l.root); if (l.root < 250 || l.root > 255) tiers = false; }
	if (h.mode == 4 && (!tiers || have.size() < 6)) return;
	for (auto &x : h.sim.exts) {
		Ext &e = *x.second; if (e.dead || e.prealloc || e.nodatasum || !e.in_tree) continue;
		if (h.partial_ids.count(e.id)) continue;
		bool claimed = true, any_ref = false;
		if (h.mode == 4) { for (auto &l : lines) { if (e.gen < l.min_t) continue; if (e.gen < l.max_t && l.objectid > e.bytenr) continue; claimed = false; break; } }
		std::vector<char> need(e.read.size(), 0);
		for (auto &r : e.refs) {
			IP i = h.sim.get(r.root, r.ino); if (!i || !h.eligible(*i)) continue;
			auto it = i->items.find(r.off); if (it == i->items.end() || it->second.type != IT_REG || r.off >= i->size) continue;
			any_ref = true;
			for (u64 o = 0; o < it->second.len && r.off + o < i->size; o += BLK) { u64 b = (it->second.eoff + o) / BLK; if (b < need.size()) need[b] = 1; }
			if (h.mode != 4) {
				bool c = false;
				for (auto &l : lines) if (l.root == r.root) { if (e.gen < l.min_t || (e.gen < l.max_t && l.objectid > r.ino)) c = true; }
				if (!c) claimed = false;
			}
		}
		if (!any_ref || !claimed) continue;
		++h.stat["claims_checked"];
		u64 miss = 0, nd = 0; for (size_t b = 0; b < need.size(); ++b) if (need[b]) { ++nd; if (!(e.read[b] & 2)) ++miss; }
		if (miss == nd && nd) {
			// other references may have been judged instead of this one
			h.viol("B06", "claimed-unread", when + ": saved progress claims extent #" + S(e.id) + " (bytenr " + S(e.bytenr) + " generation " + S(e.gen) + ") as scanned although none of its " + S(nd) + " blocks has been read; mode " + S(h.mode) + ", file: " + content.substr(0, 700));
			return;
		}
	}
}

static void add_data(Harness &h, Gen &g, u64 bytes)
{
	Lk lk(h.sim.mu);
	u64 t = 0; while (t < bytes) t += g.one() + 4096;
	if (h.chance(0.3)) g.snapshots();
	h.sim.commit(true);
}

static int pick_op(Harness &h, Rule &r)
{
	static const u32 ops[] = { 0, 0, 0, OP_READ_PRE, OP_IOCTL, OP_IOCTL, OP_WRITE_PRE, OP_RENAME_PRE, OP_RENAME_POST, OP_FSYNC_PRE, OP_UNLINK_PRE, OP_OPEN_PRE, OP_TRUNC_PRE };
	r.op = ops[h.rnd(13)];
	if (r.op == OP_IOCTL) { static const u64 cs[] = { FIDEDUPERANGE, BTRFS_IOC_LOGICAL_INO_V2, BTRFS_IOC_INO_PATHS, BTRFS_IOC_TREE_SEARCH_V2, 0 }; r.code = cs[h.rnd(5)]; r.post = h.chance(0.5); }
	if (r.op == OP_RENAME_POST) r.post = true;
	if (r.op == OP_WRITE_PRE && h.chance(0.7)) r.kind = K_HOME;
	u64 m = r.op == 0 ? 12000 : r.op == OP_RENAME_PRE || r.op == OP_RENAME_POST || r.op == OP_FSYNC_PRE || r.op == OP_UNLINK_PRE ? 8 : r.op == OP_TRUNC_PRE ? 3 : r.op == OP_WRITE_PRE ? 25 : r.code == BTRFS_IOC_TREE_SEARCH_V2 ? 5000 : 300;
	// small numbers as often as large ones
	r.skip = h.chance(0.5) ? h.rnd(m) : h.rnd(1 + h.rnd(m));
	return 0;
}

// ---------------------------------------------------------------- crash: killed at any system call, several times
static void sc_crash(Harness &h)
{
	base_config(h);
	if (h.cfg.get("workers").empty() && h.workers == 1 && h.chance(0.5)) h.workers = 4;
	h.stat["workers"] = h.workers;
	h.env["BEES_VERIF_BEES_WRITEBACK_INTERVAL"] = h.chance(0.5) ? "0.02" : "0.4";
	Gen g(h); g.big = h.chance(0.15);
	g.populate((1 + h.rnd(3)) << 20);
	h.make_home();
	h.srv.expect_stable = true;
	int boots = 2 + h.rnd(3);
	std::map<string, string> initial;
	h.srv.on_home_rename = [&](const string &n, const string &c) { if (n == "beescrawl.dat") check_claims(h, c, "while running"); };
	for (int b = 0; b < boots; ++b) {
		Rule r; r.kill = true; r.count = 1; pick_op(h, r);
		int id = h.srv.add_rule(r);
		random_delays(h, 0.5);
		if (h.chance(0.25)) h.srv.home_magic_btrfs = false;
		h.start();
		double limit = 3 + h.rnd(4);
		h.wait_until(limit, [&] { return !h.alive(); });
		bool hit = h.srv.rule_hits(id) > 0; h.stat["kills_at_op"] += hit; ++h.stat["kills"];
		if (h.alive()) { if (hit) h.wait_until(10, [&] { return !h.alive(); }); h.kill9(); }
		else { if (WIFSIGNALED(h.wstatus) && WTERMSIG(h.wstatus) == SIGKILL) h.reap(10); else { h.died("before it was killed"); return; } }
		h.srv.clear_rules();
		h.wait_until(5, [&] { return h.srv.inflight_total == 0; }); h.srv.reset_boot();
		h.check_integrity("after kill -9");
		check_state_files(h, initial, "after kill -9");
		{ std::lock_guard<std::mutex> l(h.srv.imu_pub()); h.srv.home_files.clear(); }
		auto st = snapshot_state(h);
		if (st.count("beescrawl.dat")) check_claims(h, st["beescrawl.dat"], "after kill -9");
		if (h.chance(0.4)) add_data(h, g, 200 << 10);
	}
	h.start();
	if (!settle_until(h, 60, "last start after crashes", [&] { return !h.coverage().missed; })) return;
	h.check_integrity("after recovery");
	auto cov = h.coverage(); h.cov_report("B06", "after kill -9 at " + S(boots) + " points and a restart", cov);
	// progress is resumed: what was scanned and saved is not read again
	string before = h.read_file(h.home + "/beescrawl.dat");
	bool saved = h.wait_until(4, [&] {
		auto v = parse_crawl(h.read_file(h.home + "/beescrawl.dat")); u64 mx = 0;
		{ Lk lk(h.sim.mu); for (auto &e : h.sim.exts) if (!e.second->dead) mx = std::max(mx, e.second->gen); }
		if (v.empty() || (h.mode == 4 && v.size() < 6)) return false;
		if (h.mode != 4) { Lk lk(h.sim.mu); std::set<u64> rs; for (auto &l : v) rs.insert(l.root); for (auto &r : h.sim.roots) if (!rs.count(r.first)) return false; }
		for (auto &l : v) if (l.min_t <= mx) return false;
		return true;
	});
	if (saved) {
		h.kill9();
		u64 reads = h.srv.user_read_bytes;
		h.start();
		if (!settle(h, 40, "restart after everything was saved")) return;
		u64 again = h.srv.user_read_bytes - reads; h.stat["resume_checks"] = 1; h.stat["resume_reads"] = again;
		if (again) h.viol("B06", "restarted-from-beginning", "after saving progress beyond all existing data and kill -9, the restarted daemon read " + S(again) + " bytes of old data again");
	}
	h.stop_clean(30);
	h.srv.on_home_rename = nullptr;
}

// ---------------------------------------------------------------- crashhold: killed while one piece of work is stuck and others continue
static void sc_crashhold(Harness &h)
{
	base_config(h);
	h.workers = h.cfg.num("workers", 3 + h.rnd(6)); h.stat["workers"] = h.workers;
	h.env["BEES_VERIF_BEES_WRITEBACK_INTERVAL"] = "0.05";
	Gen g(h); g.make_dirs();
	std::vector<string> content; std::vector<Family> fams; int n = 6 + h.rnd(12);
	for (int k = 0; k < n; ++k) { Family f; f.name = "copy"; string d = g.blocks(2 + h.rnd(20)); IP i = g.file("orig"); h.sim.write(*i, 0, d); f.add(*i, 0, d.size()); content.push_back(d); fams.push_back(f); g.commit_maybe(); }
	h.sim.commit(true);
	h.make_home(); h.srv.expect_stable = true;
	h.start();
	if (!settle(h, 60, "originals")) return;
	// the hash table must be on disk before the kill
	if (!h.stop_clean(30)) return;
	IP victim; std::vector<IP> dups;
	{
		Lk lk(h.sim.mu);
		int v = h.rnd(n);
		for (int k = 0; k < n; ++k) { IP i = g.file("dup"); h.sim.write(*i, 0, content[k]); fams[k].add(*i, 0, content[k].size()); if (k == v) victim = i; if (h.chance(0.3)) h.sim.commit(true); }
		for (int k = 0; k < 10; ++k) g.fam_unique();
		h.sim.commit(true);
	}
	h.srv.on_home_rename = [&](const string &nm, const string &c) { if (nm == "beescrawl.dat") check_claims(h, c, "while one request is stuck"); };
	Rule r; r.hold = true; r.count = 1; r.root = victim->root; r.ino = victim->ino;
	switch (h.rnd(3)) {
	case 0: r.op = OP_READ_PRE; r.skip = 0; break;
	case 1: r.op = OP_READ_POST; r.post = true; r.skip = 0; break;
	case 2: r.op = OP_OPEN_POST; r.post = true; break;
	}
	int id = h.srv.add_rule(r);
	h.start();
	bool got = h.wait_until(15, [&] { return h.srv.rule_waiting(id) > 0 || !h.alive(); });
	if (!h.alive()) { h.died("with a stuck request"); return; }
	if (!got) { h.inconclusive = "request to hold did not occur"; return; }
	auto saves = [&] { std::lock_guard<std::mutex> l(h.srv.imu_pub()); return h.srv.home_versions["beescrawl.dat"].size(); };
	size_t s0 = saves();
	int more = h.rnd(3);
	for (int k = 0; k < more; ++k) { Lk lk(h.sim.mu); g.fam_unique(); h.sim.commit(true); }
	for (int k = 0; k < 8; ++k) { std::this_thread::sleep_for(std::chrono::milliseconds(150)); h.sim.commit(true); }
	h.wait_until(3, [&] { return saves() >= s0 + 3; });
	h.stat["saves_while_stuck"] = saves() - s0; h.stat["stuck_kills"] = 1;
	h.kill9(); h.srv.clear_rules();
	h.wait_until(5, [&] { return h.srv.inflight_total == 0; }); h.srv.reset_boot();
	h.check_integrity("after kill -9");
	h.start();
	auto all = [](const Family &) { return true; };
	if (!settle_until(h, 60, "restart after a crash with stuck work", [&] { return !h.coverage().missed && deduped(h, fams, all); })) return;
	auto cov = h.coverage(); h.cov_report("B06", "after kill -9 while one request was stuck, and a restart", cov);
	// the victim's duplicate must be gone as well
	require_deduped(h, fams, "B06", "after kill -9 while one request was stuck, and a restart", all);
	h.check_integrity("at end");
	h.stop_clean(30);
	h.srv.on_home_rename = nullptr;
}

// ---------------------------------------------------------------- term: SIGTERM at any time
static void sc_term(Harness &h)
{
	base_config(h);
	bool longwb = h.chance(0.5);
	if (longwb) { h.env["BEES_VERIF_BEES_WRITEBACK_INTERVAL"] = "900"; h.env["BEES_VERIF_BEES_FLUSH_RATE"] = h.chance(0.5) ? "65536" : "33554432"; }
	h.hash_size = h.chance(0.5) ? 128 << 10 : 2 << 20;
	// contents with copies to be written later
	Gen g(h); g.make_dirs();
	int n = 5 + h.rnd(10); std::vector<string> content; std::vector<Family> fams;
	for (int k = 0; k < n; ++k) { Family f; f.name = "copy"; string d = g.blocks(1 + h.rnd(30)); IP i = g.file("orig"); h.sim.write(*i, 0, d); f.add(*i, 0, d.size()); content.push_back(d); fams.push_back(f); g.commit_maybe(); }
	g.populate((h.rnd(2) + 1) << 19);
	h.make_home(); h.srv.expect_stable = true;
	int kills = 1 + h.rnd(2);
	auto all = [](const Family &) { return true; };
	for (int k = 0; k < kills; ++k) {          // stopped in the middle of work
		random_delays(h, 0.7);
		int sg = h.chance(0.5) ? SIGTERM : SIGINT; Rule r; r.count = 1; pick_op(h, r); r.skip += 20; r.hook = [&h, sg](const Ev &) { ::kill(h.pid, sg); };
		int id = h.srv.add_rule(r);
		h.start();
		h.wait_until(2 + h.rnd(3), [&] { return h.srv.rule_hits(id) > 0 || !h.alive(); });
		if (h.srv.rule_hits(id) == 0) { if (!h.alive()) { h.died("before SIGTERM"); return; } ::kill(h.pid, h.chance(0.5) ? SIGTERM : SIGINT); }
		double t = now_s();
		if (!h.reap(25)) { h.viol("B08", "no-exit", "daemon still running 25 s after a termination signal; log tail: " + h.log_tail(1500)); h.kill9(); return; }
		h.stat["stop_s_max"] = std::max(h.stat["stop_s_max"], now_s() - t); ++h.stat["terms"];
		if (WIFSIGNALED(h.wstatus) && (WTERMSIG(h.wstatus) == SIGTERM || WTERMSIG(h.wstatus) == SIGINT)) { ++h.stat["too_early"]; }   // before the handler was installed
		else if (!WIFEXITED(h.wstatus) || WEXITSTATUS(h.wstatus)) { h.died("after SIGTERM"); return; }
		h.srv.clear_rules();
		h.check_integrity("after SIGTERM");
	}
	h.start();
	if (!settle_until(h, 60, "run to completion", [&] { return !h.coverage().missed; })) return;
	auto cov = h.coverage(); h.cov_report("B06", "after SIGTERM in the middle of work, and a restart", cov);
	// settled, then stopped: nothing may be lost
	if (!h.stop_clean(25)) return;
	++h.stat["terms"];
	u64 reads = h.srv.user_read_bytes; 
	h.start();
	if (!settle(h, 40, "restart after a clean stop")) return;
	u64 again = h.srv.user_read_bytes - reads; h.stat["resume_checks"] = 1; h.stat["resume_reads"] = again;
	if (again) h.viol("B08", "progress-lost", "the daemon was stopped by SIGTERM while idle and read " + S(again) + " bytes of old data again after the restart (writeback interval " + h.env["BEES_VERIF_BEES_WRITEBACK_INTERVAL"] + ")");
	{
		Lk lk(h.sim.mu);
		for (int k = 0; k < n; ++k) { IP i = g.file("dup"); h.sim.write(*i, 0, content[k]); fams[k].add(*i, 0, content[k].size()); }
		h.sim.commit(true);
	}
	if (!settle_until(h, 60, "copies after restart", [&] { return deduped(h, fams, all); })) return;
	require_deduped(h, fams, "B08", "after SIGTERM and a restart, copies of data scanned before were written", all);
	h.check_integrity("at end");
	h.stop_clean(25);
}

// ---------------------------------------------------------------- hashflush: changes made while the table is being written
static void sc_hashflush(Harness &h)
{
	base_config(h);
	h.workers = 1 + h.rnd(4); h.stat["workers"] = h.workers;
	h.hash_size = 128 << 10;                   // a single unit of write-back
	h.env["BEES_VERIF_BEES_WRITEBACK_INTERVAL"] = "0.5";
	Gen g(h); std::vector<string> content; std::vector<Family> fams;
	auto orig = [&](int n) { Lk lk(h.sim.mu); for (int k = 0; k < n; ++k) { Family f; f.name = "copy"; string d = g.blocks(1 + h.rnd(16)); IP i = g.file("orig"); h.sim.write(*i, 0, d); f.add(*i, 0, d.size()); content.push_back(d); fams.push_back(f); } h.sim.commit(true); };
	orig(3 + h.rnd(4));
	h.make_home(); h.srv.expect_stable = true;
	Rule r; r.op = h.chance(0.7) ? OP_WRITE_PRE : OP_WRITE_POST; r.post = r.op == OP_WRITE_POST; r.name = "beeshash.dat"; r.hold = true; r.count = 1;
	int id = h.srv.add_rule(r);
	h.start();
	if (!h.wait_until(20, [&] { return h.srv.rule_waiting(id) > 0 || !h.alive(); })) { h.inconclusive = "no table write seen"; h.hang_prop = "B09"; return; }
	if (!h.alive()) { h.died("while the hash table is being written"); return; }
	orig(3 + h.rnd(4));                        // inserted while the write is in flight
	bool fault = h.chance(0.3);
	if (!settle(h, 40, "new data while the table write is stuck", true)) { if (h.inconclusive.size()) h.hang_prop = "B15"; return; }
	auto cov = h.coverage(); h.stat["inserted_during_write"] = cov.exts;
	// a failed write is retried with the next change, or when the daemon stops
	bool kill = !fault && h.chance(0.5); int fid = 0;
	if (fault) { Rule f; f.op = OP_WRITE_PRE; f.name = "beeshash.dat"; f.err = EIO; f.count = 1; fid = h.srv.add_rule(f); h.stat["with_write_error"] = 1; }
	h.srv.release_rule(id);
	if (fault) { h.wait_until(10, [&] { return h.srv.rule_hits(fid) > 0 || !h.alive(); }); h.srv.release_rule(fid); std::this_thread::sleep_for(std::chrono::milliseconds(300)); }
	if (kill) { // bounded time: the writeback must have happened by itself
		std::this_thread::sleep_for(std::chrono::milliseconds(3500));
		if (!h.alive()) { h.died("before kill"); return; }
		h.kill9();
	} else if (!h.stop_clean(25)) return;
	h.srv.clear_rules();
	h.start();
	if (!settle(h, 40, "restart")) return;
	{ Lk lk(h.sim.mu); size_t n = content.size(); for (size_t k = 0; k < n; ++k) { IP i = g.file("dup"); h.sim.write(*i, 0, content[k]); fams[k].add(*i, 0, content[k].size()); } h.sim.commit(true); }
	auto all = [](const Family &) { return true; };
	if (!settle_until(h, 60, "copies", [&] { return deduped(h, fams, all); })) return;
	string when = string("data was scanned while a write of the hash table was in flight") + (fault ? " and a later write failed once" : "") + ", then the daemon was " + (kill ? "killed some time later" : "stopped") + " and restarted, then copies were written";
	require_deduped(h, fams, "B09", when, all);
	if (!kill) require_deduped(h, fams, "B08", when, all);
	h.check_integrity("at end");
	h.stop_clean(25);
}

// ---------------------------------------------------------------- faults: system calls fail for a while
static void add_fault(Harness &h, u32 op, u64 code, int kind, int err, double p, int count, const char *name = "", bool shorten = false)
{
	Rule r; r.op = op; r.code = code; r.kind = kind; r.err = shorten ? 0 : err; r.shorten = shorten; r.prob = p; r.count = count; r.name = name; h.srv.add_rule(r);
}
static void sc_faults(Harness &h)
{
	base_config(h);
	Gen g(h); g.make_dirs();
	int n = 5 + h.rnd(8); std::vector<string> content; std::vector<Family> fams;
	for (int k = 0; k < n; ++k) { Family f; f.name = "copy"; string d = g.blocks(1 + h.rnd(30)); IP i = g.file("orig"); h.sim.write(*i, 0, d); f.add(*i, 0, d.size()); content.push_back(d); fams.push_back(f); g.commit_maybe(); }
	h.make_home(); h.srv.expect_stable = true;
	h.env["BEES_VERIF_BEES_WRITEBACK_INTERVAL"] = "0.3";
	h.start();
	if (!settle(h, 60, "originals")) return;
	int kindsel = h.cfg.num("faultkind", h.rnd(4)); h.stat["faultkind"] = kindsel;
	static const int errs[] = { EIO, ENOMEM, EINTR, EAGAIN, ENOENT, ESTALE, EPERM, EINVAL, ENOSPC, EROFS, EMFILE, EOPNOTSUPP, ENODATA, ETXTBSY, EBUSY, ENOSYS, EOVERFLOW };
	auto e = [&] { return errs[h.rnd(17)]; };
	Family bad; IP badf; std::set<u64> bad_k;
	if (kindsel == 0) {         // anything may fail, rarely
		struct { u32 op; u64 code; int kind; } pts[] = { { OP_IOCTL, FIDEDUPERANGE, -1 }, { OP_IOCTL, BTRFS_IOC_LOGICAL_INO_V2, -1 }, { OP_IOCTL, BTRFS_IOC_INO_PATHS, -1 }, { OP_IOCTL, BTRFS_IOC_TREE_SEARCH_V2, -1 }, { OP_IOCTL, FS_IOC_GETFLAGS, -1 }, { OP_IOCTL, FS_IOC_SETFLAGS, -1 }, { OP_IOCTL, BTRFS_IOC_INO_LOOKUP, -1 }, { OP_IOCTL, BTRFS_IOC_FS_INFO, -1 }, { OP_READ_PRE, 0, K_USER }, { OP_OPEN_PRE, 0, -1 }, { OP_FSTAT, 0, -1 }, { OP_FSTATFS, 0, -1 }, { OP_WRITE_PRE, 0, K_TMP }, { OP_TRUNC_PRE, 0, K_TMP }, { OP_WRITE_PRE, 0, K_HOME }, { OP_RENAME_PRE, 0, -1 }, { OP_UNLINK_PRE, 0, -1 }, { OP_FSYNC_PRE, 0, -1 }, { OP_FADVISE, 0, -1 } };
		for (auto &x : pts) if (h.chance(0.6)) add_fault(h, x.op, x.code, x.kind, e(), 0.02 + 0.2 * (h.rnd(100) / 100.0), 60);
		if (h.chance(0.5)) add_fault(h, OP_READ_PRE, 0, K_USER, 0, 0.1, 60, "", true);
		if (h.chance(0.5)) add_fault(h, OP_WRITE_PRE, 0, K_TMP, 0, 0.1, 60, "", true);
		if (h.chance(0.5)) add_fault(h, OP_WRITE_PRE, 0, K_HOME, 0, 0.2, 30, "", true);
	} else if (kindsel == 1) {  // state files cannot be saved for a while
		int er = h.chance(0.5) ? ENOSPC : EIO;
		switch (h.rnd(5)) {
		case 0: add_fault(h, OP_WRITE_PRE, 0, K_HOME, er, 1, 1 << 20, "beescrawl"); break;
		case 1: add_fault(h, OP_RENAME_PRE, 0, -1, er, 1, 1 << 20); break;
		case 2: add_fault(h, OP_OPEN_PRE, 0, -1, er, 1, 1 << 20, "beescrawl"); break;
		case 3: add_fault(h, OP_FSYNC_PRE, 0, -1, er, 1, 1 << 20); break;
		case 4: add_fault(h, OP_WRITE_PRE, 0, K_HOME, er, 1, 1 << 20, "beescrawl", true); break;
		}
		if (h.chance(0.4)) add_fault(h, OP_WRITE_PRE, 0, K_HOME, er, 1, 1 << 20, "beeshash");
	} else if (kindsel == 2) {  // one file cannot be read, opened or deduplicated
	}                           // kindsel 3: one kind of request fails always, for a while
	else {
		struct { u32 op; u64 code; int kind; } pts[] = { { OP_IOCTL, FIDEDUPERANGE, -1 }, { OP_IOCTL, BTRFS_IOC_LOGICAL_INO_V2, -1 }, { OP_IOCTL, BTRFS_IOC_INO_PATHS, -1 }, { OP_IOCTL, BTRFS_IOC_TREE_SEARCH_V2, -1 }, { OP_READ_PRE, 0, K_USER }, { OP_OPEN_PRE, 0, -1 }, { OP_WRITE_PRE, 0, K_TMP }, { OP_FSTAT, 0, -1 } };
		auto &x = pts[h.rnd(8)]; add_fault(h, x.op, x.code, x.kind, e(), 1, 300);
	}
	std::map<string, string> initial = snapshot_state(h);
	std::vector<Family> fams2 = fams;        // during faults
	{
		Lk lk(h.sim.mu);
		for (int k = 0; k < n; ++k) {
			IP i = g.file("dup"); h.sim.write(*i, 0, content[k]); fams2[k].add(*i, 0, content[k].size());
			if (kindsel == 2 && !badf) { badf = i; bad_k.insert(k); }
		}
		for (int k = 0; k < 4; ++k) g.fam_unique();
		if (kindsel == 2) {
			Rule r; r.root = badf->root; r.ino = badf->ino; r.err = e(); r.op = h.chance(0.7) ? OP_READ_PRE : OP_FSTAT; r.count = 1 << 20; h.srv.add_rule(r);
		}
		h.sim.commit(true);
	}
	auto all = [](const Family &) { return true; };
	auto others = [&](const Family &f) { for (auto k : bad_k) if (&f == &fams2[k]) return false; return true; };
	if (kindsel == 2) {
		if (!settle_until(h, 40, "while one file fails", [&] { return deduped(h, fams2, others); })) { if (h.inconclusive.size()) h.hang_prop = "B16"; return; }
		require_deduped(h, fams2, "B16", "while every " + string("access to one file fails") + ", other files", others);
	} else if (kindsel == 1) {
		// saving state fails, scanning goes on
		if (!settle_until(h, 40, "while state cannot be saved", [&] { return deduped(h, fams2, all); }, false)) { if (h.inconclusive.size()) h.hang_prop = "B16"; return; }
		require_deduped(h, fams2, "B16", "while state files cannot be saved, duplicates", all);
	} else {
		for (int k = 0; k < 40 && h.alive(); ++k) { std::this_thread::sleep_for(std::chrono::milliseconds(60)); h.sim.commit(true); }
	}
	if (!h.alive()) { h.died("while system calls fail"); return; }
	h.check_integrity("while system calls fail");
	u64 hits = h.srv.total_hits(); h.stat["faults_injected"] = hits;
	check_state_files(h, initial, "while system calls fail");
	h.srv.clear_rules();
	if (kindsel == 1) {        // a failed save is retried
		string c0 = h.read_file(h.home + "/beescrawl.dat"); size_t v0; { std::lock_guard<std::mutex> l(h.srv.imu_pub()); v0 = h.srv.home_versions["beescrawl.dat"].size(); }
		h.sim.commit(true);
		bool ok = h.wait_until(10, [&] { std::lock_guard<std::mutex> l(h.srv.imu_pub()); return h.srv.home_versions["beescrawl.dat"].size() > v0; });
		if (!ok && h.alive()) h.viol("B07", "not-retried", "scan progress was not saved within 10 s after saving became possible again");
		++h.stat["retry_checks"];
	}
	// let the daemon get over it, then everything written from now on is handled as usual
	// (where failures may have left a duplicate of an original alone, a third copy may join either of the two)
	if (kindsel == 0 || kindsel == 3) {
		fams.clear(); content.clear();
		Lk lk(h.sim.mu);
		for (int k = 0; k < n; ++k) { Family f; f.name = "copy"; string d = g.blocks(1 + h.rnd(30)); IP i = g.file("orig2"); h.sim.write(*i, 0, d); f.add(*i, 0, d.size()); content.push_back(d); fams.push_back(f); g.commit_maybe(); }
		h.sim.commit(true);
	}
	std::this_thread::sleep_for(std::chrono::milliseconds(500));
	if (!settle(h, 60, "after failures stopped")) { if (h.inconclusive.size()) h.hang_prop = "B16"; return; }
	u64 gen0;
	{
		Lk lk(h.sim.mu);
		h.sim.commit(true); gen0 = h.sim.running;
		for (int k = 0; k < n; ++k) { IP i = g.file("dup2"); h.sim.write(*i, 0, content[k]); fams[k].add(*i, 0, content[k].size()); }
		for (int k = 0; k < 4; ++k) g.fam_unique();
		h.sim.commit(true);
	}
	auto fresh = [&](Ext &x) { return x.gen >= gen0; };
	if (!settle_until(h, 60, "new data after failures stopped", [&] { return !h.coverage(fresh).missed && deduped(h, fams, all); })) { if (h.inconclusive.size()) h.hang_prop = "B16"; return; }
	h.cov_report("B16", "data written after failing system calls recovered", h.coverage(fresh));
	require_deduped(h, fams, "B16", "after failing system calls recovered, new duplicates", all);
	h.check_integrity("at end");
	if (!h.stop_clean(30)) return;
	// a restart rescans whatever had to be given up
	h.start();
	if (!settle(h, 60, "restart after failures")) return;
	h.stop_clean(30);
}

// ---------------------------------------------------------------- badstate: damaged state files
static string garbage(Harness &h, size_t n) { string s(n, 0); int k = h.rnd(4); for (auto &c : s) c = k == 0 ? h.rnd(256) : k == 1 ? 32 + h.rnd(95) : k == 2 ? "0123456789abcdefx \n"[h.rnd(19)] : "root objectid offset min_transid max_transid started 0x1 -5 256 \n"[h.rnd(64)]; return s; }
static void sc_badstate(Harness &h)
{
	base_config(h);
	Gen g(h); g.populate((1 + h.rnd(2)) << 19);
	h.make_home(); h.srv.expect_stable = true;
	h.start();
	if (!settle(h, 60, "first run")) return;
	if (!h.stop_clean(30)) return;
	string crawl = h.read_file(h.home + "/beescrawl.dat"), hash = h.read_file(h.home + "/beeshash.dat");
	if (crawl.empty()) { h.inconclusive = "no state saved"; return; }
	bool full = false;        // everything has to be scanned again
	int ck = h.cfg.num("crawl", h.rnd(9)), hk = h.cfg.num("hash", h.rnd(7)); h.stat["crawl_kind"] = ck; h.stat["hash_kind"] = hk;
	string nc = crawl;
	auto lines = parse_crawl(crawl);
	switch (ck) {
	case 0: break;
	case 1: nc = garbage(h, h.rnd(3000)); full = true; break;
	case 2: nc.resize(h.rnd(nc.size())); break;
	case 3: nc = ""; full = true; break;
	case 4: for (int k = 0; k < 1 + int(h.rnd(5)); ++k) nc[h.rnd(nc.size())] = h.rnd(2) ? h.rnd(256) : '\n'; break;
	case 5: { string l = "root 18446744073709551615 objectid 18446744073709551615 offset 18446744073709551615 min_transid 0 max_transid 18446744073709551615 started 18446744073709551615\n"; nc = h.chance(0.5) ? l + nc : nc + l; break; }
	case 6: { // unknown subvolume, missing fields, duplicate keys, unknown keys
		static const char *ls[] = { "root 99999 objectid 0x100 offset 0x0 min_transid 0 max_transid 5 started 1\n", "root 5 objectid\n", "root 5 root 5 objectid 1 offset 1 min_transid 1 max_transid 1 started 1\n", "root 255 colour 3 objectid 0 offset 0 min_transid 0 max_transid 1 started 0\n", "objectid 1 offset 1\n", "\n\n \n", "root 254 objectid 1 offset 0 gen_current 1 gen_next 2 started 1\n" };
		nc = h.chance(0.5) ? nc + ls[h.rnd(7)] : ls[h.rnd(7)]; break; }
	case 7: { // positions that do not exist
		nc = ""; for (auto &l : lines) nc += "root " + S(l.root) + " objectid " + S(h.rng()) + " offset " + S(h.rng()) + " min_transid " + S(h.rnd(200)) + " max_transid " + S(h.rnd(400)) + " started 1\n"; break; }
	case 8: nc = string(1 << h.rnd(20), h.chance(0.5) ? 0 : 'x'); full = true; break;
	}
	if (ck) h.write_file(h.home + "/beescrawl.dat", nc);
	string nh = hash; bool refuse = false;
	switch (hk) {
	case 0: case 1: break;
	case 2: for (auto &c : nh) c = h.rng(); break;
	case 3: for (int k = 0; k < 3000; ++k) nh[h.rnd(nh.size())] = h.rng(); break;
	case 4: nh.resize(h.chance(0.5) ? 128 << 10 : nh.size() + (128 << 10), char(h.rnd(256))); break;
	case 5: { // shuffled blocks
		for (size_t k = 0; k + 16 <= nh.size(); k += 16) { size_t o = h.rnd(nh.size() / 16) * 16; for (int b = 0; b < 16; ++b) std::swap(nh[k + b], nh[o + b]); } break; }
	case 6: ::unlink((h.home + "/beeshash.dat").c_str()); break;
	}
	if (hk >= 2 && hk <= 5) h.write_file(h.home + "/beeshash.dat", nh);
	if (h.chance(0.3)) h.write_file(h.home + "/beesstats.txt", garbage(h, h.rnd(5000)));
	if (h.chance(0.3)) h.write_file(h.home + "/beescrawl.dat.tmp", garbage(h, h.rnd(5000)));
	if (h.chance(0.1)) h.write_file(h.home + "/beeshash.dat.tmp", garbage(h, h.rnd(5000)));
	{ std::lock_guard<std::mutex> l(h.srv.imu_pub()); h.srv.home_files.clear(); h.srv.home_versions.clear(); h.srv.home_attempts.clear(); }
	(void)refuse;
	// data written while the daemon was not running
	u64 gen0; { Lk lk(h.sim.mu); h.sim.commit(true); gen0 = h.sim.running; }
	Family f; f.name = "copy"; std::vector<Family> fams;
	{ Lk lk(h.sim.mu); int n = 3 + h.rnd(5); for (int k = 0; k < n; ++k) { Family x; x.name = "late"; string d = g.blocks(1 + h.rnd(20)); for (int c = 0; c < 2; ++c) { IP i = g.file("late"); h.sim.write(*i, 0, d); x.add(*i, 0, d.size()); h.sim.commit(true); } fams.push_back(x); } }
	if (full) { h.cov_any = true; Lk lk(h.sim.mu); for (auto &e : h.sim.exts) for (auto &b : e.second->read) b = 0; }
	h.start();
	auto filt = [&](Ext &x) { return full || x.gen >= gen0; };
	bool strictd = h.workers == 1 && hk != 6 && hk != 4;
	auto all = [](const Family &) { return true; };
	// a saved position in the future makes the daemon wait for it
	bool judge = ck != 5 && ck != 7 && ck != 4;
	if (!settle_until(h, 60, "start with damaged state", [&] { return !judge || (!h.coverage(filt).missed && (!strictd || deduped(h, fams, all))); })) { if (h.inconclusive.size()) h.hang_prop = "B17"; return; }
	string when = "after starting with damaged state files (kinds " + S(ck) + "," + S(hk) + ")";
	h.check_integrity(when);
	h.stat["judged"] = judge;
	if (judge) { h.cov_report("B17", when, h.coverage(filt)); if (strictd) require_deduped(h, fams, "B17", when, all); }
	else { // new writes are still picked up in the end
	}
	if (!h.stop_clean(30)) return;
	// and again from what it saved itself
	h.cov_any = false;
	{ Lk lk(h.sim.mu); h.sim.commit(true); gen0 = h.sim.running; for (int k = 0; k < 3; ++k) g.fam_unique(); h.sim.commit(true); }
	h.start();
	if (!settle_until(h, 60, "restart", [&] { return !judge || !h.coverage([&](Ext &x) { return x.gen >= gen0; }).missed; })) { if (h.inconclusive.size()) h.hang_prop = "B17"; return; }
	if (judge) h.cov_report("B17", "after a restart following " + when, h.coverage([&](Ext &x) { return x.gen >= gen0; }));
	h.check_integrity("at end");
	h.stop_clean(30);
}

// ---------------------------------------------------------------- pause: SIGUSR1 / SIGUSR2 and worker limits
static void sc_pause(Harness &h)
{
	base_config(h);
	if (h.chance(0.4)) { h.throttle = 0.2 * (1 + h.rnd(10)); }
	if (h.chance(0.3)) { h.load_target = S(2 + h.rnd(6)); h.srv.loadavg = h.rnd(4); }
	h.srv.busy_limit = h.workers;
	Gen g(h); g.populate((1 + h.rnd(3)) << 20);
	h.make_home(); h.srv.expect_stable = true;
	// keep operations in flight long enough to overlap
	{ Rule r; r.op = OP_READ_PRE; r.kind = K_USER; r.prob = 0.2; r.delay_us = 8000; r.count = 600; h.srv.add_rule(r); Rule q; q.op = OP_IOCTL; q.code = FIDEDUPERANGE; q.delay_us = 20000; q.prob = 0.5; q.count = 200; q.post = true; h.srv.add_rule(q); }
	h.start();
	int cycles = 1 + h.rnd(3);
	for (int c = 0; c < cycles; ++c) {
		h.wait_until(0.2 + 0.05 * h.rnd(40), [&] { return !h.alive(); });
		if (!h.alive()) { h.died("before pause"); return; }
		h.sig(SIGUSR1);
		double sent = now_s();
		if (h.chance(0.3)) h.sig(SIGUSR1);
		// bounded: finish the extents in progress
		double bound = 6 * h.time_scale;
		while (now_s() - sent < bound && now_s() - h.srv.last_data_activity < 1.0) std::this_thread::sleep_for(std::chrono::milliseconds(50));
		if (!h.alive()) { h.died("after pause"); return; }
		h.stat["pause_s_max"] = std::max(h.stat["pause_s_max"], now_s() - sent - 1.0);
		if (h.chance(0.7)) { { Lk lk(h.sim.mu); g.one(); h.sim.commit(true); } h.note_partial(); }
		double quiet_from = now_s(); double last0 = h.srv.last_data_activity; u64 d0 = h.srv.dedupe_calls, r0 = h.srv.user_read_calls;
		double len = 1.5 + 0.5 * h.rnd(3);
		while (now_s() - quiet_from < len) { std::this_thread::sleep_for(std::chrono::milliseconds(250)); h.sim.commit(true); }
		++h.stat["pauses"]; h.stat["paused_s"] += len;
		if (h.srv.user_read_calls != r0 || h.srv.dedupe_calls != d0) { h.viol("B18", "not-paused", "after the pause signal the daemon issued " + S(h.srv.user_read_calls - r0) + " reads and " + S(h.srv.dedupe_calls - d0) + " dedupe requests in " + S(int(len * 1000)) + " ms, starting " + S(int((quiet_from - sent) * 1000)) + " ms after the signal"); (void)last0; }
		h.sig(SIGUSR2);
		if (h.chance(0.2)) h.sig(SIGUSR2);
	}
	if (!h.load_target.empty()) { // too busy for a while, then not
		h.srv.loadavg = 80; std::this_thread::sleep_for(std::chrono::milliseconds(1500)); h.srv.loadavg = 0; ++h.stat["load_changes"];
	}
	if (!settle_until(h, 90, "after resume", [&] { return !h.coverage().missed; })) { if (h.inconclusive.size()) h.hang_prop = "B18"; return; }
	h.cov_report("B18", "after pause and resume", h.coverage());
	h.check_integrity("at end");
	h.stat["max_busy"] = h.srv.max_busy; h.stat["busy_samples"] = h.srv.busy_samples; h.stat["busy_over_1"] = h.srv.max_busy > 1;
	if (h.chance(0.3)) { h.sig(SIGUSR1); std::this_thread::sleep_for(std::chrono::milliseconds(300)); h.stat["term_while_paused"] = 1; }
	h.stop_clean(30);
}

ScenarioFn find_crash(const string &n)
{
	if (n == "crash") return sc_crash;
	if (n == "crashhold") return sc_crashhold;
	if (n == "term") return sc_term;
	if (n == "hashflush") return sc_hashflush;
	if (n == "faults") return sc_faults;
	if (n == "badstate") return sc_badstate;
	if (n == "pause") return sc_pause;
	return nullptr;
}
