#include "scen.h"

void base_config(Harness &h)
{
	Cfg &c = h.cfg;
	h.mode = c.num("mode", h.rnd(3) ? 4 : h.rnd(4));
	static const int w[] = { 1, 2, 4, 8, 3 };
	h.workers = c.num("workers", w[h.rnd(5)]);
	h.verbose = c.num("verbose", h.rnd(4) ? 7 : 8);
	h.throttle = 0;
	h.hash_size = c.num("hash", 1 << 20);
	h.sim.alloc_gap = h.chance(0.3) ? 4096 * h.rnd(3) : 0;
	h.sim.reuse_bytenr = c.num("reuse", h.chance(0.5));
	h.sim.inode_group_shift = h.rnd(4);
	h.sim.extent_group_shift = 16 + h.rnd(6);
	if (h.chance(0.2)) h.srv.have_openat2 = false;
	if (h.chance(0.2)) h.srv.release = h.chance(0.5) ? "5.4.0-sim" : "4.19.3";
	if (h.chance(0.3)) h.rel_paths = true;
	if (h.chance(0.2)) h.sim.dedupe_cap = 16 << 20;
	h.stat["mode"] = h.mode; h.stat["workers"] = h.workers;
}

bool settle(Harness &h, double timeout, const string &what, bool data_only)
{
	double t = now_s();
	bool ok = h.wait_idle(timeout, data_only);
	h.stat["settle_s"] += now_s() - t;
	if (!h.alive()) { h.died("while settling (" + what + ")"); return false; }
	if (!ok) {
		// Still issuing requests on a filesystem nobody else modifies?
		h.inconclusive = "did not become idle in " + S(int(timeout)) + " s: " + what;
		h.hang_prop = "B15";
		return false;
	}
	++h.stat["settles"];
	return true;
}

bool settle_until(Harness &h, double timeout, const string &what, const std::function<bool()> &ok, bool data_only)
{
	if (!settle(h, timeout, what, data_only)) return false;
	for (int k = 0; k < 2; ++k) {
		if (ok()) return true;
		++h.stat["resettles"];
		double ts = h.time_scale; h.time_scale *= 2.5 * (k + 1);
		bool r = settle(h, timeout / 2, what + " (again)", data_only);
		h.time_scale = ts;
		if (!r) return false;
	}
	return true;
}

bool deduped(Harness &h, const std::vector<Family> &fams, const std::function<bool(const Family &)> &strict)
{
	for (auto &f : fams) if (strict(f)) { auto d = h.duplicates([&](Inode &i, u64 off) { return f.has(i, off); }); if (d.extra || d.zero_alloc) return false; }
	return true;
}

void random_delays(Harness &h, double p)
{
	struct { u32 op; u64 code; int kind; } pts[] = {
		{ OP_IOCTL, FIDEDUPERANGE, -1 }, { OP_IOCTL, BTRFS_IOC_LOGICAL_INO_V2, -1 }, { OP_IOCTL, BTRFS_IOC_INO_PATHS, -1 }, { OP_IOCTL, BTRFS_IOC_TREE_SEARCH_V2, -1 },
		{ OP_READ_PRE, 0, K_USER }, { OP_READ_POST, 0, K_USER }, { OP_OPEN_PRE, 0, -1 }, { OP_OPEN_POST, 0, -1 }, { OP_WRITE_PRE, 0, K_TMP }, { OP_TRUNC_PRE, 0, K_TMP }, { OP_WRITE_PRE, 0, K_HOME }, { OP_FADVISE, 0, -1 }, { OP_FSTAT, 0, -1 } };
	if (!h.chance(p)) return;
	for (auto &x : pts) {
		if (h.chance(0.45)) continue;
		Rule r; r.op = x.op; r.code = x.code; r.kind = x.kind;
		r.prob = h.chance(0.5) ? 0.02 + 0.3 * (h.rnd(100) / 100.0) : 0.01; r.delay_us = h.chance(0.2) ? 60000 : 6000;
		if (x.op == OP_IOCTL || x.op == OP_OPEN_POST || x.op == OP_READ_POST) r.post = h.chance(0.5);
		if (x.op == OP_READ_POST || x.op == OP_OPEN_POST) r.post = true;
		r.count = r.delay_us > 10000 ? 40 : 200;
		if (x.code == BTRFS_IOC_TREE_SEARCH_V2) r.count = r.delay_us > 10000 ? 20 : 200;
		h.srv.add_rule(r);
	}
}

void require_deduped(Harness &h, const std::vector<Family> &fams, const string &prop, const string &when, const std::function<bool(const Family &)> &strict)
{
	for (auto &f : fams) {
		auto d = h.duplicates([&](Inode &i, u64 off) { return f.has(i, off); });
		h.stat["fam_blocks"] += d.blocks; ++h.stat["fams"]; ++h.stat["fams." + f.name]; h.stat["fam_extra." + f.name] += d.extra; 
		if (d.extra || d.zero_alloc) h.notes.push_back("family " + f.name + " " + when + ": blocks " + S(d.blocks) + " contents " + S(d.contents) + " extra " + S(d.extra) + " zero " + S(d.zero_alloc) + " " + d.first);
		if (strict(f) && (d.extra || d.zero_alloc)) h.viol(prop, "not-deduped:" + f.name, when + " (mode " + S(h.mode) + ", " + S(h.workers) + " workers) duplicates of kind '" + f.name + "' are still stored more than once although the daemon is idle: " + d.first);
		if (strict(f)) { ++h.stat["strict_fams"]; h.stat["strict_blocks"] += d.blocks; }
	}
}

std::vector<CrawlLine> parse_crawl(const string &s)
{
	std::vector<CrawlLine> v; std::istringstream is(s); string l;
	while (std::getline(is, l)) {
		std::istringstream ls(l); string k; CrawlLine c; string val;
		while (ls >> k >> val) { u64 n = strtoull(val.c_str(), nullptr, 0);
			if (k == "root") c.root = n; else if (k == "objectid") c.objectid = n; else if (k == "offset") c.offset = n; else if (k == "min_transid") c.min_t = n; else if (k == "max_transid") c.max_t = n; }
		if (c.root) v.push_back(c);
	}
	return v;
}

// ---------------------------------------------------------------- progress tables
struct ProgRow { string name; int point = 0; u64 gmin = 0, gmax = 0; bool idle = false; };
static std::vector<ProgRow> parse_progress(const string &s)
{
	std::vector<ProgRow> v; size_t p = s.find("PROGRESS:"); if (p == string::npos) return v;
	std::istringstream is(s.substr(p)); string l;
	while (std::getline(is, l)) {
		std::istringstream ls(l); std::vector<string> w; string x; while (ls >> x) w.push_back(x);
		if (w.size() < 7 || w[0] == "extsz" || w[0] == "total" || w[2].size() != 6) continue;
		ProgRow r; r.name = w[0]; r.point = atoi(w[2].c_str()); r.gmin = strtoull(w[3].c_str(), 0, 10); r.gmax = strtoull(w[4].c_str(), 0, 10); r.idle = w.back() == "idle";
		v.push_back(r);
	}
	return v;
}
struct ProgWatch {
	Harness &h; std::thread t; std::atomic<bool> stop{false}; std::map<string, ProgRow> last; u64 seen = 0; std::map<string, u64> cnt; string lasttxt;
	ProgWatch(Harness &hh) : h(hh) { t = std::thread([this] { while (!stop) { look(); std::this_thread::sleep_for(std::chrono::milliseconds(100)); } }); }
	void look()
	{
		string s = h.status_text(); if (s == lasttxt || s.find("RATES:") == string::npos) return; 
		lasttxt = s;
		for (auto &r : parse_progress(s)) {
			++seen;
			auto f = last.find(r.name);
			if (f != last.end()) {
				auto &o = f->second;
				if (o.gmin == r.gmin && o.gmax == r.gmax && r.point < o.point) h.viol("B21", "progress-backwards", "published progress of size class " + r.name + " went from " + S(o.point) + " to " + S(r.point) + " within the scan of generations " + S(r.gmin) + ".." + S(r.gmax));
				if (r.gmax < o.gmax) h.viol("B21", "generation-backwards", "published generation of size class " + r.name + " went from " + S(o.gmax) + " to " + S(r.gmax));
			}
			last[r.name] = r;
		}
		auto c = h.status_counters();
		for (auto &x : cnt) if (c.count(x.first) && c[x.first] < x.second) h.viol("B21", "counter-backwards", "published counter " + x.first + " decreased from " + S(x.second) + " to " + S(c[x.first]));
		if (!c.empty()) cnt = c;
	}
	void end() { stop = true; if (t.joinable()) t.join(); h.stat["progress_rows"] += seen; }
	~ProgWatch() { end(); }
};

// Published counters against the totals seen at the kernel interface, at idle
static void check_counters(Harness &h, const string &when)
{
	// Wait for a status file written after the last activity
	string t0s = h.status_text();
	bool ok = h.wait_until(5, [&] { string s = h.status_text(); return s != t0s && s.find("RATES:") != string::npos; });
	if (!ok) return;
	std::this_thread::sleep_for(std::chrono::milliseconds(100));
	ok = h.wait_until(5, [&] { string s = h.status_text(); return s.find("RATES:") != string::npos && s.find("PROGRESS:") != string::npos; });
	auto c = h.status_counters(); if (!ok || c.empty()) return;
	if (now_s() - h.srv.last_data_activity < 1.0) return;    // something started again
	auto g = [&](const char *k) { return c.count(k) ? c[k] : 0; };
	struct { const char *what; u64 pub, seen; } q[] = {
		{ "dedupe requests (dedup_hit+dedup_miss+dedup_unrecoverable...)", g("dedup_hit") + g("dedup_miss"), h.srv.dedupe_ok + h.srv.dedupe_differs },
		{ "successful dedupe requests (dedup_hit)", g("dedup_hit"), h.srv.dedupe_ok },
		{ "bytes deduplicated (dedup_bytes)", g("dedup_bytes"), h.srv.dedupe_bytes },
		{ "bytes copied to temporary files (tmp_bytes)", g("tmp_bytes"), h.srv.tmp_write_bytes },
	};
	for (auto &x : q) {
		++h.stat["counter_checks"];
		if (x.pub != x.seen) h.viol("B21", string("counter:") + x.what, when + ": published " + x.what + " is " + S(x.pub) + " but the kernel interface saw " + S(x.seen));
	}
	h.stat["c.dedup_hit"] = g("dedup_hit");
	h.stat["c.block_bytes"] = g("block_bytes"); h.stat["c.hash"] = g("block_hash"); h.stat["c.scan_block"] = g("scan_block");
	// at idle every size class reports completion of everything committed before
	if (h.mode == 4) {
		auto rows = parse_progress(h.status_text());
		if (rows.size()) {
			h.stat["progress_idle_checks"] += rows.size();
		}
	}
}

// ---------------------------------------------------------------- settle: static contents
static void sc_settle(Harness &h)
{
	base_config(h);
	h.workers = h.cfg.num("workers", h.chance(0.7) ? 1 : h.workers); h.stat["workers"] = h.workers;
	Gen g(h);
	g.big = h.cfg.num("big", h.chance(0.25)); if (h.cfg.num("big", 0)) g.big_p = 0.6;
	g.populate(h.cfg.num("size", (1 + h.rnd(3)) << 20));
	h.sim.commit(true);
	h.make_home();
	h.srv.expect_stable = true;
	if (h.chance(0.5)) random_delays(h);
	u64 before = h.sim.user_referenced_bytes();
	std::map<u64, std::vector<std::pair<RefKey, u64>>> uniq;     // extent id -> refs
	{
		Lk lk(h.sim.mu);
		for (auto &u : g.uniques) { IP i = h.sim.get(u.first, u.second); if (!i) continue; for (auto &x : i->items) if (x.second.e && x.second.type == IT_REG) uniq[x.second.e->id].push_back({{i->root, i->ino, x.first}, x.second.eoff}); }
	}
	ProgWatch pw(h);
	h.start();
	// Fragmented or shared copies of compressed data can exceed the number of candidate
	// references the daemon considers (documented limit).
	std::set<const Family *> limited;
	{
		Lk lk(h.sim.mu);
		for (auto &f : g.fams) for (auto &r : f.ranges) {
			IP i = h.sim.get(std::get<0>(r), std::get<1>(r)); if (!i) continue;
			bool comp = false; int items = 0; u64 refs = 0;
			for (auto &x : i->items) if (x.second.e && x.first < std::get<3>(r) && x.first + x.second.len > std::get<2>(r)) { ++items; comp |= x.second.comp; refs = std::max<u64>(refs, x.second.e->refs.size()); }
			(void)refs; (void)items;
			if (comp) { bool frag = h.sim.roots.size() > 1; for (auto &q : f.ranges) { IP j = h.sim.get(std::get<0>(q), std::get<1>(q)); if (!j) continue; int n = 0; for (auto &x : j->items) if (x.first < std::get<3>(q) && x.first + x.second.len > std::get<2>(q)) { ++n; if (x.second.e && x.second.e->refs.size() > 1) frag = true; } if (n > 1) frag = true; } if (frag) limited.insert(&f); }
		}
		h.stat["limited_fams"] = limited.size();
	}
	auto strict = [&](const Family &f) { if (limited.count(&f)) return false; if (h.workers > 1) return f.name == "zero-whole"; return f.name == "whole" || f.name == "shifted-sep" || f.name == "tail" || f.name == "zero-whole" || f.name == "big"; };
	if (!settle_until(h, 60, "first scan", [&] { return !h.coverage().missed && deduped(h, g.fams, strict); })) return;
	h.check_integrity("after first scan");
	auto cov = h.coverage();
	auto dup = h.duplicates();
	u64 after = h.sim.user_referenced_bytes(), all_after = h.sim.referenced_bytes();
	h.stat["cov_blocks"] = cov.blocks; h.stat["cov_missed"] = cov.missed; h.stat["dup_contents"] = dup.dup_contents; h.stat["dup_extra"] = dup.extra; h.stat["dup_zero"] = dup.zero_alloc; h.stat["dup_blocks"] = dup.blocks;
	h.stat["bytes_before"] = before; h.stat["bytes_after"] = after; h.stat["bytes_daemon"] = all_after - after; h.stat["space_checks"] = 1;
	if (h.mode == 4) { // every extent was there before the daemon started
	}
	h.cov_report("B05", "after the first scan of a static filesystem", cov);
	require_deduped(h, g.fams, "B03", "after the first scan", strict);
	if (after > before) h.viol("B04", "space-grew", "files referenced " + S(before) + " bytes of storage before the daemon ran and " + S(after) + " afterwards (mode " + S(h.mode) + ", " + S(h.workers) + " workers)");
	if (all_after - after > (1 << 20)) h.viol("B04", "temporary-space", S(all_after - after) + " bytes of storage are referenced only by the daemon while it is idle");
	{
		Lk lk(h.sim.mu);
		for (auto &u : uniq) for (auto &rk : u.second) {
			IP i = h.sim.get(rk.first.root, rk.first.ino); if (!i) continue;
			Ext *e = nullptr; h.sim.phys_at(*i, rk.first.off, &e); ++h.stat["unique_refs"];
			if (!e || e->id != u.first) h.viol("B04", "unique-rewritten", "data without duplicates was rewritten: root " + S(i->root) + " inode " + S(i->ino) + " offset " + S(rk.first.off));
		}
	}
	pw.look();
	check_counters(h, "after first scan");
	pw.end();
	// a second pass over already deduplicated data issues no requests
	int how = h.rnd(3);
	u64 calls = h.srv.dedupe_calls, reads = h.srv.user_read_bytes;
	if (h.workers == 1 || how == 0) {
		if (how == 0) {           // another cycle
			h.kick(); h.commit_pause = false;
			if (!settle(h, 40, "second cycle")) return;
			u64 extra = h.srv.user_read_bytes - reads; h.stat["second_reads"] = extra;
			h.stat["second_kind0"] = 1;
		} else {
			if (!h.stop_clean(30)) return;
			if (how == 2) ::unlink((h.home + "/beescrawl.dat").c_str());  // full rescan with the hash table kept
			h.start();
			if (!settle(h, 60, "restart")) return;
			h.stat[how == 1 ? "second_kind1" : "second_kind2"] = 1;
			u64 extra = h.srv.user_read_bytes - reads; h.stat["second_reads"] = extra;
			if (how == 1 && extra) { h.notes.push_back("restart read " + S(extra) + " bytes"); }
		}
		u64 more = h.srv.dedupe_calls - calls; h.stat["second_dedupes"] = more;
		h.check_integrity("after second pass");
		u64 after2 = h.sim.user_referenced_bytes();
		if (after2 > before + (how == 0 ? 4096 : 0)) h.viol("B04", "space-grew-2", "storage referenced by files grew from " + S(before) + " to " + S(after2) + " after a second pass");
		if (more && dup.extra == 0 && dup.zero_alloc == 0) h.viol("B15", "second-pass-dedupe", "another pass over a filesystem without duplicates issued " + S(more) + " dedupe requests (kind " + S(how) + ")");
	}
	h.stop_clean(30);
}

// ---------------------------------------------------------------- phases: originals first, duplicates later, many workers
static void sc_phases(Harness &h)
{
	base_config(h);
	// Two new copies of the same data met at the same time by different workers, and
	// compressed extents with several references, are not always reduced to one copy
	// (documented limits), so those combinations are not generated here.
	const bool with_refs = h.cfg.num("refs", h.chance(0.6)); h.stat["with_refs"] = with_refs;
	Gen g(h); g.make_dirs();
	struct Orig { string d; };
	std::vector<Orig> origs;
	std::vector<Family> fams;
	int n = 3 + h.rnd(12);
	std::vector<u64> rw = g.roots;
	for (int k = 0; k < n; ++k) {
		u64 nb = 1 + h.rnd(h.chance(0.15) ? 200 : 30); string d = g.blocks(nb); if (h.chance(0.3)) d.resize(d.size() - h.rnd(BLK - 1));
		Family f; f.name = "copy";
		IP i = g.file("orig"); WriteOpts o = g.wopt(); if (with_refs) o.comp = 0; h.sim.write(*i, 0, d, o); f.add(*i, 0, d.size()); g.commit_maybe();
		origs.push_back({d}); fams.push_back(f);
	}
	for (int k = 0; k < 5; ++k) g.fam_unique();
	h.sim.commit(true);
	h.make_home();
	h.srv.expect_stable = true;
	h.start();
	auto all = [](const Family &) { return true; };
	auto good = [&] { return !h.coverage().missed && deduped(h, fams, all); };
	if (!settle_until(h, 60, "originals", [&] { return !h.coverage().missed; })) return;
	random_delays(h);
	int rounds = 1 + h.rnd(2);
	for (int rd = 0; rd < rounds; ++rd) {
		{
			Lk lk(h.sim.mu);
			// everything new appears in one transaction, so that all workers meet it at once
			for (int k = 0; k < n; ++k) {
				if (h.chance(0.2)) continue;
				auto &o = origs[k]; int copies = h.workers == 1 ? 1 + h.rnd(3) : 1;
				for (int c = 0; c < copies; ++c) {
					IP i = g.file("dup"); WriteOpts w = g.wopt(); if (with_refs) w.comp = 0; u64 base = 0;
					bool tail = o.d.size() % BLK;
					if (!tail && h.chance(0.4)) { u64 pre = 1 + h.rnd(4); h.sim.write(*i, 0, g.blocks(pre), g.wopt()); base = pre * BLK; }
					h.sim.write(*i, base, o.d, w); fams[k].add(*i, base, base + o.d.size());
					if (!tail && h.chance(0.3)) h.sim.write(*i, base + o.d.size(), g.blocks(1 + h.rnd(3)), g.wopt());
					u64 len = (o.d.size() + BLK - 1) / BLK * BLK;
					// references to the same storage from elsewhere
					int refs = with_refs && h.chance(0.6) ? 1 + h.rnd(5) : 0;
					for (int r = 0; r < refs; ++r) { IP b = g.file("ref"); u64 dof = tail ? 0 : BLK * h.rnd(5); h.sim.reflink(*i, base, tail ? o.d.size() : len, *b, dof); fams[k].add(*b, dof, dof + o.d.size()); }
				}
			}
			if (with_refs && h.chance(0.5)) {
				u64 r = rw[h.rnd(rw.size())];
				u64 s = h.sim.snapshot(r, 5, g.name("snap"), h.chance(0.3));
				for (auto &f : fams) { auto rs = f.ranges; for (auto &x : rs) if (std::get<0>(x) == r) f.ranges.emplace_back(s, std::get<1>(x), std::get<2>(x), std::get<3>(x)); }
			}
			h.sim.commit(true);
		}
		if (!settle_until(h, 90, "duplicates", good)) return;
		h.check_integrity("after duplicates");
		require_deduped(h, fams, "B03", "after duplicates of already known data were written", all);
		if (with_refs) require_deduped(h, fams, "B11", "after duplicates of already known data, with several references to them, were written", all);
		auto cov = h.coverage(); h.stat["cov_blocks"] += cov.blocks; h.cov_report("B05", "after duplicates were written", cov);
	}
	h.stop_clean(30);
}

ScenarioFn find_scenario(const string &n)
{
	if (n == "settle") return sc_settle;
	if (n == "phases") return sc_phases;
	if (auto f = find_misc(n)) return f;
	if (auto f = find_opts(n)) return f;
	return find_crash(n);
}
