// Excluded files, heavily referenced and slow extents, namespace races, concurrent writers.
#include "scen.h"
#include <sys/stat.h>
#include <linux/btrfs_tree.h>

// ---------------------------------------------------------------- exclude
static void sc_exclude(Harness &h)
{
	base_config(h);
	h.opt_a = h.cfg.num("a", h.chance(0.6));
	h.home_inside = h.cfg.num("inside", h.chance(0.4));
	const bool inside = h.home_inside;
	Gen g(h); g.make_dirs();
	const bool several = h.workers > 1;
	std::vector<Family> fams; std::vector<string> datas;
	int n = 3 + h.rnd(6);
	auto add = [&](Family &f, const char *pre, const string &d, u64 flags) {
		IP i = g.file(g.dir(), g.name(pre), flags); WriteOpts o = g.wopt(); if (flags & 3) o.comp = 0;
		if (flags & 2 || several) o.comp = 0;
		h.sim.write(*i, 0, d, o); if (!(flags & 3)) f.add(*i, 0, d.size()); g.commit_maybe(); return i;
	};
	u64 excl = 0;
	for (int k = 0; k < n; ++k) {
		string d = h.chance(0.2) ? string((1 + h.rnd(20)) * BLK, 0) : g.blocks(1 + h.rnd(24));
		Family f; f.name = "mixed";
		int order = h.rnd(3);
		// the excluded copy may come before, between or after the eligible ones
		for (int c = 0; c < 4; ++c) {
			if (c == order + 1) { u64 fl = h.chance(0.5) ? 1 : 3; add(f, "x", d, fl); ++excl; if (h.chance(0.4)) { IP i = g.file("xr"); i->flags = fl; IP s = h.sim.lookup(g.files[g.files.size() - 2].first, g.files[g.files.size() - 2].second); h.sim.reflink(*s, 0, d.size(), *i, 0); } }
			else if (c == 0 || !several) add(f, "e", d, 0);
		}
		datas.push_back(d); fams.push_back(f);
	}
	// extents that are only partly duplicated: rewriting them goes through temporary files
	for (int k = h.rnd(4); k; --k) { if (h.chance(0.5)) g.fam_shifted(false); else g.fam_overwritten(); }
	// snapshots, some of them read-only
	std::vector<u64> ros; std::vector<u64> rw = g.roots;
	h.sim.commit(true);
	int ns = h.opt_a ? 1 + h.rnd(3) : h.rnd(2);
	for (int k = 0; k < ns; ++k) {
		u64 s = h.sim.snapshot(rw[h.rnd(rw.size())], 5, g.name("snap"), true); ros.push_back(s);
	}
	// a read-only subvolume with data of its own, some duplicated elsewhere
	u64 own = 0; std::vector<std::pair<string, string>> ownf;
	if (h.opt_a && !inside) {
		string nm = g.name("own"); own = h.sim.subvol(5, nm);
		for (int k = 0; k < 4; ++k) { string p = g.name("o"), d = k & 1 ? g.blocks(1 + h.rnd(12)) : datas[h.rnd(datas.size())]; IP i = h.sim.create(own, p); WriteOpts o = g.wopt(); o.comp = 0; h.sim.write(*i, 0, d, o); ownf.push_back({p, d}); }
		h.sim.commit(true); h.sim.set_ro(own, true); ros.push_back(own);
	}
	h.sim.commit(true);
	// data of a file that will be replaced by a file that must not be touched, at the same place
	const bool reuse = !inside && h.chance(0.5);
	string rname, rdata; u64 rbytenr = 0;
	if (reuse) {
		rname = g.name("reuse"); rdata = g.blocks(1 + h.rnd(8));
		IP i = h.sim.create(5, rname); h.sim.write(*i, 0, rdata); h.sim.commit(true);
		Lk lk(h.sim.mu); if (!i->items.empty() && i->items.begin()->second.e) rbytenr = i->items.begin()->second.e->bytenr;
	}
	h.make_home();
	h.sim.commit(true);
	h.srv.expect_stable = !inside;
	if (h.chance(0.4)) random_delays(h);
	if (h.chance(0.5)) {
		// temporary copies live long enough for a commit and for other workers to meet them
		Rule r; r.op = OP_WRITE_PRE; r.kind = K_TMP; r.delay_us = 60000; r.count = 40; r.prob = 0.5; h.srv.add_rule(r);
		Rule t; t.op = OP_TRUNC_PRE; t.kind = K_TMP; t.delay_us = 250000; t.count = 20; t.prob = 0.6; h.srv.add_rule(t);
		Rule c; c.op = OP_TRUNC_PRE; c.kind = K_TMP; c.count = 20; c.prob = 0.5; c.hook = [&h](const Ev &) { h.sim.commit(true); }; h.srv.add_rule(c);
	}
	h.start();
	// blocks already stored in a place the daemon must not touch stay duplicated, so only what is eligible is judged
	auto all = [](const Family &) { return true; };
	if (!settle_until(h, 60, "first scan", [&] { return !h.coverage().missed; }, inside)) return;
	h.check_integrity("with excluded files");
	h.stat["excluded_files"] = excl; h.stat["ro_subvols"] = ros.size(); h.stat["home_inside"] = inside; h.stat["opt_a"] = h.opt_a;
	auto cov = h.coverage(); h.cov_report("B05", "with excluded files present", cov);
	if (reuse && rbytenr) {
		h.sim.unlink(5, rname); h.sim.commit(true);
		if (!settle(h, 60, "file removed")) return;
		h.sim.commit(true);
		const u64 fl = h.chance(0.3) ? 1 : 3; string n1 = g.name("nc"), n2 = g.name("again"); u64 got = 0;
		{
			Lk lk(h.sim.mu); IP i = h.sim.create(5, n1, fl); h.sim.want_bytenr = rbytenr; h.sim.write(*i, 0, rdata); h.sim.commit(true); h.sim.want_bytenr = 0;
			if (!i->items.empty() && i->items.begin()->second.e) got = i->items.begin()->second.e->bytenr;
		}
		if (got == rbytenr) ++h.stat["reused_places"];
		if (!settle(h, 60, "place reused")) return;
		{ Lk lk(h.sim.mu); IP i = h.sim.create(5, n2); h.sim.write(*i, 0, rdata); h.sim.commit(true); }
		auto c3 = [&] { return !h.coverage().missed; };
		if (!settle_until(h, 60, "copy of excluded data", c3)) return;
		h.check_integrity("after a place was reused by an excluded file");
	}
	(void)all;
	if (h.opt_a && !inside && own) {
		// writable again: in the subvolume scan modes everything in it is scanned,
		// in extent mode what is written from now on
		h.sim.set_ro(own, false);
		std::vector<Family> nf;
		{
			Lk lk(h.sim.mu);
			for (auto &x : ownf) { IP i = h.sim.lookup(own, x.first); if (h.mode == 4) { string p = x.first + "n"; IP j = h.sim.create(own, p); WriteOpts o; h.sim.write(*j, 0, x.second, o); } }
			h.sim.commit(true);
		}
		auto only_own = [&](Ext &e) { for (auto &r : e.refs) if (r.root == own) return true; return false; };
		if (!settle_until(h, 60, "writable again", [&] { return !h.coverage(only_own).missed; })) return;
		auto c2 = h.coverage(only_own); h.stat["rw_again_exts"] = c2.exts;
		h.cov_report("B10", "after a read-only subvolume was made writable", c2);
		// new data in it is deduplicated against what is known
		string p = g.name("late"); 
		Family f; f.name = "late"; 
		{
			Lk lk(h.sim.mu);
			int k = h.rnd(fams.size()); IP i = h.sim.create(own, p); h.sim.write(*i, 0, datas[k]); f = fams[k]; f.name = "late"; f.add(*i, 0, datas[k].size()); 
			h.sim.commit(true);
		}
		bool zero = false; (void)zero;
		auto ok = [&] { auto d = h.duplicates([&](Inode &i, u64 off) { return i.root == own && f.has(i, off); }); IP i = h.sim.lookup(own, p); u64 shared = 0, t = 0; Lk lk(h.sim.mu); for (auto &x : i->items) { ++t; if (!x.second.e || x.second.e->refs.size() > 1) ++shared; } (void)d; return shared == t; };
		if (!settle_until(h, 60, "late data", ok)) return;
		++h.stat["late_checks"];
		if (!ok()) h.viol("B10", "not-deduped:made-writable", "a duplicate written to a subvolume made writable again was not deduplicated (mode " + S(h.mode) + ")");
		h.check_integrity("after a read-only subvolume was made writable");
	}
	h.stop_clean(30);
}

// ---------------------------------------------------------------- refs: reference limit and slow extents
static void sc_refs(Harness &h)
{
	base_config(h);
	h.workers = h.cfg.num("workers", h.chance(0.6) ? 1 : h.workers); h.stat["workers"] = h.workers;
	const u64 limit = 6 + h.rnd(20);
	h.env["BEES_VERIF_BEES_MAX_EXTENT_REF_COUNT"] = S(limit); h.srv.ref_limit = limit;
	Gen g(h); g.make_dirs();
	// whole files only: then every block of an extent has the same number of references
	const bool uniform = h.cfg.num("uniform", h.chance(0.7));
	std::vector<string> datas; std::set<string> slow_blocks;
	const int nslow = h.chance(0.6) ? 1 + h.rnd(2) : 0;
	int n = 2 + h.rnd(4);
	for (int k = 0; k < n; ++k) {
		string d = g.blocks(1 + h.rnd(nslow ? 3 : 12)); datas.push_back(d);
		IP i = g.file("orig"); WriteOpts o; h.sim.write(*i, 0, d, o);
		u64 r = h.rnd(2) ? h.rnd(limit + 4) : 0;
		for (u64 j = 0; j < r; ++j) { IP b = g.file("ref"); h.sim.reflink(*i, 0, d.size(), *b, 0); }
	}
	std::set<u64> slow;
	h.sim.commit(true);
	for (int k = 0; k < 4; ++k) g.fam_unique();
	h.sim.commit(true);
	{
		Lk lk(h.sim.mu); int c = 0;
		for (auto &x : h.sim.exts) if (c < nslow && !x.second->dead && x.second->refs.size() == 1 && h.chance(0.5)) {
			x.second->slow_usec = 6000000; slow.insert(x.second->id); ++c;
			IP i = h.sim.get(x.second->refs.begin()->root, x.second->refs.begin()->ino);
			for (u64 o = 0; o < i->size; o += BLK) slow_blocks.insert(i->data.substr(o, BLK));
		}
	}
	h.make_home();
	h.srv.expect_stable = true;
	if (h.chance(0.4)) random_delays(h);
	h.start();
	// an extent the daemon will not add references to stays duplicated: only coverage is judged
	// an extent with a block that matches a slow one is given up
	auto light = [&](Ext &e) {
		if (e.refs.size() >= limit || slow.count(e.id) || e.max_refs_seen >= limit) return false;
		if (slow_blocks.size()) for (auto &r : e.refs) { IP i = h.sim.get(r.root, r.ino); if (!i) continue; auto it = i->items.find(r.off); if (it == i->items.end()) continue; for (u64 o = 0; o < it->second.len; o += BLK) if (slow_blocks.count(i->data.substr(r.off + o, BLK))) return false; }
		return true;
	};
	if (!settle_until(h, 60, "originals", [&] { return !h.coverage(light).missed; })) return;
	u64 copies = 0;
	for (int rd = 0; rd < (nslow ? 3 : 2); ++rd) {
		{
			Lk lk(h.sim.mu);
			// many copies, one after the other or all at once
			int c = 1 + h.rnd(limit + 4);
			for (int k = 0; k < c; ++k, ++copies) {
				IP i = g.file("dup"); WriteOpts o = g.wopt(); o.comp = 0; if (uniform) o = WriteOpts();
				h.sim.write(*i, 0, datas[h.rnd(datas.size())], o);
				if (h.chance(0.1)) h.sim.commit(true);
			}
			h.sim.commit(true);
		}
		if (!settle_until(h, 60, "copies", [&] { return !h.coverage(light).missed; })) return;
	}
	if (slow.size() && h.chance(0.7)) {
		// copies of the slow data that arrive one at a time
		std::vector<string> sd(slow_blocks.begin(), slow_blocks.end());
		for (int k = 0; k < 12; ++k) {
			{ Lk lk(h.sim.mu); IP i = g.file("slowdup"); h.sim.write(*i, 0, sd[k < 2 ? 0 : h.rnd(std::min<size_t>(sd.size(), 2))]); h.sim.commit(true); }
			if (!settle(h, 60, "copies of slow data")) return;
			++h.stat["slow_rounds"];
		}
	}
	h.check_integrity("with heavily referenced extents");
	auto c = h.coverage(light); h.cov_report("B13", "with heavily referenced and slow extents present", c);
	{
		std::lock_guard<std::mutex> l(h.srv.lmu); u64 mx = 0, judged = 0;
		std::map<u64, int> over;
		for (auto &e : h.srv.log) if (e.op == OP_IOCTL && e.code == FIDEDUPERANGE && e.rv == 0 && e.kind == K_USER) { ++judged; mx = std::max(mx, e.a2); if (e.a2 >= limit) ++over[e.a2]; }
		h.stat["limit_judged"] = judged; h.stat["max_src_refs_minus_limit"] = double(mx) - double(limit);
		h.stat["near_limit"] = mx + 1 >= limit;
		// the count is taken when the address is resolved; other workers may add one each in between
		const u64 slack = h.workers == 1 ? 0 : h.workers;
		h.stat["uniform"] = uniform;
		if (uniform && mx >= limit + slack) h.viol("B13", "ref-limit", "a reference was added to an extent that already had " + S(mx) + " references (limit " + S(limit) + ", " + S(h.workers) + " workers)");
	}
	{
		Lk lk(h.sim.mu); u64 mxl = 0;
		for (auto &x : h.sim.exts) if (slow.count(x.second->id)) { ++h.stat["slow_exts"]; mxl = std::max(mxl, x.second->slow_lookups); }
		h.stat["max_slow_lookups"] = mxl;
		for (auto &x : h.sim.exts) if (slow.count(x.second->id)) {
			++h.stat["slow_judged"];
			const u64 bound = 4 + h.workers + 2 * x.second->nblocks();
			if (x.second->slow_lookups > bound) h.viol("B13", "slow-lookups", "an extent of " + S(x.second->nblocks()) + " blocks whose references are slow to look up was looked up " + S(x.second->slow_lookups) + " times (bound " + S(bound) + ")");
		}
		if (h.cfg.num("verboseslow", 0)) for (auto &x : h.sim.exts) if (slow.count(x.second->id)) h.notes.push_back("slow lookups " + S(x.second->slow_lookups) + " blocks " + S(x.second->nblocks()) + " refs " + S(x.second->refs.size()) + " copies " + S(copies));
	}
	h.stop_clean(30);
}

// ---------------------------------------------------------------- pathrace: names change between lookup and open
static void sc_pathrace(Harness &h)
{
	base_config(h);
	Gen g(h); Sim &sim = h.sim;
	// nested directories and subvolumes
	g.roots = {5};
	for (int k = 0; k < 3; ++k) { string nm = g.name("sv"); u64 r = sim.subvol(5, nm); g.roots.push_back(r); g.dirs.push_back({r, ""}); }
	for (int k = 0; k < 8; ++k) { auto d = g.dir(); string nm = g.name("dir"), p = d.second.empty() ? nm : d.second + "/" + nm; sim.mkdir(d.first, p); g.dirs.push_back({d.first, p}); }
	std::vector<string> datas; for (int k = 0; k < 6; ++k) datas.push_back(g.blocks(1 + h.rnd(10)));
	// same names and inode numbers in several subvolumes
	auto fill = [&](u64 root, const string &dir, int n) {
		for (int k = 0; k < n; ++k) {
			string p = (dir.empty() ? "" : dir + "/") + "f" + S(k); if (sim.lookup(root, p)) continue;
			IP i = sim.create(root, p); WriteOpts o = g.wopt(); o.comp = 0;
			sim.write(*i, 0, h.chance(0.5) ? datas[h.rnd(datas.size())] : g.blocks(1 + h.rnd(8)), o); g.commit_maybe(0.1);
			if (h.chance(0.3)) { auto d2 = g.dirs[h.rnd(g.dirs.size())]; if (d2.first == root) { string q = (d2.second.empty() ? "" : d2.second + "/") + g.name("ln"); sim.link(root, p, q); } }
		}
	};
	for (auto &d : g.dirs) fill(d.first, d.second, 3 + h.rnd(4));
	sim.commit(true);
	// a place outside the filesystem that symlinks can lead to
	string out = h.dir + "/outside"; ::mkdir(out.c_str(), 0755);
	for (int k = 0; k < 8; ++k) {
		string p = out + "/f" + S(k); h.write_file(p, k < 6 ? datas[k] : g.blocks(4));
		struct stat st; if (stat(p.c_str(), &st)) continue;
		Lk lk(sim.mu); auto i = std::make_shared<Inode>(); i->root = 0; i->ino = 1000 + k; i->kind = K_OUT; i->rdev = st.st_dev; i->rino = st.st_ino; i->size = st.st_size; i->names.push_back({0, p}); sim.by_real[{u64(st.st_dev), u64(st.st_ino)}] = i;
	}
	{ struct stat st; if (!stat(out.c_str(), &st)) { Lk lk(sim.mu); auto i = std::make_shared<Inode>(); i->root = 0; i->ino = 999; i->dir = true; i->kind = K_OUT; i->rdev = st.st_dev; i->rino = st.st_ino; sim.by_real[{u64(st.st_dev), u64(st.st_ino)}] = i; } }
	h.make_home();
	const double p = 0.05 + 0.4 * (h.rnd(100) / 100.0);
	std::set<std::pair<u64, u64>> hot;            // objects whose names changed
	std::set<u64> hot_roots, gone_roots; u64 serial = 0;
	auto note = [&](const IP &i) { hot.insert({i->root, i->ino}); };
	std::function<void(const IP &)> note_tree = [&](const IP &d) { note(d); for (auto &c : d->children) { IP x = sim.get(d->root, c.second); if (x) { if (x->dir) note_tree(x); else note(x); } } };
	auto mutate = [&](u64 root, u64 ino) {
		Lk lk(sim.mu);
		IP i = sim.get(root, ino); if (!i || i->names.empty() || i->kind != K_USER) return;
		if (!i->dir && i->names[0].parent != 256 && h.chance(0.25)) { IP pd = sim.get(root, i->names[0].parent); if (pd && pd->names.size()) i = pd; }
		Name nm = i->names[h.rnd(i->names.size())];
		// build the path
		string path = nm.name; u64 d = nm.parent; int guard = 0;
		while (d != 256 && guard++ < 50) { IP dd = sim.get(root, d); if (!dd || dd->names.empty()) return; path = dd->names[0].name + "/" + path; d = dd->names[0].parent; }
		string moved = "moved" + S(serial++);
		int what = h.rnd(i->dir ? 3 : 7);
		if (i->dir) {
			note_tree(i);
			sim.rename(root, path, moved);
			if (what == 0) { sim.symlink(root, out, path); ++h.stat["race.dir-symlink-out"]; }
			else if (what == 1) { sim.symlink(root, moved, path); ++h.stat["race.dir-symlink-in"]; }
			else ++h.stat["race.dir-rename"];
			return;
		}
		note(i);
		switch (what) {
		case 0: sim.rename(root, path, moved); ++h.stat["race.rename"]; break;
		case 1: { sim.rename(root, path, moved); IP n = sim.create(root, path); sim.write(*n, 0, h.chance(0.5) ? datas[h.rnd(datas.size())] : i->data); note(n); ++h.stat["race.replace"]; break; }
		case 2: sim.rename(root, path, moved); sim.symlink(root, out + "/f" + S(h.rnd(8)), path); ++h.stat["race.symlink-out"]; break;
		case 3: { sim.rename(root, path, moved); IP o2 = sim.roots.at(root).inodes.begin()->second; (void)o2; sim.symlink(root, sim.real_path(root, moved), path); ++h.stat["race.symlink-self"]; break; }
		case 4: sim.unlink(root, path); ++h.stat["race.unlink"]; break;
		case 5: { // exchange with another file
			std::vector<IP> c; for (auto &x : sim.roots.at(root).inodes) if (!x.second->dir && x.second != i && x.second->kind == K_USER && x.second->names.size() == 1 && x.second->names[0].parent == 256) c.push_back(x.second);
			if (c.empty()) break;
			IP j = c[h.rnd(c.size())]; note(j); string q = j->names[0].name; if (q == path) break;
			sim.rename(root, path, moved); sim.rename(root, q, path); sim.rename(root, moved, q); ++h.stat["race.exchange"]; break; }
		case 6: { // a file of another subvolume with the same inode number under the same name cannot be had by
			// renaming; a symlink to it can
			std::vector<u64> rs; for (auto &r : sim.roots) if (r.first != root) rs.push_back(r.first);
			if (rs.empty()) break;
			u64 r2 = rs[h.rnd(rs.size())]; IP j = sim.get(r2, ino); if (!j || j->dir || j->names.empty() || j->names[0].parent != 256) break;
			sim.rename(root, path, moved); sim.symlink(root, sim.real_path(r2, j->names[0].name), path); ++h.stat["race.symlink-subvol"]; break; }
		}
		if (h.chance(0.2)) sim.commit(true);
	};
	// hooks run in server threads
	std::mutex rmu;
	{
		Rule r; r.op = OP_IOCTL; r.code = BTRFS_IOC_INO_PATHS; r.post = true; r.prob = p; r.count = 40 + h.rnd(60);
		r.hook = [&](const Ev &e) { std::lock_guard<std::mutex> l(rmu); mutate(e.root, e.a0); };
		h.srv.add_rule(r);
	}
	{
		Rule r; r.op = OP_IOCTL; r.code = BTRFS_IOC_TREE_SEARCH_V2; r.post = true; r.prob = 1; r.count = 1 << 30;
		r.hook = [&](const Ev &e) {
			if (e.a0 != 1 || e.b0 != BTRFS_ROOT_BACKREF_KEY || h.stat["race.swap-subvol"] > 12 || !h.chance(0.3)) return;
			std::lock_guard<std::mutex> l(rmu); Lk lk(sim.mu);
			std::vector<u64> c; for (auto &x : sim.roots) if (x.first >= 256 && x.second.parent == 5 && x.second.parent_dir == 256) { bool nested = false; for (auto &y : sim.roots) if (y.second.parent == x.first) nested = true; if (!nested) c.push_back(x.first); }
			if (c.size() < 2) return;
			u64 a = c[h.rnd(c.size())], b = c[h.rnd(c.size())]; if (a == b) return;
			if (h.chance(0.75)) { sim.swap_subvols(a, b); hot_roots.insert(a); hot_roots.insert(b); ++h.stat["race.swap-subvol"]; }
			else if (c.size() > 2) { hot_roots.insert(a); sim.delete_subvol(a); ++h.stat["race.delete-subvol"]; }
		};
		h.srv.add_rule(r);
	}
	if (h.chance(0.5)) random_delays(h);
	h.start();
	if (!settle(h, 60, "names changing")) return;
	h.srv.clear_rules();
	{
		// more work while nothing changes any more
		std::lock_guard<std::mutex> l(rmu); Lk lk(sim.mu);
		for (int k = 0; k < 4; ++k) { IP i = sim.create(5, g.name("late")); sim.write(*i, 0, datas[h.rnd(datas.size())]); }
		sim.commit(true);
	}
	auto calm = [&](Ext &e) { for (auto &r : e.refs) if (hot.count({r.root, r.ino}) || hot_roots.count(r.root)) return false; return true; };
	// extents deduplicated with a moved file share its storage: not judged
	if (!settle_until(h, 60, "names stable", [&] { return !h.coverage(calm).missed; })) return;
	h.check_integrity("after names changed");
	auto c = h.coverage(calm); h.cov_report("B12", "after other objects were renamed, replaced or deleted", c);
	h.stat["root_fd_checks"] = h.srv.root_fd_checks; h.stat["wrong_root_opened"] = h.srv.wrong_root_opened; h.stat["races"] = 0; for (auto &s : h.stat) if (s.first.compare(0, 5, "race.") == 0) h.stat["races"] += s.second;
	h.stop_clean(30);
}

// ---------------------------------------------------------------- live: users keep working during the scan
static void sc_live(Harness &h)
{
	base_config(h);
	Gen g(h); Sim &sim = h.sim;
	g.populate(h.cfg.num("size", (1 + h.rnd(2)) << 20));
	h.make_home();
	if (h.chance(0.7)) random_delays(h);
	h.start();
	std::atomic<bool> stop{false};
	std::mt19937_64 rng(h.rng());
	auto rnd = [&](u64 n) { return n ? rng() % n : 0; };
	auto chance = [&](double p) { return (rng() >> 11) * (1.0 / 9007199254740992.0) < p; };
	std::set<std::pair<u64, u64>> calm;           // written once and never touched again
	std::vector<string> pool; for (int k = 0; k < 8; ++k) { string d = g.blocks(1 + rnd(20)); pool.push_back(d); }
	const double secs = h.cfg.num("live_ms", 4000) / 1000.0 * h.time_scale; u64 ops = 0, serial = 0;
	u64 checks = 0;
	auto user_files = [&](std::vector<IP> &v, bool hot_only) {
		for (auto &r : sim.roots) { if (r.second.ro) continue; for (auto &i : r.second.inodes) if (!i.second->dir && i.second->kind == K_USER && !i.second->deleted && i.second->names.size() && !(hot_only && calm.count({r.first, i.first}))) v.push_back(i.second); }
	};
	auto path = [&](const IP &i) { Name nm = i->names[0]; string p = nm.name; u64 d = nm.parent; int guard = 0; while (d != 256 && guard++ < 50) { IP dd = sim.get(i->root, d); if (!dd || dd->names.empty()) return string(); p = dd->names[0].name + "/" + p; d = dd->names[0].parent; } return p; };
	auto data = [&](u64 nb) { string s(nb * BLK, 0); for (size_t n = 0; n + 8 <= s.size(); n += 8) { u64 v = rng(); memcpy(&s[n], &v, 8); } return s; };
	auto some = [&] { if (chance(0.6)) return pool[rnd(pool.size())]; if (chance(0.15)) return string((1 + rnd(10)) * BLK, 0); return data(1 + rnd(12)); };
	auto op = [&] {
		Lk lk(sim.mu); ++ops;
		std::vector<IP> v; user_files(v, true);
		int k = rnd(22);
		if (v.empty() || k == 0 || sim.user_referenced_bytes() < (256 << 10)) {
			IP i = sim.create(5, "live" + S(serial++)); WriteOpts o; o.comp = chance(0.3) ? 1 + rnd(3) : 0; if (chance(0.3)) o.max_extent = BLK << rnd(5);
			sim.write(*i, 0, some(), o);
			if (chance(0.5)) { calm.insert({i->root, i->ino}); ++h.stat["op.calm"]; }
			++h.stat["op.create"]; return;
		}
		IP i = v[rnd(v.size())]; IP j = v[rnd(v.size())]; u64 nb = (i->size + BLK - 1) / BLK;
		WriteOpts o; o.comp = chance(0.3) ? 1 + rnd(3) : 0; if (i->flags & 3) o.comp = 0;
		switch (k) {
		case 1: case 2: case 3: sim.write(*i, rnd(nb + 2) * BLK, some(), o); ++h.stat["op.overwrite"]; break;
		case 4: { u64 off = rnd(i->size + 1); string d = data(1).substr(0, 1 + rnd(BLK - 1)); sim.write(*i, off, d, o); ++h.stat["op.small-write"]; break; }
		case 5: { string d = i->data; if (!d.empty()) { u64 b = rnd(nb); sim.write(*i, b * BLK, d.substr(b * BLK, BLK), o); ++h.stat["op.rewrite-same"]; } break; }
		case 6: sim.truncate(*i, rnd(i->size + 2 * BLK)); ++h.stat["op.truncate"]; break;
		case 7: sim.truncate(*i, rnd(nb + 1) * BLK); ++h.stat["op.truncate"]; break;
		case 8: if (nb) { u64 b = rnd(nb); sim.punch(*i, b * BLK, (1 + rnd(nb - b)) * BLK); ++h.stat["op.punch"]; } break;
		case 9: sim.prealloc(*i, rnd(nb + 2) * BLK, (1 + rnd(8)) * BLK); ++h.stat["op.prealloc"]; break;
		case 10: case 11: if (nb && i != j && !((i->flags ^ j->flags) & 3) && i->dirty.empty()) { u64 b = rnd(i->size / BLK); u64 l = i->size / BLK - b; if (l) { sim.reflink(*i, b * BLK, (1 + rnd(l)) * BLK, *j, rnd(8) * BLK); ++h.stat["op.reflink"]; } } break;
		case 12: case 13: { string p = path(i); if (!p.empty()) { sim.unlink(i->root, p); ++h.stat["op.unlink"]; } break; }
		case 14: { string p = path(i); if (!p.empty()) { sim.rename(i->root, p, "ren" + S(serial++)); ++h.stat["op.rename"]; } break; }
		case 15: { string p = path(i); if (!p.empty()) { sim.link(i->root, p, "lnk" + S(serial++)); ++h.stat["op.link"]; } break; }
		case 16: if (sim.roots.size() < 8) { std::vector<u64> rs; for (auto &r : sim.roots) rs.push_back(r.first); u64 s = sim.snapshot(rs[rnd(rs.size())], 5, "lsnap" + S(serial++), chance(0.3)); (void)s; ++h.stat["op.snapshot"]; } break;
		case 17: { std::vector<u64> rs; for (auto &r : sim.roots) if (r.first >= 256) { bool nested = false; for (auto &y : sim.roots) if (y.second.parent == r.first) nested = true; if (!nested) rs.push_back(r.first); } if (rs.size() > 1 && chance(0.5)) { sim.delete_subvol(rs[rnd(rs.size())]); ++h.stat["op.delete-subvol"]; } break; }
		case 18: { // replace a file by one of the same size: storage is reused
			string p = path(i); if (p.empty() || !i->size || i->names.size() > 1 || (i->flags & 3)) break; u64 root = i->root, sz = i->size; 
			sim.unlink(root, p); sim.commit(true); sim.commit(true);
			IP n = sim.create(root, "same" + S(serial++)); string d = data((sz + BLK - 1) / BLK); sim.write(*n, 0, d); calm.insert({n->root, n->ino}); ++h.stat["op.same-size"]; break; }
		case 19: { string p = path(i); if (!p.empty() && i->names.size() == 1) { IP n = sim.create(i->root, "tmp" + S(serial)); sim.write(*n, 0, some(), o); sim.rename(i->root, "tmp" + S(serial++), p); ++h.stat["op.replace"]; } break; }
		case 20: { IP f = sim.create(5, "cow" + S(serial++)); if (i->size && !(i->flags & 3) && i->dirty.empty() && i->size % BLK == 0) { sim.reflink(*i, 0, i->size, *f, 0); ++h.stat["op.copy"]; } break; }
		case 21: if (!(i->flags & 3)) { sim.set_flags(*i, chance(0.5) ? BTRFS_INODE_COMPRESS : 0); ++h.stat["op.flags"]; } break;
		}
	};
	std::thread mut([&] {
		double end = now_s() + secs;
		while (!stop && now_s() < end) {
			int burst = 1 + rnd(6); for (int k = 0; k < burst; ++k) op();
			if (chance(0.25)) sim.commit(true);
			std::this_thread::sleep_for(std::chrono::microseconds(rnd(chance(0.3) ? 60000 : 6000)));
		}
	});
	while (h.alive() && now_s() < h.started + 600) {
		std::this_thread::sleep_for(std::chrono::milliseconds(150));
		h.check_integrity("while files are being changed"); ++checks;
		bool done; { Lk lk(sim.mu); done = ops > 0; } (void)done;
		static thread_local double t0 = 0; if (!t0) t0 = now_s();
		if (now_s() - t0 > secs + 0.2) break;
	}
	stop = true; mut.join();
	h.stat["live_ops"] = ops; h.stat["live_checks"] = checks;
	if (!h.alive()) { h.died("while users were changing files"); return; }
	sim.commit(true);
	// an extent that was ever shared in parts may have been given up once a known block was met, and so may one in
	// space that was used before: a block with the data that was at its place before counts as already known
	{ Lk lk(sim.mu); for (auto &x : sim.exts) if (x.second->max_refs_seen > 1 || x.second->reused) h.partial_ids.insert(x.second->id); }
	// data that was written once and not touched afterwards must have been read
	auto still = [&](Ext &e) { if (e.refs.empty() || e.by_sut) return false; for (auto &r : e.refs) if (!calm.count({r.root, r.ino})) return false; return true; };
	if (!settle_until(h, 90, "after changes", [&] { return !h.coverage(still).missed; })) return;
	h.check_integrity("after files were changed");
	auto c = h.coverage(still); h.stat["calm_exts"] = c.exts; h.cov_report("B05", "data written during the scan and not touched afterwards", c);
	// everything that is left is processed again after new data appears: still works
	{
		Lk lk(sim.mu); for (int k = 0; k < 3; ++k) { IP i = sim.create(5, "fin" + S(serial++)); sim.write(*i, 0, data(6)); calm.insert({i->root, i->ino}); } sim.commit(true);
	}
	if (!settle_until(h, 60, "last files", [&] { return !h.coverage(still).missed; })) return;
	h.check_integrity("at the end");
	c = h.coverage(still); h.cov_report("B05", "data written after the changes", c);
	h.stop_clean(30);
}

ScenarioFn find_misc(const string &n)
{
	if (n == "exclude") return sc_exclude;
	if (n == "refs") return sc_refs;
	if (n == "pathrace") return sc_pathrace;
	if (n == "live") return sc_live;
	return nullptr;
}
