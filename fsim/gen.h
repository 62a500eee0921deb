// Random filesystem contents with known duplicates.
#ifndef FSIM_GEN_H
#define FSIM_GEN_H
#include "harness.h"
#include <algorithm>
#include <cstring>

struct Family {                        // a designed set of duplicates
	std::string name;
	std::vector<std::tuple<u64, u64, u64, u64>> ranges;   // root, ino, begin, end
	bool has(Inode &i, u64 off) const { for (auto &r : ranges) if (std::get<0>(r) == i.root && std::get<1>(r) == i.ino && off >= std::get<2>(r) && off < std::get<3>(r)) return true; return false; }
	void add(Inode &i, u64 b, u64 e) { ranges.emplace_back(i.root, i.ino, b, e); }
};

struct Gen {
	Harness &h; Sim &sim;
	std::vector<u64> roots{5};         // writable subvolumes
	std::vector<std::pair<u64, std::string>> dirs{{5, ""}};
	std::vector<Family> fams;
	std::vector<std::pair<u64, std::string>> files;  // all user files
	u64 serial = 0; bool big = false; double big_p = 0.15;
	std::vector<std::pair<u64,u64>> uniques;         // root, ino of files without any duplicate block
	explicit Gen(Harness &hh) : h(hh), sim(hh.sim) {}

	std::string data(u64 len)
	{
		std::string s(len, 0); size_t n = 0;
		for (; n + 8 <= len; n += 8) { u64 v = h.rng(); memcpy(&s[n], &v, 8); }
		for (; n < len; ++n) s[n] = 1 + h.rnd(255);
		return s;
	}
	std::string blocks(u64 n) { return data(n * BLK); }
	std::string name(const char *p) { return std::string(p) + std::to_string(serial++); }
	std::pair<u64, std::string> dir() { return dirs[h.rnd(dirs.size())]; }
	IP file(const std::pair<u64, std::string> &d, const std::string &n, u64 flags = 0)
	{
		std::string p = d.second.empty() ? n : d.second + "/" + n;
		IP i = sim.create(d.first, p, flags);
		files.push_back({d.first, p});
		return i;
	}
	IP file(const char *pre = "f") { return file(dir(), name(pre)); }
	WriteOpts wopt()
	{
		WriteOpts o;
		if (h.chance(0.3)) o.comp = 1 + h.rnd(3);
		static const u64 me[] = { 128 << 20, 128 << 10, 64 << 10, 4096, 16384, 1 << 20 };
		o.max_extent = me[h.rnd(6)];
		return o;
	}
	void commit_maybe(double p = 0.3) { if (h.chance(p)) sim.commit(); }

	void make_dirs()
	{
		int n = h.rnd(3);
		for (int k = 0; k < n; ++k) {
			auto d = dir(); std::string nm = name("sv"), p = d.second.empty() ? nm : d.second + "/" + nm;
			u64 r = sim.subvol(d.first, p); roots.push_back(r); dirs.push_back({r, ""});
		}
		n = h.rnd(4);
		for (int k = 0; k < n; ++k) { auto d = dir(); std::string nm = name("dir"), p = d.second.empty() ? nm : d.second + "/" + nm; sim.mkdir(d.first, p); dirs.push_back({d.first, p}); }
	}
	// --- designed duplicates; each returns the number of bytes written
	u64 fam_whole()
	{
		Family f; f.name = "whole";
		u64 nb = 1 + h.rnd(h.chance(0.2) ? 300 : 24); int copies = 2 + h.rnd(4);
		std::string d = blocks(nb); if (h.chance(0.5)) d.resize(d.size() - h.rnd(BLK - 1));
		if (d.empty()) d = blocks(1);
		WriteOpts o = wopt();
		for (int k = 0; k < copies; ++k) {
			IP i = file("w"); if (h.chance(0.5)) o = wopt();
			sim.write(*i, 0, d, o); f.add(*i, 0, d.size()); commit_maybe();
		}
		fams.push_back(f); return d.size() * copies;
	}
	u64 fam_shifted(bool separate)
	{
		Family f; f.name = separate ? "shifted-sep" : "shifted-joined";
		u64 nb = 8 + h.rnd(40); std::string d = blocks(nb); int copies = 2 + h.rnd(3); u64 t = 0;
		for (int k = 0; k < copies; ++k) {
			IP i = file("s"); u64 pre = h.rnd(6), post = h.rnd(6);
			if (separate) {
				WriteOpts o = wopt();
				if (pre) sim.write(*i, 0, blocks(pre), wopt());
				sim.write(*i, pre * BLK, d, o);
				if (post) sim.write(*i, (pre + nb) * BLK, blocks(post), wopt());
			} else sim.write(*i, 0, (pre ? blocks(pre) : "") + d + (post ? blocks(post) : ""), wopt());
			f.add(*i, pre * BLK, (pre + nb) * BLK); t += (pre + nb + post) * BLK; commit_maybe();
		}
		fams.push_back(f); return t;
	}
	u64 fam_zero()
	{
		Family f; f.name = "zero";
		u64 t = 0; IP i = file("z"); u64 off = 0; int parts = 1 + h.rnd(6);
		for (int k = 0; k < parts; ++k) {
			u64 nb = 1 + h.rnd(30);
			if (h.chance(0.5)) { sim.write(*i, off, std::string(nb * BLK, 0), wopt()); f.add(*i, off, off + nb * BLK); }
			else if (h.chance(0.5)) { // zero run inside an extent
				std::string s = blocks(nb); u64 z = h.rnd(nb), zl = 1 + h.rnd(nb - z); memset(&s[z * BLK], 0, zl * BLK);
				sim.write(*i, off, s, wopt()); f.add(*i, off + z * BLK, off + (z + zl) * BLK);
			} else sim.write(*i, off, blocks(nb), wopt());
			off += nb * BLK; t += nb * BLK; commit_maybe();
		}
		fams.push_back(f); return t;
	}
	u64 fam_unique()
	{
		IP i = file("u"); u64 nb = 1 + h.rnd(h.chance(0.1) ? 400 : 40); std::string d = blocks(nb); d.resize(d.size() - h.rnd(BLK));
		sim.write(*i, 0, d, wopt()); uniques.push_back({i->root, i->ino}); commit_maybe(); return d.size();
	}
	// extents of every size class, separated by small ones
	u64 fam_big()
	{
		Family f; f.name = "big"; u64 t = 0;
		// around the boundaries of the size classes
		static const u64 kb[] = { 124, 128, 132, 136, 300, 508, 512, 516, 2044, 2048, 2052, 2400, 8192, 8196, 32768, 32772 };
		u64 sz = kb[h.rnd(h.chance(0.3) ? 16 : 12)] << 10; std::string d = data(64 << 10); 
		std::string one; while (one.size() < sz) { std::string b = d; u64 k = h.rng(); for (size_t o = 0; o < b.size(); o += BLK) { ++k; memcpy(&b[o], &k, 8); } one += b; }
		one.resize(sz);
		int copies = 1 + h.rnd(2);
		WriteOpts o; 
		for (int k = 0; k < copies; ++k) {
			int small = h.rnd(6); for (int s = 0; s < small; ++s) { IP i = file("bs"); sim.write(*i, 0, blocks(1 + h.rnd(3)), wopt()); uniques.push_back({i->root, i->ino}); }
			IP i = file("big"); sim.write(*i, 0, one, o); f.add(*i, 0, one.size()); t += one.size(); commit_maybe();
			small = h.rnd(6); for (int s = 0; s < small; ++s) { IP i2 = file("bs"); sim.write(*i2, 0, blocks(1 + h.rnd(3)), wopt()); uniques.push_back({i2->root, i2->ino}); }
		}
		fams.push_back(f); return t;
	}
	u64 fam_zero_whole()
	{
		Family f; f.name = "zero-whole"; IP i = file("zw"); u64 off = 0; int parts = 1 + h.rnd(4);
		for (int k = 0; k < parts; ++k) { u64 nb = 1 + h.rnd(40); if (h.chance(0.7)) { sim.write(*i, off, std::string(nb * BLK, 0), wopt()); f.add(*i, off, off + nb * BLK); } else sim.write(*i, off, blocks(nb), wopt()); off += nb * BLK; }
		fams.push_back(f); return off;
	}
	u64 fam_reflinked()
	{
		// an extent referenced in pieces from several files, duplicated elsewhere
		Family f; f.name = "reflinked";
		u64 nb = 8 + h.rnd(40); std::string d = blocks(nb);
		IP a = file("ra"); sim.write(*a, 0, d, wopt()); f.add(*a, 0, nb * BLK); commit_maybe();
		int n = 1 + h.rnd(5);
		for (int k = 0; k < n; ++k) {
			IP b = file("rb"); u64 so = h.rnd(nb), l = 1 + h.rnd(nb - so), dof = h.rnd(4);
			sim.reflink(*a, so * BLK, l * BLK, *b, dof * BLK); f.add(*b, dof * BLK, (dof + l) * BLK); commit_maybe();
		}
		if (h.chance(0.7)) { IP c = file("rc"); sim.write(*c, 0, d, wopt()); f.add(*c, 0, nb * BLK); commit_maybe(); }
		fams.push_back(f); return nb * BLK * 2;
	}
	u64 fam_overwritten()
	{
		// extents partially overwritten: parts of the old extent are no longer referenced
		Family f; f.name = "overwritten";
		u64 nb = 16 + h.rnd(40); std::string d = blocks(nb);
		for (int k = 0; k < 2; ++k) {
			IP a = file("o"); sim.write(*a, 0, d, wopt()); f.add(*a, 0, nb * BLK); commit_maybe();
			int n = 1 + h.rnd(3);
			for (int j = 0; j < n; ++j) { u64 o = h.rnd(nb), l = 1 + h.rnd(std::min<u64>(nb - o, 5)); sim.write(*a, o * BLK, blocks(l), wopt()); }
			commit_maybe();
		}
		fams.push_back(f); return nb * BLK * 2;
	}
	u64 fam_sparse()
	{
		IP i = file("sp"); u64 off = 0, t = 0; int parts = 1 + h.rnd(8);
		for (int k = 0; k < parts; ++k) {
			u64 nb = 1 + h.rnd(16);
			switch (h.rnd(4)) {
			case 0: break;
			case 1: sim.prealloc(*i, off, nb * BLK, h.chance(0.3)); break;
			case 2: sim.write(*i, off, blocks(nb), wopt()); t += nb * BLK; break;
			case 3: sim.write(*i, off, blocks(nb), wopt()); sim.punch(*i, off + h.rnd(nb) * BLK, BLK * (1 + h.rnd(3))); t += nb * BLK; break;
			}
			off += nb * BLK; commit_maybe();
		}
		if (h.chance(0.5)) sim.truncate(*i, off + h.rnd(100000));
		else if (h.chance(0.5)) {
			// space reserved past the end, with the end somewhere inside the reservation
			sim.write(*i, i->size, data(1 + h.rnd(3 * BLK)), wopt()); t += 3 * BLK; commit_maybe();
			u64 end = i->size, over = BLK * (1 + h.rnd(20));
			sim.prealloc(*i, end, over, true);
			if (h.chance(0.8)) sim.truncate(*i, end + h.rnd(over + BLK));
		}
		return t;
	}
	// two extents that overlap in content, and one that contains both
	u64 fam_overlap()
	{
		Family f; f.name = "overlap"; int parts = 2 + h.rnd(2); u64 nb = 6 * parts + h.rnd(20); std::string d = blocks(nb);
		auto whole = [&] { IP i = file("oz"); WriteOpts o; sim.write(*i, 0, d, o); f.add(*i, 0, nb * BLK); commit_maybe(); };
		const bool first = h.chance(0.2); if (first) whole();
		u64 b = 0;
		for (int k = 0; k < parts; ++k) {
			u64 e = k == parts - 1 ? nb : std::min(nb, nb * (k + 1) / parts + 1 + h.rnd(5));
			IP i = file("op"); WriteOpts o; sim.write(*i, 0, d.substr(b * BLK, (e - b) * BLK), o); f.add(*i, 0, (e - b) * BLK); commit_maybe();
			u64 back = 1 + h.rnd(std::max<u64>(1, (e - b) / 3)); b = e > back ? e - back : 0;
		}
		if (!first || h.chance(0.3)) whole();
		fams.push_back(f); return nb * BLK * 2;
	}
	// an extent that is only referenced in pieces of equal length, some of which are duplicated elsewhere
	u64 fam_pieces()
	{
		Family f; f.name = "pieces"; const u64 len = 1 + h.rnd(6), n = 2 + h.rnd(6), gap = h.rnd(3); std::string d = blocks((len + gap) * n);
		IP a = file("pa"); WriteOpts o = wopt(); o.comp = 0; o.max_extent = 128 << 20; sim.write(*a, 0, d, o);
		for (u64 k = 0; k < n; ++k) if (h.chance(0.4)) { IP c = file("pc"); sim.write(*c, 0, d.substr(k * (len + gap) * BLK, len * BLK)); f.add(*c, 0, len * BLK); }
		commit_maybe();
		IP b = h.chance(0.5) ? file("pb") : IP(); u64 off = 0;
		for (u64 k = 0; k < n; ++k) {
			IP t = b ? b : file("pb"); const u64 at = b ? off : 0; if (b) off += (len + h.rnd(3)) * BLK;
			sim.reflink(*a, k * (len + gap) * BLK, len * BLK, *t, at); f.add(*t, at, at + len * BLK);
		}
		auto an = files; for (auto &x : an) { IP i = sim.lookup(x.first, x.second); if (i == a) { sim.unlink(x.first, x.second); files.erase(std::find(files.begin(), files.end(), x)); break; } }
		commit_maybe(); fams.push_back(f); return (len + gap) * n * BLK;
	}
	u64 fam_inline() { IP i = file("in"); WriteOpts o; o.inl = true; sim.write(*i, 0, data(1 + h.rnd(2000)), o); return 0; }
	void snapshots()
	{
		int n = h.rnd(3);
		for (int k = 0; k < n; ++k) {
			u64 r = roots[h.rnd(roots.size())];
			u64 s = sim.snapshot(r, 5, name("snap"), h.chance(0.4));
			if (!sim.roots.at(s).ro) roots.push_back(s);
			for (auto &f : fams) { auto rs = f.ranges; for (auto &x : rs) if (std::get<0>(x) == r) f.ranges.emplace_back(s, std::get<1>(x), std::get<2>(x), std::get<3>(x)); }
		}
	}
	u64 one()
	{
		if (big && h.chance(big_p)) return fam_big();
		switch (h.rnd(12)) {
		case 11: return fam_pieces();
		case 10: return fam_overlap();
		case 9: return fam_zero_whole();
		case 0: case 1: return fam_whole();
		case 2: return fam_shifted(true);
		case 3: return fam_shifted(false);
		case 4: return fam_zero();
		case 5: return fam_reflinked();
		case 6: return fam_overwritten();
		case 7: return fam_sparse();
		default: return h.chance(0.3) ? fam_inline() : fam_unique();
		}
	}
	void populate(u64 bytes)
	{
		make_dirs();
		u64 t = 0; while (t < bytes) t += one() + 4096;
		sim.commit(true);
		snapshots();
		sim.commit(true);
	}
};
#endif
