#include <regex>
#include "harness.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <unistd.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

using std::string;
typedef std::unique_lock<std::recursive_mutex> Lk;

string Json::q(const string &s)
{
	string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

static Sim *mk_sim(const string &dir, u64 seed) { return new Sim(dir, seed); }

Harness::Harness(Cfg &c) : cfg(c), dir(c.scratch), simp(mk_sim(c.scratch, c.seed)), srvp(new Server(*simp, c.scratch + "/s")), sim(*simp), srv(*srvp), rng(c.seed * 0x9e3779b97f4a7c15ULL + 12345)
{
	started = now_s();
	home = dir + "/home"; status_file = dir + "/status"; logf = dir + "/log";
	mkdir(home.c_str(), 0755);
	time_scale = strtod(cfg.get("scale", "1").c_str(), nullptr);
	env["BEES_VERIF_BEES_TRANSID_POLL_INTERVAL"] = "0.3";
	env["BEES_VERIF_BEES_WRITEBACK_INTERVAL"] = "1";
	env["BEES_VERIF_BEES_FLUSH_RATE"] = "33554432";
	env["BEES_VERIF_BEES_STATUS_INTERVAL"] = "1";
	env["BEES_VERIF_BEES_PROGRESS_INTERVAL"] = "1";
	env["BEES_VERIF_BEES_HASH_TABLE_ANALYZE_INTERVAL"] = "3600";
	committer = std::thread([this] {
		while (!quit) {
			std::this_thread::sleep_for(std::chrono::milliseconds(commit_ms.load()));
			if (!commit_pause) sim.commit();
		}
	});
}
Harness::~Harness()
{
	quit = true; committer.join();
	kill9();
	srvp.reset(); simp.reset();
}
void Harness::write_file(const string &p, const string &d) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << d; }
string Harness::read_file(const string &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }

void Harness::make_home()
{
	if (home_inside) {
		Lk lk(sim.mu);
		u64 d = sim.mkdir(5, ".beeshome");
		sim.get(5, d)->kind = K_HOME;
		home = sim.real_path(5, ".beeshome");
		IP h = sim.create(5, ".beeshome/beeshash.dat"); h->kind = K_HOME;
		string z(hash_size, 0);
		sim.write(*h, 0, z);
	} else {
		string p = home + "/beeshash.dat";
		int fd = ::open(p.c_str(), O_RDWR | O_CREAT, 0600);
		if (fd < 0 || ftruncate(fd, hash_size)) { perror("hash file"); _exit(70); }
		::close(fd);
	}
	srv.set_home(home);
}

void Harness::start()
{
	++boots; reaped = false;
	srv.workaround_send = opt_a; srv.single_worker = workers == 1;
	std::vector<string> args = { cfg.bees, "-c" + std::to_string(workers), "-m" + std::to_string(mode), "-v" + std::to_string(verbose), "-T" };
	{ std::ostringstream o; o << "--throttle-factor=" << throttle; args.push_back(o.str()); }
	if (opt_a) args.push_back("-a");
	if (rel_paths) args.push_back("-P");
	if (!load_target.empty()) args.push_back("-g" + load_target);
	for (auto &a : extra_args) args.push_back(a);
	args.push_back(dir + "/fs");
	if (use_raw) { args = raw_args; args.insert(args.begin(), cfg.bees); }
	std::vector<char *> av; for (auto &a : args) av.push_back(&a[0]); av.push_back(nullptr);
	std::vector<string> ev;
	for (char **e = environ; *e; ++e) if (strncmp(*e, "BEES", 4) && strncmp(*e, "ASAN_", 5) && strncmp(*e, "UBSAN_", 6) && strncmp(*e, "TSAN_", 5)) ev.push_back(*e);
	ev.push_back("FAKEFS_SOCK=" + srv.sock);
	if (!home_inside || cfg.num("abshome", 0)) ev.push_back("BEESHOME=" + home);
	if (!no_status) ev.push_back("BEESSTATUS=" + status_file);
	string sl = dir + "/san";
	ev.push_back("ASAN_OPTIONS=log_path=" + sl + ":detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_abort=0:allocator_may_return_null=1");
	ev.push_back("UBSAN_OPTIONS=log_path=" + sl + ":print_stacktrace=1");
	ev.push_back("TSAN_OPTIONS=log_path=" + sl + ":halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=6:report_signal_unsafe=0:atexit_sleep_ms=0" + (cfg.get("supp").empty() ? "" : ":suppressions=" + cfg.get("supp")));
	for (auto &e : env) ev.push_back(e.first + "=" + e.second);
	std::vector<char *> ep; for (auto &e : ev) ep.push_back(&e[0]); ep.push_back(nullptr);
	int lf = ::open(logf.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
	int nul = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
	srv.exit_code = -1000;
	pid_t me = getpid();
	// the server must know the pid before the first call arrives
	int pfd[2]; if (pipe2(pfd, O_CLOEXEC)) _exit(70);
	pid = fork();
	if (!pid) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (getppid() != me) _exit(70);
		char c; if (::read(pfd[0], &c, 1) != 1) _exit(70);
		dup2(nul, 0); dup2(lf, 1); dup2(lf, 2);
		if (!cwd.empty() && chdir(cwd.c_str())) _exit(70);
		sigset_t ss; sigemptyset(&ss); sigprocmask(SIG_SETMASK, &ss, nullptr);
		execve(av[0], av.data(), ep.data());
		_exit(71);
	}
	note_partial();
	srv.set_child(pid, boots);
	srv.last_activity = now_s(); srv.last_data_activity = now_s(); srv.polls_at_activity = srv.polls.load();
	if (::write(pfd[1], "x", 1) != 1) _exit(70);
	::close(pfd[0]); ::close(pfd[1]); ::close(lf); ::close(nul);
}
bool Harness::alive()
{
	if (reaped) return false;
	int st; pid_t r = waitpid(pid, &st, WNOHANG);
	if (r == pid) { reaped = true; wstatus = st; return false; }
	return true;
}
bool Harness::wait_until(double timeout, const std::function<bool()> &f)
{
	double end = now_s() + timeout * time_scale;
	while (now_s() < end) { if (f()) return true; std::this_thread::sleep_for(std::chrono::milliseconds(20)); }
	return f();
}
bool Harness::reap(double timeout)
{
	bool r = wait_until(timeout, [&] { return !alive(); });
	if (r) { std::this_thread::sleep_for(std::chrono::milliseconds(50)); wait_until(5, [&] { return srv.inflight_total == 0; }); srv.reset_boot(); }
	return r;
}
void Harness::kill9() { if (!reaped && pid > 0) { ::kill(pid, SIGKILL); reap(20); } }
void Harness::sig(int s) { if (alive()) ::kill(pid, s); }
static double cpu_of(pid_t p)
{
	std::ifstream f("/proc/" + std::to_string(p) + "/stat"); string l; std::getline(f, l);
	size_t k = l.rfind(')'); if (k == string::npos) return 0;
	std::istringstream is(l.substr(k + 2)); string t; double u = 0;
	for (int n = 3; is >> t; ++n) if (n == 14 || n == 15) u += strtod(t.c_str(), nullptr);
	return u / sysconf(_SC_CLK_TCK);
}
bool Harness::wait_idle(double timeout, bool data_only)
{
	// Something else always goes on in a filesystem: empty transactions keep
	// coming, so that the daemon keeps polling at a reasonable rate.
	// Idle: nothing touches data while several transactions are noticed, then
	// two more single transactions are each noticed and scanned to the end
	// without any work resulting from them.
	double end = now_s() + timeout * time_scale;
	double cpu0 = cpu_of(pid), t0 = now_s(), hb = now_s(), started_phase = now_s();
	double need = (data_only ? 3.0 : 1.0) * time_scale;
	u64 polls_c = srv.polls; double last_seen = srv.last_data_activity;
	double dirty_since = 0; int phase = 0; bool busy = true, measured = false;
	while (now_s() < end) {
		std::this_thread::sleep_for(std::chrono::milliseconds(30));
		if (!alive()) return false;
		double now = now_s();
		if (phase == 0 && now - hb > 0.35) { hb = now; if (!quiet) sim.commit(true); }
		double last = srv.last_data_activity;
		if (last != last_seen) { last_seen = last; polls_c = srv.polls; phase = 0; }
		{ Lk lk(sim.mu); bool d = false; for (auto &r : sim.roots) for (auto &i : r.second.inodes) if (!i.second->dirty.empty() && i.second->kind == K_USER) d = true; if (d) { dirty_since = now; phase = 0; } }
		if (now - t0 > 0.8 * time_scale) {
			double c = cpu_of(pid);
			// the status threads use a little cpu time
			busy = (c - cpu0) / (now - t0) > 0.35; measured = true;
			cpu0 = c; t0 = now;
		}
		if (phase == 0) {
			if (measured && !busy && now - last > need && srv.polls >= polls_c + 2 && srv.inflight_total == (data_only ? int(srv.held_total) : 0) && now - dirty_since > need) { if (data_only) return true; phase = 1; polls_c = srv.polls; if (!quiet) sim.commit(true); started_phase = now; }
		} else if (srv.polls >= polls_c + 2 && now - started_phase > 0.3 && now - srv.last_activity > 0.5 * time_scale && srv.inflight_total == 0) {
			if (phase == 2) return true;
			++phase; polls_c = srv.polls; started_phase = now; if (!quiet) sim.commit(true);
		}
	}
	return false;
}
string Harness::log_tail(size_t n) { string s = read_file(logf); return s.size() > n ? s.substr(s.size() - n) : s; }
string Harness::sanitizer_report()
{
	string r; DIR *d = opendir(dir.c_str()); if (!d) return r;
	while (auto e = readdir(d)) if (!strncmp(e->d_name, "san.", 4)) r += read_file(dir + "/" + e->d_name);
	closedir(d);
	// undefined behaviour is reported on the standard error output
	string l = read_file(logf);
	for (size_t i = 0, n = 0; n < 5 && (i = l.find(": runtime error: ", i)) != string::npos; i += 10, ++n) {
		size_t a = l.rfind('\n', i); a = a == string::npos ? 0 : a + 1;
		if (std::regex_search(l.substr(a, i - a), std::regex("\\S:[0-9]+:[0-9]+$"))) r += l.substr(a, 3000) + "\n";
	}
	return r;
}
void Harness::died(const string &where)
{
	std::ostringstream os; string how;
	if (WIFSIGNALED(wstatus)) how = "signal" + std::to_string(WTERMSIG(wstatus)); else how = "exit" + std::to_string(WEXITSTATUS(wstatus));
	if (WIFEXITED(wstatus) && (WEXITSTATUS(wstatus) == 98 || WEXITSTATUS(wstatus) == 97 || WEXITSTATUS(wstatus) == 70 || WEXITSTATUS(wstatus) == 71)) { inconclusive = "daemon lost its connection to the harness (" + how + ") " + where; return; }
	if (WIFSIGNALED(wstatus) && WTERMSIG(wstatus) == SIGKILL) { inconclusive = "daemon killed from outside " + where; return; }
	os << "daemon ended unexpectedly (" << how << ") " << where << "; log tail: " << log_tail(1500);
	string prop = "B16";
	if (cfg.scenario == "badstate") prop = "B17";
	if (cfg.scenario == "term" || where.find("SIGTERM") != string::npos) prop = "B08";
	if (!sanitizer_report().empty()) prop = "B19";
	viol(prop, "daemon-died:" + how, os.str());
	if (prop != "B19" && WIFSIGNALED(wstatus)) viol("B19", "daemon-crashed:" + how, os.str());
	if (prop != "B16") viol("B16", "daemon-died:" + how, os.str());
}
bool Harness::stop_clean(double timeout)
{
	if (!alive()) { died("before SIGTERM"); return false; }
	double t = now_s();
	::kill(pid, SIGTERM);
	if (!reap(timeout)) {
		viol("B08", "no-exit", "daemon still running " + std::to_string(int(now_s() - t)) + " s after SIGTERM; log tail: " + log_tail(1500));
		kill9();
		return false;
	}
	stat["stop_s_max"] = std::max(stat["stop_s_max"], now_s() - t);
	if (!WIFEXITED(wstatus) || WEXITSTATUS(wstatus) != 0) { died("after SIGTERM"); return false; }
	return true;
}
void Harness::kick()
{
	Lk lk(sim.mu);
	string n = "kick" + std::to_string(kicks++);
	IP i = sim.create(5, n);
	string d(4096, 0); for (auto &c : d) c = rng();
	sim.write(*i, 0, d);
	sim.commit(true);
}
string Harness::status_text() { return read_file(status_file); }
std::map<string, u64> Harness::status_counters()
{
	std::map<string, u64> m; string s = status_text();
	// "TOTAL:" section with key=value words, up to "RATES:"
	size_t p = s.find("TOTAL:"); if (p == string::npos) return m;
	size_t e = s.find("RATES:", p); string t = s.substr(p + 6, e == string::npos ? string::npos : e - p - 6);
	std::istringstream is(t); string w;
	while (is >> w) { size_t k = w.find('='); if (k != string::npos) m[w.substr(0, k)] = strtoull(w.c_str() + k + 1, nullptr, 10); }
	return m;
}

// ---------------------------------------------------------------- oracles

void Harness::check_integrity(const string &when)
{
	Lk lk(sim.mu);
	string s = sim.self_check();
	if (!s.empty()) { fprintf(stderr, "fsim: model inconsistent %s: %s\n", when.c_str(), s.c_str()); inconclusive = "model inconsistent: " + s; }
	u64 n = 0;
	for (auto &r : sim.roots) for (auto &ip : r.second.inodes) {
		Inode &i = *ip.second; if (i.dir || i.deleted || i.kind != K_USER) continue;
		string d = sim.check_content(i); ++n;
		if (!d.empty()) viol("B01", "content", "user file root " + std::to_string(i.root) + " inode " + std::to_string(i.ino) + " " + when + ": " + d);
		// the bytes that the extents referenced by the file hold must be the bytes of the file:
		// the model's dedupe operation verifies content, so identity of shadow data per physical block is implied;
		// check it independently here
	}
	std::map<std::pair<u64,u64>, std::pair<size_t, string>> phys;
	std::hash<string> hs;
	for (auto &r : sim.roots) for (auto &ip : r.second.inodes) {
		Inode &i = *ip.second; if (i.dir || i.deleted || i.kind != K_USER || !i.dirty.empty()) continue;
		for (auto &x : i.items) {
			if (!x.second.e || x.second.type != IT_REG) continue;
			for (u64 o = 0; o < x.second.len; o += BLK) {
				u64 fo = x.first + o; if (fo >= i.size) break;
				string b = i.data.substr(fo, BLK);
				if (b.size() < BLK) continue;   // tail blocks may differ beyond end of file
				auto k = std::make_pair(x.second.e->id, x.second.eoff + o); size_t h = hs(b);
				auto f = phys.emplace(k, std::make_pair(h, "root " + std::to_string(i.root) + " inode " + std::to_string(i.ino) + " offset " + std::to_string(fo)));
				if (!f.second && f.first->second.first != h) viol("B01", "shared-different", "one stored block is referenced by file blocks with different contents: " + f.first->second.second + " and root " + std::to_string(i.root) + " inode " + std::to_string(i.ino) + " offset " + std::to_string(fo));
			}
		}
	}
	stat["files_verified"] += n;
}
bool Harness::eligible(Inode &i)
{
	if (i.dir || i.deleted || i.kind != K_USER || i.names.empty()) return false;
	if (i.flags & 3) return false;
	if (opt_a && sim.roots.count(i.root) && sim.roots.at(i.root).ro) return false;
	return true;
}
Harness::Cov Harness::coverage(const std::function<bool(Ext &)> &filter)
{
	Lk lk(sim.mu);
	Cov c;
	for (auto &x : sim.exts) {
		Ext &e = *x.second; if (e.dead || e.prealloc || e.nodatasum) continue;
		if (filter && !filter(e)) continue;
		std::vector<char> need(e.read.size(), 0); bool any = false; string who;
		for (auto &r : e.refs) {
			IP i = sim.get(r.root, r.ino); if (!i || !eligible(*i)) continue;
			auto it = i->items.find(r.off); if (it == i->items.end() || it->second.type != IT_REG) continue;
			for (u64 o = 0; o < it->second.len; o += BLK) {
				if (r.off + o >= i->size) break;
				u64 b = (it->second.eoff + o) / BLK; if (b < need.size()) { need[b] = 1; any = true; }
			}
			who = std::to_string(r.root) + ":" + std::to_string(r.ino) + "@" + std::to_string(r.off);
		}
		if (!any) continue;
		++c.exts; u64 miss = 0, nd = 0, got = 0;
		for (size_t b = 0; b < need.size(); ++b) if (need[b]) { ++nd; ++c.blocks; if (!(e.read[b] & 2)) { ++miss; } else ++got; }
		if ((cov_any || partial_ids.count(e.id)) && got) miss = 0;
		if (miss) {
			++c.exts_missed; c.missed += miss;
			std::ostringstream os; os << "extent #" << e.id << " bytenr " << e.bytenr << " len " << e.ram_len << " gen " << e.gen << (e.comp ? " compressed" : "") << (e.by_sut ? " (written by daemon)" : "") << " refs " << e.refs.size() << " (" << (e.reused ? "reused space, " : "") << "max " << e.max_refs_seen << ", visible at gen " << e.tree_gen << ", searched " << e.searched << " times, last at gen " << e.search_gen << ", looked up " << e.lookups << " times) e.g. " << who << ": " << miss << " of " << nd << " referenced blocks never read";
			if (c.first.empty()) c.first = os.str();
			c.missed_ids.insert(os.str());
		}
	}
	return c;
}
void Harness::note_partial()
{
	Lk lk(sim.mu);
	for (auto &x : sim.exts) {
		Ext &e = *x.second; if (e.dead || e.refs.size() < 2 || partial_ids.count(e.id)) continue;
		u64 eo = 0, l = 0; bool first = true;
		for (auto &r : e.refs) {
			IP i = sim.get(r.root, r.ino); if (!i) continue;
			auto it = i->items.find(r.off); if (it == i->items.end()) continue;
			if (first) { eo = it->second.eoff; l = it->second.len; first = false; }
			else if (it->second.eoff != eo || it->second.len != l) { partial_ids.insert(e.id); break; }
		}
	}
}
void Harness::cov_report(const string &prop, const string &when, const Cov &c)
{
	stat["cov_exts"] += c.exts; stat["cov_checked_blocks"] += c.blocks;
	if (c.missed) {
		viol(prop, "not-scanned", when + " (mode " + std::to_string(mode) + ", " + std::to_string(workers) + " workers) " + std::to_string(c.exts_missed) + " extents have not been read although the daemon is idle; first: " + c.first);
	}
}
Harness::Dup Harness::duplicates(const std::function<bool(Inode &, u64)> &consider)
{
	Lk lk(sim.mu);
	Dup d;
	std::map<string, std::map<std::pair<u64,u64>, string>> m;
	for (auto &r : sim.roots) for (auto &ip : r.second.inodes) {
		Inode &i = *ip.second; if (!eligible(i)) continue;
		for (auto &x : i.items) {
			if (x.second.type != IT_REG || !x.second.e) continue;
			for (u64 o = 0; o < x.second.len; o += BLK) {
				u64 fo = x.first + o; if (fo >= i.size) break;
				if (consider && !consider(i, fo)) continue;
				string b = i.data.substr(fo, BLK);
				++d.blocks;
				std::ostringstream w; w << i.root << ":" << i.ino << "@" << fo << "=#" << x.second.e->id << "+" << x.second.eoff + o;
				if (b.find_first_not_of('\0') == string::npos) { ++d.zero_alloc; if (d.first.empty()) d.first = "zero block stored: " + w.str(); continue; }
				m[b].emplace(std::make_pair(x.second.e->id, x.second.eoff + o), w.str());
			}
		}
	}
	d.contents = m.size();
	for (auto &c : m) if (c.second.size() > 1) {
		++d.dup_contents; d.extra += c.second.size() - 1;
		if (d.first.empty()) { d.first = std::to_string(c.second.size()) + " stored copies of a block:"; int n = 0; for (auto &w : c.second) { if (++n > 5) break; d.first += " " + w.second; } }
	}
	return d;
}
void Harness::common_end_checks() { check_integrity("at end"); }

void Harness::finish()
{
	string san = sanitizer_report();
	stat["already_shared_mt"] = srv.already_shared_mt; stat["boots"] = boots; stat["wall_s"] = now_s() - started; stat["commits"] = sim.commits;
	stat["events"] = srv.total_events; stat["dedupe_ok"] = srv.dedupe_ok; stat["dedupe_differs"] = srv.dedupe_differs; stat["dedupe_err"] = srv.dedupe_err; stat["dedupe_bytes"] = srv.dedupe_bytes;
	stat["logical_calls"] = srv.logical_calls; stat["user_reads"] = srv.user_read_calls; stat["user_read_bytes"] = srv.user_read_bytes; stat["tmp_write_bytes"] = srv.tmp_write_bytes;
	stat["max_dedupe_inflight"] = srv.max_dedupe_inflight; stat["max_logical_inflight"] = srv.max_logical_inflight; stat["overlap_checks"] = srv.overlap_checks; stat["tmp_uses"] = srv.tmp_uses; stat["replaced_checks"] = srv.replaced_checks; stat["fd_identity_checks"] = srv.intended_ok; stat["polls"] = srv.polls;
	{ std::lock_guard<std::mutex> l(srv.lmu); for (auto &c : srv.count) stat["ev." + c.first] = c.second; }
	{ std::lock_guard<std::mutex> l(srv.imu_pub()); for (auto &v : srv.home_versions) stat["home_versions." + v.first] = v.second.size(); }
	std::ostringstream os;
	os << "{\"scenario\":" << Json::q(cfg.scenario) << ",\"seed\":" << cfg.seed << ",\"inconclusive\":" << Json::q(inconclusive) << ",\"hang_prop\":" << Json::q(hang_prop) << ",\"violations\":[";
	{ std::lock_guard<std::mutex> l(srv.vmu); bool f = true; for (auto &v : srv.viol) { os << (f ? "" : ",") << "{\"prop\":" << Json::q(v.prop) << ",\"key\":" << Json::q(v.key) << ",\"msg\":" << Json::q(v.msg.substr(0, 3000)) << "}"; f = false; } }
	os << "],\"stat\":{"; bool f = true;
	for (auto &s : stat) { os << (f ? "" : ",") << Json::q(s.first) << ":" << s.second; f = false; }
	os << "},\"notes\":["; f = true; for (auto &n : notes) { os << (f ? "" : ",") << Json::q(n); f = false; }
	if (san.size() > 4000000) { size_t k = san.rfind("==================", 4000000); san.resize(k == string::npos ? 4000000 : k); }   // whole reports only
	os << "],\"san\":" << Json::q(san);
	os << ",\"digest\":" << Json::q(srv.digest());
	bool bad = !srv.viol.empty() || !inconclusive.empty() || !san.empty() || cfg.num("keeplog", 0);
	if (bad) {
		os << ",\"tail\":["; f = true;
		std::lock_guard<std::mutex> l(srv.lmu);
		size_t n = srv.log.size() > 400 ? srv.log.size() - 400 : 0;
		for (; n < srv.log.size(); ++n) { os << (f ? "" : ",") << Json::q(srv.log[n].str()); f = false; }
		os << "],\"log\":" << Json::q(log_tail(20000));
	}
	os << "}\n";
	if (cfg.num("evlog", 0)) { std::ostringstream ev; std::lock_guard<std::mutex> l(srv.lmu); for (auto &e : srv.log) ev << e.str() << "\n"; write_file(cfg.out + ".ev", ev.str()); }
	write_file(cfg.out, os.str());
}

int main(int argc, char **argv)
{
	Cfg c;
	for (int n = 1; n < argc; ++n) {
		string a = argv[n];
		auto val = [&] { return n + 1 < argc ? string(argv[++n]) : string(); };
		if (a == "--bees") c.bees = val(); else if (a == "--scratch") c.scratch = val(); else if (a == "--out") c.out = val();
		else if (a == "--seed") c.seed = strtoull(val().c_str(), nullptr, 0);
		else if (a == "--opt") { string o = val(); size_t k = o.find('='); c.opt[o.substr(0, k)] = k == string::npos ? "1" : o.substr(k + 1); }
		else c.scenario = a;
	}
	ScenarioFn f = find_scenario(c.scenario);
	if (!f || c.bees.empty() || c.scratch.empty() || c.out.empty()) { fprintf(stderr, "usage: fsim SCENARIO --bees B --scratch D --out F [--seed N] [--opt k=v]\n"); return 64; }
	signal(SIGPIPE, SIG_IGN);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	struct rlimit rl = {65536, 65536}; if (setrlimit(RLIMIT_NOFILE, &rl)) { getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_NOFILE, &rl); }
	{
		Harness h(c);
		f(h);
		h.kill9();
		h.finish();
	}
	return 0;
}
