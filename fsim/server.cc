#include "server.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <sstream>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <linux/btrfs.h>
#include <linux/btrfs_tree.h>
#include <linux/fs.h>
#include <linux/openat2.h>
#include <linux/magic.h>

using std::string;
typedef std::unique_lock<std::recursive_mutex> Lk;

double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double t0 = now_s();

string Ev::str() const
{
	std::ostringstream os;
	os << "t=" << (t - t0) << " boot=" << boot << " tid=" << tid << " " << op_names[op];
	if (op == OP_IOCTL) switch (code) {
		case BTRFS_IOC_TREE_SEARCH_V2: os << ":TREE_SEARCH"; break;
		case BTRFS_IOC_LOGICAL_INO_V2: os << ":LOGICAL_INO_V2"; break;
		case BTRFS_IOC_LOGICAL_INO: os << ":LOGICAL_INO"; break;
		case BTRFS_IOC_INO_PATHS: os << ":INO_PATHS"; break;
		case BTRFS_IOC_INO_LOOKUP: os << ":INO_LOOKUP"; break;
		case FIDEDUPERANGE: os << ":DEDUPE"; break;
		case FICLONERANGE: os << ":CLONE"; break;
		case FS_IOC_GETFLAGS: os << ":GETFLAGS"; break;
		case FS_IOC_SETFLAGS: os << ":SETFLAGS"; break;
		case BTRFS_IOC_FS_INFO: os << ":FS_INFO"; break;
		default: os << ":" << code;
	}
	static const char *kn[] = { "USER", "TMP", "HOME", "OUT" };
	os << " " << (kind >= 0 && kind < 4 ? kn[kind] : "-") << " " << root << ":" << ino << " a=" << a0 << "," << a1 << "," << a2;
	if (ino2) os << " dst=" << root2 << ":" << ino2 << "@" << b0;
	os << " rv=" << rv;
	return os.str();
}

Server::Server(Sim &s, const string &p) : sim(s), sock(p)
{
	lfd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
	struct sockaddr_un sa; memset(&sa, 0, sizeof sa); sa.sun_family = AF_UNIX; strncpy(sa.sun_path, p.c_str(), sizeof(sa.sun_path) - 1);
	::unlink(p.c_str());
	if (bind(lfd, reinterpret_cast<struct sockaddr *>(&sa), sizeof sa) || listen(lfd, 256)) { perror("fsim: bind"); _exit(70); }
	acceptor = std::thread([this] { accept_loop(); });
}
Server::~Server()
{
	stopping = true;
	clear_rules();
	::shutdown(lfd, SHUT_RDWR); ::close(lfd);
	acceptor.join();
	{ std::lock_guard<std::mutex> l(cmu); for (int c : conns) ::shutdown(c, SHUT_RDWR); }
	for (auto &w : workers) w.join();
	::unlink(sock.c_str());
}
void Server::accept_loop()
{
	while (!stopping) {
		int c = accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC);
		if (c < 0) { if (stopping) return; if (errno == EINTR || errno == ECONNABORTED) continue; return; }
		std::lock_guard<std::mutex> l(cmu);
		conns.insert(c);
		workers.emplace_back([this, c] { serve(c); });
	}
}
static bool xfer(int fd, bool out, void *p, size_t n)
{
	char *c = static_cast<char *>(p);
	while (n) { ssize_t r = out ? ::send(fd, c, n, MSG_NOSIGNAL) : ::read(fd, c, n); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; c += r; n -= r; }
	return true;
}
void Server::serve(int fd)
{
	while (true) {
		ReqHdr q; if (!xfer(fd, false, &q, sizeof q)) break;
		string pay(q.len, 0); if (q.len && !xfer(fd, false, &pay[0], q.len)) break;
		RepHdr r; memset(&r, 0, sizeof r); string rep;
		++inflight_total;
		handle(q, pay, r, rep);
		--inflight_total;
		r.len = rep.size();
		string b(reinterpret_cast<char *>(&r), sizeof r); b += rep;
		if (!xfer(fd, true, &b[0], b.size())) break;
	}
	std::lock_guard<std::mutex> l(cmu);
	conns.erase(fd); ::close(fd);
}

void Server::violation(const string &prop, const string &key, const string &msg)
{
	std::lock_guard<std::mutex> l(vmu);
	if (!viol_keys.insert(prop + "/" + key).second) return;
	viol.push_back({prop, key, msg});
}
void Server::log_ev(Ev &e)
{
	std::lock_guard<std::mutex> l(lmu);
	++total_events;
	log.push_back(e);
	if (log.size() > log_cap) log.pop_front();
	string k = op_names[e.op];
	if (e.op == OP_IOCTL) { string s = e.str(); size_t p = s.find("ioctl"); k = s.substr(p, s.find(' ', p) - p); }
	++count[k];
}
void Server::activity(bool data)
{
	last_activity = now_s(); polls_at_activity = polls.load();
	if (data) last_data_activity = now_s();
}
int Server::add_rule(const Rule &r) { std::lock_guard<std::mutex> l(cfg); rules.push_back(r); rules.back().id = next_rule++; return rules.back().id; }
void Server::release_rule(int id) { std::lock_guard<std::mutex> l(cfg); for (auto &r : rules) if (r.id == id) { r.released = true; r.count = 0; } rule_cv.notify_all(); }
void Server::clear_rules() { std::lock_guard<std::mutex> l(cfg); for (auto &r : rules) { r.released = true; r.count = 0; } rule_cv.notify_all(); }
int64_t Server::rule_hits(int id) { std::lock_guard<std::mutex> l(cfg); for (auto &r : rules) if (r.id == id) return r.hits; return 0; }
int64_t Server::rule_seen(int id) { std::lock_guard<std::mutex> l(cfg); for (auto &r : rules) if (r.id == id) return r.seen; return 0; }
int64_t Server::rule_waiting(int id) { std::lock_guard<std::mutex> l(cfg); for (auto &r : rules) if (r.id == id) return r.waiting; return 0; }
u64 Server::seed_rand() { std::lock_guard<std::recursive_mutex> l(sim.mu); return sim.rng(); }
void Server::kill_child() { if (child > 0) ::kill(child, SIGKILL); }

// returns true if the call must fail (r filled in)
void Server::tmp_use(u64 tid, const IP &i, const char *how)
{
	// a temporary file belongs to the worker that resized it last
	std::lock_guard<std::mutex> l(imu); ++tmp_uses;
	auto f = tmp_owner.find(i->ino);
	if (f != tmp_owner.end() && f->second != tid) violation("B10", "own-temp-file", string("temporary file of one worker used by another: ") + how);
}
bool Server::apply_rules(bool post, u32 op, u64 code, const IP &i, const string &hname, const Ev &e, RepHdr &r)
{
	std::unique_lock<std::mutex> l(cfg);
	bool fail = false;
	std::vector<std::function<void(const Ev &)>> hooks; u64 delay = 0;
	for (size_t n = 0; n < rules.size(); ++n) {
		Rule &ru = rules[n];
		if (ru.post != post || ru.count <= 0) continue;
		if (ru.op && ru.op != op) continue;
		if (ru.code && ru.code != code) continue;
		if (ru.kind >= 0 && (ru.kind != (i ? i->kind : hname.empty() ? K_OUT : K_HOME))) continue;
		if (!ru.name.empty() && hname.find(ru.name) == string::npos) continue;
		if (ru.root && (!i || i->root != ru.root)) continue;
		if (ru.ino && (!i || i->ino != ru.ino)) continue;
		++ru.seen;
		if (ru.skip > 0) { --ru.skip; continue; }
		if (ru.prob < 1.0) { double x = (seed_rand() >> 11) * (1.0 / 9007199254740992.0); if (x >= ru.prob) continue; }
		--ru.count; ++ru.hits;
		if (ru.kill) {
			kill_child();
			// the daemon never sees the reply
			l.unlock();
			std::this_thread::sleep_for(std::chrono::milliseconds(200));
			return true;
		}
		if (ru.hook) hooks.push_back(ru.hook);
		if (ru.delay_us) delay += ru.delay_us < 16 ? ru.delay_us : seed_rand() % ru.delay_us;
		if (ru.err) { r.verdict = 1; r.err = ru.err; r.ret = -1; fail = true; }
		else if (ru.shorten) { r.verdict = 2; r.a[0] = ru.shorten == 1 ? 1 + seed_rand() % 4096 : ru.shorten; }
		if (ru.hold) {
			int id = ru.id; ++ru.waiting; ++held_total;
			rule_cv.wait(l, [&] { if (stopping) return true; for (auto &x : rules) if (x.id == id) return x.released; return true; });
			--held_total; for (auto &x : rules) if (x.id == id) --x.waiting;
		}
	}
	l.unlock();
	for (auto &h : hooks) h(e);
	if (delay) std::this_thread::sleep_for(std::chrono::microseconds(delay));
	return fail;
}

void Server::set_home(const string &dir)
{
	struct stat st; if (!stat(dir.c_str(), &st)) { home_id.dev = st.st_dev; home_id.ino = st.st_ino; }
}
HomeFile *Server::home_of(const Ident &id) { auto f = home_files.find({id.dev, id.ino}); return f == home_files.end() ? nullptr : &f->second; }
bool Server::home_needs_fsync() const
{
	if (!home_magic_btrfs) return true;
	unsigned a = 0, b = 0; if (sscanf(release.c_str(), "%u.%u.", &a, &b) != 2) return false;
	return a > 5 || (a == 5 && b > 16);
}
void Server::busy_inc(u64 tid)
{
	u64 n, lim;
	{ std::lock_guard<std::mutex> l(bmu); ++busy[tid]; n = busy.size(); ++busy_samples; lim = busy_limit; }
	if (n > max_busy) max_busy = n;
	if (lim && n > lim) violation("B18", "too-many-workers", std::to_string(n) + " threads are working on file data at once although the limit is " + std::to_string(lim));
}
void Server::busy_dec(u64 tid) { std::lock_guard<std::mutex> l(bmu); auto f = busy.find(tid); if (f != busy.end() && --f->second <= 0) busy.erase(f); }
void Server::reset_boot()
{
	{ std::lock_guard<std::mutex> l(bmu); busy.clear(); }
	sim.sut_gone();
	std::lock_guard<std::mutex> l(imu);
	last_paths.clear(); fd_intended.clear(); root_wanted.clear(); root_unwanted.clear(); logical_inflight = dedupe_inflight = 0; dedupe_dst.clear();
	exit_code = -1000;
}

static u64 ext_off(Inode &i, u64 off)
{
	auto it = i.items.upper_bound(off); if (it == i.items.begin()) return 0; --it;
	return off < it->first + it->second.len ? it->second.eoff + (off - it->first) : 0;
}
static const std::set<string> final_names = { "beescrawl.dat", "beesstats.txt" };

void Server::check_home_rename(const string &from, const string &to)
{
	// called with imu held, before the rename is performed
	HomeFile *h = nullptr;
	for (auto &x : home_files) if (x.second.name == from) h = &x.second;
	if (!h) { violation("B07", "rename-unknown", "state file " + to + " replaced from a file not written by this daemon: " + from); return; }
	if (h->failed || h->miss_lo < h->miss_hi) violation("B07", "rename-after-failed-write:" + to, "state file " + to + " replaced by a version whose write or flush had failed (" + h->why + ")");
	// a new hash table file has no content yet
	if (h->unsynced && to != "beeshash.dat" && home_needs_fsync()) violation("B07", "rename-before-fsync:" + to, "state file " + to + " replaced before the new version was flushed, on a filesystem that requires it");
}

void Server::check_use(const ReqHdr &, const IP &i, const char *what, u64 fd)
{
	if (!i) return;
	std::lock_guard<std::mutex> l(imu);
	auto f = fd_intended.find(fd);
	if (f == fd_intended.end()) return;
	if (f->second.first == i->root && f->second.second == i->ino) { ++intended_ok; return; }
	std::ostringstream os;
	os << what << " on root " << i->root << " inode " << i->ino << " through a descriptor opened for root " << f->second.first << " inode " << f->second.second;
	violation("B12", "wrong-object", os.str());
}

void Server::handle(const ReqHdr &q, const string &pay, RepHdr &r, string &rep)
{
	IP i; string hname; bool known_home = false;
	{
		Lk lk(sim.mu);
		i = sim.by_ident(q.id);
	}
	{ std::lock_guard<std::mutex> l(imu); if (auto h = home_of(q.id)) { hname = h->name.empty() ? "(unlinked)" : h->name; known_home = true; } }
	Ev e; memset(&e, 0, sizeof e);
	e.t = now_s(); e.tid = q.tid; e.op = q.op; e.boot = boot_no; e.kind = i ? i->kind : known_home ? K_HOME : -1;
	if (i) { e.root = i->root; e.ino = i->ino; }
	e.a0 = q.a[0]; e.a1 = q.a[1]; e.a2 = q.a[2]; e.rv = int64_t(q.a[3]);
	const bool is_home_dir = q.id.ino && q.id.ino == home_id.ino && q.id.dev == home_id.dev;
	const char *p1 = pay.c_str();

	switch (q.op) {
	case OP_HELLO: break;
	case OP_OPEN_PRE: {
		if (q.a[2] && !have_openat2) { r.verdict = 1; r.err = ENOSYS; break; }
		string nm = is_home_dir ? string(p1) : "";
		apply_rules(false, q.op, 0, i, nm, e, r);
		break;
	}
	case OP_OPEN_POST: {
		int fd = int(q.a[4]);
		bool dir_in_fs = false; u64 droot = 0;
		{
			Lk lk(sim.mu);
			Ident did = q.id2; IP d = sim.by_ident(did); if (d) { dir_in_fs = true; droot = d->root; }
		}
		bool in_home = q.id2.ino && q.id2.ino == home_id.ino && q.id2.dev == home_id.dev;
		if (fd < 0) { log_ev(e); break; }
		unsigned fl = q.a[0];
		bool wr = (fl & O_ACCMODE) != O_RDONLY || (fl & O_TRUNC);
		if ((fl & __O_TMPFILE) == __O_TMPFILE && dir_in_fs) {
			Lk lk(sim.mu);
			IP t = sim.adopt(q.id, droot, K_TMP); ++t->opens;
			t->hfd = -1;
			e.kind = K_TMP; e.root = t->root; e.ino = t->ino;
			std::lock_guard<std::mutex> l(imu); fd_intended.erase(fd);
			log_ev(e);
			break;
		}
		if (in_home && !i) {
			std::lock_guard<std::mutex> l(imu);
			auto &h = home_files[{q.id.dev, q.id.ino}];
			h.name = p1;
			if (fl & O_CREAT) { h = HomeFile(); h.name = p1; }
			else if (h.content.empty()) { // opened existing
				struct stat st; (void)st;
			}
			if (wr && final_names.count(p1)) violation("B07", string("in-place-open:") + p1, string("state file ") + p1 + " opened for writing in place");
			e.kind = K_HOME;
			log_ev(e);
			break;
		}
		if (in_home && i == nullptr) break;
		if (i) {
			{
				Lk lk(sim.mu);
				++i->opens;
				if (in_home) {
					std::lock_guard<std::mutex> l(imu);
					auto &h = home_files[{q.id.dev, q.id.ino}]; h.name = p1;
					if (wr && final_names.count(p1)) violation("B07", string("in-place-open:") + p1, string("state file ") + p1 + " opened for writing in place");
				}
			}
			if (wr && i->kind == K_USER && !i->dir) violation("B02", "open-writable", "user file opened for writing: root " + std::to_string(i->root) + " inode " + std::to_string(i->ino) + " path " + p1);
			if (i->kind == K_OUT && have_openat2 && q.a[2]) violation("B12", "open-outside", string("opened an object outside the filesystem through path ") + p1);
			std::lock_guard<std::mutex> l(imu);
			fd_intended.erase(fd); root_unwanted.erase(fd);
			if (i->dir && i->ino == 256 && i->root != 5 && dir_in_fs) {
				auto w = root_wanted.find(q.tid);
				if (w != root_wanted.end() && !w->second.empty()) { if (!w->second.count(i->root)) { root_unwanted.insert(fd); ++wrong_root_opened; } }
			}
			auto lp = last_paths.find(q.tid);
			if (!i->dir && lp != last_paths.end() && dir_in_fs && !in_home) fd_intended[fd] = lp->second;
		} else if (dir_in_fs && !in_home) {
			// a file created by the daemon inside the filesystem
			Lk lk(sim.mu);
			if (fl & O_CREAT) {
				IP d = sim.by_ident(q.id2);
				bool home_dir = d && d->kind == K_HOME;
				IP n = sim.adopt(q.id, droot, home_dir ? K_HOME : K_USER);
				n->opens = 1; sim.attach(d, p1, n);
				if (!home_dir) violation("B02", "create", string("file created outside the state directory: ") + p1);
				std::lock_guard<std::mutex> l(imu);
				if (home_dir) { auto &h = home_files[{q.id.dev, q.id.ino}]; h = HomeFile(); h.name = p1; }
				e.kind = n->kind; e.root = n->root; e.ino = n->ino;
			} else if (have_openat2 && q.a[2]) {
				violation("B12", "open-outside", string("opened an object outside the filesystem through path ") + p1);
			}
		}
		log_ev(e);
		if (apply_rules(true, q.op, 0, i, in_home ? p1 : "", e, r) && i) { Lk lk(sim.mu); --i->opens; }
		break;
	}
	case OP_CLOSE: {
		{ std::lock_guard<std::mutex> l(imu); fd_intended.erase(q.a[0]); root_unwanted.erase(q.a[0]); }
		if (i) {
			Lk lk(sim.mu);
			if (--i->opens <= 0) {
				i->opens = 0;
				sim.forget_if_dead(i);
			}
		}
		if (known_home) { std::lock_guard<std::mutex> l(imu); auto f = home_files.find({q.id.dev, q.id.ino}); if (f != home_files.end() && f->second.name.empty()) home_files.erase(f); }
		log_ev(e);
		break;
	}
	case OP_FSTAT: case OP_LSTAT:
		if (i) { Lk lk(sim.mu); auto f = sim.roots.find(i->root); r.a[0] = f == sim.roots.end() ? 0x1000 + i->root : f->second.dev; r.a[1] = i->ino; r.a[3] = 1; if (i->kind == K_OUT) {
				// the worst case: a foreign object with the inode number that is being looked for
				std::lock_guard<std::mutex> l(imu); auto lp = last_paths.find(q.tid);
				if (i->dir || lp == last_paths.end()) r.a[3] = 0; else { r.a[0] = 0x9999; r.a[1] = lp->second.second; }
			} }
		if (q.op == OP_FSTAT) apply_rules(false, q.op, 0, i, hname, e, r);
		break;
	case OP_FSTATFS:
		if (apply_rules(false, q.op, 0, i, hname, e, r)) break;
		r.a[3] = 1;
		r.a[0] = (known_home ? home_magic_btrfs : fs_magic_btrfs) ? BTRFS_SUPER_MAGIC : TMPFS_MAGIC;
		break;
	case OP_READ_PRE:
		if (i && i->kind == K_USER) busy_inc(q.tid);
		if (apply_rules(false, q.op, 0, i, hname, e, r) && i && i->kind == K_USER) busy_dec(q.tid);
		break;
	case OP_READ_POST: {
		log_ev(e);
		if (i && !i->dir) {
			check_use(q, i, "read", q.a[5]);
			if (i->kind == K_OUT) violation("B12", "read-outside", "read from a file outside the filesystem");
			Lk lk(sim.mu);
			int64_t n = int64_t(q.a[3]);
			if (n > 0) sim.mark_read(*i, q.a[0], n);
			if (i->kind == K_USER) { if (n > 0) user_read_bytes += n; ++user_read_calls; activity(true); }
			else if (i->kind == K_TMP) { if (n > 0) tmp_read_bytes += n; activity(true); tmp_use(q.tid, i, "read"); }
			if (i->kind == K_USER) { std::lock_guard<std::mutex> l(imu); replaced.erase(q.tid); }
		}
		apply_rules(true, OP_READ_POST, 0, i, hname, e, r);
		if (i && i->kind == K_USER) busy_dec(q.tid);
		r.verdict = 0;
		break;
	}
	case OP_WRITE_PRE: {
		if (i && i->kind == K_USER) violation("B02", "write", "write to user file root " + std::to_string(i->root) + " inode " + std::to_string(i->ino));
		bool f = apply_rules(false, q.op, 0, i, hname, e, r);
		if (known_home && f) {
			const u64 done = r.verdict == 2 ? std::min<u64>(r.a[0], q.a[2]) : 0;
			std::lock_guard<std::mutex> l(imu); auto h = home_of(q.id);
			if (h && done < q.a[2]) { h->miss_lo = q.a[0] + done; h->miss_hi = q.a[0] + q.a[2]; h->why = string(r.verdict == 2 ? "short write" : "failed write") + " at offset " + std::to_string(q.a[0]); }
		}
		break;
	}
	case OP_WRITE_POST: {
		int64_t n = int64_t(q.a[3]);
		log_ev(e);
		if (known_home) {
			std::lock_guard<std::mutex> l(imu); auto h = home_of(q.id);
			if (h && n > 0 && q.a[0] <= h->miss_lo && q.a[0] + n > h->miss_lo) h->miss_lo = q.a[0] + n;     // the rest was written after all
			if (h) { h->unsynced = true; ++h->writes; if (n > 0 && final_names.count(h->name)) violation("B07", "in-place-write:" + h->name, "state file written in place");
				if (h->name != "beeshash.dat" && n > 0) { if (h->content.size() < q.a[0] + n) h->content.resize(q.a[0] + n, 0); h->content.replace(q.a[0], pay.size(), pay); } }
		}
		if (i) {
			Lk lk(sim.mu);
			if (n > 0) { sim.sut_wrote(*i, q.a[0], n, pay.data()); if (i->kind == K_TMP) { tmp_write_bytes += n; activity(true); } }
		}
		apply_rules(true, OP_WRITE_POST, 0, i, hname, e, r);
		break;
	}
	case OP_TRUNC_PRE: case OP_FALLOC_PRE:
		if (i && i->kind == K_USER) violation("B02", "truncate", "truncate/fallocate of a user file");
		if (known_home && final_names.count(hname)) violation("B07", "in-place-truncate:" + hname, "state file truncated in place");
		apply_rules(false, q.op, 0, i, hname, e, r);
		break;
	case OP_TRUNC_POST:
		log_ev(e);
		if (i && !int64_t(q.a[3])) { Lk lk(sim.mu); sim.sut_truncated(*i, q.a[0]); if (i->kind == K_TMP) { activity(true); std::lock_guard<std::mutex> l(imu); tmp_owner[i->ino] = q.tid; } }
		if (known_home) { std::lock_guard<std::mutex> l(imu); auto h = home_of(q.id); if (h) { h->unsynced = true; h->size = q.a[0]; } }
		break;
	case OP_FALLOC_POST: log_ev(e); break;
	case OP_FSYNC_PRE: {
		bool f = apply_rules(false, q.op, 0, i, hname, e, r);
		if (known_home && f) { std::lock_guard<std::mutex> l(imu); auto h = home_of(q.id); if (h) { h->failed = true; h->why = "fsync: verdict " + std::to_string(r.verdict) + " errno " + std::to_string(r.err) + " thread " + std::to_string(q.tid) + " t=" + std::to_string(e.t); } }
		break;
	}
	case OP_FSYNC_POST:
		log_ev(e);
		if (known_home && !int64_t(q.a[3])) { std::lock_guard<std::mutex> l(imu); auto h = home_of(q.id); if (h) { h->unsynced = false; ++h->fsyncs; } }
		if (i) { Lk lk(sim.mu); i->unsynced = false; }
		break;
	case OP_UNLINK_PRE:
		if (i && !is_home_dir && !(i->kind == K_HOME)) violation("B02", "unlink", string("unlink of ") + p1);
		if (final_names.count(p1) && is_home_dir) violation("B07", string("unlink:") + p1, string("state file unlinked: ") + p1);
		apply_rules(false, q.op, 0, i, is_home_dir ? p1 : hname, e, r);
		break;
	case OP_UNLINK_POST:
		log_ev(e);
		if (!int64_t(q.a[3])) {
			if (is_home_dir) { std::lock_guard<std::mutex> l(imu); for (auto &h : home_files) if (h.second.name == p1) h.second.name.clear(); }
			if (i && i->dir) { Lk lk(sim.mu); sim.detach(i, p1); }
		}
		break;
	case OP_RENAME_PRE: {
		const char *p2 = p1 + strlen(p1) + 1;
		if (i && i->kind != K_HOME) violation("B02", "rename", string("rename of ") + p1 + " to " + p2);
		if (apply_rules(false, q.op, 0, i, is_home_dir ? p2 : hname, e, r)) break;
		if (is_home_dir) { std::lock_guard<std::mutex> l(imu); check_home_rename(p1, p2); for (auto &h : home_files) if (h.second.name == p1) home_attempts[p2].push_back(h.second.content); }
		break;
	}
	case OP_RENAME_POST: {
		const char *p2 = p1 + strlen(p1) + 1;
		log_ev(e);
		if (int64_t(q.a[3])) break;
		string content; bool cb = false;
		if (is_home_dir) {
			std::lock_guard<std::mutex> l(imu);
			for (auto &h : home_files) if (h.second.name == p2) h.second.name.clear();
			for (auto &h : home_files) if (h.second.name == p1) { h.second.name = p2; content = h.second.content; cb = true; home_versions[p2].push_back(content); }
		}
		if (i && i->dir) {
			Lk lk(sim.mu);
			auto f = i->children.find(p1);
			if (f != i->children.end()) {
				IP x = sim.get(i->root, f->second);
				if (i->children.count(p2)) sim.detach(i, p2);
				i->children.erase(p1); i->children[p2] = x->ino;
				for (auto &n : x->names) if (n.parent == i->ino && n.name == p1) n.name = p2;
				sim.touch();
			}
		}
		if (cb && on_home_rename) on_home_rename(p2, content);
		apply_rules(true, OP_RENAME_POST, 0, i, is_home_dir ? p2 : hname, e, r);
		break;
	}
	case OP_FADVISE: if (i) check_use(q, i, "fadvise", q.a[5]); apply_rules(false, q.op, 0, i, hname, e, r); log_ev(e); break;
	case OP_UNAME: rep = release; rep.push_back(0); break;
	case OP_LOADAVG: if (loadavg >= 0) { r.a[3] = 1; r.a[0] = u64(loadavg * 1000); } break;
	case OP_FOREIGN:
		log_ev(e);
		violation("B02", string("foreign-call:") + p1, string("unexpected modifying call ") + p1);
		break;
	case OP_EXIT: exit_code = int(q.a[0]); log_ev(e); break;
	case OP_IOCTL: {
		bool data_op = q.a[0] == FIDEDUPERANGE || q.a[0] == BTRFS_IOC_LOGICAL_INO_V2 || q.a[0] == BTRFS_IOC_LOGICAL_INO;
		struct Busy { Server *s; u64 t; ~Busy() { if (s) s->busy_dec(t); } } busy_guard { data_op ? this : nullptr, q.tid };
		if (data_op) busy_inc(q.tid);
		if (apply_rules(false, q.op, q.a[0], i, hname, e, r)) { r.ret = -1; e.code = q.a[0]; e.rv = -r.err; log_ev(e); break; }
		r.verdict = 0;
		e.code = q.a[0];
		do_ioctl(q, pay, r, rep, e, i);
		log_ev(e);
		RepHdr dummy_r; memset(&dummy_r, 0, sizeof dummy_r);
		apply_rules(true, q.op, q.a[0], i, hname, e, dummy_r);
		if (q.a[0] == BTRFS_IOC_LOGICAL_INO || q.a[0] == BTRFS_IOC_LOGICAL_INO_V2) { std::lock_guard<std::mutex> l(imu); --logical_inflight; }
		if (q.a[0] == FIDEDUPERANGE) { std::lock_guard<std::mutex> l(imu); --dedupe_inflight; auto f = dedupe_dst.find({e.root2, e.ino2}); if (e.kind != K_TMP && f != dedupe_dst.end()) dedupe_dst.erase(f); }
		break;
	}
	default: fprintf(stderr, "fsim: unknown op %u\n", q.op); _exit(70);
	}
}

void Server::do_ioctl(const ReqHdr &q, const string &pay, RepHdr &r, string &rep, Ev &e, const IP &i)
{
	auto fail = [&](int err) { r.ret = -1; r.err = err; e.rv = -err; };
	if (!i) { fail(ENOTTY); if (q.a[0] == FIDEDUPERANGE) { std::lock_guard<std::mutex> l(imu); ++dedupe_inflight; } if (q.a[0] == BTRFS_IOC_LOGICAL_INO_V2 || q.a[0] == BTRFS_IOC_LOGICAL_INO) { std::lock_guard<std::mutex> l(imu); ++logical_inflight; } return; }
	switch (q.a[0]) {
	case FS_IOC_GETFLAGS: {
		Lk lk(sim.mu);
		u64 f = 0;
		if (i->flags & BTRFS_INODE_NODATACOW) f |= FS_NOCOW_FL;
		if (i->flags & BTRFS_INODE_COMPRESS) f |= FS_COMPR_FL;
		if (i->flags & BTRFS_INODE_NOCOMPRESS) f |= FS_NOCOMP_FL;
		r.a[0] = f;
		return;
	}
	case FS_IOC_SETFLAGS: {
		if (i->kind == K_USER) violation("B02", "setflags", "attribute flags of a user file changed");
		Lk lk(sim.mu);
		i->flags &= ~u64(BTRFS_INODE_COMPRESS | BTRFS_INODE_NOCOMPRESS | BTRFS_INODE_NODATACOW);
		if (q.a[1] & FS_COMPR_FL) i->flags |= BTRFS_INODE_COMPRESS;
		if (q.a[1] & FS_NOCOMP_FL) i->flags |= BTRFS_INODE_NOCOMPRESS;
		if (q.a[1] & FS_NOCOW_FL && i->size == 0) i->flags |= BTRFS_INODE_NODATACOW | BTRFS_INODE_NODATASUM;
		sim.touch();
		return;
	}
	case BTRFS_IOC_FS_INFO: sim.fs_info(rep); return;
	case BTRFS_IOC_INO_LOOKUP: {
		string a = pay; int rv = sim.ino_lookup(*i, a);
		if (i->kind == K_OUT) { reinterpret_cast<btrfs_ioctl_ino_lookup_args *>(&a[0])->treeid = 5; { std::lock_guard<std::mutex> l(imu); auto lp = last_paths.find(q.tid); if (lp != last_paths.end()) reinterpret_cast<btrfs_ioctl_ino_lookup_args *>(&a[0])->treeid = lp->second.first; } rv = 0; }
		if (rv) { fail(-rv); return; }
		rep = a; return;
	}
	case BTRFS_IOC_TREE_SEARCH_V2: {
		u64 need = 0;
		btrfs_ioctl_search_args_v2 a; memcpy(&a, pay.data(), sizeof a);
		e.a0 = a.key.tree_id; e.a1 = a.key.min_objectid; e.a2 = a.key.min_offset; e.b0 = a.key.min_type;
		// the subvolumes whose place this thread has asked for
		if (a.key.tree_id == 1 && a.key.min_type == BTRFS_ROOT_BACKREF_KEY) { std::lock_guard<std::mutex> l(imu); root_wanted[q.tid].insert(a.key.min_objectid); }
		if (a.key.tree_id == 1 && a.key.min_objectid == 2) ++polls;
		else if (a.key.tree_id == 2 || a.key.tree_id >= 5 || !a.key.tree_id) activity(false);
		int rv = sim.tree_search(i->root, pay, rep, need);
		if (rv) { r.a[0] = need; fail(-rv); return; }
		return;
	}
	case BTRFS_IOC_LOGICAL_INO:
	case BTRFS_IOC_LOGICAL_INO_V2: {
		activity(true);
		++logical_calls;
		{
			std::lock_guard<std::mutex> l(imu);
			++logical_inflight; ++overlap_checks;
			max_logical_inflight = std::max<u64>(max_logical_inflight, logical_inflight);
			if (dedupe_inflight) violation("B14", "logical-ino-during-dedupe", "a reference lookup was issued while a dedupe request was in flight");
		}
		u64 su = 0; Ext *x = nullptr;
		e.a0 = reinterpret_cast<const btrfs_ioctl_logical_ino_args *>(pay.data())->logical;
		Lk lk(sim.mu);
		int rv = sim.logical_ino(pay, q.a[0] == BTRFS_IOC_LOGICAL_INO_V2, rep, su, &x);
		r.sys_usec = su;
		if (x) {
			e.a1 = x->id; e.a2 = x->refs.size();
			++x->lookups;
			if (x->slow_usec >= toxic_usec) { ++x->slow_lookups; x->slow_seen = true; }
		}
		if (rv) fail(-rv);
		return;
	}
	case BTRFS_IOC_INO_PATHS: {
		activity(true);
		u64 inum = reinterpret_cast<const btrfs_ioctl_ino_path_args *>(pay.data())->inum;
		e.a0 = inum;
		{
			std::lock_guard<std::mutex> l(imu); last_paths[q.tid] = {i->root, inum};
			if (root_unwanted.count(q.a[5])) violation("B12", "wrong-subvolume", "names of inode " + std::to_string(inum) + " looked up through a descriptor of subvolume " + std::to_string(i->root) + " opened while looking for another one");
			else ++root_fd_checks;
		}
		int rv = sim.ino_paths(*i, pay, rep);
		if (rv) fail(-rv);
		return;
	}
	case FIDEDUPERANGE: {
		activity(true);
		++dedupe_calls;
		string a = pay;
		auto *p = reinterpret_cast<file_dedupe_range *>(&a[0]);
		size_t sz = sizeof(*p) + p->dest_count * sizeof(p->info[0]);
		const Ident *ids = reinterpret_cast<const Ident *>(pay.data() + sz);
		e.a0 = p->src_offset; e.a1 = p->src_length;
		check_use(q, i, "dedupe source", q.a[5]);
		for (unsigned n = 0; n < p->dest_count; ++n) {
			auto &f = p->info[n];
			IP d; { Lk lk(sim.mu); d = sim.by_ident(ids[n]); }
			if (!d) { f.status = -EXDEV; f.bytes_deduped = 0; std::lock_guard<std::mutex> l(imu); ++dedupe_inflight; continue; }
			check_use(q, d, "dedupe destination", f.dest_fd);
			e.root2 = d->root; e.ino2 = d->ino; e.b0 = f.dest_offset;
			{
				std::lock_guard<std::mutex> l(imu);
				++dedupe_inflight; ++overlap_checks;
				max_dedupe_inflight = std::max<u64>(max_dedupe_inflight, dedupe_inflight);
				if (logical_inflight) violation("B14", "dedupe-during-logical-ino", "a dedupe request was issued while a reference lookup was in flight");
				// data moved through a temporary file is put back wherever the old extent was referenced
				if (i->kind != K_TMP) {
					if (dedupe_dst.count({d->root, d->ino})) violation("B14", "dedupe-same-dst", "two requests replacing duplicates found in the same inode overlap");
					dedupe_dst.insert({d->root, d->ino});
				}
			}
			Lk lk(sim.mu);
			std::ostringstream what; what << "src " << i->root << ":" << i->ino << "@" << p->src_offset << " dst " << d->root << ":" << d->ino << "@" << f.dest_offset << " len " << p->src_length << " src size " << i->size << " dst size " << d->size;
			// B10: excluded destinations and sources
			if (d->kind == K_HOME || i->kind == K_HOME) violation("B10", "own-state-file", "dedupe involving the daemon's own state file: " + what.str());
			if (d->kind == K_TMP) violation("B10", "own-temp-file", "dedupe into the daemon's own temporary file: " + what.str());
			if (d->kind == K_USER && (d->flags & (BTRFS_INODE_NODATACOW))) violation("B10", "nodatacow", "dedupe into a no-copy-on-write file: " + what.str());
			if (d->kind == K_USER && (d->flags & (BTRFS_INODE_NODATASUM))) violation("B10", "nodatasum", "dedupe into a file without checksums: " + what.str());
			if (workaround_send && sim.roots.count(d->root) && sim.roots.at(d->root).ro) violation("B10", "read-only-subvol", "dedupe into a read-only subvolume: " + what.str());
			if (d->kind == K_OUT || i->kind == K_OUT) violation("B12", "dedupe-outside", "dedupe of a file outside the filesystem");
			if (i->kind == K_USER && (i->flags & (BTRFS_INODE_NODATACOW))) violation("B10", "nodatacow", "dedupe from a no-copy-on-write file: " + what.str());
			if (i->kind == K_TMP) tmp_use(q.tid, i, "dedupe source");
			// B15: well-formedness
			u64 so = p->src_offset, dof = f.dest_offset, len = p->src_length;
			if ((so | dof) % BLK) violation("B15", "unaligned-start", what.str());
			if (!len) violation("B15", "empty", what.str());
			if (i == d && so < dof + len && dof < so + len) violation("B15", "overlap", what.str());
			if (len % BLK && !d->modcount && !i->modcount) {}
			if (len % BLK && expect_stable && !(so + len == i->size && dof + len == d->size)) violation("B15", "unaligned-length", what.str());
			if (expect_stable && (so + len > i->size || dof + len > d->size)) violation("B15", "beyond-eof", what.str());
			bool all_same = true; Ext *bad_src = nullptr; u64 src_refs = 0; (void)bad_src;
			for (u64 o = 0; o < len && all_same; o += BLK) {
				Ext *a1, *b1; u64 pa = sim.phys_at(*i, so + o, &a1), pb = sim.phys_at(*d, dof + o, &b1);
				if (pa != pb || a1 != b1) all_same = false;
			}
			// with several workers another one may legitimately have got there first
			if (all_same && len && expect_stable && i->dirty.empty() && !single_worker) ++already_shared_mt;
			if (all_same && len && expect_stable && i->dirty.empty() && single_worker) violation("B15", "already-shared", "dedupe of ranges that already share storage: " + what.str());
			// B13: reference limit and toxic sources
			for (u64 o = 0; o < len; o += BLK) {
				Ext *a1, *b1; sim.phys_at(*i, so + o, &a1); sim.phys_at(*d, dof + o, &b1);
				if (!a1 || a1 == b1) continue;
				// references to this very block: what a reference lookup of its address counts
				u64 n = 0; Ext *xx; (void)xx; const u64 eo = ext_off(*i, so + o);
				for (auto &rk : a1->refs) { IP ri = sim.get(rk.root, rk.ino); if (!ri) continue; auto it = ri->items.find(rk.off); if (it == ri->items.end()) continue; if (a1->comp || (eo >= it->second.eoff && eo < it->second.eoff + it->second.len)) ++n; }
				src_refs = std::max<u64>(src_refs, n);
				if (a1->slow_seen && i->kind == K_USER) violation("B13", "toxic-source", "extent known to be slow to resolve used as a dedupe source: " + what.str());
			}
			// the same data of a file replaced twice without looking at it again
			if (i->kind == K_USER && d->kind == K_USER) {
				std::lock_guard<std::mutex> l(imu); auto &v = replaced[q.tid]; ++replaced_checks;
				for (auto &x : v) if (x.root == d->root && x.ino == d->ino && x.b < dof + len && dof < x.e) violation("B15", "replaced-twice", "range replaced again by the next requests of the same worker: " + what.str());
			}
			e.rv = 0;
			u64 done = 0; int st = sim.dedupe(*i, so, len, *d, dof, done);
			f.status = st; f.bytes_deduped = done;
			if (st == 0 && i->kind == K_USER && d->kind == K_USER) { std::lock_guard<std::mutex> l(imu); replaced[q.tid].push_back({d->root, d->ino, dof, dof + len}); }
			if (st == 0) { ++dedupe_ok; dedupe_bytes += done; } else if (st == 1) ++dedupe_differs; else ++dedupe_err;
			e.rv = st; e.a2 = src_refs;
		}
		rep.assign(a, 0, sz);
		return;
	}
	case FICLONERANGE: {
		violation("B02", "clone", "clone request issued");
		fail(EOPNOTSUPP); return;
	}
	default:
		if (q.a[0] == BTRFS_IOC_DEFRAG_RANGE) violation("B02", "defrag", "defrag request issued");
		fail(ENOTTY); return;
	}
}

string Server::digest()
{
	// order of data-relevant events with thread numbers normalised by first appearance
	std::lock_guard<std::mutex> l(lmu);
	std::map<u64, u64> tn; u64 h = 1469598103934665603ULL;
	auto mix = [&](u64 x) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; };
	for (auto &e : log) {
		if (e.op != OP_IOCTL && e.op != OP_READ_POST && e.op != OP_WRITE_POST) continue;
		if (e.op == OP_IOCTL && e.code == BTRFS_IOC_TREE_SEARCH_V2 && e.a0 == 1) continue;
		auto t = tn.emplace(e.tid, tn.size()).first->second;
		mix(t); mix(e.op); mix(e.code); mix(e.root); mix(e.ino); mix(e.a0);
	}
	char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b;
}
