// The simulated kernel's front end: serves the shim, records every call,
// runs the online monitors, injects faults, delays, holds and crashes.
#ifndef FSIM_SERVER_H
#define FSIM_SERVER_H
#include "sim.h"
#include <chrono>

double now_s();

struct Ev {
	double t; u64 tid; u32 op; u64 code; int boot;
	u64 root, ino; int kind; u64 a0, a1, a2; int64_t rv; u64 root2, ino2, b0;
	std::string str() const;
};

struct Rule {                         // matches calls before they are performed
	u32 op = 0;                   // *_PRE op, or OP_IOCTL etc
	u64 code = 0;                 // ioctl request when op == OP_IOCTL (0 = any)
	int kind = -1;                // Kind filter, -1 any
	std::string name;             // home file name filter (substring), empty any
	u64 root = 0, ino = 0;        // inode filter
	double prob = 1.0;
	int64_t skip = 0;             // ignore the first n matches
	int64_t count = 1 << 30;      // act at most n times
	// action
	int err = 0;                  // fail with errno
	u64 shorten = 0;              // short transfer: at most this many bytes (1 = random)
	u64 delay_us = 0;             // sleep (random up to this) outside locks
	bool kill = false;            // SIGKILL the daemon
	bool hold = false;            // block until released
	std::function<void(const Ev &)> hook; // called outside locks, before the call is performed
	bool post = false;            // run at POST / after the ioctl was performed, before the reply
	// state
	int64_t seen = 0, hits = 0; int64_t waiting = 0; bool released = false;
	int id = 0;
};

struct HomeFile {
	u64 miss_lo = 0, miss_hi = 0;      // range asked to be written but not written
	std::string name;             // current name in the state directory, "" once unlinked
	bool unsynced = false, failed = false;
	std::string why;              // what failed
	u64 size = 0;
	std::string content;          // as written through the shim
	u64 writes = 0, fsyncs = 0;
};

struct Violation { std::string prop, key, msg; };

class Server {
public:
	Sim &sim;
	std::string sock;
	// --- configuration
	std::string release = "6.8.0-sim";
	bool fs_magic_btrfs = true;       // f_type reported inside the simulated filesystem
	bool home_magic_btrfs = true;     // f_type reported for the state directory
	double loadavg = -1;              // <0: real
	bool have_openat2 = true;
	bool workaround_send = false;     // daemon runs with -a
	u64 ref_limit = 9999;
	u64 toxic_usec = 5000000;
	bool single_worker = false; u64 already_shared_mt = 0;
	bool expect_stable = false;       // nobody modifies files: enables the strict futile-request monitor
	bool serial_delay = false;

	Server(Sim &s, const std::string &sock_path);
	~Server();
	void set_child(pid_t p, int boot) { std::lock_guard<std::mutex> l(cfg); child = p; boot_no = boot; }
	void set_home(const std::string &dir);  // real path of the state directory
	int add_rule(const Rule &r);
	void release_rule(int id);
	void clear_rules();
	u64 total_hits() { std::lock_guard<std::mutex> l(cfg); u64 n = 0; for (auto &r : rules) n += r.hits; return n; }
	int64_t rule_hits(int id), rule_waiting(int id), rule_seen(int id);

	void violation(const std::string &prop, const std::string &key, const std::string &msg);
	void log_ev(Ev &e);
	std::vector<Violation> viol;
	std::set<std::string> viol_keys;
	std::mutex vmu;

	// --- observations
	std::mutex lmu;                   // protects the log and totals
	std::deque<Ev> log; size_t log_cap = 400000;
	u64 total_events = 0;
	std::map<std::string, u64> count;  // by event class
	std::atomic<double> last_activity{0}, last_data_activity{0};
	std::atomic<u64> polls{0};
	std::atomic<u64> polls_at_activity{0};
	std::atomic<int> inflight_total{0}, held_total{0};
	std::atomic<u64> dedupe_ok{0}, dedupe_differs{0}, dedupe_err{0}, dedupe_bytes{0}, dedupe_calls{0};
	std::atomic<u64> logical_calls{0}, tmp_write_bytes{0}, user_read_bytes{0}, user_read_calls{0}, tmp_read_bytes{0};
	std::atomic<u64> max_dedupe_inflight{0}, max_logical_inflight{0};
	std::atomic<u64> overlap_checks{0};
	std::atomic<int> exit_code{-1000};
	std::map<Ident *, int> dummy;
	struct Repl { u64 root, ino, b, e; };
	std::map<u64, std::vector<Repl>> replaced; std::atomic<u64> replaced_checks{0}, tmp_uses{0};
	std::map<u64, u64> tmp_owner;                      // temporary file inode -> thread
	void tmp_use(u64 tid, const IP &i, const char *how);
	std::map<std::pair<u64,u64>, HomeFile> home_files;
	std::map<std::string, std::vector<std::string>> home_versions; // complete versions renamed into place
	std::map<std::string, std::vector<std::string>> home_attempts; // versions whose rename was attempted
	// concurrency of work on data, by thread
	std::mutex bmu; std::map<u64, int> busy; std::atomic<u64> max_busy{0}; u64 busy_samples = 0; u64 busy_limit = 0;
	void busy_inc(u64 tid); void busy_dec(u64 tid);
	std::set<std::string> tids_reading;   // not used for verdicts
	std::function<void(const std::string &name, const std::string &content)> on_home_rename;
	std::set<std::pair<u64,u64>> intended_checked;
	u64 root_fd_checks = 0, wrong_root_opened = 0;
	u64 intended_ok = 0, intended_bad_closed = 0;
	std::map<std::string,u64> sizes_seen;
	Ident home_id{0, 0};

	void reset_boot();                // between daemon runs: forget per-process state
	bool home_needs_fsync() const;
	std::mutex &imu_pub() { return imu; }
	std::string digest();             // fingerprint of the order of events: counts distinct interleavings
	u64 seed_rand();
private:
	std::mutex cfg;
	pid_t child = -1; int boot_no = 0;
	int lfd = -1;
	std::thread acceptor;
	std::atomic<bool> stopping{false};
	std::vector<std::thread> workers;
	std::set<int> conns;
	std::mutex cmu;
	std::deque<Rule> rules; int next_rule = 1;
	std::condition_variable rule_cv;
	int logical_inflight = 0; int dedupe_inflight = 0; std::multiset<std::pair<u64,u64>> dedupe_dst;
	std::map<u64, std::pair<u64,u64>> last_paths;            // tid -> (root, ino) asked for
	std::map<u64, std::pair<u64,u64>> fd_intended;           // fd number -> intended (root, ino)
	std::map<u64, std::set<u64>> root_wanted;                // tid -> subvolumes asked for
	std::set<u64> root_unwanted;                             // descriptors of subvolumes nobody asked for
	std::mutex imu;

	void accept_loop();
	void serve(int fd);
	void handle(const ReqHdr &q, const std::string &pay, RepHdr &r, std::string &rep);
	bool apply_rules(bool post, u32 op, u64 code, const IP &i, const std::string &hname, const Ev &e, RepHdr &r);
	void do_ioctl(const ReqHdr &q, const std::string &pay, RepHdr &r, std::string &rep, Ev &e, const IP &i);
	void activity(bool data);
	HomeFile *home_of(const Ident &id);
	void kill_child();
	void check_use(const ReqHdr &q, const IP &i, const char *what, u64 fd);
	void check_home_rename(const std::string &from, const std::string &to);
};
#endif
