#ifndef FSIM_HARNESS_H
#define FSIM_HARNESS_H
#include "server.h"
#include <sstream>

struct Json {                          // minimal writer
	std::ostringstream os; bool first = true;
	static std::string q(const std::string &s);
};

struct Content;                        // deterministic data generator

struct Cfg {
	std::string bees, scratch, scenario, out;
	u64 seed = 1;
	std::map<std::string, std::string> opt;     // scenario options k=v
	std::string get(const std::string &k, const std::string &d = "") const { auto f = opt.find(k); return f == opt.end() ? d : f->second; }
	long num(const std::string &k, long d) const { auto f = opt.find(k); return f == opt.end() ? d : strtol(f->second.c_str(), nullptr, 0); }
};

class Harness {
public:
	Cfg &cfg;
	std::string dir, home, status_file, logf;
	std::unique_ptr<Sim> simp; std::unique_ptr<Server> srvp;
	Sim &sim; Server &srv;
	std::mt19937_64 rng;
	// daemon configuration
	int mode = 4; int workers = 4; std::string load_target; bool opt_a = false; int verbose = 7; double throttle = 0; bool rel_paths = false;
	u64 hash_size = 1 << 20;
	bool home_inside = false;
	std::map<std::string, std::string> env;
	std::vector<std::string> extra_args;
	std::vector<std::string> raw_args; bool use_raw = false, no_status = false;   // whole command line; status file not asked for
	std::string cwd;
	double time_scale = 1;             // slower variants (sanitizers)
	// state
	pid_t pid = -1; int boots = 0; bool reaped = true; int wstatus = 0;
	std::map<std::string, double> stat;   // numbers reported as evidence
	std::vector<std::string> notes;
	std::string inconclusive;
	double started;

	Harness(Cfg &c);
	~Harness();
	u64 rnd(u64 n) { return n ? rng() % n : 0; }
	bool chance(double p) { return (rng() >> 11) * (1.0 / 9007199254740992.0) < p; }

	void make_home();                  // state directory and hash table file
	void start();
	bool alive();
	bool reap(double timeout);         // true once the daemon is gone
	void kill9();
	void sig(int s);
	// Returns true when the daemon has nothing left to do
	bool wait_idle(double timeout, bool data_only = false);
	bool wait_until(double timeout, const std::function<bool()> &f);
	// SIGTERM and wait; reports B08/B16 if it crashed
	bool stop_clean(double timeout);
	void kick();                       // a change elsewhere in the filesystem: starts a new cycle
	void died(const std::string &where);  // classify an unexpected exit
	std::string log_tail(size_t n = 3000);
	std::string sanitizer_report();    // contents of sanitizer logs, "" if none
	void viol(const std::string &prop, const std::string &key, const std::string &msg) { srv.violation(prop, key, msg); }
	std::string status_text();
	std::map<std::string, u64> status_counters();  // from the status file
	std::string read_file(const std::string &p);
	void write_file(const std::string &p, const std::string &d);
	// --- end-state oracles
	void check_integrity(const std::string &when);           // B01, model self-check
	bool eligible(Inode &i);
	std::set<u64> partial_ids;          // extents referenced by differing ranges: the daemon may skip the rest once it meets a known block
	void note_partial();
	std::string hang_prop;                 // property that a failure to become idle counts against, once confirmed
	struct Cov { u64 blocks = 0, missed = 0, exts = 0, exts_missed = 0; std::string first; std::set<std::string> missed_ids; };
	bool cov_any = false; // one block read is enough: others can match what the hash table already knows
	Cov coverage(const std::function<bool(Ext &)> &filter = nullptr); // every referenced eligible block must have been read
	void cov_report(const std::string &prop, const std::string &when, const Cov &c);
	struct Dup { u64 contents = 0, dup_contents = 0, blocks = 0, extra = 0, zero_alloc = 0; std::string first; };
	Dup duplicates(const std::function<bool(Inode &, u64 off)> &consider = nullptr);
	void finish();                     // writes the result
	void common_end_checks();
private:
	std::thread committer; std::atomic<bool> quit{false};
public:
	std::atomic<int> commit_ms{100};
	std::atomic<bool> commit_pause{false};
	u64 kicks = 0; bool quiet = false;
};

typedef void (*ScenarioFn)(Harness &);
ScenarioFn find_scenario(const std::string &name);
#endif
