// L15: the number of workers follows the load target; L16: throttling.  The load average, the clock and
// all sleeps belong to the monitor.
#define MON_MAIN
#include "mon.h"
#include "crucible/task.h"
#include "crucible/error.h"
#include "crucible/time.h"
#include <cmath>
#include <getopt.h>
using namespace crucible; using namespace mon;
using std::max; using std::min;
extern std::atomic<int64_t> mon_clock_ns; extern std::atomic<double> mon_load; extern thread_local int mon_sleeper; extern thread_local int64_t mon_slept_ns;
u64 mon_rounds(); void mon_grant(); u64 mon_held(); void mon_let_go(bool);
int bees_real_main(int argc, char **argv);
void bees_throttle(double time_used, const char *context);

static const char *P1 = "L15", *P2 = "L16";
static double unit(Rng &r) { return (r.next() >> 11) * (1.0 / 9007199254740992.0); }

// the daemon's own start-up, up to the point where it finds that there is no such filesystem
static int boot(vector<string> a, const string &root)
{
	a.insert(a.begin(), "bees"); a.push_back(root);
	vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr);
	optind = 0;
	return bees_real_main((int)v.size() - 1, v.data());
}

// ---- L15
static size_t threads() { return TaskMaster::get_thread_count(); }
// one look of the tracker at the load; false if there is no tracker
static bool step()
{
	u64 a = 0;
	if (!wait_for(8, [&] { return (a = mon_rounds()) > 0; })) return false;
	mon_grant(); stat("steps"); ++progress();
	return wait_for(8, [&] { return mon_rounds() > a; });
}
// the count once it is the expected one, or after a while
static size_t within(size_t a, size_t b, double secs = 8) { wait_for(secs, [&] { size_t n = threads(); return n >= a && n <= b; }); return threads(); }

static void workers(Rng &r)
{
	const size_t M = r.range(1, 10), m = r.chance(0.4) ? 0 : r.range(0, M), hi = max(M, m);
	const double T = r.chance(0.3) ? 0.5 + unit(r) : 1 + unit(r) * 20;
	mon_load = unit(r) * T * 2;
	const bool by_options = r.chance(0.6);
	if (by_options) {
		char b[64]; snprintf(b, sizeof b, "%.9g", T);
		vector<string> o { r.chance(0.5) ? "-g" : "--loadavg-target", b, r.chance(0.5) ? "-c" : "--thread-count", S(M) };
		if (m || r.chance(0.3)) { o.push_back(r.chance(0.5) ? "-G" : "--thread-min"); o.push_back(S(m)); }
		else TaskMaster::set_thread_min_count(0);
		if (boot(o, g().scratch + "/nothing-here") == 0) viol(P1, "boot", "the daemon reports success although its filesystem does not exist");
		stat("boots");
	} else {
		switch (r(3)) {
		case 0: TaskMaster::set_thread_min_count(m); TaskMaster::set_loadavg_target(T); TaskMaster::set_thread_count(M); break;
		case 1: TaskMaster::set_loadavg_target(T); TaskMaster::set_thread_count(M); TaskMaster::set_thread_min_count(m); break;
		default: TaskMaster::set_thread_count(M); TaskMaster::set_thread_min_count(m); TaskMaster::set_loadavg_target(T); break;
		}
	}
	const string cfg = "max " + S(M) + ", min " + S(m) + ", target " + S(T);
	// work that keeps coming: every task that was requested runs if there is a worker
	std::atomic<u64> ran{0}; u64 asked = 0;
	auto ask = [&](int n) { for (int i = 0; i < n; ++i) { Task("w", [&ran] { ++ran; ++progress(); }).run(); ++asked; } };
	// this call looks at the load once more and returns when the workers that are to leave have left
	auto settled = [&] { TaskMaster::set_thread_min_count(m); return threads(); };
	auto bounds = [&](size_t n, const char *when) {
		if (n > hi) viol(P1, "too-many", S(n) + " workers " + when + ", " + cfg);
		if (n < min(m, M)) viol(P1, "too-few", S(n) + " workers " + when + ", " + cfg);
	};
	if (!step()) { viol(P1, "no-tracker", "nothing looks at the load although a target is set (" + cfg + ")"); write_out(); _exit(0); }
	bounds(within(min(m, M), hi), "after the first look at the load");
	for (int ph = 0, n = r.range(1, 5); ph < n && g().stat["violations"] < 1; ++ph) {
		switch (r(4)) {
		case 0: { // anything
			size_t prev = settled(); bounds(prev, "with a changing load");
			for (int i = 0, k = r.range(1, 12); i < k; ++i) {
				double L = max(0.0, r.chance(0.5) ? T + (unit(r) - 0.5) * 4 : unit(r) * 3 * T); mon_load = L; mix((u64)(L * 16)); ask(r(3));
				step(); size_t c = settled(); bounds(c, "with a changing load");
				if (L > T && c > prev) viol(P1, "rises-under-load", S(prev) + " workers became " + S(c) + " at load " + S(L) + ", " + cfg);
				if (L < T && c < prev) viol(P1, "falls-without-load", S(prev) + " workers became " + S(c) + " at load " + S(L) + ", " + cfg);
				prev = c; stat("loads");
			}
			break; }
		case 1: { // idle machine: all workers come back, and everything asked for runs
			double d = min(T, r.chance(0.5) ? 0.5 : 0.5 + unit(r) * T), L = T - d; mon_load = L; ask(r(20));
			int lim = (int)ceil(8 * (hi + 2) / d) + 12, i = 0;
			for (; i < lim; ++i) { step(); if (threads() == hi && i > 1) break; }
			size_t c = within(hi, hi); bounds(c, "with a low load");
			if (c != hi) viol(P1, "not-restored", S(c) + " workers after " + S(i) + " looks at a load of " + S(L) + ", " + cfg);
			else if (!wait_for(8, [&] { return ran == asked; })) viol(P1, "lost-request", S(asked - ran) + " requested tasks have not run although workers are back, " + cfg);
			mix(i); stat("restored"); break; }
		case 2: { // busy machine: down to the minimum
			double e = r.chance(0.5) ? 0.5 : 0.5 + unit(r) * 10, L = T + e; mon_load = L;
			int lim = (int)ceil(4 * (hi + 2) / e) + 12, i = 0;
			for (; i < lim; ++i) { step(); if (threads() == m && i > 1) break; }
			size_t c = within(m, m); bounds(c, "with a high load");
			if (c > m) viol(P1, "not-reduced", S(c) + " workers after " + S(i) + " looks at a load of " + S(L) + ", " + cfg);
			else {
				u64 a; wait_for(0.3, [&] { return ran == asked; }); a = ran;
				ask(5);
				if (!c) { usleep(3000); if (ran > a) viol(P1, "runs-without-worker", S(ran - a) + " tasks ran although the load took all workers away, " + cfg); stat("stopped"); }
				else if (!wait_for(8, [&] { return ran == asked; })) viol(P1, "lost-request", S(asked - ran) + " requested tasks have not run although the minimum of workers is left, " + cfg);
			}
			mix(i); stat("reduced"); break; }
		default: // the tasks keep running through pauses while the load changes
			TaskMaster::pause(true); mon_load = r.chance(0.5) ? 0 : T * 2; step(); ask(3);
			TaskMaster::pause(false); bounds(within(min(m, M), hi), "after a pause"); stat("pauses"); break;
		}
	}
	if (g().stat["violations"] >= 1) { write_out(); _exit(0); }
	// without a target there are exactly as many workers as configured
	TaskMaster::set_thread_min_count(0); mon_load = 100; TaskMaster::set_loadavg_target(0); TaskMaster::set_thread_count(M);
	if (threads() != M) viol(P1, "fixed-count", S(threads()) + " workers without a load target, " + S(M) + " configured");
	step();
	if (within(M, M) != M) viol(P1, "fixed-count", S(threads()) + " workers without a load target, " + S(M) + " configured");
	if (!wait_for(8, [&] { return ran == asked; })) viol(P1, "lost-request", S(asked - ran) + " requested tasks have not run");
	if (r.chance(0.3)) { bool t = false; try { TaskMaster::set_loadavg_target(-1 - unit(r)); } catch (const std::exception &) { t = true; } if (!t) viol(P1, "bad-target", "a negative load target is accepted"); TaskMaster::set_loadavg_target(0); }
	TaskMaster::set_thread_count(0);
	if (threads()) viol(P1, "fixed-count", "workers are left after set_thread_count(0)");
	stat("rounds");
}

// ---- L16
static double call(const string &ctx, double used) { mon_slept_ns = 0; bees_throttle(used, ctx.c_str()); ++progress(); return mon_slept_ns * 1e-9; }
static void adv(double s) { mon_clock_ns += (int64_t)(s * 1e9); }
static double vnow() { return mon_clock_ns * 1e-9 - 1e9; }

static void throttle(Rng &r)
{
	mon_sleeper = 1;
	static u64 serial = 0; const string base = "round" + S(++serial) + "-";
	const double F = r.chance(0.15) ? 0 : r.chance(0.3) ? 1 : r.chance(0.7) ? unit(r) * 12 : unit(r) * 300;
	char b[64]; snprintf(b, sizeof b, "%.17g", F);
	vector<string> o; if (F || r.chance(0.7)) { o = {"--throttle-factor", b}; } else { o = {"--throttle-factor=0"}; }
	o.push_back("-c1"); boot(o, g().scratch + "/nothing-here");
	const int nc = r.range(1, 4), kind = r(4);
	struct C { double sum = 0, lo = 1e300, hi = 0; u64 n = 0; }; vector<C> cs(nc);
	const double scale = pow(10, -3 + unit(r) * 4), same = unit(r) * scale + 1e-4;
	double t0 = vnow(); bool fresh = false;
	// the age of the data is measured by one timer: make it run out, in a context of its own, so that none of what follows is older than that
	if (r.chance(0.6)) { adv(61); call(base + "reset", 1e-9); t0 = vnow(); fresh = true; }
	for (int i = 0, n = r.range(20, 300); i < n; ++i) {
		C &c = cs[r(nc)]; const string ctx = base + S(&c - &cs[0]);
		double u = kind == 0 ? same : kind == 1 ? unit(r) * scale : r.chance(0.1) ? unit(r) * scale * 20 : unit(r) * scale;
		if (u < 1e-6) u = 1e-6;
		const double at = vnow() - t0;
		double s = call(ctx, u);
		c.sum += u; ++c.n; c.lo = min(c.lo, u); c.hi = max(c.hi, u);
		const string what = "factor " + S(F) + ", time used " + S(u) + ", call " + S(c.n) + " of this kind, which took " + S(c.lo) + ".." + S(c.hi) + " and on average " + S(c.sum / c.n) + ": delay " + S(s);
		const double tol = 1e-6 * (1 + F * c.hi);
		if (s > 60 + 1e-6) viol(P2, "too-long", "delayed by more than 60 s: " + what);
		if (F == 0 && s) viol(P2, "unasked", "delayed although throttling is off: " + what);
		if (s > max(0.0, F * c.hi - u) + tol) viol(P2, "above-average", "delayed past the average run time: " + what);
		if (s && s < min(60.0, F * c.lo - u) - tol) viol(P2, "below-average", "not delayed until the average run time: " + what);
		if (fresh && at < 59) {
			const double want = min(60.0, F * c.sum / c.n - u);
			if (c.sum > 2 && c.n > 2) {
				stat("exact");
				if (fabs(s - max(0.0, want)) > tol) viol(P2, want > s ? "below-average" : "above-average", "the operation is not delayed until the average run time: " + what);
			} else if (s && fabs(s - want) > tol) viol(P2, "above-average", "the operation is not delayed until the average run time: " + what);
		}
		stat("throttled"); if (s) stat("delayed"); mix((u64)(s * 1000));
		adv(u * unit(r)); if (r.chance(0.02)) adv(unit(r) * 100);
	}
	// the average follows a lasting change of the run time
	if (r.chance(0.5) && F > 1.5) {
		const string ctx = base + "change"; const double a = 0.2 + unit(r), z = a * (r.chance(0.5) ? 0.1 : 8);
		for (int i = 0; i < 200; ++i) { call(ctx, a); adv(1); }
		double s = 0; for (int i = 0; i < 3000; ++i) { adv(5 + z); s = call(ctx, z); }
		const double want = min(60.0, (F - 1) * z);
		if (fabs(s - want) > 0.05 * want + 1e-6) viol(P2, "stale-average", "after 3000 operations of " + S(z) + " s the delay is " + S(s) + " instead of " + S(want) + " (factor " + S(F) + ", " + S(a) + " s before)");
		stat("changes");
	}
	// a sleeping operation does not hold up others
	if (r.chance(0.5) && F > 1) {
		const string ctx = base + "sleeper"; call(ctx, 20); call(ctx, 20);
		mon_let_go(false); u64 h = mon_held(); std::thread a([&] { mon_sleeper = 2; bees_throttle(1e-3, ctx.c_str()); });
		if (!wait_for(8, [&] { return mon_held() > h; })) viol(P2, "below-average", "an operation much shorter than its average is not delayed");
		else {
			std::atomic<bool> done{false}; std::thread c([&] { mon_sleeper = 1; bees_throttle(1e-3, (base + "other").c_str()); bees_throttle(25, ctx.c_str()); done = true; });
			if (!wait_for(8, [&] { return done.load(); })) viol(P2, "too-long", "an operation is delayed for as long as another one sleeps");
			mon_let_go(true); c.join(); stat("sleepers");
		}
		mon_let_go(true); a.join();
	}
	stat("throttle_rounds");
}

void mon::run(Rng &r)
{
	const string part = opt("part", P1); const double secs = optn("secs", 5);
	watchdog(60, [] { std::ostringstream q; TaskMaster::print_workers(q); return q.str().substr(0, 800); });
	const double t0 = now();
	do { if (part == P1) workers(r); else throttle(r); ++progress(); } while (now() - t0 < secs && g().stat["violations"] < 1);
}
