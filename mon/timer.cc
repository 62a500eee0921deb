// L08: rate limiter, rate estimator and timer, on a clock the monitor controls.
#define MON_MAIN
#include "mon.h"
#include "crucible/time.h"
#include <cmath>
using namespace crucible; using namespace mon;
using std::atomic; using std::max; using std::min;
extern std::atomic<int64_t> mon_clock_ns, mon_slept_ns; extern std::atomic<u64> mon_sleeps;
static double vnow() { return (mon_clock_ns - 1000000000000000000ll) * 1e-9; }
static void adv(double s) { mon_clock_ns += (int64_t)llround(s * 1e9); }
static double some(Rng &r, double hi) { double x = (r.next() >> 11) * (1.0 / 9007199254740992.0); return r.chance(0.5) ? x * hi : pow(10, -6 + x * (log10(hi) + 6)); }

static void limiter(Rng &r)
{
	const double rate = some(r, 1e7) + 1e-3, burst = r.chance(0.2) ? 0 : r.chance(0.5) ? rate : some(r, rate * 10);
	const bool steps_back = r.chance(0.3);
	RateLimiter l(rate, burst);
	// strict: refill up to the burst first, then pay.  The limiter may be more generous (it lets the
	// time before a request pay for it), never less.
	double strict = 0, last = vnow(), high = vnow(); struct A { double req, adm, cost; }; vector<A> log; double pending = 0;
	for (int i = 0, n = r.range(20, 200); i < n; ++i) {
		if (r.chance(0.6)) adv(some(r, 30.0)); else if (r.chance(0.1)) adv(some(r, 1e5));
		if (steps_back && r.chance(0.05)) { adv(-some(r, 4000)); stat("clock_steps_back"); }
		const int op = r(4); double t = vnow();
		// with a clock that is set back, time counts between the moments the limiter looks at it
		if (!steps_back || op) { strict = min(burst, strict + max(0.0, t - last) * rate); last = t; }
		double cost = r.chance(0.1) ? 0 : some(r, rate * 5);
		const double eps = 1e-6 + 1e-9 * fabs(strict) / rate + 2e-9 * (i + 1);
		switch (op) {
		case 0: l.borrow(cost); strict -= cost; pending += cost; break;
		case 1: { bool rd = l.is_ready(); if (!rd && strict >= eps * rate) viol("L08", "not-ready", "is_ready() is false although nothing is owed (rate " + S(rate) + ", burst " + S(burst) + ", " + S(strict) + " available)"); break; }
		case 2: { double s = l.sleep_time(cost); strict -= cost; double need = max(0.0, -strict / rate);
			if (s > need + eps) viol("L08", "waits-too-long", "a request of " + S(cost) + " at rate " + S(rate) + " burst " + S(burst) + " is told to wait " + S(s) + " s, " + S(need) + " s are enough" + (steps_back ? " (the clock was set back before)" : ""));
			if (s < 0) viol("L08", "negative", "negative waiting time");
			if (!steps_back) log.push_back({t, t + s, cost}); break; }
		default: { int64_t s0 = mon_slept_ns; l.sleep_for(cost); strict -= cost; double s = (mon_slept_ns - s0) * 1e-9, need = max(0.0, -strict / rate);
			if (s > need + eps) viol("L08", "waits-too-long", "a request of " + S(cost) + " at rate " + S(rate) + " waited " + S(s) + " s, " + S(need) + " s are enough" + (steps_back ? " (the clock was set back before)" : ""));
			if (!steps_back) log.push_back({t, vnow(), cost}); break; }
		}
		stat("steps");
	}
	(void)high; (void)pending;
	// what was asked for after s and admitted before t
	for (size_t a = 0; a < log.size(); ++a) { double sum = 0, e = log[a].req, first = log[a].cost;
		for (size_t b = a; b < log.size(); ++b) { sum += log[b].cost; e = max(e, log[b].adm);
			double lim = burst + rate * (e - log[a].req) + first;
			if (sum > lim * (1 + 1e-6) + rate * 1e-6) { viol("L08", "rate-exceeded", S(sum) + " units were admitted within " + S(e - log[a].req) + " s at rate " + S(rate) + " and burst " + S(burst)); return; } stat("windows"); } }
	mix((u64)(strict * 1000)); stat("limiters");
}
static void limiter_threads(Rng &r)
{
	const double rate = 1000; RateLimiter l(rate, 10); const int n = r.range(2, 6), m = r.range(50, 300); vector<std::thread> th;
	for (int k = 0; k < n; ++k) th.emplace_back([&, s = r.next()] { Rng q(s); for (int i = 0; i < m; ++i) { if (q.chance(0.5)) l.borrow(1); else l.sleep_time(1); if (q.chance(0.2)) l.is_ready(); } });
	for (auto &t : th) t.join();
	double s = l.sleep_time(0), want = n * m / rate; if (fabs(s - want) > 1e-6) viol("L08", "lost-borrow", "after " + S(n * m) + " units were borrowed at once at rate 1000 the wait is " + S(s) + " s, not " + S(want));
	adv(want + 0.001); if (!l.is_ready()) viol("L08", "not-repaid", "borrowed units are not repaid in time");
	if (n * m / rate > 0.01) { l.borrow(5000); if (l.is_ready()) viol("L08", "borrow-ignored", "borrowing has no effect"); }
	stat("limiter_threads");
}
static void estimator(Rng &r)
{
	const double mn = 0.001 + some(r, 2), mx = mn + 1 + some(r, 4000); RateEstimator e(mn, mx); const bool steps = r.chance(0.3);
	u64 count = r(1000); bool first = true; double lo = 1e300, hi = 0; int64_t lastns = mon_clock_ns;
	if (r.chance(0.5)) { e.update(count); first = false; } else adv(some(r, 100));
	const double per = r.chance(0.3) ? mn + some(r, mx - mn) : 0; u64 prev = count;
	for (int i = 0, n = r.range(10, 200); i < n; ++i) {
		double dt = per ? per : some(r, 100); if (r.chance(0.1) && !per) dt = 0;
		if (steps && r.chance(0.05)) { dt = -some(r, 1000); stat("clock_steps_back"); }
		adv(dt); u64 inc = per ? 1 : r(20); u64 want;
		switch (per ? 0 : r(4)) {
		case 0: want = first ? count : count + inc; e.update(want); break;
		case 1: want = first ? count : count + inc; e.update_monotonic(want); break;
		case 2: if (first) { e.update(count); want = count; } else { want = count + inc; e.increment(inc); } break;
		default: { u64 back = first ? count : count - min<u64>(count, r(5)); e.update_monotonic(back); want = first ? back : max(count, back); break; }
		}
		if (e.count() != want) { viol("L08", "count", "the count is " + S(e.count()) + ", last given " + S(want)); return; }
		int64_t now_ = mon_clock_ns; double d = max<int64_t>(0, now_ - lastns) * 1e-9; lastns = now_;
		u64 add = first ? 0 : want - min(want, count); first = false; prev = count; count = want;
		if (d > 0) { lo = min(lo, add / d); hi = max(hi, add / d); } else if (add) hi = 1e300;
		auto raw = e.raw();
		if (raw.second > 0 && !steps) { double x = raw.first / raw.second; if (x > hi * (1 + 1e-6) + 1e-9 || x < lo * (1 - 1e-6) - 1e-9) viol("L08", "rate-range", "the rate is " + S(x) + " but the observed rates are between " + S(lo) + " and " + S(hi)); }
		double rt = e.rate(); if (rt > 1 / mn * (1 + 1e-9) || rt < 1 / mx * (1 - 1e-9)) viol("L08", "rate-limits", "rate " + S(rt) + " is outside the configured limits");
		double p = 0; for (u64 k : {0, 1, 5, 1000, 1000000}) { double x = e.duration(k).count(); if (x < mn * (1 - 1e-9) || x > mx * (1 + 1e-9)) viol("L08", "duration-limits", "duration(" + S(k) + ") = " + S(x) + " is outside " + S(mn) + ".." + S(mx)); if (x < p) viol("L08", "duration-order", "duration() decreases"); p = x; double y = e.seconds_for(k), z = e.seconds_until(count + k); if (y < mn * (1 - 1e-9) || y > mx * (1 + 1e-9)) viol("L08", "duration-limits", "seconds_for(" + S(k) + ") = " + S(y)); if (!steps && fabs(y - z) > 1e-6) viol("L08", "seconds", "seconds_for and seconds_until disagree");
			// the time left counts from the last update; the clock does not move here
			if (!steps) { const double w = min(mx, max(mn, x - 0.0)); if (fabs(y - w) > 1e-6 * (1 + w)) viol("L08", "seconds", S(k) + " units take " + S(x) + " s but seconds_for says " + S(y) + " right after an update"); } }
		if (!steps && r.chance(0.2)) { const double a = some(r, 20); mon_clock_ns += (int64_t)llround(a * 1e9); const int64_t un = lastns; const double age = (mon_clock_ns - un) * 1e-9;
			for (u64 k : {1, 7, 300, 100000}) { const double x = e.duration(k).count(), w = min(mx, max(mn, x - age)), y = e.seconds_for(k), z = e.seconds_until(count + k); if (fabs(y - w) > 1e-6 * (1 + w) || fabs(z - w) > 1e-6 * (1 + w)) viol("L08", "seconds", S(age) + " s after the last update, " + S(k) + " more units that take " + S(x) + " s are due in " + S(y) + " s (or " + S(z) + "), expected " + S(w)); }
			if (e.seconds_until(count - min<u64>(count, 3)) > mn * (1 + 1e-6)) viol("L08", "seconds", "a count that was already reached is still due");
			mon_clock_ns = un; stat("ages"); }
		if (per && i > 5 && lo > 0 && raw.second > 1.1 && raw.first > 1.1 && fabs(rt - 1 / per) > 1e-3 / per && lo == hi) viol("L08", "steady-rate", "one unit every " + S(per) + " s is estimated as " + S(rt) + " per second");
		stat("steps");
	}
	(void)prev; mix(count); stat("estimators");
}
static void waiters(Rng &r)
{
	RateEstimator e(0.01, 100); u64 base = r(100); e.update(base); const int n = r.range(1, 6); const u64 up = r.range(1, 60); const bool steps = r.chance(0.4); const bool rel = false;   // a relative target depends on when the waiter gets going
	vector<std::thread> th; vector<atomic<u64>> target(n); vector<atomic<int>> state(n); atomic<u64> given{base};
	for (int k = 0; k < n; ++k) { target[k] = base + r.range(0, up); state[k] = 0; }
	for (int k = 0; k < n; ++k) th.emplace_back([&, k, rel_ = rel && k == 0, rounds = r.range(1, 3)] { (void)rounds; state[k] = 1; if (rel_) { e.wait_for(target[k] - base); } else e.wait_until(target[k]); if (given < target[k]) viol("L08", "woken-early", "a waiter for " + S(target[k].load()) + " returned at count " + S(given.load())); state[k] = 2; ++progress(); });
	// all are waiting before the count moves
	for (int k = 0; k < n; ++k) while (!state[k]) usleep(50);
	usleep(300);
	bool rel_started = true; (void)rel_started;
	u64 c = base; double backs = 0;
	while (c < base + up) { u64 inc = 1 + r(3); c += inc; if (r.chance(0.5)) adv(some(r, 5)); if (steps && r.chance(0.3)) { adv(-some(r, 100)); ++backs; } given = c; switch (r(3)) { case 0: e.update(c); break; case 1: e.update_monotonic(c); break; default: e.increment(inc); } if (r.chance(0.3)) usleep(r(200)); }
	if (!wait_for(4, [&] { for (auto &s : state) if (s != 2) return false; return true; })) {
		string w; for (int k = 0; k < n; ++k) if (state[k] != 2) w += " " + S(target[k].load());
		viol("L08", "not-woken", "the count reached " + S(c) + " but waiters for" + w + " are still waiting" + (backs ? " (the clock was set back " + S(backs) + " times)" : " (the clock did not always move between updates)"));
		write_out(); _exit(0);
	}
	for (auto &t : th) t.join();
	// counts given by several threads
	vector<std::thread> t2; const int m = r.range(10, 200); u64 c0 = e.count(); for (int k = 0; k < n; ++k) t2.emplace_back([&] { for (int i = 0; i < m; ++i) e.increment(1); }); for (auto &t : t2) t.join();
	if (e.count() != c0 + n * m) viol("L08", "lost-increment", S(n * m) + " increments moved the count by " + S(e.count() - c0));
	stat("waiters", n); stat("waiter_rounds"); mix(c);
}
// the state of one thread: asleep for a while without being run in between
static bool asleep(int tid)
{
	auto look = [&] { string st = "?", sw; char b[256]; snprintf(b, sizeof b, "/proc/self/task/%d/status", tid); if (FILE *f = fopen(b, "r")) { while (fgets(b, sizeof b, f)) { if (!strncmp(b, "State:", 6)) st = b; if (strstr(b, "ctxt_switches")) sw += b; } fclose(f); } return st.find('S', 6) != string::npos ? sw : string(); };
	string a = look(); if (a.empty()) return false;
	for (int i = 0; i < 5; ++i) { usleep(1000); if (look() != a) return false; }
	return true;
}
// relative waits, and counts that go backwards
static void wait_rel(Rng &r)
{
	RateEstimator e(0.01, 100); const u64 base = r.chance(0.3) ? 0 : r(100), n = r.range(1, 12); const bool back = base > 2 && r.chance(0.4); e.update(base);
	atomic<u64> given{base}, seen{0}; atomic<int> st{0}, tid{0}; std::thread t([&] { tid = ::gettid(); st = 1; e.wait_for(n); seen = given.load(); st = 2; ++progress(); });
	while (!st) usleep(50);
	bool in = false; for (int i = 0; i < 40 && !in; ++i) in = asleep(tid);
	if (back && in) {
		given = base - 1; e.update(base - 1);
		if (!wait_for(6, [&] { return st == 2; })) viol("L08", "not-woken", "a waiter still waits after the count went backwards");
		stat("backwards");
	} else {
		for (u64 c = base + 1; c <= base + n; ++c) { if (c == base + n && in) { usleep(r(2000)); if (st == 2) viol("L08", "woken-early", "a waiter for " + S(n) + " more units returned after " + S(c - 1 - base)); } given = c; if (r.chance(0.5)) adv(0.1); e.increment(1); }
		if (in && !wait_for(6, [&] { return st == 2; })) viol("L08", "not-woken", "a waiter for " + S(n) + " more units from " + S(base) + " still waits at " + S(base + n));
		if (in) stat("relative_waits");
	}
	for (u64 c = given; st != 2; usleep(200)) { c += n + 1; e.update(c); }
	t.join(); mix(base * 100 + n);
}
static void basics(Rng &r)
{
	Timer t; double a = some(r, 1000); adv(a); if (fabs(t.age() - a) > 1e-6) viol("L08", "timer", "age is " + S(t.age()) + " after " + S(a)); double b = t.lap(); if (fabs(b - a) > 1e-6 || t.age() != 0) viol("L08", "timer", "lap"); adv(a); t.reset(); if (t.age() != 0) viol("L08", "timer", "reset");
	for (double s : {some(r, 1), some(r, 100), 1.0 - 1e-9 * r(3), (double)r(5), some(r, 1e6)}) { int64_t s0 = mon_slept_ns; crucible::nanosleep(s); double d = (mon_slept_ns - s0) * 1e-9; if (fabs(d - s) > 2e-9 + s * 1e-12) viol("L08", "nanosleep", "asked to sleep " + S(s) + " s, slept " + S(d)); }
	{ int64_t s0 = mon_slept_ns; crucible::nanosleep(0); crucible::nanosleep(-some(r, 5)); if (mon_slept_ns != s0) viol("L08", "nanosleep", "slept for zero or negative time"); }
	stat("basics");
}
void mon::run(Rng &r)
{
	const double secs = optn("secs", 5), t0 = mon::now(); watchdog(30);
	do { mon_clock_ns = 1000000000000000000ll; switch (r(8)) { case 0: case 1: case 2: limiter(r); break; case 3: limiter_threads(r); break; case 4: case 5: estimator(r); break; case 6: if (r.chance(0.5)) wait_rel(r); else waiters(r); break; default: basics(r); } ++progress(); stat("rounds"); } while (mon::now() - t0 < secs && g().stat["violations"] < 1);
}
