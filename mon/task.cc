// L01, L02: monitors over the task queue, exclusions and barriers.
#define MON_MAIN
#include "mon.h"
#include "crucible/task.h"
#include "crucible/error.h"
using namespace crucible; using namespace mon;
using std::shared_ptr; using std::make_shared; using std::min;

static const char *P1 = "L01", *P2 = "L02";
// one monitored task
struct T {
	int ix; Task task; Rng r; std::function<void(T &)> body;
	std::atomic<int> in{0}; std::atomic<u64> begin{0}, end{0}, first{0}, req{0}, runs{0}; std::atomic<bool> destroyed{false};
	explicit T(int i, u64 seed) : ix(i), r(seed) {}
};
typedef shared_ptr<T> TP;
static void up(std::atomic<u64> &a, u64 v) { u64 o = a; while (o < v && !a.compare_exchange_weak(o, v)) {} }
static TP mk(int ix, Rng &r, std::function<void(T &)> body, bool keep = true) {
	auto t = make_shared<T>(ix, r.next()); t->body = body;
	T *p = t.get(); (void)p;
	auto w = t;   // the closure keeps the record, never the other way round unless keep
	Task k("t" + S(ix), [w] {
		T &t = *w; u64 b = tick(); ++progress();
		if (t.in.fetch_add(1) != 0) viol(P1, "self-overlap", "task " + S(t.ix) + " runs in two threads at once");
		if (!t.first) t.first = b;
		++t.runs; up(t.begin, b);
		Task c = Task::current_task();
		if (!c || c.title() != "t" + S(t.ix)) viol(P1, "current-task", "Task::current_task() in task t" + S(t.ix) + " is " + (c ? c.title() : string("empty")));
		t.body(t);
		t.in.fetch_sub(1); up(t.end, tick());
	});
	t->task = keep ? k : Task();
	if (!keep) { t->task = k; }
	return t;
}
// a record holds its task and the task's closure holds the record: break the cycle
static void drop(TP &t) { Task k; std::swap(k, t->task); t.reset(); }
static void request_run(T &t, bool idle = false) { up(t.req, tick()); if (idle) t.task.idle(); else t.task.run(); stat("requests"); }
static bool satisfied(vector<TP> &v) { for (auto &t : v) if (t->req && t->begin < t->req) return false; return true; }
static string unsat(vector<TP> &v) { std::ostringstream o; int n = 0; for (auto &t : v) if (t->req && t->begin < t->req && n++ < 3) o << " task " << t->ix << " requested at " << t->req << " last began at " << t->begin << " (" << t->runs << " executions);"; std::ostringstream q; TaskMaster::print_queue(q); TaskMaster::print_workers(q); return o.str() + " state: " + q.str().substr(0, 700); }
static bool idle_all(vector<TP> &v) { for (auto &t : v) if (t->in) return false; return true; }

// the end of a round: handles are gone, so every task left must run or be destroyed
static void finish_round(vector<TP> &all, const char *prop)
{
	if (g().stat["violations"] >= 1) { write_out(); _exit(0); }   // tasks may still refer to this round
	for (auto &t : all) if (t) drop(t);
	if (!wait_for(10, [] { return Task::instance_count() == 0; })) {
		std::ostringstream q; TaskMaster::print_queue(q); TaskMaster::print_workers(q);
		viol(prop, "task-leak", S(Task::instance_count()) + " tasks still exist after every handle was dropped: " + q.str().substr(0, 700));
		write_out(); _exit(0);
	}
	TaskMaster::set_thread_count(0);
	if (TaskMaster::get_thread_count()) viol(prop, "too-many-threads", "workers are left after set_thread_count(0)");
}

// ---- storm: many threads request, the worker count changes, pauses come and go
static void storm(Rng &r)
{
	const int n = r.range(2, 30), nreq = r.range(1, 5); const bool with_append = r.chance(0.5), ctl = r.chance(0.75), selfs = r.chance(0.5);
	const int half = with_append ? (n + 1) / 2 : n;
	vector<TP> v; std::atomic<bool> stop{false};
	for (int i = 0; i < n; ++i) v.push_back(nullptr);
	for (int i = 0; i < n; ++i) v[i] = mk(i, r, [&, i](T &t) {
		nap(t.r);
		if (stop) return;
		// several sources may request the same task from inside tasks
		if (selfs && t.r.chance(0.3)) { if (t.r.chance(0.5)) request_run(t, t.r.chance(0.4)); else { up(t.req, tick()); Task::current_task().append(Task::current_task()); stat("self_appends"); } }
		if (t.r.chance(0.2)) { T &u = *v[t.r(half)]; request_run(u, t.r.chance(0.3)); }
		if (with_append && i < half && t.r.chance(0.3)) { T &u = *v[half + t.r(n - half ? n - half : 1)]; up(u.req, tick()); if (t.r.chance(0.5)) Task::current_task().append(u.task); else Task::current_task().insert(u.task); stat("appends"); }
	});
	TaskMaster::set_thread_count(r.range(1, 8));
	vector<std::thread> th;
	for (int k = 0; k < nreq; ++k) th.emplace_back([&, s = r.next()] {
		Rng q(s); const int ops = q.range(20, 300);
		for (int o = 0; o < ops; ++o) {
			T &t = *v[q(half)];
			if (with_append && n > half && q.chance(0.25)) { // source before target: no cycles
				T &u = *v[half + q(n - half)]; up(u.req, tick());
				if (q.chance(0.5)) t.task.append(u.task); else t.task.insert(u.task);
				request_run(t); stat("appends");
			} else if (q.chance(0.1)) {
				// a task nobody keeps a handle to; what was chained to it runs once it is gone
				TP z = mk(1000 + o, q, [](T &t) { nap(t.r); }); T *zp = z.get(); (void)zp;
				T &u = *v[with_append && n > half ? half + q(n - half) : q(half)];
				up(u.req, tick()); z->task.append(u.task);
				if (q.chance(0.5)) z->task.run();
				drop(z); stat("transient");
			} else request_run(t, q.chance(0.2));
			nap(q);
		}
	});
	std::atomic<bool> cstop{false}; std::thread c;
	if (ctl) c = std::thread([&, s = r.next()] {
		Rng q(s); bool paused = false; int max = 8;
		while (!cstop) {
			switch (q(3)) {
			case 0: paused = !paused; TaskMaster::pause(paused); stat("pauses"); break;
			case 1: if (!paused) { max = q.range(0, 8); TaskMaster::set_thread_count(max); stat("thread_counts"); size_t got = TaskMaster::get_thread_count(); if (got > 8) viol(P1, "too-many-threads", "set_thread_count(" + S(max) + ") but " + S(got) + " threads"); } break;
			default: if (paused && q.chance(0.5)) { TaskMaster::pause(false); TaskMaster::pause(true); TaskMaster::pause(false); paused = false; stat("pauses", 2); } break;
			}
			usleep(q(3000));
		}
		// the last change is a resume, a larger count, or both
		if (q.chance(0.5)) { if (paused) TaskMaster::pause(false); TaskMaster::set_thread_count(q.range(1, 8)); }
		else { TaskMaster::set_thread_count(q.range(1, 8)); if (paused) TaskMaster::pause(false); else { TaskMaster::pause(true); usleep(q(200)); TaskMaster::pause(false); } }
	});
	for (auto &t : th) t.join();
	cstop = true; if (c.joinable()) c.join();
	stop = true;
	// with_append: targets may wait for a source that nobody asks to run any more; ask the sources
	if (!with_append || n == half) {
		if (!wait_for(8, [&] { return satisfied(v); })) viol(P1, "lost-request", "requested tasks have not run although nothing else is going on:" + unsat(v));
	} else {
		vector<TP> src(v.begin(), v.begin() + half);
		if (!wait_for(8, [&] { return satisfied(src); })) viol(P1, "lost-request", "requested tasks have not run although nothing else is going on:" + unsat(src));
		for (auto &t : src) t->task.run();
		if (!wait_for(8, [&] { return satisfied(v); })) viol(P1, "lost-append", "tasks chained to others have not run although those ran:" + unsat(v));
	}
	u64 ran = 0; for (auto &t : v) { ran += t->runs; mix(t->runs); }
	stat("executions", ran); stat("storms");
	if (!wait_for(8, [&] { return idle_all(v) && TaskMaster::get_queue_count() == 0; })) viol(P1, "queue-stuck", "tasks stay queued although nothing else is going on");
	if (r.chance(0.3)) {
		TaskMaster::set_thread_count(0);    // waits for the workers
		for (auto &t : v) if (t->in) viol(P1, "runs-without-worker", "task " + S(t->ix) + " is running after the worker count was set to 0");
		TaskMaster::set_thread_count(r.range(1, 4));
	}
	finish_round(v, P1);
}

// ---- chains: order of appended and inserted tasks, heads that run, are destroyed, or both
static void chains(Rng &r)
{
	TaskMaster::set_thread_count(r.range(1, 6));
	const bool ctl = r.chance(0.5); std::atomic<bool> cstop{false}; std::thread c;
	struct Ch { TP h; vector<TP> k; bool insert, runs, hold; };
	vector<Ch> cs; const int nc = r.range(1, 12);
	if (ctl) c = std::thread([&, s = r.next()] { Rng q(s); while (!cstop) { if (q.chance(0.5)) TaskMaster::set_thread_count(q.range(1, 6)); else { TaskMaster::pause(true); usleep(q(500)); TaskMaster::pause(false); } usleep(q(1500)); } });
	for (int i = 0; i < nc; ++i) {
		Ch ch; ch.insert = r.chance(0.4); ch.runs = r.chance(0.7); ch.hold = r.chance(0.4);
		ch.h = mk(10000 + i, r, [](T &t) { nap(t.r); nap(t.r); });
		const int m = r.range(1, 9);
		for (int j = 0; j < m; ++j) ch.k.push_back(mk(100 * i + j, r, [](T &t) { nap(t.r); }));
		vector<int> ord; for (int j = 0; j < m; ++j) ord.push_back(j);
		if (ch.insert) for (int j = m - 1; j > 0; --j) std::swap(ord[j], ord[r(j + 1)]);
		if (r.chance(0.2) && ch.runs && ch.hold) { request_run(*ch.h); }   // may already be running: chained tasks then run after that
		for (int j : ord) { ch.k[j]->req = tick(); if (ch.insert) ch.h->task.insert(ch.k[j]->task); else ch.h->task.append(ch.k[j]->task); }
		cs.push_back(ch);
	}
	for (auto &ch : cs) { if (ch.runs) { request_run(*ch.h); } nap(r); if (!ch.hold || !ch.runs) { Task k; std::swap(k, ch.h->task); } }
	vector<TP> all; for (auto &ch : cs) { if (ch.runs) all.push_back(ch.h); for (auto &t : ch.k) all.push_back(t); }
	if (!wait_for(8, [&] { return satisfied(all); })) viol(P1, "lost-append", "chained tasks have not run after their head ran or was destroyed:" + unsat(all));
	else {
		wait_for(8, [&] { for (auto &t : all) if (t->in || t->end < t->begin) return false; return true; });
		for (auto &ch : cs) {
			stat(ch.insert ? "inserted_chains" : "appended_chains");
			for (size_t j = 0; j < ch.k.size(); ++j) {
				T &t = *ch.k[j];
				if (t.runs != 1) viol(P1, "chained-count", "a chained task ran " + S(t.runs) + " times instead of once");
				if (ch.runs && ch.h->runs == 1 && t.first < ch.h->end) viol(P1, "chained-early", "a task chained to another began before it ended");
				if (!ch.runs && ch.h->runs) viol(P1, "ran-unrequested", "a task that was only destroyed ran");
				mix(t.first - ch.k[0]->first);
			}
			// order is promised within one release; a head that ran twice released its tasks in two portions
			if (!ch.runs || ch.h->runs == 1) for (size_t j = 1; j < ch.k.size(); ++j)
				if (ch.k[j]->first < ch.k[j - 1]->end) viol(P1, ch.insert ? "insert-order" : "append-order", "chained task " + S(j) + " began at " + S(ch.k[j]->first) + " before task " + S(j - 1) + " ended at " + S(ch.k[j - 1]->end) + (ch.runs ? " (head ran)" : " (head destroyed)"));
		}
	}
	cstop = true; if (c.joinable()) c.join(); TaskMaster::pause(false);
	all.clear(); for (auto &ch : cs) { all.push_back(ch.h); ch.h.reset(); for (auto &t : ch.k) all.push_back(t); ch.k.clear(); }
	finish_round(all, P1);
	stat("chain_rounds");
}

// ---- one worker: queue order, idle tasks last
static void single(Rng &r)
{
	TaskMaster::set_thread_count(1);
	vector<TP> main_q, idle_q; std::atomic<bool> go{false};
	TP gate = mk(9999, r, [&](T &) { while (!go) usleep(100); }); request_run(*gate);
	if (!wait_for(8, [&] { return gate->in.load() == 1; })) { viol(P1, "lost-request", "a single requested task does not start"); write_out(); _exit(0); }
	const int n = r.range(2, 25);
	// some tasks ask for themselves again while they run; others, chained to them, ask once more before that
	struct Self { int kind = 0; vector<TP> deps; u64 second = 0; }; std::map<int, Self> self; vector<TP> deps;
	for (int i = 0; i < n; ++i) {
		const bool id = r.chance(0.35); const int kind = r.chance(0.4) ? 1 + r(3) : 0;
		if (kind) self[i].kind = kind;
		Self *sf = kind ? &self[i] : nullptr;
		TP t = mk(i, r, [sf](T &t) {
			if (!sf) return;
			if (t.runs == 2) { sf->second = t.begin; return; }
			if (t.runs > 2) return;
			switch (sf->kind) {
			case 1: Task::current_task().run(); break;
			case 2: Task::current_task().idle(); break;
			default: Task::current_task().idle(); Task::current_task().run(); break;
			}
			stat("self_requests");
		});
		if (kind) for (int j = 0, m = r(4); j < m; ++j) {
			T *tp = t.get(); const bool ask = r.chance(0.5);
			TP d = mk(1000 + 10 * i + j, r, [tp, ask](T &) { if (ask) tp->task.run(); }); d->req = tick();
			t->task.append(d->task); sf->deps.push_back(d); deps.push_back(d);
			if (sf->kind == 2 && ask) sf->kind = 3;    // from now on it is not an idle request any more
		}
		request_run(*t, id);
		// asked again, in the other way: run() outweighs idle()
		if (id) idle_q.push_back(t); else { main_q.push_back(t); }
		if (r.chance(0.2)) request_run(*(id ? idle_q : main_q)[0], id);
	}
	for (auto &x : self) if (x.second.kind == 3 && x.second.deps.size() && r.chance(0.5)) stat("escalated");
	go = true;
	vector<TP> all(main_q); all.insert(all.end(), idle_q.begin(), idle_q.end());
	auto twice = [&] { for (auto &t : all) if (self.count(t->ix) && t->runs < 2) return false; return satisfied(all) && satisfied(deps); };
	if (!wait_for(8, twice)) viol(P1, "lost-request", "tasks have not run as often as they were asked to:" + unsat(all) + unsat(deps));
	else {
		usleep(500); wait_for(2, [] { return TaskMaster::get_queue_count() == 0; });
		TaskMaster::set_thread_count(0);
		u64 idle0 = ~0ull, main1 = 0; for (auto &t : idle_q) idle0 = min<u64>(idle0, t->first); for (auto &t : main_q) main1 = std::max<u64>(main1, t->first);
		for (size_t i = 0; i < all.size(); ++i) {
			auto sf = self.find(all[i]->ix); const u64 want = sf == self.end() ? 1 : 2;
			if (all[i]->runs != want) viol(P1, "merge", string(want == 1 ? "a task requested several times before it started" : "a task requested once before and several times since it started") + " ran " + S(all[i]->runs) + " times");
			if (i && all[i]->first < all[i - 1]->first) viol(P1, i < main_q.size() || i > main_q.size() ? "queue-order" : "idle-early", "with one worker, tasks did not run in the order they were queued (main queue first, then idle queue)");
			if (sf == self.end()) continue;
			if (sf->second.kind == 2 && sf->second.second < main1) viol(P1, "idle-early", "a task that asked to run when idle ran before tasks of the main queue");
			if (sf->second.kind != 2 && i < main_q.size() && sf->second.second > idle0) viol(P1, "queue-order", "a task that asked to run again ran after tasks that wait for an idle moment");
			for (size_t j = 0; j < sf->second.deps.size(); ++j) {
				T &d = *sf->second.deps[j];
				if (d.runs != 1) viol(P1, "chained-count", "a chained task ran " + S(d.runs) + " times instead of once");
				if (d.first < all[i]->first || (j && d.first < sf->second.deps[j - 1]->first)) viol(P1, "append-order", "chained tasks did not run after their head in the order they were chained");
			}
		}
	}
	deps.clear(); for (auto &x : self) for (auto &d : x.second.deps) all.push_back(d);
	for (auto &x : self) x.second.deps.clear();
	main_q.clear(); idle_q.clear(); all.push_back(gate); gate.reset(); finish_round(all, P1);
	stat("single_rounds");
}

// ---- exclusions
static void exclusions(Rng &r)
{
	const int nx = r.range(1, 5), n = r.range(2, 14); const bool nested = r.chance(0.6), keep = r.chance(0.6), ctl = r.chance(0.4);
	struct X { Exclusion e; std::atomic<int> holders{0}; u64 cell = 0; u64 entered = 0; };
	vector<std::unique_ptr<X>> xs; for (int i = 0; i < nx; ++i) xs.emplace_back(new X);
	vector<std::atomic<int>> work(n); vector<std::atomic<u64>> fails(n); std::atomic<u64> done{0}, refused{0}; u64 total = 0;
	for (auto &w : work) { int k = r.range(1, 25); w = k; total += k; }
	TaskMaster::set_thread_count(r.range(2, 8));
	vector<TP> v;
	for (int i = 0; i < n; ++i) v.push_back(mk(i, r, [&, i](T &t) {
		if (!work[i]) return;
		// the order of nested locks differs between tasks: nobody waits while holding, so that is allowed
		X &a = *xs[t.r(nx)]; X *b = nested && nx > 1 ? xs[t.r(nx)].get() : nullptr; if (b == &a) b = nullptr;
		auto la = a.e.try_lock(Task::current_task());
		if (!la) { ++refused; ++fails[i]; return; }
		if (a.holders.fetch_add(1)) viol(P2, "exclusion-overlap", "two tasks hold the same exclusion");
		++a.entered; nap(t.r);
		bool again = false;
		if (b) {
			auto lb = b->e.try_lock(Task::current_task());
			if (!lb) { ++refused; ++fails[i]; again = true; }
			else {
				if (b->holders.fetch_add(1)) viol(P2, "exclusion-overlap", "two tasks hold the same exclusion");
				++b->cell; nap(t.r);
				b->holders.fetch_sub(1);
				if (t.r.chance(0.5)) { lb.release(); if (lb) viol(P2, "released-still-held", "a released lock says it is held"); }
			}
		}
		a.holders.fetch_sub(1);
		if (t.r.chance(0.3)) la.release();
		if (again) return;       // being refused is the only way this task is asked to run again
		++done;
		if (--work[i]) { up(t.req, tick()); Task::current_task().run(); }
	}));
	for (auto &t : v) t->task.run();
	if (!keep) for (auto &t : v) { Task k; std::swap(k, t->task); }
	std::atomic<bool> cstop{false}; std::thread c;
	if (ctl) c = std::thread([&, s = r.next()] { Rng q(s); while (!cstop) { TaskMaster::set_thread_count(q.range(1, 8)); usleep(q(2000)); } });
	if (!wait_for(10, [&] { return done == total; })) {
		std::ostringstream o; for (int i = 0; i < n; ++i) if (work[i]) o << " task " << i << " has " << work[i] << " left after " << fails[i] << " refusals;";
		std::ostringstream q; TaskMaster::print_queue(q); TaskMaster::print_workers(q);
		viol(P2, "lost-waiter", "tasks that were refused an exclusion were never run again (" + S(done) + " of " + S(total) + " done):" + o.str() + (keep ? " handles kept " : " handles dropped ") + q.str().substr(0, 600));
	}
	cstop = true; if (c.joinable()) c.join();
	for (auto &x : xs) { u64 d = x->entered; mix(d); }
	stat("exclusion_rounds"); stat("locks", done); stat("refused", refused);
	finish_round(v, P2);
	for (auto &x : xs) { auto l = x->e.try_lock(Task("probe", [] {})); if (!l) viol(P2, "not-released", "an exclusion is still held although every task is done"); }
}

// ---- barriers
static void barriers(Rng &r)
{
	TaskMaster::set_thread_count(r.range(1, 6));
	const int nb = r.range(1, 8);
	struct B { vector<TP> w; vector<std::unique_ptr<Barrier>> copies; std::atomic<u64> last{0}; std::atomic<int> left{0}; };
	vector<std::unique_ptr<B>> bs; vector<TP> all;
	vector<std::pair<B *, Barrier *>> rel;
	for (int i = 0; i < nb; ++i) {
		auto b = std::make_unique<B>(); B *bp = b.get();
		Barrier base; const int m = r.range(0, 6), h = r.range(1, 5);
		for (int j = 0; j < m; ++j) { TP t = mk(100 * i + j, r, [bp](T &t) { if (bp->left) viol(P2, "barrier-early", "a task waiting at a barrier runs although a holder has not released it"); nap(t.r); }); t->req = tick(); b->w.push_back(t); all.push_back(t); if (r.chance(0.3)) base.insert_task(t->task); else { Barrier c2 = base; c2.insert_task(t->task); if (r.chance(0.3)) c2.insert_task(t->task); } }
		b->left = h;
		for (int k = 0; k < h; ++k) b->copies.emplace_back(new Barrier(base));
		base.release();
		for (auto &c : b->copies) rel.push_back({bp, c.release()});
		bs.push_back(std::move(b));
	}
	for (size_t i = rel.size(); i > 1; --i) std::swap(rel[i - 1], rel[r(i)]);
	usleep(r(2000));
	for (auto &t : all) if (t->runs) viol(P2, "barrier-early", "a task waiting at a barrier ran before any holder released it");
	const int nt = r.range(1, 4); vector<std::thread> th; std::atomic<size_t> nx{0};
	for (int k = 0; k < nt; ++k) th.emplace_back([&, s = r.next()] { Rng q(s); for (size_t i; (i = nx++) < rel.size();) { nap(q); rel[i].first->left.fetch_sub(1); if (q.chance(0.5)) rel[i].second->release(); delete rel[i].second; } });
	for (auto &t : th) t.join();
	if (!wait_for(8, [&] { for (auto &t : all) if (!t->runs) return false; return true; })) viol(P2, "barrier-lost", "tasks waiting at a barrier have not run although every holder released it");
	usleep(1000);
	wait_for(2, [] { return TaskMaster::get_queue_count() == 0; });
	for (auto &t : all) { if (t->runs > 1) viol(P2, "barrier-twice", "a task waiting at a barrier ran " + S(t->runs) + " times"); mix(t->first); }
	stat("barrier_rounds"); stat("barrier_tasks", all.size());
	for (auto &b : bs) b->w.clear();
	finish_round(all, P2);
}

static void cancel_round(Rng &r)
{
	TaskMaster::set_thread_count(r.range(1, 4));
	std::atomic<int> running{0}; vector<TP> v; std::atomic<bool> go{false};
	for (int i = 0; i < 12; ++i) v.push_back(mk(i, r, [&](T &) { ++running; while (!go) usleep(200); }));
	for (auto &t : v) t->task.run();
	wait_for(4, [&] { return running > 0; });
	TaskMaster::cancel(); u64 c = tick();
	usleep(500);
	for (int i = 0; i < 4; ++i) { TP t = mk(50 + i, r, [](T &) {}); t->task.run(); v.push_back(t); }
	go = true;
	TaskMaster::set_thread_count(0);
	usleep(2000);
	for (auto &t : v) { if (t->in) viol(P1, "runs-without-worker", "a task is still running after cancel and set_thread_count(0)"); if (t->ix >= 50 && t->runs) viol(P1, "ran-after-cancel", "a task requested after cancel() ran"); }
	(void)c; stat("cancel_rounds");
	for (auto &t : v) drop(t);
}

void mon::run(Rng &r)
{
	const string part = opt("part", "L01"); const double secs = optn("secs", 6);
	watchdog(40, [] { std::ostringstream q; TaskMaster::print_queue(q); TaskMaster::print_workers(q); return q.str().substr(0, 800); });
	const double t0 = now();
	do {
		delays(r.chance(0.5) ? r.range(1, 60) : 0);
		if (part == "L02") { if (r.chance(0.7)) exclusions(r); else barriers(r); }
		else switch (r(5)) { case 0: case 1: storm(r); break; case 2: case 3: chains(r); break; default: single(r); }
		++progress();
	} while (now() - t0 < secs && g().stat["violations"] < 1);
	delays(0);
	if (part == "L01" && g().stat["violations"] < 1) cancel_round(r);
}
