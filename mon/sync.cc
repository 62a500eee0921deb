// L03-L07: progress tracker, locks, function cache, named pointers and file handles, pools.
#define MON_MAIN
#include "mon.h"
#include "crucible/progress.h"
#include "crucible/lockset.h"
#include "crucible/multilock.h"
#include "crucible/cache.h"
#include "crucible/namedptr.h"
#include "crucible/pool.h"
#include "crucible/fd.h"
#include <fcntl.h>
#include <sys/stat.h>
using namespace crucible; using namespace mon;
using std::shared_ptr; using std::make_shared; using std::atomic;

template <class F> static void threads(Rng &r, int n, F f) {
	vector<std::thread> th; atomic<int> ready{0};
	for (int k = 0; k < n; ++k) th.emplace_back([&, k, s = r.next()] { Rng q(s); ++ready; while (ready < n) std::this_thread::yield(); f(k, q); ++progress(); });
	for (auto &t : th) t.join();
}

// ================================================================ L03
static void progress_model(Rng &r)
{
	// one thread, exact model
	const u64 init = r(50); ProgressTracker<u64> pt(init); typedef ProgressTracker<u64>::ProgressHolder H;
	vector<std::pair<u64, H>> held; u64 mx = init, b = init; const bool inorder = r.chance(0.4), dups = r.chance(0.5); u64 nxt = init;
	for (int i = 0, n = r.range(20, 300); i < n; ++i) {
		if (r.chance(0.5) || held.empty()) {
			u64 v = inorder ? (nxt += r(dups ? 2 : 3) + (dups ? 0 : 1)) : r(dups ? 12 : 1000000);
			H h = pt.hold(v);
			if (h->get() != v) viol("L03", "value", "hold(" + S(v) + ") holds " + S(h->get()));
			held.push_back({v, h}); mx = std::max(mx, v); if (r.chance(0.2)) { H copy = h; held.push_back({v, copy}); }
		} else { size_t k = r(held.size()); held.erase(held.begin() + k); }
		u64 want = mx; for (auto &x : held) want = std::min(want, x.first);
		if (pt.begin() != want) { viol("L03", "begin", "begin is " + S(pt.begin()) + ", smallest held " + S(want) + " (largest recorded " + S(mx) + ", " + S(held.size()) + " handles)"); return; }
		if (pt.end() != mx) { viol("L03", "end", "end is " + S(pt.end()) + ", largest recorded " + S(mx)); return; }
		if (inorder && pt.begin() < b) { viol("L03", "backwards", "begin moved from " + S(b) + " to " + S(pt.begin()) + " although positions are recorded in order"); return; }
		b = pt.begin(); stat("steps");
	}
	// a tracker may go before its holders
	if (r.chance(0.3)) { auto p2 = std::make_unique<ProgressTracker<u64>>(1); auto h = p2->hold(5); p2.reset(); h.reset(); }
	mix(b * 31 + mx); stat("models");
}
static void progress_threads(Rng &r)
{
	const bool inorder = r.chance(0.6); const u64 init = 5; ProgressTracker<u64> pt(init);
	const int n = r.range(2, 8); struct Slot { atomic<u64> v{0}, gen{0}; }; vector<Slot> slots(n * 4);
	atomic<u64> recorded{init}, requested{init}; std::mutex alloc; u64 nxt = init; atomic<int> left{n};
	auto up = [](atomic<u64> &a, u64 v) { u64 o = a; while (o < v && !a.compare_exchange_weak(o, v)) {} };
	threads(r, n + 2, [&](int k, Rng &q) {
		if (k >= n) { // observers
			u64 pb = 0, pe = 0;
			while (left) {
				vector<std::pair<u64, u64>> before; for (auto &s : slots) { u64 g = s.gen, v = s.v; before.push_back({g, v}); }
				u64 rec = recorded; u64 b = pt.begin(), e = pt.end(); u64 req = requested;
				for (size_t i = 0; i < slots.size(); ++i) if (before[i].second && slots[i].v == before[i].second && slots[i].gen == before[i].first && b > before[i].second && slots[i].gen == before[i].first)
					viol("L03", "begin-past-held", "begin is " + S(b) + " while " + S(before[i].second) + " is held");
				if (e < rec) viol("L03", "end", "end is " + S(e) + " after " + S(rec) + " was recorded");
				if (e > req) viol("L03", "end", "end is " + S(e) + " but nothing beyond " + S(req) + " was recorded");
				if (e < pe) viol("L03", "end-backwards", "end moved back from " + S(pe) + " to " + S(e));
				if (inorder && b < pb) viol("L03", "backwards", "begin moved back from " + S(pb) + " to " + S(b) + " although positions are recorded in order");
				if (inorder && b > e) viol("L03", "begin-past-end", "begin " + S(b) + " is past end " + S(e));
				pb = b; pe = e; stat("observations");
			}
			return;
		}
		vector<std::pair<ProgressTracker<u64>::ProgressHolder, Slot *>> mine;
		for (int i = 0, m = q.range(50, 400); i < m; ++i) {
			if (mine.size() < 4 && (mine.empty() || q.chance(0.5))) {
				Slot *s = nullptr; for (int j = 0; j < 4; ++j) if (!slots[k * 4 + j].v) { s = &slots[k * 4 + j]; break; }
				u64 v; ProgressTracker<u64>::ProgressHolder h;
				if (inorder) { std::lock_guard<std::mutex> l(alloc); v = nxt += q(3); up(requested, v); h = pt.hold(v); }
				else { v = 1 + q(100000); up(requested, v); h = pt.hold(v); }
				up(recorded, v); ++s->gen; s->v = v; mine.push_back({h, s});
			} else {
				size_t j = q(mine.size()); Slot *s = mine[j].second; s->v = 0; ++s->gen; mine.erase(mine.begin() + j);
			}
			nap(q);
		}
		for (auto &x : mine) { x.second->v = 0; ++x.second->gen; }
		mine.clear(); --left;
	});
	if (pt.begin() != recorded || pt.end() != recorded) viol("L03", "final", "everything is released but begin is " + S(pt.begin()) + ", end " + S(pt.end()) + ", largest recorded " + S(recorded.load()));
	mix(recorded); stat("thread_rounds");
}

// ================================================================ L04
static void lockset_threads(Rng &r)
{
	const int n = r.range(2, 8), keys = r.range(1, 6); const size_t mx = r.chance(0.6) ? r.range(1, 6) : 1000;
	LockSet<string> ls; ls.max_size(mx); vector<atomic<int>> holders(keys); atomic<int> total{0}; vector<u64> cell(keys), want(keys); atomic<u64> n_locks{0}; vector<atomic<u64>> done(keys);
	for (auto &h : holders) h = 0;
	for (auto &d : done) d = 0;
	threads(r, n, [&](int, Rng &q) {
		for (int i = 0, m = q.range(50, 500); i < m; ++i) {
			int k = q(keys); string key = "k" + S(k); int how = q(4); bool got = true;
			auto enter = [&] {
				if (holders[k].fetch_add(1)) viol("L04", "two-holders", "two threads hold key " + key);
				if ((size_t)(total.fetch_add(1) + 1) > mx) viol("L04", "too-many", "more than " + S(mx) + " keys are held");
				++cell[k]; ++done[k]; nap(q);
				if (q.chance(0.1)) { auto c = ls.copy(); if (!c.count(key)) viol("L04", "held-not-listed", "a held key is missing from the set"); else if (c[key] != ::gettid()) viol("L04", "wrong-owner", "a held key is listed for another thread"); if (c.size() > mx) viol("L04", "too-many", "the set lists " + S(c.size()) + " keys, limit " + S(mx)); }
				total.fetch_sub(1); holders[k].fetch_sub(1); ++n_locks;
			};
			switch (how) {
			case 0: ls.lock(key); enter(); ls.unlock(key); break;
			case 1: got = ls.try_lock(key); if (got) { enter(); ls.unlock(key); } break;
			case 2: { auto h = ls.make_lock(key); enter(); if (q.chance(0.5)) { h.unlock(); if (q.chance(0.5)) h.unlock(); if (q.chance(0.4)) { h.lock(); enter(); } } break; }
			default: { auto h = ls.make_lock(key, false); if (h.try_lock()) { enter(); if (q.chance(0.3)) { auto h2 = h; h2.unlock(); if (h.try_lock()) enter(); } } break; }
			}
			++progress();
		}
	});
	for (int k = 0; k < keys; ++k) if (cell[k] != done[k]) viol("L04", "lost-update", "updates made under a key's lock were lost");
	if (!ls.empty() || ls.size()) viol("L04", "left-locked", "keys are still held after everyone released");
	for (int k = 0; k < keys; ++k) { if (!ls.try_lock("k" + S(k))) viol("L04", "left-locked", "a released key cannot be locked"); else ls.unlock("k" + S(k)); mix(cell[k]); }
	bool threw = false; try { ls.unlock("never"); } catch (std::exception &) { threw = true; } if (!threw) viol("L04", "unlock-unheld", "unlocking a key that is not held is not reported");
	stat("locks", n_locks); stat("lockset_rounds");
}
// who may proceed does proceed, however long others keep what they hold
static void lock_waiters(Rng &r)
{
	struct W { int k = 0; atomic<bool> in{false}, leave{false}; std::thread t; };
	const bool multi = r.chance(0.4); vector<std::unique_ptr<W>> ws; const int nw = r.range(2, 6);
	auto bad = [&](const char *key, const string &m) { viol("L04", key, m); write_out(); _exit(0); };
	if (multi) {
		const int holders = r.range(1, 3); vector<decltype(MultiLocker::get_lock(""))> hs; for (int i = 0; i < holders; ++i) hs.push_back(MultiLocker::get_lock("held"));
		for (int i = 0; i < nw; ++i) { ws.emplace_back(new W); W *w = ws.back().get(); w->t = std::thread([w] { auto h = MultiLocker::get_lock("wanted"); w->in = true; ++progress(); while (!w->leave) usleep(200); }); }
		usleep(r(8000));
		for (auto &w : ws) if (w->in) bad("class-overlap", "a waiter got in although another class is held");
		while (!hs.empty()) hs.pop_back();
		if (!wait_for(8, [&] { for (auto &w : ws) if (!w->in) return false; return true; })) { int in = 0; for (auto &w : ws) in += w->in; bad("not-woken", S(in) + " of " + S(nw) + " waiters for one class hold it after every other holder left"); }
		for (auto &w : ws) { w->leave = true; w->t.join(); }
		stat("class_waiters", nw);
	} else {
		const int keys = r.range(2, 5); LockSet<string> ls; const bool full = r.chance(0.4); if (full) ls.max_size(keys);
		vector<bool> held(keys, true); for (int k = 0; k < keys; ++k) ls.lock("k" + S(k));
		for (int i = 0; i < nw; ++i) { ws.emplace_back(new W); W *w = ws.back().get(); w->k = full ? keys + i : r(keys); w->t = std::thread([w, &ls] { ls.lock("k" + S(w->k)); w->in = true; ++progress(); while (!w->leave) usleep(200); ls.unlock("k" + S(w->k)); }); if (r.chance(0.5)) usleep(r(2000)); }
		usleep(r(8000));
		for (auto &w : ws) if (w->in) bad(full ? "too-many" : "two-holders", "a waiter got in although nothing was released");
		vector<int> ord; for (int k = 0; k < keys; ++k) ord.push_back(k);
		for (int k = keys - 1; k > 0; --k) std::swap(ord[k], ord[r(k + 1)]);
		for (int k : ord) {
			vector<W *> c; for (auto &w : ws) if (!w->in && (full || w->k == k)) c.push_back(w.get());
			ls.unlock("k" + S(k));
			if (!c.empty() && !wait_for(8, [&] { for (auto *w : c) if (w->in) return true; return false; })) bad("not-woken", "key " + S(k) + " was released and nobody of " + S(c.size()) + " waiters got " + (full ? "the free place" : "it") + " while other keys stay held");
			if (r.chance(0.5)) for (auto *w : c) if (w->in) w->leave = true;
		}
		for (auto &w : ws) w->leave = true;
		for (auto &w : ws) w->t.join();
		if (!ls.empty()) bad("left-locked", "keys are still held after everyone released");
		stat("key_waiters", nw);
	}
	for (auto &w : ws) mix(w->k);
	stat("waiter_rounds");
}
static void multilock_threads(Rng &r)
{
	const int n = r.range(2, 8), classes = r.range(1, 4); vector<atomic<int>> in(classes); for (auto &x : in) x = 0; atomic<u64> got{0}, shared{0};
	threads(r, n, [&](int, Rng &q) {
		for (int i = 0, m = q.range(30, 300); i < m; ++i) {
			int c = q(classes); { auto h = MultiLocker::get_lock("c" + S(c)); if (!h) { viol("L04", "no-lock", "no handle although locking is enabled"); continue; }
				if (in[c].fetch_add(1)) ++shared;
				for (int d = 0; d < classes; ++d) if (d != c && in[d]) viol("L04", "class-overlap", "holders of two classes overlap");
				nap(q);
				for (int d = 0; d < classes; ++d) if (d != c && in[d]) viol("L04", "class-overlap", "holders of two classes overlap");
				in[c].fetch_sub(1); ++got; if (q.chance(0.2)) { auto h2 = h; h.reset(); nap(q); } }
			++progress(); if (q.chance(0.3)) nap(q);
		}
	});
	// free again: another class gets through, and two holders of one class may overlap
	for (int c = 0; c < classes; ++c) { atomic<int> ok{0}; auto t = std::thread([&] { auto h = MultiLocker::get_lock("c" + S(c)); auto t2 = std::thread([&] { auto h2 = MultiLocker::get_lock("c" + S(c)); ok = 1; }); t2.join(); }); if (!wait_for(8, [&] { return ok == 1; })) { viol("L04", "not-shared", "a second holder of the same class does not get the lock, or the lock was not released"); write_out(); _exit(0); } t.join(); }
	MultiLocker::enable_locking(false); { auto a = MultiLocker::get_lock("x"), b = MultiLocker::get_lock("y"); (void)a; (void)b; } MultiLocker::enable_locking(true);
	stat("locks", got); stat("shared_holds", shared); stat("multilock_rounds"); mix(got);
}

// ================================================================ L05
struct Boom { int k; };
struct CV { int a, b; u64 serial; };
static void cache_model(Rng &r)
{
	u64 serial = 0; int calls = 0; bool fail = false; const size_t cap = r.range(1, 12);
	LRUCache<CV, int, int> c([&](int a, int b) -> CV { ++calls; if (fail) throw Boom{a}; return CV{a, b, ++serial}; }, cap);
	std::list<std::pair<int, int>> lru; std::map<std::pair<int, int>, u64> val; size_t lim = cap;
	auto touch = [&](std::pair<int, int> k) { lru.remove(k); lru.push_back(k); };
	for (int i = 0, n = r.range(50, 500); i < n; ++i) {
		std::pair<int, int> k(r(5), r(4)); int before = calls; bool in = val.count(k);
		switch (r(8)) {
		case 0: c.expire(k.first, k.second); lru.remove(k); val.erase(k); break;
		case 1: if (r.chance(0.1)) { c.clear(); lru.clear(); val.clear(); } break;
		case 2: if (r.chance(0.2)) { lim = r.range(1, 12); c.max_size(lim); while (val.size() >= lim && !lru.empty()) { val.erase(lru.front()); lru.pop_front(); } } break;
		case 3: { fail = true; bool threw = false; try { CV v = c(k.first, k.second); if (!in) viol("L05", "exception-lost", "the function threw but the lookup returned"); else if (v.serial != val[k]) viol("L05", "stale", "wrong cached value"); } catch (Boom &b) { threw = true; if (b.k != k.first) viol("L05", "exception", "wrong exception"); }
			fail = false; if (threw && in) viol("L05", "recomputed", "a cached value was computed again"); if (in) touch(k); break; }
		case 4: { CV v = c.refresh(k.first, k.second); if (calls != before + 1) viol("L05", "refresh", "refresh did not compute the value again"); lru.remove(k); val.erase(k); while (val.size() >= lim && !lru.empty()) { val.erase(lru.front()); lru.pop_front(); } val[k] = v.serial; lru.push_back(k); if (v.a != k.first || v.b != k.second) viol("L05", "wrong-key", "value of another key"); break; }
		case 5: { CV x{k.first, k.second, ++serial}; c.insert(x, k.first, k.second); if (!in) { while (val.size() >= lim && !lru.empty()) { val.erase(lru.front()); lru.pop_front(); } val[k] = x.serial; lru.push_back(k); } else touch(k); break; }
		default: { CV v = c(k.first, k.second);
			if (v.a != k.first || v.b != k.second) viol("L05", "wrong-key", "lookup of " + S(k.first) + "," + S(k.second) + " returned the value of " + S(v.a) + "," + S(v.b));
			if (in) { if (calls != before) viol("L05", "recomputed", "a cached value was computed again (size " + S(val.size()) + " of " + S(lim) + ")"); else if (v.serial != val[k]) viol("L05", "stale", "lookup returned an earlier value of the key"); touch(k); }
			else { if (calls != before + 1) viol("L05", "not-recomputed", "a value that was expired, cleared or evicted was " + S(calls > before ? "computed more than once" : "returned without computing it")); while (val.size() >= lim && !lru.empty()) { val.erase(lru.front()); lru.pop_front(); } val[k] = v.serial; lru.push_back(k); } }
		}
		if (c.size() != val.size()) { viol("L05", "size", "the cache holds " + S(c.size()) + " entries, expected " + S(val.size()) + " (limit " + S(lim) + ")"); return; }
		stat("steps"); if (g().stat["violations"] >= 3) return;
	}
	mix(serial * 7 + calls); stat("models");
}
static void cache_threads(Rng &r)
{
	const int n = r.range(2, 8), keys = r.range(1, 30); const size_t cap = r.chance(0.5) ? r.range(1, 10) : 100; const bool expire = r.chance(0.5), fails = r.chance(0.3);
	vector<atomic<int>> busy(keys); vector<atomic<u64>> calls(keys); for (auto &b : busy) b = 0; for (auto &x : calls) x = 0; atomic<u64> serial{0}, exc{0}, lookups{0};
	LRUCache<CV, int, int> c([&](int a, int b) -> CV {
		if (busy[a].fetch_add(1)) viol("L05", "concurrent-compute", "the function runs twice at once for one key");
		thread_local Rng q(g().clock.fetch_add(1)); nap(q); u64 s = ++serial; ++calls[a]; bool f = fails && q.chance(0.2); busy[a].fetch_sub(1);
		if (f) throw Boom{a};
		return CV{a, b, s};
	}, cap);
	atomic<size_t> lim{cap};
	threads(r, n, [&](int, Rng &q) {
		for (int i = 0, m = q.range(50, 500); i < m; ++i) {
			int k = q(keys); u64 dice = q(20);
			if (expire && dice == 0) c.expire(k, k + 1); else if (expire && dice == 1 && q.chance(0.2)) c.clear();
			else try { CV v = expire && dice == 2 ? c.refresh(k, k + 1) : c(k, k + 1); ++lookups; if (v.a != k || v.b != k + 1) viol("L05", "wrong-key", "lookup of key " + S(k) + " returned the value of key " + S(v.a)); } catch (Boom &b) { ++exc; if (b.k != k) viol("L05", "exception", "a lookup got the exception of another key"); }
			size_t s = c.size(); if (s > std::max<size_t>(1, lim)) viol("L05", "size", "the cache holds " + S(s) + " entries, limit " + S(lim));
			++progress();
		}
	});
	if (!expire && !fails && (size_t)keys < cap) for (auto &x : calls) if (x > 1) viol("L05", "recomputed", "a value was computed " + S(x.load()) + " times although nothing was expired or evicted");
	for (int k = 0; k < keys && fails; ++k) for (int t = 0; t < 40; ++t) { try { c(k, k + 1); break; } catch (Boom &) { if (t == 39) viol("L05", "exception", "a key stays unusable after an exception"); } }
	if (g().stat["violations"] == 0) { u64 b = 0; for (auto &x : calls) b += x; mix(b); stat("computed", b); }
	stat("lookups", lookups); stat("exceptions", exc); stat("thread_rounds");
}

// ================================================================ L06
struct Obj { int key; u64 id; atomic<int> users{0}; atomic<bool> dead{false}; static atomic<long> live; Obj(int k, u64 i) : key(k), id(i) { ++live; } ~Obj() { if (users) viol("L06", "destroyed-in-use", "an object was destroyed while a handle to it exists"); dead = true; --live; } };
atomic<long> Obj::live{0};
static void named_threads(Rng &r)
{
	const int n = r.range(2, 8), keys = r.range(1, 6); const bool fails = r.chance(0.3); atomic<u64> serial{0}, lookups{0}, fresh{0}; vector<atomic<int>> busy(keys); for (auto &b : busy) b = 0;
	long base = Obj::live;
	{
		NamedPtr<Obj, int> np([&](int k) -> shared_ptr<Obj> { if (busy[k].fetch_add(1)) viol("L06", "concurrent-create", "two objects are created for one name at once"); thread_local Rng q(g().clock.fetch_add(1)); nap(q); bool f = fails && q.chance(0.15); auto o = make_shared<Obj>(k, ++serial); busy[k].fetch_sub(1); if (f) throw Boom{k}; return o; });
		struct Reg { std::mutex m; Obj *o = nullptr; int n = 0; }; vector<Reg> reg(keys);
		threads(r, n, [&](int, Rng &q) {
			vector<shared_ptr<Obj>> mine;
			auto give = [&](size_t j) { auto o = mine[j]; mine.erase(mine.begin() + j); Reg &g = reg[o->key]; std::lock_guard<std::mutex> l(g.m); o->users.fetch_sub(1); if (--g.n == 0) g.o = nullptr; };
			for (int i = 0, m = q.range(50, 500); i < m; ++i) {
				if (mine.size() < 4 && q.chance(0.5)) {
					int k = q(keys); shared_ptr<Obj> o;
					try { if (q.chance(0.1)) { auto x = make_shared<Obj>(k, ++serial); o = np.insert(x, k); } else o = np(k); } catch (Boom &b) { if (b.k != k) viol("L06", "exception", "a lookup got the exception of another name"); continue; }
					++lookups;
					if (!o) { viol("L06", "null", "lookup returned nothing"); continue; }
					if (o->key != k) viol("L06", "wrong-key", "lookup returned the object of another name");
					if (o->dead) viol("L06", "dead", "lookup returned a destroyed object");
					Reg &g = reg[k]; { std::lock_guard<std::mutex> l(g.m); o->users.fetch_add(1);
						if (g.n && g.o != o.get()) viol("L06", "two-objects", "two objects with one name are in use at once"); else if (!g.n) { g.o = o.get(); ++fresh; } ++g.n; }
					mine.push_back(o);
				} else if (!mine.empty()) give(q(mine.size()));
				if (q.chance(0.3)) nap(q);
				++progress();
			}
			while (!mine.empty()) give(0);
		});
		if (Obj::live != base) viol("L06", "leak", S(Obj::live - base) + " objects are alive although every handle was dropped");
		u64 s0 = serial; for (int k = 0; k < keys; ++k) { for (int t = 0; t < 60; ++t) try { auto o = np(k); if (o->id <= s0) viol("L06", "stale", "a lookup after the last handle was dropped returned the old object"); auto o2 = np(k); if (o2 != o) viol("L06", "two-objects", "two lookups while a handle is held returned different objects"); break; } catch (Boom &) {} }
		// a handle outlives the container
		for (int t = 0; t < 60; ++t) try { auto p2 = std::make_unique<NamedPtr<Obj, int>>([&](int k) { return make_shared<Obj>(k, ++serial); }); auto o = (*p2)(3); p2.reset(); if (o->dead) viol("L06", "dead", "an object died with its container although a handle exists"); break; } catch (Boom &) {}
	}
	if (Obj::live != base) viol("L06", "leak", S(Obj::live - base) + " objects are left at the end");
	stat("lookups", lookups); stat("objects", serial); stat("named_rounds"); mix(serial);
}
extern "C" { extern atomic<u64> mon_closes __attribute__((weak)); extern atomic<int> mon_bad_close __attribute__((weak)); }
static bool fdshim() { return &mon_closes != nullptr; }
static void fd_threads(Rng &r)
{
	// every descriptor belongs to one file; its number must keep meaning that file while a handle lives
	const int n = r.range(2, 8); atomic<u64> opened{0}; u64 c0 = fdshim() ? mon_closes.load() : 0;
	struct stat zs; const string dir = g().scratch; (void)zs;
	auto fds = [] { int c = 0; for (int i = 0; i < 1024; ++i) if (fcntl(i, F_GETFD) >= 0) ++c; return c; };
	const int before = fds(); std::mutex sm; vector<std::pair<Fd, ino_t>> shared;
	threads(r, n, [&](int k, Rng &q) {
		vector<std::pair<Fd, ino_t>> mine; string p = dir + "/f" + S(k); { FILE *f = fopen(p.c_str(), "w"); if (f) fclose(f); } struct stat s0; ::stat(p.c_str(), &s0);
		auto check = [&](const std::pair<Fd, ino_t> &x) { struct stat s; if (fstat(x.first, &s) < 0) viol("L06", "closed-in-use", "a descriptor with a live handle is closed"); else if (s.st_ino != x.second) viol("L06", "closed-in-use", "a descriptor with a live handle refers to another file"); };
		for (int i = 0, m = q.range(40, 250); i < m; ++i) {
			switch (q(6)) {
			case 0: case 1: { int f = ::open(p.c_str(), O_RDWR); if (f < 0) break; ++opened; mine.push_back({Fd(f), s0.st_ino}); break; }
			case 2: if (!mine.empty()) { auto x = mine[q(mine.size())]; mine.push_back(x); } break;                       // copy
			case 3: if (!mine.empty()) { auto &x = mine[q(mine.size())]; Fd again(int(x.first)); check({again, x.second}); if (int(again) != int(x.first)) viol("L06", "fd-value", "two handles for one descriptor disagree"); } break;  // same number, same handle
			case 4: { std::lock_guard<std::mutex> l(sm); if (!mine.empty()) { shared.push_back(mine.back()); } if (shared.size() > 3) { auto x = shared[q(shared.size())]; shared.erase(shared.begin() + q(shared.size())); mine.push_back(x); } break; }
			default: if (!mine.empty()) { size_t j = q(mine.size()); check(mine[j]); if (q.chance(0.3)) mine[j].first = -1; mine.erase(mine.begin() + j); } break;
			}
			if (!mine.empty() && q.chance(0.3)) check(mine[q(mine.size())]);
			++progress();
		}
		for (auto &x : mine) check(x);
	});
	shared.clear();
	const int after = fds();
	if (after != before) viol("L06", "fd-count", S(before) + " descriptors were open before and " + S(after) + " after every handle was dropped");
	if (fdshim()) { u64 cl = mon_closes - c0; if (cl != opened) viol("L06", "close-count", S(opened.load()) + " descriptors were owned, close was called " + S(cl) + " times"); if (mon_bad_close) viol("L06", "double-close", "a descriptor that is not open was closed"); stat("closes", cl); }
	Fd none; if (!!none || int(none) >= 0) viol("L06", "fd-value", "an empty handle claims a descriptor");
	stat("opened", opened); stat("fd_rounds"); mix(opened);
}

// ================================================================ L07
struct PO { atomic<int> owner{0}; bool clean = true; atomic<int> ins{0}, outs{0}; static atomic<long> live; PO() { ++live; } ~PO() { if (owner) viol("L07", "freed-in-use", "a lent object was destroyed"); --live; } };
atomic<long> PO::live{0};
static void pool_threads(Rng &r)
{
	const int n = r.range(2, 8); atomic<u64> made{0}, uses{0}, in{0}, out{0}; const bool cin = r.chance(0.7), cout_ = r.chance(0.7), fails = r.chance(0.3), destroy = r.chance(0.5); long base = PO::live;
	auto pool = std::make_unique<Pool<PO>>([&] { ++made; thread_local Rng q(g().clock.fetch_add(1)); if (fails && q.chance(0.1)) throw Boom{0}; nap(q); return make_shared<PO>(); });
	if (cin) pool->checkin([&](shared_ptr<PO> p) { ++in; ++p->ins; if (p->owner) viol("L07", "checkin-in-use", "an object is checked in while its user holds it"); p->clean = true; });
	if (cout_) pool->checkout([&](shared_ptr<PO> p) { ++out; ++p->outs; if (p->owner) viol("L07", "lent-twice", "an object that is in use is checked out"); });
	std::mutex km; vector<shared_ptr<PO>> kept;
	threads(r, n, [&](int k, Rng &q) {
		vector<shared_ptr<PO>> mine;
		auto give = [&](size_t j) { auto p = mine[j]; mine.erase(mine.begin() + j); if (!cin) p->clean = true; int e = k + 1; if (!p->owner.compare_exchange_strong(e, 0)) viol("L07", "lent-twice", "an object changed hands while in use"); if (q.chance(0.3)) { auto c = p; p.reset(); nap(q); } };
		for (int i = 0, m = q.range(40, 400); i < m; ++i) {
			if (mine.size() < 3 && q.chance(0.55)) {
				shared_ptr<PO> p; try { p = (*pool)(); } catch (Boom &) { continue; }
				++uses; int e = 0; if (!p->owner.compare_exchange_strong(e, k + 1)) viol("L07", "lent-twice", "an object was lent to two users at once");
				if (!p->clean) viol("L07", "not-reset", "an object was lent again without being checked in");
				if (cin && cout_ && p->outs != p->ins + 1) viol("L07", "checkin-count", "an object was checked out " + S(p->outs) + " times and in " + S(p->ins) + " times");
				p->clean = false; mine.push_back(p);
			} else if (!mine.empty()) give(q(mine.size()));
			if (q.chance(0.02)) { pool->clear(); stat("clears"); }
			if (q.chance(0.3)) nap(q);
			++progress();
		}
		if (destroy && q.chance(0.5)) { std::lock_guard<std::mutex> l(km); for (auto &p : mine) { kept.push_back(p); } }
		else while (!mine.empty()) give(0);
	});
	size_t lent = kept.size();
	if (cin && cout_ && in + lent != out) viol("L07", "checkin-count", S(out.load()) + " checkouts, " + S(in.load()) + " checkins, " + S(lent) + " still lent");
	if (destroy) { pool.reset(); if (PO::live - base != (long)lent) viol("L07", "pool-free", S(PO::live - base) + " objects are alive after the pool was destroyed with " + S(lent) + " lent"); }
	else { pool->clear(); if (PO::live - base != (long)lent) viol("L07", "pool-free", S(PO::live - base) + " objects are alive after clear() with " + S(lent) + " lent"); }
	for (auto &p : kept) p->owner = 0;
	u64 in0 = in; kept.clear(); if (destroy && in != in0) viol("L07", "checkin-count", "an object was checked in to a pool that no longer exists");
	pool.reset(); if (PO::live != base) viol("L07", "leak", S(PO::live - base) + " objects are left");
	stat("uses", uses); stat("made", made); stat("pool_rounds"); mix(uses * 3 + made);
}

void mon::run(Rng &r)
{
	const string part = opt("part"); const double secs = optn("secs", 5), t0 = now();
	watchdog(30);
	do {
		delays(r.chance(0.5) ? r.range(1, 60) : 0);
		if (part == "L03") { if (r.chance(0.5)) progress_model(r); else progress_threads(r); }
		else if (part == "L04") { if (r.chance(0.3)) lock_waiters(r); else if (r.chance(0.6)) lockset_threads(r); else multilock_threads(r); }
		else if (part == "L05") { if (r.chance(0.4)) cache_model(r); else cache_threads(r); }
		else if (part == "L06") { if (r.chance(0.6)) named_threads(r); else fd_threads(r); }
		else pool_threads(r);
		++progress(); stat("rounds");
	} while (now() - t0 < secs && g().stat["violations"] < 1);
}
