// Common parts of the monitor programs: options, verdicts, randomness, a clock of events,
// a watchdog, and the delays injected at mutex operations (delay.cc).
#pragma once
#include <atomic>
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <time.h>
#include <signal.h>
namespace mon {
using std::string; using std::vector; typedef uint64_t u64;
// ---- randomness: one generator per thread, derived from the seed
struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	u64 operator()(u64 n) { return n ? next() % n : 0; }
	u64 range(u64 a, u64 b) { return a + (*this)(b - a + 1); }
	bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
	template <class T> T &pick(vector<T> &v) { return v[(*this)(v.size())]; }
};
struct State {
	u64 seed = 1; string out, scratch; std::map<string, string> opt;
	std::mutex mu; std::map<string, double> stat; vector<std::pair<string, string>> viols; vector<string> vprops;
	std::unordered_set<u64> digests; u64 dig = 1469598103934665603ull;
	string prop, inconclusive; std::atomic<bool> written{false};
	std::atomic<u64> clock{1}; double scale = 1;
};
inline State &g() { static State *s = new State; return *s; }
inline string opt(const string &k, const string &d = "") { auto i = g().opt.find(k); return i == g().opt.end() ? d : i->second; }
inline double optn(const string &k, double d) { auto i = g().opt.find(k); return i == g().opt.end() ? d : atof(i->second.c_str()); }
inline u64 tick() { return g().clock.fetch_add(1); }
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline void viol(const string &prop, const string &key, const string &msg) {
	std::lock_guard<std::mutex> l(g().mu);
	int n = 0; for (auto &v : g().viols) if (v.first == key) ++n;
	++g().stat["violations"];
	if (n >= 3 || g().viols.size() > 40) return;
	if (opt("stop") != "") raise(19);
	g().viols.push_back({key, msg}); g().vprops.push_back(prop);
}
inline void stat(const string &k, double n = 1) { std::lock_guard<std::mutex> l(g().mu); g().stat[k] += n; }
inline void mix(u64 v) { std::lock_guard<std::mutex> l(g().mu); g().dig = (g().dig ^ v) * 1099511628211ull; }
inline string jq(const string &s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
inline void write_out(const string &hang = "") {
	if (g().written.exchange(true)) return;
	std::lock_guard<std::mutex> l(g().mu);
	std::ostringstream o; o << "{\"violations\":[";
	for (size_t i = 0; i < g().viols.size(); ++i) o << (i ? "," : "") << "{\"prop\":" << jq(g().vprops[i]) << ",\"key\":" << jq(g().viols[i].first) << ",\"msg\":" << jq(g().viols[i].second) << "}";
	o << "],\"stat\":{"; bool f = true; char b[64];
	for (auto &x : g().stat) { snprintf(b, sizeof b, "%.17g", x.second); o << (f ? "" : ",") << jq(x.first) << ":" << b; f = false; }
	snprintf(b, sizeof b, "%016llx", (unsigned long long)g().dig);
	o << "},\"inconclusive\":" << jq(g().inconclusive) << ",\"hang_prop\":" << jq(hang) << ",\"san\":\"\",\"digest\":\"" << b << "\"}\n";
	string t = g().out + ".tmp"; FILE *fp = fopen(t.c_str(), "w"); if (!fp) { perror(t.c_str()); _exit(9); }
	fputs(o.str().c_str(), fp); fclose(fp); rename(t.c_str(), g().out.c_str());
}
template <class A> inline string S(const A &a) { std::ostringstream o; o << a; return o.str(); }
inline string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
// nothing makes progress for this long: a hang.  The counter is bumped by whatever the program calls progress.
inline std::atomic<u64> &progress() { static std::atomic<u64> *p = new std::atomic<u64>(0); return *p; }
inline void watchdog(double secs, std::function<string()> what = {}) {
	std::thread([=] {
		u64 last = progress(); double t = now();
		for (;;) { usleep(200000); u64 p = progress(); if (p != last) { last = p; t = now(); }
			if (now() - t > secs * g().scale) {
				auto d = std::make_shared<std::pair<std::mutex, string>>();
				// the description may need a lock that is never released
				if (what) { std::thread([=] { string w = what(); std::lock_guard<std::mutex> l(d->first); d->second = w; }).detach(); usleep(300000); }
				string w; { std::lock_guard<std::mutex> l(d->first); w = d->second; }
				{ std::lock_guard<std::mutex> l(g().mu); g().inconclusive = "nothing happened for " + S(secs * g().scale) + " s" + ": " + w; } write_out("*"); _exit(0); } }
	}).detach();
}
inline void nap(Rng &r) { switch (r(8)) { case 0: usleep(r(300)); break; case 1: case 2: std::this_thread::yield(); break; case 3: for (volatile int i = 0, n = r(400); i < n; i = i + 1) {} break; default: break; } }
// wait until a condition holds; false after `secs' without any progress
inline bool wait_for(double secs, std::function<bool()> f) {
	u64 last = progress(); double t = now();
	while (!f()) { usleep(500); u64 p = progress(); if (p != last) { last = p; t = now(); } if (now() - t > secs * g().scale) return f(); }
	return true;
}
extern "C" { extern std::atomic<int> mon_delay_permille __attribute__((weak)); }
inline void delays(int permille) { if (&mon_delay_permille) mon_delay_permille = permille; }
void run(Rng &r);
}
int mon_main(int argc, char **argv);
#ifdef MON_MAIN
int main(int argc, char **argv) {
	using namespace mon;
	for (int i = 1; i + 1 < argc; i += 2) {
		string a = argv[i], v = argv[i + 1];
		if (a == "--seed") g().seed = strtoull(v.c_str(), 0, 10);
		else if (a == "--out") g().out = v;
		else if (a == "--scratch") g().scratch = v;
		else if (a == "--opt") { auto p = v.find('='); g().opt[v.substr(0, p)] = v.substr(p + 1); }
	}
	g().scale = optn("scale", 1); g().prop = opt("prop", "*");
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
	g().scale *= 3;
#endif
#endif
	Rng r(g().seed);
	try { run(r); }
	catch (std::exception &e) { viol(g().prop, "exception", string("unexpected exception left the library: ") + e.what()); }
	write_out();
	fflush(0); _exit(0);
}
#endif
