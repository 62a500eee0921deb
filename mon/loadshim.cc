// Load average, clock and sleeps under the monitor's control.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
std::atomic<int64_t> mon_clock_ns{1000000000000000000ll};
std::atomic<double> mon_load{0};
thread_local int mon_sleeper = 0;                 // 0: a thread of the library; 1: a caller of the monitor; 2: sleeps until let go
thread_local int64_t mon_slept_ns = 0;
// gate for the library's own periodic thread, and for callers of kind 2
static std::mutex *mu = new std::mutex; static std::condition_variable *cv = new std::condition_variable;
static uint64_t waiting = 0, rounds = 0, grants = 0, held = 0; static bool let_go = false;
uint64_t mon_rounds() { std::unique_lock<std::mutex> l(*mu); return waiting ? rounds : 0; }
void mon_grant() { std::unique_lock<std::mutex> l(*mu); if (waiting) { ++grants; cv->notify_all(); } }
uint64_t mon_held() { std::unique_lock<std::mutex> l(*mu); return held; }
void mon_let_go(bool b) { std::unique_lock<std::mutex> l(*mu); let_go = b; cv->notify_all(); }
extern "C" {
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return std::chrono::system_clock::time_point(std::chrono::nanoseconds(mon_clock_ns.load())); }
int __wrap_nanosleep(const struct timespec *a, struct timespec *)
{
	const int64_t n = a->tv_sec * 1000000000ll + a->tv_nsec;
	if (mon_sleeper) {
		mon_slept_ns += n; mon_clock_ns += n;
		if (mon_sleeper == 2) { std::unique_lock<std::mutex> l(*mu); ++held; while (!let_go) cv->wait(l); --held; }
		return 0;
	}
	std::unique_lock<std::mutex> l(*mu);
	++waiting; ++rounds; const uint64_t g = grants;
	while (grants == g) cv->wait(l);
	--waiting; mon_clock_ns += n;
	return 0;
}
int __wrap_getloadavg(double *v, int n) { for (int i = 0; i < n; ++i) v[i] = mon_load; return n; }
}
