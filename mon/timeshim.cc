// A clock the monitor controls.
#include <atomic>
#include <chrono>
#include <stdint.h>
#include <time.h>
#include <errno.h>
std::atomic<int64_t> mon_clock_ns{1000000000000000000ll};
std::atomic<uint64_t> mon_sleeps{0}; std::atomic<int64_t> mon_slept_ns{0};
extern "C" {
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return std::chrono::system_clock::time_point(std::chrono::nanoseconds(mon_clock_ns.load())); }
int __wrap_nanosleep(const struct timespec *a, struct timespec *) { int64_t n = a->tv_sec * 1000000000ll + a->tv_nsec; mon_clock_ns += n; mon_slept_ns += n; ++mon_sleeps; return 0; }
}
