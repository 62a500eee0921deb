// Delays at mutex operations of the code under test (linked with --wrap).
#pragma once
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <unistd.h>
extern "C" {
std::atomic<int> mon_delay_permille{0};
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
static std::atomic<uint64_t> seed_src{88172645463325252ull};
static thread_local uint64_t st;
static void maybe_delay()
{
	int p = mon_delay_permille.load(std::memory_order_relaxed);
	if (!p) return;
	if (!st) st = seed_src.fetch_add(0x9E3779B97F4A7C15ull) | 1;
	st ^= st << 13; st ^= st >> 7; st ^= st << 17;
	uint32_t r = (st >> 20) % 1000;
	if ((int)r < p) usleep((st >> 40) % 60 == 0 ? 3000 : (st >> 34) % 120);
	else if ((int)r < p * 3) sched_yield();
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { maybe_delay(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); maybe_delay(); return r; }
}
