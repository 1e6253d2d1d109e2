#include "perturb.h"

#include <pthread.h>
#include <sched.h>
#include <time.h>

#include <atomic>

namespace perturb {

namespace {

std::atomic<unsigned> g_one_in(0);
std::atomic<std::uint64_t> g_seed(0), g_thread(0);

}  // namespace

void SleepMicros(unsigned micros) {
  timespec ts{micros / 1000000, static_cast<long>(micros % 1000000) * 1000};
  nanosleep(&ts, nullptr);
}

void Set(unsigned one_in, std::uint64_t seed) {
  g_seed.store(seed, std::memory_order_relaxed);
  g_one_in.store(one_in, std::memory_order_relaxed);
}

void Point() {
  unsigned one_in(g_one_in.load(std::memory_order_relaxed));
  if (!one_in)
    return;
  static thread_local std::uint64_t state(g_thread.fetch_add(1, std::memory_order_relaxed) *
                                          0x9e3779b97f4a7c15ULL);
  std::uint64_t x(state += 0x9e3779b97f4a7c15ULL);
  x ^= g_seed.load(std::memory_order_relaxed);
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  x ^= x >> 31;
  if (x % one_in)
    return;
  x /= one_in;
  if (x & 1)
    sched_yield();
  else
    SleepMicros(static_cast<unsigned>((x >> 1) % 150));
}

}  // namespace perturb

extern "C" {

int __real_pthread_mutex_lock(pthread_mutex_t* mutex);
int __real_pthread_mutex_unlock(pthread_mutex_t* mutex);

int __wrap_pthread_mutex_lock(pthread_mutex_t* mutex) {
  perturb::Point();
  return __real_pthread_mutex_lock(mutex);
}

int __wrap_pthread_mutex_unlock(pthread_mutex_t* mutex) {
  int result(__real_pthread_mutex_unlock(mutex));
  perturb::Point();
  return result;
}
}
