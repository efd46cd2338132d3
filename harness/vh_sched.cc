// Schedule perturbation: the link step wraps pthread_mutex_lock/unlock and
// pthread_cond_wait, so every lock operation made by the library can be preceded
// by a pseudo-random delay.  Off unless a harness turns it on.
#include "vh_sched.h"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
}
namespace vh {
static std::atomic<uint64_t> g_seed{0};
static std::atomic<int> g_level{0};
static std::atomic<uint64_t> g_points{0}, g_delays{0}, g_thread{0};
void sched_perturb(uint64_t seed, int level) {
  g_seed.store(seed, std::memory_order_relaxed);
  g_level.store(level, std::memory_order_relaxed);
}
uint64_t sched_points() { return g_points.load(std::memory_order_relaxed); }
uint64_t sched_delays() { return g_delays.load(std::memory_order_relaxed); }
void sched_point() {
  int level = g_level.load(std::memory_order_relaxed);
  if (level == 0)
    return;
  static thread_local uint64_t s = 0;
  if (s == 0)
    s = g_seed.load(std::memory_order_relaxed) * 0x9E3779B97F4A7C15ull +
        (g_thread.fetch_add(1, std::memory_order_relaxed) + 1) * 0xD1B54A32D192ED03ull + 1;
  s += 0x9E3779B97F4A7C15ull;
  uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  z ^= z >> 31;
  g_points.fetch_add(1, std::memory_order_relaxed);
  unsigned r = z & 255;
  if (r < 24u * level) {
    sched_yield();
  } else if (r < 24u * level + 3u * level) {
    g_delays.fetch_add(1, std::memory_order_relaxed);
    struct timespec ts = {0, (long)(((z >> 8) & 255) * 2000)};
    nanosleep(&ts, nullptr);
  }
}
} // namespace vh
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  vh::sched_point();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  int r = __real_pthread_mutex_unlock(m);
  vh::sched_point();
  return r;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  return __real_pthread_cond_wait(c, m);
}
}
