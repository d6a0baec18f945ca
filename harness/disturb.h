// Preempts worker threads at arbitrary instructions: a signal handler that yields, spins or sleeps.
#pragma once
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <atomic>
#include <mutex>
#include <thread>
#include <vector>
#include "vf.h"
namespace vf {
inline std::atomic<uint64_t>& disturb_state() { static std::atomic<uint64_t> s{1}; return s; }
inline std::atomic<uint64_t>& disturb_hits() { static std::atomic<uint64_t> s{0}; return s; }
inline void disturb_handler(int) {
  int e = errno;
  uint64_t r = mix(disturb_state().fetch_add(1, std::memory_order_relaxed));
  disturb_hits().fetch_add(1, std::memory_order_relaxed);
  switch (r % 4) {
    case 0: sched_yield(); break;
    case 1: { for (volatile int i = 0; i < static_cast<int>(r >> 8 & 4095); ++i) {} break; }
    case 2: { timespec t{0, static_cast<long>(r >> 8 & 0xffff)}; nanosleep(&t, nullptr); break; }
    default: for (int i = 0; i < 3; ++i) sched_yield();
  }
  errno = e;
}
// Threads enrol while alive; a background thread keeps signalling random ones.
class Disturber {
 public:
  // gap_us: a pause between signals, for workloads that sleep (a sleep under a storm of signals makes no progress)
  explicit Disturber(uint64_t seed, bool on = true, unsigned gap_us = 0) : on_(on), rng_(seed) {
    if (!on_) return;
    struct sigaction sa {};
    sa.sa_handler = disturb_handler;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGUSR1, &sa, nullptr);
    t_ = std::thread([this, gap_us] {
      while (!stop_) {
        {
          std::lock_guard<std::mutex> l(mu_);
          if (!ids_.empty()) pthread_kill(ids_[rng_.below(ids_.size())], SIGUSR1);
        }
        for (volatile int i = 0; i < static_cast<int>(rng_.below(60000)); ++i) {}
        if (gap_us) { timespec t{0, static_cast<long>(rng_.below(2 * gap_us) * 1000)}; nanosleep(&t, nullptr); }
      }
    });
  }
  ~Disturber() {
    if (!on_) return;
    stop_ = true;
    t_.join();
  }
  struct Enrol {
    Disturber& d;
    explicit Enrol(Disturber& x) : d(x) {
      if (!d.on_) return;
      std::lock_guard<std::mutex> l(d.mu_);
      d.ids_.push_back(pthread_self());
    }
    ~Enrol() {
      if (!d.on_) return;
      std::lock_guard<std::mutex> l(d.mu_);
      for (auto& i : d.ids_)
        if (pthread_equal(i, pthread_self())) { i = d.ids_.back(); d.ids_.pop_back(); break; }
    }
  };

 private:
  bool on_;
  Rng rng_;
  std::mutex mu_;
  std::vector<pthread_t> ids_;
  std::atomic<bool> stop_{false};
  std::thread t_;
};
}  // namespace vf
#if defined(__SANITIZE_THREAD__)
#define VF_TSAN 1
#else
#define VF_TSAN 0
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#else
#define VF_ASAN 0
#endif
