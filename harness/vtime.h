// Virtual time for single-threaded event loops: the clocks follow a counter that only waiting advances, so
// timers of any length fire at once and exactly.  Included by one file of a program; libevent and c-ares call
// these definitions through the dynamic linker.
#pragma once
#include <errno.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "vf.h"
namespace vf {
struct VTime {
  bool on = false;
  int64_t now_ns = 1000000000000;        // the monotonic clock
  int64_t system_base_ns = 1600000000000000000;  // what CLOCK_REALTIME adds to it
  int64_t limit_ns = 0;                   // loops that pass this are declared stuck
  uint64_t waits = 0, waited = 0;
  std::function<void()> idle;             // called when nothing is ready and nothing is due for the given wait
};
inline VTime& vt() { static VTime v; return v; }
inline int64_t vnow() { return vt().now_ns; }
}  // namespace vf
extern "C" int clock_gettime(clockid_t c, struct timespec* t) {
  auto& v = vf::vt();
  if (!v.on || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return static_cast<int>(syscall(SYS_clock_gettime, c, t));
  int64_t n = v.now_ns;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) n += v.system_base_ns;
  t->tv_sec = n / 1000000000;
  t->tv_nsec = n % 1000000000;
  return 0;
}
extern "C" int gettimeofday(struct timeval* t, void*) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
static int vf_epoll(int fd, struct epoll_event* e, int max, int64_t timeout_ns) {
  auto& v = vf::vt();
  int n = static_cast<int>(syscall(SYS_epoll_pwait, fd, e, max, 0, nullptr, 8));
  if (n != 0 || timeout_ns == 0) return n;
  ++v.waits;
  if (v.idle) {
    v.idle();
    n = static_cast<int>(syscall(SYS_epoll_pwait, fd, e, max, 0, nullptr, 8));
    if (n != 0) return n;
  }
  if (timeout_ns < 0) {
    vf::fail("stuck", "the event loop waits for events that cannot come");
    _exit(vf::finish());
  }
  v.now_ns += timeout_ns;
  v.waited += static_cast<uint64_t>(timeout_ns);
  return static_cast<int>(syscall(SYS_epoll_pwait, fd, e, max, 0, nullptr, 8));
}
extern "C" int epoll_wait(int fd, struct epoll_event* e, int max, int timeout) {
  if (!vf::vt().on) return static_cast<int>(syscall(SYS_epoll_pwait, fd, e, max, timeout, nullptr, 8));
  return vf_epoll(fd, e, max, timeout < 0 ? -1 : static_cast<int64_t>(timeout) * 1000000);
}
extern "C" int epoll_pwait2(int fd, struct epoll_event* e, int max, const struct timespec* t, const sigset_t* s) {
  if (!vf::vt().on) return static_cast<int>(syscall(441, fd, e, max, t, s, 8));
  return vf_epoll(fd, e, max, t == nullptr ? -1 : t->tv_sec * 1000000000ll + t->tv_nsec);
}
