// C15: ownership of descriptors, with the system calls watched and made to fail.
#include "vf.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <set>
#include "network/socket.h"
using namespace lightstep;
using vf::Rng;

static bool watching = false;
static std::set<int> open_fds;
static int close_errno = 0;  // what close reports although the descriptor is gone, as Linux may
static int fail_socket = 0, fail_fcntl = 0, fail_opt = 0, fail_connect = 0;
static int blocking_connects = 0, connects = 0, closes = 0;
static uint64_t trace = 0;
extern "C" int socket(int f, int t, int p) {
  if (watching && fail_socket) { errno = fail_socket; return -1; }
  int fd = static_cast<int>(syscall(SYS_socket, f, t, p));
  if (watching && fd >= 0) { open_fds.insert(fd); trace = vf::mix(trace ^ 1); }
  return fd;
}
extern "C" int close(int fd) {
  if (watching) {
    ++closes;
    trace = vf::mix(trace ^ 2);
    if (!open_fds.erase(fd)) vf::fail("close", vf::fmt("descriptor %d closed, which is not open here", fd));
  }
  int rcode = static_cast<int>(syscall(SYS_close, fd));
  if (watching && close_errno && rcode == 0) { vf::count("closes_reporting_an_error"); errno = close_errno; return -1; }
  return rcode;
}
extern "C" int fcntl(int fd, int cmd, ...) {
  va_list a;
  va_start(a, cmd);
  long arg = va_arg(a, long);
  va_end(a);
  if (watching) {
    if (!open_fds.count(fd)) vf::fail("use", vf::fmt("fcntl on descriptor %d, which is not open here", fd));
    if (fail_fcntl && cmd == F_SETFL) { errno = fail_fcntl; return -1; }
  }
  return static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
}
extern "C" int setsockopt(int fd, int l, int o, const void* v, socklen_t n) {
  if (watching) {
    if (!open_fds.count(fd)) vf::fail("use", vf::fmt("setsockopt on descriptor %d, which is not open here", fd));
    if (fail_opt) { errno = fail_opt; return -1; }
  }
  return static_cast<int>(syscall(SYS_setsockopt, fd, l, o, v, n));
}
static sockaddr_storage last_addr;
static socklen_t last_len;
extern "C" int connect(int fd, const struct sockaddr* a, socklen_t n) {
  if (watching) {
    ++connects;
    if (!open_fds.count(fd)) vf::fail("use", vf::fmt("connect on descriptor %d, which is not open here", fd));
    if (!(syscall(SYS_fcntl, fd, F_GETFL, 0) & O_NONBLOCK)) ++blocking_connects;
    memset(&last_addr, 0, sizeof last_addr);
    memcpy(&last_addr, a, std::min<size_t>(n, sizeof last_addr));
    last_len = n;
    if (fail_connect) { errno = fail_connect; return -1; }
  }
  return static_cast<int>(syscall(SYS_connect, fd, a, n));
}
static bool is_open(int fd) { return syscall(SYS_fcntl, fd, F_GETFD, 0) != -1; }

struct Watch {
  Watch() { open_fds.clear(); watching = true; fail_socket = fail_fcntl = fail_opt = fail_connect = close_errno = 0; trace = 0; }
  ~Watch() { watching = false; }
};
static void history(Rng& r, int64_t) {
  Watch w;
  std::vector<std::unique_ptr<Socket>> s(1 + r.below(6));
  std::vector<int> fd(s.size(), -1);  // the descriptor the model says each owns
  auto verify = [&](const char* what) {
    std::set<int> want;
    for (size_t i = 0; i < s.size(); ++i) {
      if (!s[i]) continue;
      VF_CHECK(s[i]->file_descriptor() == (fd[i] < 0 ? InvalidSocket : fd[i]), "owner", "after %s socket %zu holds %d, expected %d", what, i, s[i]->file_descriptor(), fd[i]);
      if (fd[i] >= 0) want.insert(fd[i]);
    }
    VF_CHECK(want == open_fds, "open-set", "after %s %zu descriptors are open, %zu owned", what, open_fds.size(), want.size());
    for (int f : want) VF_CHECK(is_open(f), "closed", "after %s descriptor %d is owned but closed", what, f);
    vf::eval();
  };
  for (int step = 0; step < 60; ++step) {
    size_t i = r.below(s.size()), j = r.below(s.size());
    const char* what = "";
    close_errno = r.chance(1, 6) ? r.chance(1, 2) ? EINTR : EIO : 0;
    switch (r.below(8)) {
      case 0:
        what = "construction";
        s[i].reset();
        fd[i] = -1;
        fail_socket = r.chance(1, 6) ? EMFILE : 0;
        try {
          s[i].reset(r.chance(1, 2) ? new Socket : new Socket{r.chance(1, 2) ? AF_INET : AF_INET6, r.chance(1, 2) ? SOCK_STREAM : SOCK_DGRAM});
          VF_CHECK(!fail_socket, "error", "a socket without descriptor was made");
          fd[i] = s[i]->file_descriptor();
          VF_CHECK(open_fds.count(fd[i]), "owner", "a new socket holds %d, which is not open", fd[i]);
        } catch (const std::exception&) { VF_CHECK(fail_socket, "error", "could not make a socket"); }
        fail_socket = 0;
        break;
      case 1: what = "destruction"; s[i].reset(); fd[i] = -1; break;
      case 2:
        what = "move construction";
        if (s[i] && i != j) {
          s[j].reset();
          s[j].reset(new Socket{std::move(*s[i])});
          fd[j] = fd[i];
          fd[i] = -1;
        }
        break;
      case 3:
        what = "move assignment";
        if (s[i] && s[j] && i != j) { *s[j] = std::move(*s[i]); fd[j] = fd[i]; fd[i] = -1; }
        break;
      case 4: {
        what = "adoption";
        int f = ::socket(AF_INET, SOCK_STREAM, 0);
        s[i].reset();
        s[i].reset(new Socket{static_cast<FileDescriptor>(f)});
        fd[i] = f;
        break;
      }
      case 5:
        what = "SetNonblocking";
        if (s[i] && fd[i] >= 0) {
          long before = syscall(SYS_fcntl, fd[i], F_GETFL, 0);
          fail_fcntl = r.chance(1, 4) ? EBADF : 0;
          try {
            s[i]->SetNonblocking();
            VF_CHECK(!fail_fcntl, "error", "a failing fcntl raised nothing");
            VF_CHECK(syscall(SYS_fcntl, fd[i], F_GETFL, 0) == (before | O_NONBLOCK), "nonblocking", "flags %lx became %lx", before, syscall(SYS_fcntl, fd[i], F_GETFL, 0));
          } catch (const std::exception&) { VF_CHECK(fail_fcntl, "error", "SetNonblocking failed"); }
          fail_fcntl = 0;
        }
        break;
      case 6:
        what = "SetReuseAddress";
        if (s[i] && fd[i] >= 0) {
          fail_opt = r.chance(1, 4) ? EBADF : 0;
          try {
            s[i]->SetReuseAddress();
            VF_CHECK(!fail_opt, "error", "a failing setsockopt raised nothing");
            int v = 0;
            socklen_t n = sizeof v;
            getsockopt(fd[i], SOL_SOCKET, SO_REUSEADDR, &v, &n);
            VF_CHECK(v, "reuse", "SO_REUSEADDR is not set");
          } catch (const std::exception&) { VF_CHECK(fail_opt, "error", "SetReuseAddress failed"); }
          fail_opt = 0;
        }
        break;
      default: {
        what = "a Socket in a container";
        if (s[i]) {
          std::vector<Socket> v;
          v.push_back(std::move(*s[i]));
          for (int k = 0; k < 3; ++k) v.emplace_back();
          *s[i] = std::move(v[0]);
        }
      }
    }
    verify(what);
  }
  s.clear();
  VF_CHECK(open_fds.empty(), "leak", "%zu descriptors remain open", open_fds.size());
  vf::distinct(trace);
}
static int listener(int family, uint16_t* port, int backlog) {
  int l = static_cast<int>(syscall(SYS_socket, family, SOCK_STREAM, 0));
  sockaddr_storage a{};
  socklen_t n = family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
  if (family == AF_INET) { auto& x = reinterpret_cast<sockaddr_in&>(a); x.sin_family = AF_INET; x.sin_addr.s_addr = htonl(INADDR_LOOPBACK); }
  else { auto& x = reinterpret_cast<sockaddr_in6&>(a); x.sin6_family = AF_INET6; x.sin6_addr = in6addr_loopback; }
  if (bind(l, reinterpret_cast<sockaddr*>(&a), n) || listen(l, backlog)) { syscall(SYS_close, l); return -1; }
  getsockname(l, reinterpret_cast<sockaddr*>(&a), &n);
  *port = ntohs(family == AF_INET ? reinterpret_cast<sockaddr_in&>(a).sin_port : reinterpret_cast<sockaddr_in6&>(a).sin6_port);
  return l;
}
static void connecting(Rng& r, int64_t) {
  static uint16_t p4 = 0, p6 = 0, full = 0, closed = 0;
  static int l4 = -2, l6 = -2, lf = -2;
  if (l4 == -2) {
    l4 = listener(AF_INET, &p4, 100);
    l6 = listener(AF_INET6, &p6, 100);
    lf = listener(AF_INET, &full, 0);
    int c = listener(AF_INET, &closed, 1);
    syscall(SYS_close, c);
    // fill the backlog so that further attempts hang
    for (int i = 0; i < 3; ++i) {
      int f = static_cast<int>(syscall(SYS_socket, AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0));
      sockaddr_in a{};
      a.sin_family = AF_INET;
      a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      a.sin_port = htons(full);
      (void)syscall(SYS_connect, f, &a, sizeof a);
    }
  }
  if (l4 < 0) exit(77);
  Watch w;
  blocking_connects = connects = 0;
  IpAddress to;
  int kind = static_cast<int>(r.below(6));
  switch (kind) {
    case 0: to = IpAddress{"127.0.0.1", p4}; break;
    case 1: to = IpAddress{l6 >= 0 ? "::1" : "127.0.0.1", l6 >= 0 ? p6 : p4}; break;
    case 2: to = IpAddress{"127.0.0.1", full}; break;
    case 3: to = IpAddress{"127.0.0.1", closed}; break;
    case 4: to = IpAddress{r.chance(1, 2) ? "203.0.113.1" : "2001:db8::1", 80}; break;
    default: to = IpAddress{"0.0.0.0", 0};
  }
  int inject = static_cast<int>(r.below(8));
  if (r.chance(1, 5)) close_errno = r.chance(1, 2) ? EINTR : EIO;
  if (inject == 0) fail_socket = EMFILE;
  if (inject == 1) fail_fcntl = EINVAL;
  if (inject == 2) fail_opt = ENOPROTOOPT;
  if (inject == 3) { static const int e[] = {ECONNREFUSED, ENETUNREACH, EACCES, EADDRNOTAVAIL, EPERM, EAFNOSUPPORT, ETIMEDOUT, EADDRINUSE}; fail_connect = e[r.below(8)]; }
  if (inject == 4) fail_connect = r.chance(1, 2) ? EINPROGRESS : EWOULDBLOCK;
  bool must_throw = inject < 4, must_not = inject == 4 || (inject > 4 && kind < 3);
  auto t0 = std::chrono::steady_clock::now();
  try {
    Socket s = Connect(to);
    VF_CHECK(!must_throw, "error", "fault %d raised nothing", inject);
    int fd = s.file_descriptor();
    VF_CHECK(open_fds.size() == 1 && open_fds.count(fd), "open-set", "%zu descriptors open after a connection attempt", open_fds.size());
    VF_CHECK(syscall(SYS_fcntl, fd, F_GETFL, 0) & O_NONBLOCK, "nonblocking", "the connection blocks");
    int v = 0;
    socklen_t n = sizeof v;
    getsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &v, &n);
    VF_CHECK(v, "reuse", "SO_REUSEADDR is not set");
    VF_CHECK(connects == 1, "attempts", "%d connects", connects);
    VF_CHECK(last_len >= (to.family() == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)) && IpAddress{reinterpret_cast<sockaddr&>(last_addr)} == to, "target", "connected to a different address than %s", ToString(to).c_str());
    vf::count("attempts_started");
  } catch (const std::exception& e) {
    VF_CHECK(!must_not, "error", "connecting failed: %s", e.what());
    VF_CHECK(e.what()[0], "error", "an error without text");
    vf::count("attempts_failed");
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  VF_CHECK(dt < 2, "blocked", "a connection attempt took %.1f s", dt);
  VF_CHECK(blocking_connects == 0, "blocking", "connect was called on a blocking socket");
  VF_CHECK(open_fds.empty(), "leak", "%zu descriptors remain open after fault %d", open_fds.size(), inject);
  watching = false;
  char b[16];
  (void)b;
  int a;
  sockaddr_storage sa;
  socklen_t n = sizeof sa;
  syscall(SYS_fcntl, l4, F_SETFL, O_NONBLOCK);
  if (l6 >= 0) syscall(SYS_fcntl, l6, F_SETFL, O_NONBLOCK);
  while ((a = static_cast<int>(syscall(SYS_accept, l4, &sa, &n))) >= 0) syscall(SYS_close, a);
  n = sizeof sa;
  if (l6 >= 0) while ((a = static_cast<int>(syscall(SYS_accept, l6, &sa, &n))) >= 0) syscall(SYS_close, a);
  vf::eval();
  vf::distinct(vf::mix(static_cast<uint64_t>(kind * 8 + inject)) ^ static_cast<uint64_t>(fail_connect));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("history", vf::n(2500, 60000), history);
  vf::cases("connecting", vf::n(3000, 40000), connecting);
  return vf::finish();
}
