// C04: vectored writes under scripted short writes, would-block results and errors, and on real sockets.
#include "vf.h"
#include "streams.h"
#include <errno.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <exception>
#include "network/vector_write.h"
using namespace lightstep;
using vf::Rng;

static const int kFd = 1 << 20;
static std::string sink;
static Rng* plan = nullptr;
static int mode = 0, calls = 0, budget = 0;
static volatile sig_atomic_t sigpipes = 0;
static bool injected_error = false, injected_block = false, injected_short = false, bad_call = false;

static ssize_t fake(const struct iovec* v, size_t n) {
  ++calls;
  if (n > IOV_MAX || static_cast<ssize_t>(n) < 0) { bad_call = true; errno = EINVAL; return -1; }
  size_t total = 0;
  for (size_t i = 0; i < n; ++i) total += v[i].iov_len;
  uint64_t what = plan->below(100);
  size_t take = total;
  if (mode == 1) {  // mixed
    if (what < 15) { injected_block = true; errno = what & 1 ? EAGAIN : EWOULDBLOCK; return -1; }
    if (what < 20) { static const int es[] = {EPIPE, ECONNRESET, EBADF, EIO, ENOBUFS, ENOTCONN}; injected_error = true; errno = es[plan->below(6)]; return -1; }
    if (what < 70) take = plan->below(total + 1);
  } else if (mode == 2) {  // a trickle: mostly at fragment boundaries
    size_t cut = 0, k = plan->below(n + 1);
    for (size_t i = 0; i < k; ++i) cut += v[i].iov_len;
    take = cut;
    if (plan->chance(1, 3) && take < total) ++take;
    if (plan->chance(1, 3) && take > 0) --take;
  } else if (mode == 3) {  // an error once the budget of calls is spent
    if (--budget < 0) { injected_error = true; errno = EPIPE; return -1; }
  } else if (mode == 4) {
    if (--budget < 0) { injected_block = true; errno = EAGAIN; return -1; }
    if (budget == 0) take = plan->below(total + 1);
  }
  if (take < total) injected_short = true;
  size_t left = take;
  for (size_t i = 0; i < n && left; ++i) {
    size_t k = std::min(left, v[i].iov_len);
    sink.append(static_cast<char*>(v[i].iov_base), k);
    left -= k;
  }
  return static_cast<ssize_t>(take);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) {
  if (fd == kFd) return fake(v, static_cast<size_t>(n));
  return syscall(SYS_writev, fd, v, n);
}
extern "C" ssize_t sendmsg(int fd, const struct msghdr* m, int flags) {
  if (fd == kFd) return fake(m->msg_iov, m->msg_iovlen);
  return syscall(SYS_sendmsg, fd, m, flags);
}
static bool do_write(int fd, std::vector<FragmentInputStream*>& s) {
  switch (s.size()) {
    case 0: return Write(fd, {});
    case 1: return Write(fd, {s[0]});
    case 2: return Write(fd, {s[0], s[1]});
    case 3: return Write(fd, {s[0], s[1], s[2]});
    case 4: return Write(fd, {s[0], s[1], s[2], s[3]});
    default: return Write(fd, {s[0], s[1], s[2], s[3], s[4]});
  }
}
struct Set {
  vf::Arena arena;
  std::vector<std::unique_ptr<FragmentInputStream>> own;
  std::vector<FragmentInputStream*> s;
  std::string all, shape;
  void make(Rng& r, bool big) {
    size_t k = r.chance(1, 40) ? 0 : 1 + r.below(5);
    for (size_t i = 0; i < k; ++i) {
      if (r.chance(1, 3)) {
        std::unique_ptr<ChainedStream> c{new ChainedStream};
        std::string b = r.bytes(vf::chain_size(r) + (big && r.chance(1, 3) ? 300 * 1024 : 0));
        vf::fill(r, *c, b);
        shape += vf::fmt("chain(%zu) ", b.size());
        all += b;
        own.push_back(std::move(c));
      } else {
        std::unique_ptr<FragmentArrayInputStream> f{new FragmentArrayInputStream};
        static const size_t edges[] = {1023, 1024, 1025, 2047, 2048, 2049, 3000};
        size_t n = big && r.chance(1, 2) ? edges[r.below(7)] : r.below(12), before = all.size();
        size_t zero = r.below(4);
        size_t maxlen = n > 100 ? 1 + r.below(8) : 1 + r.below(200);
        for (size_t j = 0; j < n; ++j) {
          std::string b = r.bytes(r.below(4) < zero ? 0 : r.below(maxlen + 1));
          f->Add(arena.add(b));
          all += b;
        }
        shape += vf::fmt("array(%zu,%zu) ", n, all.size() - before);
        own.push_back(std::move(f));
      }
      s.push_back(own.back().get());
    }
  }
  std::string rest() {
    std::string t;
    for (auto x : s) t += vf::text(*x);
    return t;
  }
};

static void scripted(Rng& r, int64_t) {
  Set set;
  set.make(r, r.chance(1, 4));
  sink.clear();
  plan = &r;
  mode = static_cast<int>(r.below(5));
  int writes = 0, blocks = 0, errors = 0;
  uint64_t h = 0;
  while (true) {
    injected_error = injected_block = injected_short = bad_call = false;
    calls = 0;
    budget = static_cast<int>(r.below(4));
    if (mode >= 3 && writes > 6) mode = 0;
    if (writes > 60) mode = 0;
    bool threw = false, res = false;
    try { res = do_write(kFd, set.s); } catch (const std::exception& e) { threw = true; VF_CHECK(e.what()[0], "empty-error", "an error without text"); }
    ++writes;
    blocks += injected_block;
    errors += injected_error;
    std::string rest = set.rest();
    VF_CHECK(!bad_call, "too-many-fragments", "more fragments than the system allows in one call");
    VF_CHECK(sink.size() <= set.all.size() && set.all.compare(0, sink.size(), sink) == 0, "sent-not-prefix", "the %zu bytes sent are not a prefix of the %zu given: %s", sink.size(), set.all.size(), set.shape.c_str());
    VF_CHECK(sink + rest == set.all, "remainder", "sent %zu, streams hold %zu, given %zu: %s", sink.size(), rest.size(), set.all.size(), set.shape.c_str());
    VF_CHECK(threw == injected_error, "error-report", "error %s, call %s", injected_error ? "injected" : "not injected", threw ? "threw" : "returned");
    VF_CHECK(threw || res || injected_block || injected_short, "gave-up", "%zu bytes left though the socket took everything it was given: %s", rest.size(), set.shape.c_str());
    if (!threw) VF_CHECK(res == rest.empty(), "completion", "returned %d with %zu bytes left", res, rest.size());
    h = vf::mix(h ^ sink.size() ^ (static_cast<uint64_t>(threw) << 40) ^ (static_cast<uint64_t>(res) << 41));
    vf::count("writes");
    if (!vf::st().violations.empty()) return;
    if (rest.empty() && !threw) break;
    if (mode == 0 && writes > 80) { vf::fail("no-progress", "bytes remain after unobstructed writes"); break; }
  }
  vf::count("would-block results", static_cast<uint64_t>(blocks));
  vf::count("errors raised", static_cast<uint64_t>(errors));
  vf::eval();
  vf::distinct(vf::hash(set.shape, h));
  vf::sample(set.shape + vf::fmt("in %d writes, %d would-block, %d errors", writes, blocks, errors));
}

static void real(Rng& r, int64_t) {
  Set set;
  set.make(r, true);
  int fd[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) exit(77);
  int sz = static_cast<int>(1024 + r.below(20000));
  setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
  fcntl(fd[0], F_SETFL, O_NONBLOCK);
  fcntl(fd[1], F_SETFL, O_NONBLOCK);
  std::string got;
  uint64_t h = 0;
  char buf[8192];
  for (int i = 0; i < 200000; ++i) {
    bool done = do_write(fd[0], set.s);
    size_t lim = 1 + r.below(sizeof buf);
    ssize_t n;
    while ((n = ::read(fd[1], buf, lim)) > 0) { got.append(buf, static_cast<size_t>(n)); if (!done && r.chance(1, 2)) break; }
    h = vf::mix(h ^ got.size());
    if (done) break;
  }
  VF_CHECK(set.rest().empty(), "completion", "bytes left in the streams");
  VF_CHECK(got == set.all, "received", "received %zu bytes of %zu, or altered", got.size(), set.all.size());
  // peer gone: an error, and nothing consumed beyond what was accepted
  close(fd[1]);
  Set s2;
  s2.make(r, false);
  if (!s2.all.empty()) {
    bool threw = false;
    try { do_write(fd[0], s2.s); } catch (const std::exception&) { threw = true; }
    VF_CHECK(threw, "error-report", "writing to a closed peer raised nothing");
    VF_CHECK(sigpipes == 0, "sigpipe", "writing to a closed peer raised SIGPIPE, which ends a program that doesn't expect it");
    VF_CHECK(s2.rest() == s2.all, "remainder", "a failed write consumed bytes");
  }
  close(fd[0]);
  vf::eval();
  vf::distinct(h);
  vf::count("real bytes", got.size());
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  signal(SIGPIPE, [](int) { ++sigpipes; });
  vf::cases("scripted", vf::n(4000, 120000), scripted);
  vf::cases("real", vf::n(150, 4000), real);
  return vf::finish();
}
