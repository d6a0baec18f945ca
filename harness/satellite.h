// Fake satellites on loopback: each connection follows a plan of reading, answering and breaking off.  They act only
// when step() is called, by an event loop's idle hook or by a thread of their own.
#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <memory>
#include "http.h"
#include "reports.h"
namespace vf {
struct Plan {
  bool good = true;
  // reading
  size_t rate = 0;            // bytes per step; 0 = everything
  int64_t read_from = 0;      // no reading before this time
  // what happens once so many bytes were read (never, if less comes)
  size_t at = 0;
  enum Act { none, rst, close_now, half_close, early_200, early_200_close, early_500, garbage, stall } act = none;
  int64_t stall_ns = 0;
  // the answer to a complete request
  enum Answer { ok, ok_pieces, ok_open, error, noise, silent_close, silent_open, ok_rst } answer = ok;
};
struct Conn {
  int fd = -1;
  size_t sat = 0;
  uint16_t port = 0;      // the client's
  uint64_t key = 0;       // the satellite's address and the client's port
  Plan plan;
  std::string in;
  std::vector<std::pair<size_t, int64_t>> marks;  // bytes read so far, when
  int64_t opened = 0, ended = -1, answered = -1;
  bool eof = false;       // the client closed (or reset) it
  bool reset = false;     // and it did so by a reset
  bool ours = false;      // we closed it first
  bool acted = false, complete = false, responded = false, half = false;
  size_t piece = 0;
  std::string out;        // answer still to be sent
  int64_t halved = -1;    // when we closed our half of it unasked
  bool half_before(int64_t t) const { return halved >= 0 && halved <= t; }
  int64_t when(size_t upto) const {
    for (auto& m : marks) if (m.first >= upto) return m.second;
    return -1;
  }
};
class Satellites {
 public:
  std::vector<std::unique_ptr<Conn>> conns;
  std::vector<Conn*> open;                // those whose descriptor we hold
  std::function<Plan(size_t)> plan;       // for the next connection of a satellite
  std::function<int64_t()> now;
  bool lossless = true;                   // every byte that the client wrote is read
  struct Sat { std::string ip; uint16_t port = 0; int fd = -1; bool deaf = false; int rcvbuf = 0; };
  std::vector<Sat> sats;
  ~Satellites() {
    for (auto& c : conns) if (c->fd >= 0) ::close(c->fd);
    for (auto& s : sats) if (s.fd >= 0) ::close(s.fd);
  }
  size_t add(const std::string& ip, int rcvbuf) {
    Sat s;
    s.ip = ip;
    s.rcvbuf = rcvbuf;
    sats.push_back(s);
    listen(sats.size() - 1, 128);
    return sats.size() - 1;
  }
  void listen(size_t i, int backlog) {
    Sat& s = sats[i];
    if (s.fd >= 0) return;
    for (int tries = 0;; ++tries) {
      s.fd = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
      int one = 1;
      setsockopt(s.fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
      if (s.rcvbuf) setsockopt(s.fd, SOL_SOCKET, SO_RCVBUF, &s.rcvbuf, sizeof s.rcvbuf);
      sockaddr_in a{};
      a.sin_family = AF_INET;
      a.sin_port = htons(s.port);
      inet_pton(AF_INET, s.ip.c_str(), &a.sin_addr);
      socklen_t l = sizeof a;
      if (s.fd >= 0 && bind(s.fd, reinterpret_cast<sockaddr*>(&a), l) == 0 && ::listen(s.fd, backlog) == 0 && getsockname(s.fd, reinterpret_cast<sockaddr*>(&a), &l) == 0) {
        s.port = ntohs(a.sin_port);
        return;
      }
      ::close(s.fd);
      s.fd = -1;
      if (tries > 200) { fprintf(stderr, "harness: cannot listen on %s:%d: %s\n", s.ip.c_str(), s.port, strerror(errno)); _exit(77); }
      struct timespec t{0, 5000000};
      nanosleep(&t, nullptr);
    }
  }
  // no more connections are accepted: attempts are refused
  void refuse(size_t i) {
    accept(i);
    if (sats[i].fd >= 0) ::close(sats[i].fd);
    sats[i].fd = -1;
  }
  // everything behaves well from now on
  void behave() {
    for (size_t i = 0; i < sats.size(); ++i) { sats[i].deaf = false; listen(i, 128); }
    for (auto& c : conns) {
      bool partial = !c->out.empty();
      c->plan = Plan{};
      if (c->half && !partial) c->plan.good = false;  // nothing more can be said on it
    }
    plan = nullptr;
  }
  size_t live() const {
    size_t n = 0;
    for (auto& c : conns) n += !c->eof && !c->ours;
    return n;
  }
  bool all_gone() const { return live() == 0; }
  // one round; true if anything happened
  bool step() {
    bool any = false;
    for (size_t i = 0; i < sats.size(); ++i) if (!sats[i].deaf) any = accept(i) || any;
    for (size_t i = 0; i < open.size();) {
      if (open[i]->fd >= 0) any = serve(*open[i]) || any;
      if (open[i]->fd < 0) { open[i] = open.back(); open.pop_back(); }
      else ++i;
    }
    return any;
  }
  // polls until every client has closed, at most so long in real time
  bool drain(int ms) {
    timespec t0, t1;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
    for (;;) {
      for (size_t i = 0; i < sats.size(); ++i) accept(i);
      bool any = step();
      bool pending = false;
      for (auto& c : conns) pending = pending || (c->fd >= 0 && !c->eof);
      if (!pending && !any) return true;
      syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
      if ((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000 > ms) return !pending;
      if (!any) { struct timespec t{0, 200000}; nanosleep(&t, nullptr); }
    }
  }

 private:
  bool accept(size_t i) {
    bool any = false;
    while (sats[i].fd >= 0) {
      sockaddr_in a{};
      socklen_t l = sizeof a;
      int fd = ::accept4(sats[i].fd, reinterpret_cast<sockaddr*>(&a), &l, SOCK_NONBLOCK | SOCK_CLOEXEC);
      if (fd < 0) break;
      std::unique_ptr<Conn> c{new Conn};
      c->fd = fd;
      c->sat = i;
      c->port = ntohs(a.sin_port);
      c->key = static_cast<uint64_t>(inet_addr(sats[i].ip.c_str())) << 16 | c->port;
      open.push_back(c.get());
      c->opened = now();
      c->plan = plan ? plan(i) : Plan{};
      conns.push_back(std::move(c));
      any = true;
    }
    return any;
  }
  void shut(Conn& c, bool rst) {
    if (rst) {
      linger l{1, 0};
      setsockopt(c.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    }
    if (!c.eof) { c.ours = true; c.ended = now(); }
    ::close(c.fd);
    c.fd = -1;
  }
  bool push(Conn& c, size_t most) {
    if (c.out.empty()) return false;
    ssize_t n = ::send(c.fd, c.out.data(), std::min(most, c.out.size()), MSG_NOSIGNAL | MSG_DONTWAIT);
    if (n <= 0) { c.out.clear(); return true; }
    c.out.erase(0, static_cast<size_t>(n));
    return true;
  }
  bool serve(Conn& c) {
    Plan& p = c.plan;
    bool any = false;
    int64_t t = now();
    if (c.fd >= 0 && !c.eof && t >= p.read_from) {
      size_t room = p.rate ? p.rate : ~size_t{0};
      if (p.act != Plan::none && !c.acted && c.in.size() < p.at) room = std::min(room, p.at - c.in.size());
      static thread_local std::vector<char> b(1 << 16);
      while (room > 0) {
        ssize_t n = ::recv(c.fd, b.data(), std::min(room, b.size()), MSG_DONTWAIT);
        if (n > 0) {
          c.in.append(b.data(), static_cast<size_t>(n));
          room -= static_cast<size_t>(n);
          any = true;
          int one = 1;
          setsockopt(c.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);  // a delayed acknowledgement would stop a small buffer
          if (!c.marks.empty() && c.marks.back().second == t) c.marks.back().first = c.in.size();
          else c.marks.emplace_back(c.in.size(), t);
          continue;
        }
        if (n == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) {
          c.eof = true;
          c.reset = n != 0;
          c.ended = t;
          ::close(c.fd);
          c.fd = -1;
          return true;
        }
        break;
      }
    }
    if (p.act != Plan::none && !c.acted && c.in.size() >= p.at) {
      c.acted = true;
      any = true;
      switch (p.act) {
        case Plan::rst: lossless = false; shut(c, true); return true;
        case Plan::close_now: lossless = false; shut(c, false); return true;
        case Plan::half_close: ::shutdown(c.fd, SHUT_WR); c.half = true; c.halved = t; break;
        case Plan::early_200: lossless = false; c.out = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"; c.responded = true; break;
        case Plan::early_200_close: lossless = false; c.out = "HTTP/1.1 200 OK\r\n\r\n"; push(c, 1000); shut(c, false); return true;
        case Plan::early_500: lossless = false; c.out = "HTTP/1.1 500 Internal Server Error\r\n\r\n"; push(c, 1000); shut(c, false); return true;
        case Plan::garbage: lossless = false; c.out = "\x16\x03\x01 nothing like HTTP \r\n\r\n\xff"; c.responded = true; break;
        case Plan::stall: p.read_from = t + p.stall_ns; break;
        default: break;
      }
    }
    if (!c.complete && !c.half && c.in.size() >= 5 && c.in.compare(c.in.size() - 5, 5, "0\r\n\r\n") == 0 && parse_request(c.in).done) {
      c.complete = true;
      c.answered = t;
      any = true;
      static const char ok[] = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";
      switch (p.answer) {
        case Plan::ok: case Plan::ok_pieces: case Plan::ok_open: c.out += ok; break;
        case Plan::error: c.out += "HTTP/1.1 503 Service Unavailable\r\n\r\n"; break;
        case Plan::noise: c.out += std::string("\0\x01HTTP/1.1\r\n200\r\n", 17); break;
        case Plan::ok_rst: c.out += ok; push(c, 1000); lossless = false; shut(c, true); return true;
        default: break;
      }
    }
    if (!c.out.empty() && c.fd >= 0) any = push(c, p.answer == Plan::ok_pieces ? 1 + c.piece++ % 7 : 1000) || any;
    if (c.complete && c.out.empty() && !c.half && p.answer != Plan::ok_open && p.answer != Plan::silent_open) {
      ::shutdown(c.fd, SHUT_WR);  // our half; the client's close is awaited
      c.half = true;
      any = true;
    }
    return any;
  }
};
// what came out of a connection, span by span
struct Stream {
  Request q;
  bool header = false;                 // the chunk with header and metrics arrived
  int64_t dropped = 0;
  uint64_t reporter = 0;
  std::string token;
  std::vector<std::pair<std::string, int64_t>> spans;  // name, when complete
  std::string cut;                     // bytes of an incomplete chunk
};
inline Stream decode(const Conn& c, const std::string& host) {
  Stream s;
  s.q = parse_request(c.in);
  if (!s.q.error.empty()) { fail("http", fmt("connection of %zu bytes: ", c.in.size()) + s.q.error); return s; }
  if (!s.q.head) return s;
  if (!host.empty() && s.q.header("Host") != host) fail("host", "host header " + hex(s.q.header("Host")) + " on a connection to " + host);
  if (s.q.used < c.in.size()) s.cut = c.in.substr(s.q.used);
  for (size_t i = 0; i < s.q.chunks.size(); ++i) {
    ls::collector::ReportRequest p;
    if (!p.ParseFromString(s.q.chunks[i])) { fail("report-parse", "a chunk is no part of a report: " + hex(s.q.chunks[i], 100)); return s; }
    if (i == 0) {
      Report r = decode(p);
      s.header = true;
      s.dropped = r.dropped;
      s.reporter = r.reporter;
      s.token = r.token;
      if (!p.has_reporter() || !p.has_auth()) fail("header", "the first chunk holds no reporter or no token");
      if (p.spans_size()) fail("header", "spans in the first chunk");
      continue;
    }
    Report r = decode(p);
    if (p.has_reporter() || p.has_auth() || p.has_internal_metrics() || p.spans_size() != 1) fail("chunk", fmt("a chunk after the first holds %d spans and other parts", p.spans_size()));
    for (auto& n : r.spans) s.spans.emplace_back(n, c.when(s.q.ends[i]));
  }
  ls::collector::ReportRequest all;
  if (!all.ParseFromString(s.q.body)) fail("report-parse", "the body is no report");
  return s;
}
}  // namespace vf
