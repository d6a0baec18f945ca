// C23: the streaming recorder against satellites that misbehave, on virtual time: HTTP, exactly once, conservation, resumption.
#include "vtime.h"
#include "satellite.h"
#include "network/dns_resolver.h"
#include "recorder/stream_recorder/stream_recorder.h"
#include <sys/ioctl.h>
#include <linux/sockios.h>
#include <set>
using namespace lightstep;
using vf::Rng;
using vf::Plan;

static const int64_t ms = 1000000;
// ---- the network interface of the client: small buffers, partial and failing writes
struct Net {
  Rng r{1};
  bool on = false;
  int sndbuf = 0;
  int cut = 0, again = 0, fail = 0;  // per 1000 writes
  uint64_t writes = 0, cuts = 0, agains = 0, fails = 0;
  static uint64_t key(uint32_t ip, uint16_t port) { return static_cast<uint64_t>(ip) << 16 | port; }
  std::map<int, uint64_t> fds;         // open connections: address of the satellite, local port
  std::map<int, int64_t> since;        // when they were opened
  std::map<uint64_t, int64_t> closed;  // when the client closed
  std::set<uint64_t> failed;           // local ports on which a write was made to fail
};
static Net net;
extern "C" int connect(int fd, const struct sockaddr* a, socklen_t n) {
  if (net.on && a->sa_family == AF_INET) {
    if (net.sndbuf) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &net.sndbuf, sizeof net.sndbuf);
    auto rc = syscall(SYS_connect, fd, a, n);
    int e = errno;
    sockaddr_in b{};
    socklen_t l = sizeof b;
    getsockname(fd, reinterpret_cast<sockaddr*>(&b), &l);
    net.fds[fd] = Net::key(reinterpret_cast<const sockaddr_in*>(a)->sin_addr.s_addr, ntohs(b.sin_port));
    net.since[fd] = vf::vnow();
    errno = e;
    return static_cast<int>(rc);
  }
  return static_cast<int>(syscall(SYS_connect, fd, a, n));
}
extern "C" int close(int fd) {
  auto i = net.on ? net.fds.find(fd) : net.fds.end();
  if (i != net.fds.end()) {
    net.closed[i->second] = vf::vnow();
    net.fds.erase(i);
  }
  return static_cast<int>(syscall(SYS_close, fd));
}
static ssize_t put(int fd, const struct iovec* v, size_t n, int flags) {
  msghdr h{};
  std::vector<iovec> w(v, v + n);
  if (net.on && net.fds.count(fd)) {
    ++net.writes;
    auto k = static_cast<int>(net.r.below(1000));
    if (k < net.cut) {
      size_t total = 0;
      for (auto& i : w) total += i.iov_len;
      size_t most = total ? 1 + net.r.below(net.r.chance(1, 2) ? std::min<size_t>(total, 40) : total) : 0;
      size_t j = 0;
      while (j < w.size() && most > w[j].iov_len) most -= w[j++].iov_len;
      if (j < w.size()) { w[j].iov_len = most; w.resize(j + 1); }
      ++net.cuts;
    } else if (k < net.cut + net.again) {
      ++net.agains;
      errno = EAGAIN;
      return -1;
    } else if (k < net.cut + net.again + net.fail) {
      ++net.fails;
      static const int e[] = {ENOBUFS, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, EPIPE};
      net.failed.insert(net.fds[fd]);
      errno = e[net.r.below(5)];
      return -1;
    }
  }
  h.msg_iov = w.data();
  h.msg_iovlen = w.size();
  return syscall(SYS_sendmsg, fd, &h, flags | MSG_NOSIGNAL);
}
extern "C" ssize_t sendmsg(int fd, const struct msghdr* m, int flags) { return put(fd, m->msg_iov, m->msg_iovlen, flags); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) {
  if (net.on && net.fds.count(fd)) return put(fd, v, static_cast<size_t>(n), 0);
  return syscall(SYS_writev, fd, v, n);
}
// ---- names of satellites
struct Names {
  Rng* r = nullptr;
  EventBase* base = nullptr;
  int64_t good_from = 0;  // attempts before this time fail
  int late_ms = 0;
  std::map<std::string, std::string> ip;
};
static Names* names;
struct Answer : DnsResolution {
  std::vector<IpAddress> a;
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override {
    for (auto& x : a) if (!f(x)) return false;
    return true;
  }
};
struct FakeResolver : DnsResolver {
  EventBase& base;
  explicit FakeResolver(EventBase& b) : base(b) {}
  struct Pending { std::string name; int family; DnsResolutionCallback* cb; };
  std::vector<std::unique_ptr<Pending>> all;
  static void answer(const std::string& name, int family, DnsResolutionCallback& cb) {
    Answer a;
    if (family == AF_INET && vf::vnow() >= names->good_from && names->ip.count(name)) {
      a.a.emplace_back(names->ip[name].c_str(), static_cast<uint16_t>(0));
      cb.OnDnsResolution(a, "");
    } else {
      cb.OnDnsResolution(a, "no such host");
    }
  }
  static void later(FileDescriptor, short, void* c) {
    auto p = static_cast<Pending*>(c);
    answer(p->name, p->family, *p->cb);
  }
  void Resolve(const char* name, int family, DnsResolutionCallback& cb) noexcept override {
    if (!names->late_ms) { answer(name, family, cb); return; }
    all.emplace_back(new Pending{name, family, &cb});
    base.OnTimeout(std::chrono::milliseconds{1 + names->r->below(static_cast<uint64_t>(names->late_ms))}, later, all.back().get());
  }
};
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase& b, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new FakeResolver{b}}; }
}  // namespace lightstep
// ---- one run
struct World {
  Rng& r;
  int64_t id;
  vf::Satellites s;
  std::shared_ptr<vf::Observer::Counts> c = std::make_shared<vf::Observer::Counts>();
  StreamRecorder* rec = nullptr;
  std::shared_ptr<LightStepTracer> tracer;
  Names n;
  std::vector<std::string> hosts;
  int64_t t0 = 0, good = 0, sure = 0, stop = 0, bound = 0, min_reconnect = 0, behaved = INT64_MAX, sound = 0;
  int fault = 0;         // how bad the satellites are before `good`
  bool behaving = false;
  uint64_t made = 0;
  std::map<std::string, int64_t> finished;  // span -> when
  std::set<std::string> refused;
  std::atomic<int> phase{0};                // 0 running, 1 quiescent: the main thread may stop the recorder
  size_t burst = 0, big = 0;
  bool tiny = false;     // tiny socket buffers: large spans would take long in real time
  int64_t next_burst = 0;
  World(Rng& x, int64_t i) : r(x), id(i) {}

  Plan next(size_t) {
    Plan p;
    if (behaving || !r.chance(static_cast<unsigned>(fault), 100)) return p;
    p.good = false;
    switch (r.below(8)) {
      case 0: p.rate = 1 + r.below(30); break;
      case 1: p.rate = 1 + r.below(3000); break;
      case 2: p.read_from = vf::vnow() + static_cast<int64_t>(r.below(12000)) * ms; break;
      case 3: p.answer = static_cast<Plan::Answer>(r.below(lossy ? 8 : 7)); break;
      default: {
        static const Plan::Act gentle[] = {Plan::half_close, Plan::stall};
        static const Plan::Act all[] = {Plan::rst, Plan::close_now, Plan::half_close, Plan::early_200, Plan::early_200_close, Plan::early_500, Plan::garbage, Plan::stall};
        p.act = lossy ? all[r.below(8)] : gentle[r.below(2)];
        static const size_t at[] = {1, 40, 200, 400, 700, 5000, 100000};
        p.at = r.chance(1, 8) ? 0 : 1 + r.below(at[r.below(7)]);
        p.stall_ns = static_cast<int64_t>(r.below(12000)) * ms;
        if (r.chance(1, 3)) p.answer = static_cast<Plan::Answer>(r.below(lossy ? 8 : 7));
      }
    }
    return p;
  }
  bool lossy = false, writes = false, abrupt = false;
  int64_t cut_at = 0;  // abrupt: when the recorder is stopped
  void finish_span(size_t load) {
    std::string name = vf::fmt("s%lld-%llu", (long long)id, (unsigned long long)made++);
    auto span = tracer->StartSpan(name);
    if (!span) { vf::fail("span", "no span"); return; }
    vf::mark(*span, name, load);
    int64_t d = c->dropped;
    span->Finish();
    finished[name] = vf::vnow();
    int64_t n = c->dropped - d;
    VF_CHECK(n == 0 || n == 1, "refusal", "one span finished, %lld dropped", (long long)n);
    if (n) refused.insert(name);
  }
  // What is on its way between the kernel's buffers takes real time, in which no virtual time may pass.
  void settle() {
    for (int k = 0; k < 3000; ++k) {
      bool moving = false;
      for (auto i = net.fds.begin(); i != net.fds.end();) {
        int q = 0;
        if (ioctl(i->first, SIOCOUTQ, &q) != 0) { i = net.fds.erase(i); continue; }
        tcp_info ti{};
        socklen_t l = sizeof ti;
        for (auto c : s.open) {
          if (c->fd < 0 || !c->half || c->eof || c->key != i->second) continue;
          pollfd f{i->first, POLLRDHUP, 0};
          moving = moving || ::poll(&f, 1, 0) == 0;
        }
        bool opening = net.since[i->first] >= behaved && getsockopt(i->first, IPPROTO_TCP, TCP_INFO, &ti, &l) == 0 && ti.tcpi_state == TCP_SYN_SENT;
        moving = moving || q > 0 || opening;
        ++i;
      }
      if (!moving) return;
      if (s.step()) { k = 0; continue; }
      ++waits;
      struct timespec q{0, 100000};
      syscall(SYS_nanosleep, &q, nullptr);
    }
    ++stuck;
  }
  uint64_t waits = 0, stuck = 0;
  void idle() {
    int64_t t = vf::vnow();
    if (phase == 1) {  // let the main thread come
      s.step();
      struct timespec q{0, 2 * ms};
      syscall(SYS_nanosleep, &q, nullptr);
      return;
    }
    if (!behaving && t >= good) {
      behaving = true;
      behaved = t;
      if (!writes) net.fail = 0;
      s.behave();
    }
    if (t >= sound) net.fail = 0;
    if (t >= sure) net.cut = net.again = 0;
    s.step();
    if (behaving) settle();
    if (!behaving && fault && r.chance(1, 400)) {
      size_t i = r.below(s.sats.size());
      switch (r.below(4)) {
        case 0: s.sats[i].deaf = true; break;
        case 1: s.sats[i].deaf = false; s.listen(i, 128); break;
        case 2: s.refuse(i); break;
        default: s.listen(i, 128); s.sats[i].deaf = false; break;
      }
    }
    if (t < stop && t >= next_burst) {
      for (size_t k = r.skewed(burst); k > 0; --k) {
        size_t load = r.skewed(120);
        if (r.below(1000) < big) load = r.below(tiny ? 12000 : r.chance(1, 6) ? 900000 : 60000);
        finish_span(load);
      }
      next_burst = t + static_cast<int64_t>(r.below(60)) * ms;
    }
    if (abrupt) {
      if (t >= cut_at) phase = 1;
      return;
    }
    if (t >= stop + bound + 200 * ms) {
      bool calm = t > stop + bound + 20000 * ms;
      if (!calm) {
        calm = true;
        for (auto& k : s.conns) if (!k->eof && !k->ours && (k->complete || t - k->opened > min_reconnect - 200 * ms || k->in.empty())) calm = false;
      }
      if (calm) {
        for (size_t k = r.below(3); k > 0; --k) finish_span(20);
        phase = 1;
      }
    }
  }
};
static void run(Rng& r, int64_t i, int fault, bool lossy, bool writes = false, bool abrupt = false) {
  auto& v = vf::vt();
  World w{r, i};
  w.fault = fault;
  w.lossy = lossy;
  w.writes = writes;
  w.abrupt = abrupt;
  w.t0 = v.now_ns;
  w.s.now = vf::vnow;
  w.s.plan = [&](size_t k) { return w.next(k); };
  w.n.r = &r;
  names = &w.n;
  LightStepTracerOptions o;
  o.satellite_endpoints.clear();
  bool tiny = w.tiny = r.chance(1, 2);
  size_t nsat = 1 + r.below(4);
  for (size_t k = 0; k < nsat; ++k) {
    std::string ip = vf::fmt("127.%d.%d.%d", 1 + (int)r.below(200), (int)(getpid() % 250), 2 + (int)k);
    w.s.add(ip, tiny ? 2304 : 0);
    w.hosts.push_back(vf::fmt("sat%zu", k));
    w.n.ip[w.hosts.back()] = ip;
    o.satellite_endpoints.emplace_back(w.hosts.back(), w.s.sats.back().port);
  }
  if (r.chance(1, 4)) w.n.late_ms = 1 + static_cast<int>(r.below(3000));
  o.access_token = r.alnum(1 + r.below(30));
  o.component_name = r.alnum(r.below(20));
  o.max_buffered_spans = 1 + r.skewed(r.chance(1, 2) ? 20 : 3000);
  o.reporting_period = std::chrono::milliseconds{2 + r.skewed(800)};
  o.metrics_observer.reset(new vf::Observer{w.c});
  StreamRecorderOptions so;
  so.polling_period = std::chrono::milliseconds{1 + r.below(15)};
  so.num_satellite_connections = 1 + static_cast<int>(r.below(8));
  so.satellite_write_timeout = std::chrono::milliseconds{200 + r.below(3000)};
  so.satellite_failure_retry_period = std::chrono::milliseconds{20 + r.below(1000)};
  so.min_satellite_reconnect_period = std::chrono::milliseconds{600 + r.below(3000)};
  so.max_satellite_reconnect_period = so.min_satellite_reconnect_period + std::chrono::milliseconds{r.below(2000)};
  so.satellite_graceful_stream_shutdown_timeout = std::chrono::milliseconds{100 + r.below(3000)};
  so.dns_failure_retry_period = std::chrono::milliseconds{100 + r.below(3000)};
  so.early_flush_threshold = 0.1 * static_cast<double>(1 + r.below(9));
  auto ns = [](std::chrono::microseconds u) { return static_cast<int64_t>(u.count()) * 1000; };
  w.min_reconnect = ns(so.min_satellite_reconnect_period);
  w.good = w.t0 + (fault ? static_cast<int64_t>(2000 + r.below(12000)) * ms : 0);
  if (fault && r.chance(1, 4)) w.n.good_from = w.t0 + static_cast<int64_t>(r.below(static_cast<uint64_t>((w.good - w.t0) / ms))) * ms;
  int64_t rp = std::chrono::duration_cast<std::chrono::milliseconds>(o.reporting_period).count() * ms;
  // every delay that may be under way when the faults stop
  w.sure = w.good + ns(so.satellite_write_timeout) + ns(so.satellite_failure_retry_period) + ns(so.satellite_graceful_stream_shutdown_timeout) + ns(so.dns_failure_retry_period) + 2 * w.n.late_ms * ms + 500 * ms;
  int64_t extra = writes ? static_cast<int64_t>(r.below(12000)) * ms : 0;
  w.sound = w.good + extra;
  w.sure += extra;
  w.cut_at = w.t0 + static_cast<int64_t>(r.below(r.chance(1, 2) ? 2500 : 12000)) * ms;
  if (abrupt) w.good = w.sure = w.stop = w.sound = w.t0 + 3600000 * ms;
  w.bound = 2 * rp + 3 * ns(so.polling_period) + 100 * ms;
  w.stop = w.sure + static_cast<int64_t>(1000 + r.below(6000)) * ms;
  static const size_t bursts[] = {1, 4, 20, 60};
  w.burst = bursts[r.below(4)];
  static const size_t bigs[] = {0, 10, 100};
  w.big = bigs[r.below(3)];
  net.r = Rng{r()};
  net.fds.clear();
  net.sndbuf = tiny || r.chance(1, 4) ? 4608 : 0;
  net.cut = r.chance(1, 2) ? static_cast<int>(r.below(400)) : 0;
  net.again = r.chance(1, 3) ? static_cast<int>(r.below(200)) : 0;
  net.fail = (fault && r.chance(1, 3)) || writes ? static_cast<int>(r.below(writes ? 400 : 60)) : 0;
  net.failed.clear();
  net.closed.clear();
  net.on = true;
  uint64_t max_spans = o.max_buffered_spans.value();
  auto log = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  // the tracer starts no span before the recorder's thread is up
  v.idle = [&] { if (w.tracer) w.idle(); };
  v.limit_ns = 0;
  std::string token = o.access_token;
  v.on = true;
  {
    LightStepTracerOptions po;
    std::atomic<bool> ready{false};
    v.idle = [&] { if (ready.load()) w.idle(); else { struct timespec q{0, 50000}; syscall(SYS_nanosleep, &q, nullptr); } };
    w.rec = new StreamRecorder{*log, std::move(o), std::move(so)};
    w.tracer = vf::make_tracer(false, std::unique_ptr<Recorder>{w.rec}, po, log);
    ready = true;
    while (w.phase == 0) { struct timespec q{0, 300000}; syscall(SYS_nanosleep, &q, nullptr); }
    w.rec->PrepareForFork();  // stops the thread and lets go of all connections
  }
  int64_t end = v.now_ns;
  std::set<const vf::Conn*> before;
  for (auto& c : w.s.conns) if (c->complete || c->eof || c->ours) before.insert(c.get());
  w.s.behave();
  bool drained = w.s.drain(10000);
  VF_CHECK(drained, "descriptor-leak", "a connection is still open after the recorder let go of all of them");
  // ---- what arrived
  uint64_t received = 0, h = 0;
  int64_t embedded = 0;
  std::map<std::string, int> seen;
  uint64_t reporter = 0;
  size_t healthy = 0, streams = 0, cuts = 0;
  for (auto& c : w.s.conns) {
    vf::Stream t = vf::decode(*c, w.hosts[c->sat]);
    if (t.header) {
      ++streams;
      VF_CHECK(t.token == token, "token", "access token %s", t.token.c_str());
      VF_CHECK(reporter == 0 || t.reporter == reporter, "reporter", "two reporter ids from one recorder");
      reporter = t.reporter;
      embedded += t.dropped;
      VF_CHECK(t.dropped >= 0, "embedded", "negative dropped count");
    }
    if (!t.cut.empty() || (!c->in.empty() && !t.q.done)) ++cuts;
    for (auto& s : t.spans) {
      ++received;
      int k = ++seen[s.first];
      VF_CHECK(k == 1, "duplicate", "span %s was delivered %d times", s.first.c_str(), k);
      auto f = w.finished.find(s.first);
      VF_CHECK(f != w.finished.end(), "unknown", "span %s was never finished", s.first.c_str());
      VF_CHECK(!w.refused.count(s.first), "refused-delivered", "span %s was dropped and delivered", s.first.c_str());
      if (f != w.finished.end() && f->second >= w.sure && f->second <= w.stop)
        VF_CHECK(s.second - f->second <= w.bound, "late", "span %s arrived %.3f s after its end, with good satellites (bound %.3f s)", s.first.c_str(), static_cast<double>(s.second - f->second) / 1e9, static_cast<double>(w.bound) / 1e9);
    }
    h = vf::mix(h ^ c->in.size() ^ vf::mix(t.spans.size() * 8 + c->eof));
    // with good satellites each request is complete, and each connection lasts as configured
    uint64_t key = c->key;
    int64_t last = c->ours ? c->ended : net.closed.count(key) ? net.closed[key] : end;
    if ((last > w.sure + 1 || c->opened > w.behaved) && !c->in.empty() && !c->half_before(w.good) && !net.failed.count(key)) {
      VF_CHECK(t.q.done, "incomplete", "a request ended incomplete after %.3f s although its satellite behaved well (opened %.3f s, ended %.3f s after the faults stopped; %zu bytes, act %d at %zu, answer %d, half %d, reset %d, eof %d)", static_cast<double>(last - c->opened) / 1e9,
               static_cast<double>(c->opened - w.good) / 1e9, static_cast<double>(last - w.good) / 1e9, c->in.size(), (int)c->plan.act, c->plan.at, (int)c->plan.answer, c->half, c->reset, c->eof);
      if (t.q.done && c->opened > w.behaved && before.count(c.get()))
        VF_CHECK(last - c->opened >= w.min_reconnect - 30 * ms, "short", "a connection to a good satellite was given up after %.3f s", static_cast<double>(last - c->opened) / 1e9);
    }
    if (t.q.done && !before.count(c.get()) && !c->marks.empty() && end - c->opened < w.min_reconnect - 50 * ms && c->opened < end - 50 * ms) ++healthy;
  }
  uint64_t buffered = w.rec->span_buffer().size();
  uint64_t fin = w.finished.size(), sent = static_cast<uint64_t>(w.c->sent), dropped = static_cast<uint64_t>(w.c->dropped);
  VF_CHECK(fin == sent + dropped + buffered, "conservation", "%llu spans finished, %llu sent, %llu dropped, %llu buffered", (unsigned long long)fin, (unsigned long long)sent, (unsigned long long)dropped, (unsigned long long)buffered);
  VF_CHECK(received <= sent, "sent", "%llu spans received, %llu counted as sent", (unsigned long long)received, (unsigned long long)sent);
  VF_CHECK(embedded + w.rec->metrics().num_dropped_spans() <= static_cast<int64_t>(dropped), "reported", "%lld dropped spans reported or pending of %llu", (long long)(embedded + w.rec->metrics().num_dropped_spans()), (unsigned long long)dropped);
  if (w.s.lossless) {
    VF_CHECK(received == sent, "lost", "%llu spans counted as sent, %llu received although every byte was read", (unsigned long long)sent, (unsigned long long)received);
    VF_CHECK(embedded + w.rec->metrics().num_dropped_spans() == static_cast<int64_t>(dropped), "reported", "%llu spans dropped, %lld reported, %d pending", (unsigned long long)dropped, (long long)embedded, w.rec->metrics().num_dropped_spans());
    vf::count("lossless_runs");
  }
  uint64_t timely = 0;
  for (auto& f : w.finished) {
    if (f.second < w.sure || f.second > w.stop || w.refused.count(f.first)) continue;
    ++timely;
    VF_CHECK(seen.count(f.first), "missing", "span %s, finished %.3f s after the faults stopped, never arrived", f.first.c_str(), static_cast<double>(f.second - w.good) / 1e9);
  }
  if (!fault && !writes) VF_CHECK(received + w.refused.size() + buffered == fin, "exactly-once", "%llu finished, %llu received, %zu refused, %llu buffered, with good satellites", (unsigned long long)fin, (unsigned long long)received, w.refused.size(), (unsigned long long)buffered);
  if (healthy) VF_CHECK(buffered == 0, "exit-flush", "%llu spans left in the buffer although %zu connections were ready at the end", (unsigned long long)buffered, healthy);
  VF_CHECK(w.refused.empty() || w.finished.size() > max_spans, "refused", "%zu spans refused with fewer than %llu finished", w.refused.size(), (unsigned long long)max_spans);
  v.on = false;
  net.on = false;
  w.tracer.reset();
  vf::eval(fin + w.s.conns.size());
  vf::distinct(h ^ vf::mix(fin));
  vf::count("spans", fin);
  vf::count("received", received);
  vf::count("refused", w.refused.size());
  vf::count("dropped", dropped);
  vf::count("connections", w.s.conns.size());
  vf::count("requests_cut", cuts);
  vf::count("requests", streams);
  vf::count("writes_cut", net.cuts);
  vf::count("writes_failed", net.fails);
  vf::count("timely_spans", timely);
  vf::count("healthy_ends", healthy);
  vf::count("virtual_seconds", static_cast<uint64_t>((end - w.t0) / 1000000000));
  vf::count("settle_waits", w.waits);
  vf::count("settle_stuck", w.stuck);
  net.cuts = net.fails = 0;
  if (getenv("VF_DEBUG")) fprintf(stderr, "%s tiny %d big %zu burst %zu: waits %llu, %zu conns, %llu spans %.1f vs\n", vf::st().current.c_str(), tiny, w.big, w.burst, (unsigned long long)w.waits, w.s.conns.size(), (unsigned long long)fin, static_cast<double>(end - w.t0) / 1e9);
  if (i < 2) vf::sample(vf::fmt("%zu satellites, %zu connections over %.1f s: %llu spans finished, %llu received, %llu dropped, %zu requests cut", nsat, w.s.conns.size(), static_cast<double>(end - w.t0) / 1e9,
                                (unsigned long long)fin, (unsigned long long)received, (unsigned long long)dropped, cuts));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("good", vf::n(12, 300), [](Rng& r, int64_t i) { run(r, i, 0, false); });
  vf::cases("gentle", vf::n(20, 600), [](Rng& r, int64_t i) { run(r, i, 30 + static_cast<int>(r.below(70)), false); });
  vf::cases("hostile", vf::n(30, 900), [](Rng& r, int64_t i) { run(r, i, 30 + static_cast<int>(r.below(70)), true); });
  vf::cases("writes", vf::n(12, 300), [](Rng& r, int64_t i) { run(r, i, 0, false, true); });
  vf::cases("abrupt", vf::n(30, 1200), [](Rng& r, int64_t i) { run(r, i, static_cast<int>(r.below(101)), r.chance(1, 2), false, true); });
  return vf::finish();
}
