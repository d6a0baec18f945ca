// C36: recording never waits for reporting.  Application threads must get through more spans than fit while whatever
// reports them is held: inside the resolver, a connect, a write, the event loop, the logger, or a transport's send.
#include "satellite.h"
#include <dlfcn.h>
#include <netdb.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <condition_variable>
#include <sstream>
#include "network/dns_resolver.h"
#include "recorder/auto_recorder.h"
#include "recorder/manual_recorder.h"
#include "recorder/stream_recorder/stream_recorder.h"
using namespace lightstep;
using vf::Rng;
using std::chrono::milliseconds;

// Threads of ours are never held; `recording` ones must not do network work or wait for descriptors.
static thread_local bool ours = false;
static thread_local bool recording = false;
enum Point { p_none, p_resolve, p_connect, p_write, p_loop, p_log, p_send, points };
static const char* point_names[] = {"satellites", "resolve", "connect", "write", "loop", "log", "send"};
struct Gate {
  std::mutex mu;
  std::condition_variable cv;
  Point at = p_none;
  bool closed = false;
  int inside = 0;
  uint64_t held = 0;
  uint64_t skip = 0;  // so many go through first
  void shut(Point p, uint64_t first) {
    std::lock_guard<std::mutex> l(mu);
    at = p;
    skip = first;
    closed = true;
    held = 0;
  }
  void open() {
    { std::lock_guard<std::mutex> l(mu); closed = false; }
    cv.notify_all();
  }
  bool wait_held(int ms) {
    std::unique_lock<std::mutex> l(mu);
    return cv.wait_for(l, milliseconds{ms}, [&] { return held > 0; });
  }
  void pass(Point p, bool whoever = false) {
    if (ours && !whoever) return;
    std::unique_lock<std::mutex> l(mu);
    if (!closed || at != p) return;
    if (skip) { --skip; return; }
    ++held;
    ++inside;
    cv.notify_all();
    cv.wait(l, [&] { return !closed; });
    --inside;
  }
};
static Gate& gate() { static Gate* g = new Gate; return *g; }
static std::atomic<bool> armed{false};
static void point(Point p, const char* what) {
  if (!armed) return;
  if (recording) { recording = false; vf::fail("network", std::string("recording a span called ") + what); recording = true; }
  gate().pass(p);
}
extern "C" int connect(int fd, const struct sockaddr* a, socklen_t n) {
  point(p_connect, "connect");
  return static_cast<int>(syscall(SYS_connect, fd, a, n));
}
extern "C" ssize_t sendmsg(int fd, const struct msghdr* m, int flags) {
  point(p_write, "sendmsg");
  return syscall(SYS_sendmsg, fd, m, flags);
}
static bool is_socket(int fd) {
  int t;
  socklen_t n = sizeof t;
  int e = errno;
  bool r = getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &n) == 0;
  errno = e;
  return r;
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) {
  if (armed && is_socket(fd)) point(p_write, "writev");
  return syscall(SYS_writev, fd, v, n);
}
extern "C" ssize_t send(int fd, const void* b, size_t n, int flags) {
  point(p_write, "send");
  return syscall(SYS_sendto, fd, b, n, flags, nullptr, 0);
}
extern "C" int epoll_wait(int fd, struct epoll_event* e, int max, int timeout) {
  point(p_loop, "epoll_wait");
  return static_cast<int>(syscall(SYS_epoll_pwait, fd, e, max, timeout, nullptr, 8));
}
extern "C" int epoll_pwait2(int fd, struct epoll_event* e, int max, const struct timespec* t, const sigset_t* s) {
  point(p_loop, "epoll_pwait2");
#ifdef SYS_epoll_pwait2
  return static_cast<int>(syscall(SYS_epoll_pwait2, fd, e, max, t, s, 8));
#else
  return static_cast<int>(syscall(SYS_epoll_pwait, fd, e, max, t ? static_cast<int>(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1, s, 8));
#endif
}
extern "C" int poll(struct pollfd* f, nfds_t n, int timeout) {
  point(p_loop, "poll");
  return static_cast<int>(syscall(SYS_poll, f, n, timeout));
}

struct Answer : DnsResolution {
  std::vector<IpAddress> a;
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override {
    for (auto& x : a) if (!f(x)) return false;
    return true;
  }
};
struct FakeResolver : DnsResolver {
  void Resolve(const char* name, int family, DnsResolutionCallback& cb) noexcept override {
    point(p_resolve, "Resolve");
    Answer a;
    if (family == AF_INET && strncmp(name, "sat.", 4) == 0) { a.a.emplace_back(name + 4, static_cast<uint16_t>(0)); cb.OnDnsResolution(a, ""); }
    else if (strncmp(name, "mute.", 5) != 0) cb.OnDnsResolution(a, "no such host");
  }
};
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new FakeResolver}; }
}  // namespace lightstep
// ---- transports that are held while they send
static std::mutex reentrant_mu;
static LightStepTracer* reentrant = nullptr;  // a transport that is traced itself, by the tracer it serves
static uint64_t reentered = 0;
static void trace_ourselves() {
  std::lock_guard<std::mutex> l(reentrant_mu);
  auto* t = reentrant;
  if (!t) return;
  for (int i = 0; i < 3; ++i) {
    auto s = t->StartSpan("send");
    if (s) s->Finish();
  }
  ++reentered;
}
static std::error_code broken() { return std::make_error_code(std::errc::timed_out); }
struct HeldSync : SyncTransporter {
  Rng r;
  explicit HeldSync(uint64_t s) : r(s) {}
  opentracing::expected<void> Send(const google::protobuf::Message&, google::protobuf::Message&) override {
    trace_ourselves();
    gate().pass(p_send, true);
    trace_ourselves();
    if (r.chance(1, 4)) return opentracing::make_unexpected(broken());
    return {};
  }
};
struct HeldAsync : AsyncTransporter {
  std::mutex mu;
  Rng r;
  explicit HeldAsync(uint64_t s) : r(s) {}
  void OnSpanBufferFull() noexcept override {}
  void Send(std::unique_ptr<BufferChain>&& m, AsyncTransporter::Callback& c) noexcept override {
    trace_ourselves();
    gate().pass(p_send, true);
    trace_ourselves();
    bool ok;
    { std::lock_guard<std::mutex> l(mu); ok = r.chance(1, 2); }
    if (ok) c.OnSuccess(*m); else c.OnFailure(*m);
  }
};
// ---- what an application does
struct Carrier : opentracing::TextMapReader, opentracing::TextMapWriter {
  mutable std::vector<std::pair<std::string, std::string>> kv;
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view v) const override { kv.emplace_back(k, v); return {}; }
  opentracing::expected<void> ForeachKey(std::function<opentracing::expected<void>(opentracing::string_view, opentracing::string_view)> f) const override {
    for (auto& x : kv) { auto e = f(x.first, x.second); if (!e) return e; }
    return {};
  }
};
struct Tally { std::atomic<uint64_t> ops{0}; };
static uint64_t one_span(LightStepTracer& t, Rng& q, bool flush) {
  uint64_t h = 0;
  recording = true;
  {
    auto s = t.StartSpan("op");
    if (!s) { recording = false; vf::fail("span", "no span"); return 0; }
    for (uint64_t k = q.below(5); k > 0; --k) {
      uint64_t what = q.below(8);
      h = vf::mix(h * 8 + what);
      switch (what) {
        case 0: s->SetTag("tag", q.alnum(q.skewed(300))); break;
        case 1: s->Log({{"event", "x"}, {"size", static_cast<int64_t>(q.below(99))}}); break;
        case 2: s->SetBaggageItem("k" + q.alnum(2), q.alnum(4)); break;
        case 3: { auto c = t.StartSpan("child", {opentracing::ChildOf(&s->context())}); if (c) c->Finish(); break; }
        case 4: { Carrier c; t.Inject(s->context(), static_cast<const opentracing::TextMapWriter&>(c)); t.Extract(static_cast<const opentracing::TextMapReader&>(c)); break; }
        case 5: s->SetOperationName(q.alnum(5)); break;
        case 6: { std::ostringstream o; t.Inject(s->context(), o); break; }
        default: s->BaggageItem("k"); break;
      }
    }
    if (q.chance(3, 4)) s->Finish();  // else by its destructor
  }
  recording = false;
  // a flush that may not take long, whatever is held
  if (flush && q.chance(1, 40)) t.FlushWithTimeout(std::chrono::nanoseconds{static_cast<int64_t>(q.below(3)) * 1000000});
  return h;
}
struct Rig {  // a tracer and what reports its spans
  vf::Satellites sats;
  std::mutex mu;
  std::atomic<bool> stop{false};
  std::thread player;
  std::shared_ptr<LightStepTracer> tracer;
  Recorder* rec = nullptr;
  std::shared_ptr<Logger> log;
  std::string name;
  bool ends = true;  // everything is taken once nothing is held
  ~Rig() {
    tracer.reset();
    stop = true;
    if (player.joinable()) player.join();
  }
};
enum Kind { k_stream, k_auto, k_manual };
static void build(Rig& g, Rng& r, Kind kind, Point at, size_t max_spans, int64_t i) {
  LightStepTracerOptions o;
  o.access_token = "secret";
  o.max_buffered_spans = max_spans;
  o.reporting_period = milliseconds{1 + static_cast<int64_t>(r.below(40))};
  o.satellite_endpoints.clear();
  g.log = std::make_shared<Logger>([](LogLevel, opentracing::string_view) { if (!ours) point(p_log, "log"); });
  g.log->set_level(LogLevel::debug);
  if (kind == k_stream) {
    int mood = at == p_none ? static_cast<int>(r.below(5)) : at == p_log ? 2 + static_cast<int>(r.below(2)) : 0;
    static const char* moods[] = {"stuck", "deaf", "refusing", "unresolved", "mute"};
    g.name = at == p_none ? moods[mood] : point_names[at];
    size_t n = 1 + r.below(3);
    for (size_t k = 0; k < n; ++k) {
      std::string ip = vf::fmt("127.%d.%d.%d", 1 + static_cast<int>(i % 200), 1 + static_cast<int>(getpid() % 250), 2 + static_cast<int>(k));
      g.sats.add(ip, r.chance(1, 2) ? 2304 : 0);
      o.satellite_endpoints.emplace_back((mood == 3 ? "none." : mood == 4 ? "mute." : "sat.") + ip, g.sats.sats.back().port);
      if (mood == 2) g.sats.refuse(k);
      if (mood == 1) g.sats.sats[k].deaf = true;
    }
    bool stuck = mood == 0 && at == p_none;
    g.ends = at != p_none && at != p_log;
    g.sats.now = [] { return static_cast<int64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count()); };
    g.sats.plan = [stuck](size_t) {
      vf::Plan p;
      p.good = !stuck;
      if (stuck) p.read_from = INT64_MAX;
      return p;
    };
    g.player = std::thread([&g] {
      ours = true;
      while (!g.stop) {
        bool any;
        { std::lock_guard<std::mutex> l(g.mu); any = g.sats.step(); }
        if (!any) std::this_thread::sleep_for(std::chrono::microseconds{300});
      }
    });
    StreamRecorderOptions so;
    so.polling_period = milliseconds{1 + r.below(3)};
    so.num_satellite_connections = 1 + static_cast<int>(r.below(4));
    so.satellite_failure_retry_period = milliseconds{5 + r.below(20)};
    so.satellite_write_timeout = milliseconds{20 + r.below(5000)};
    so.min_satellite_reconnect_period = milliseconds{5 + r.below(100)};
    so.max_satellite_reconnect_period = so.min_satellite_reconnect_period + milliseconds{r.below(60)};
    so.satellite_graceful_stream_shutdown_timeout = milliseconds{20 + r.below(100)};
    so.dns_failure_retry_period = milliseconds{5 + r.below(30)};
    g.rec = new StreamRecorder{*g.log, std::move(o), std::move(so)};
  } else {
    g.name = point_names[at];
    if (kind == k_auto) g.rec = new AutoRecorder{*g.log, std::move(o), std::unique_ptr<SyncTransporter>{new HeldSync{r()}}};
    if (kind == k_manual) g.rec = new ManualRecorder{*g.log, std::move(o), std::unique_ptr<AsyncTransporter>{new HeldAsync{r()}}};
  }
  g.tracer = vf::make_tracer(kind == k_auto, std::unique_ptr<Recorder>{g.rec}, LightStepTracerOptions{}, g.log);
}
static const int deadline_s = 60;
static void one(Rng& r, int64_t i) {
  static const char* kind_names[] = {"stream", "auto", "manual"};
  Kind kind = r.chance(1, 2) ? k_stream : r.chance(1, 2) ? k_auto : k_manual;
  Point at = kind == k_stream ? static_cast<Point>(r.below(p_send)) : p_send;
  size_t max_spans = 1 + r.skewed(400);
  uint64_t h = vf::mix(static_cast<uint64_t>(kind) * 16 + static_cast<uint64_t>(at));
  Rig g;
  bool early = r.chance(1, 3);  // held from the start
  armed = true;
  uint64_t skip = r.chance(1, 2) ? 0 : r.below(6);
  if (early) gate().shut(at, skip);
  build(g, r, kind, at, max_spans, i);
  if (kind != k_stream && r.chance(1, 2)) {
    std::lock_guard<std::mutex> l(reentrant_mu);
    reentrant = g.tracer.get();
  }
  // this thread records nothing while the gate is shut: it opens it
  for (uint64_t k = early ? 0 : r.skewed(2 * max_spans); k > 0; --k) h = vf::mix(h ^ one_span(*g.tracer, r, false));
  if (!early) {
    std::this_thread::sleep_for(std::chrono::microseconds{r.below(5000)});
    gate().shut(at, skip);
  }
  // others that wait for it, and for manual recorders the thread whose flush is held
  std::vector<std::thread> waiting;
  bool close = kind != k_manual && g.ends && r.chance(1, 4);
  for (uint64_t k = close || kind == k_manual ? 1 : r.below(3); k > 0; --k)
    waiting.emplace_back([&g, close] {
      ours = true;
      if (close) g.tracer->Close();
      else g.tracer->FlushWithTimeout(milliseconds{g.ends ? 20000 : 200});
    });
  // until then something is recorded now and then
  std::atomic<bool> fed{false};
  std::thread feeder([&, seed = r()] {
    ours = true;
    Rng q{seed};
    while (!fed) {
      one_span(*g.tracer, q, false);
      if (kind == k_manual && q.chance(1, 8)) g.tracer->Flush();
      std::this_thread::sleep_for(std::chrono::microseconds{q.below(1000)});
    }
  });
  bool held = at == p_none || gate().wait_held(at == p_log || at == p_write ? 400 : 3000);
  fed = true;
  vf::count(std::string(held ? "held:" : "not_reached:") + kind_names[kind] + ":" + g.name);
  {
    int n_threads = 1 + static_cast<int>(r.below(4));
    uint64_t each = 10 + max_spans + r.below(300);
    std::mutex mu;
    std::condition_variable cv;
    int left = n_threads;
    uint64_t done_spans = 0;
    std::vector<std::thread> apps;
    bool flush = r.chance(1, 2) && kind != k_manual;
    for (int k = 0; k < n_threads; ++k)
      apps.emplace_back([&, seed = r()] {
        ours = true;
        Rng q{seed};
        uint64_t x = 0;
        for (uint64_t n = 0; n < each; ++n) x = vf::mix(x ^ one_span(*g.tracer, q, flush));
        std::lock_guard<std::mutex> l(mu);
        h ^= x;
        done_spans += each;
        --left;
        cv.notify_all();
      });
    {
      std::unique_lock<std::mutex> l(mu);
      if (!cv.wait_for(l, std::chrono::seconds{deadline_s}, [&] { return left == 0; }))
        vf::fail("blocked", vf::fmt("%d of %d threads can't get on recording spans while the %s recorder is held (%s)", left, n_threads, kind_names[kind], g.name.c_str()));
      else if (held) vf::count("spans_while_held", done_spans);
    }
    gate().open();
    for (auto& t : apps) t.join();
    vf::eval(done_spans);
  }
  gate().open();
  feeder.join();
  for (auto& t : waiting) t.join();
  {
    std::lock_guard<std::mutex> l(reentrant_mu);
    reentrant = nullptr;
    vf::count("traced_itself", reentered);
    reentered = 0;
  }
  g.tracer.reset();
  armed = false;
  vf::eval();
  vf::distinct(h);
}
int main(int argc, char** argv) {
  ours = true;
  vf::init(argc, argv);
  vf::cases("held", vf::n(200, 4000), one);
  return vf::finish();
}
