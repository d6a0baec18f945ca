// C33: whatever is done again and again, memory, descriptors, threads and fork handlers come back to where they were.
#include "vtime.h"
#include "carriers.h"
#include "reports.h"
#include "values.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sstream>
#include "lightstep/tracer.h"
#include "network/dns_resolver.h"
#include "recorder/auto_recorder.h"
#include "recorder/legacy_manual_recorder.h"
#include "recorder/manual_recorder.h"
#include "recorder/stream_recorder/stream_recorder.h"
#include "tracer/json_options.h"
#include "tracer/lightstep_tracer_factory.h"
using namespace lightstep;
using vf::Rng;
using std::chrono::milliseconds;
// ---- what is watched
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static std::atomic<int> handlers{0};
extern "C" int __register_atfork(void (*a)(void), void (*b)(void), void (*c)(void), void* d) {
  ++handlers;
  static auto f = reinterpret_cast<int (*)(void (*)(void), void (*)(void), void (*)(void), void*)>(dlsym(RTLD_NEXT, "__register_atfork"));
  return f(a, b, c, d);
}
static int entries(const char* dir) {
  int n = 0;
  DIR* d = opendir(dir);
  if (!d) { fprintf(stderr, "harness: %s\n", dir); _exit(77); }
  while (dirent* e = readdir(d)) n += e->d_name[0] != '.';
  closedir(d);
  return n;
}
struct Level { int64_t bytes; int fds, threads, handlers; };
static int64_t live() { return static_cast<int64_t>(__sanitizer_get_current_allocated_bytes()); }
static Level level(int threads) {
  Level l;
  for (int k = 0; k < (threads ? 4000 : 20); ++k) {  // a joined thread's entry may linger
    l.threads = entries("/proc/self/task");
    if (l.threads <= threads) break;
    usleep(500);
  }
  l.fds = entries("/proc/self/fd");
  l.handlers = handlers;
  l.bytes = live();
  return l;
}
// Does something `n` times, again and again, after a first time. What is bounded may go up and down from one round to the next; what grows in every one of ten rounds is not.
static void steady(const char* what, int n, const std::function<void(int)>& f) {
  const int rounds = 10;
  for (int k = 0; k < 3 + n / 4; ++k) f(k);
  std::vector<Level> l{level(0)};
  bool bytes = true, fds = true, threads = true, fork = true;
  int done = 0;
  while (done < rounds && (done < 2 || bytes || fds || threads || fork)) {
    for (int k = 0; k < n; ++k) f(k);
    l.push_back(level(l[0].threads));
    ++done;
    auto& a = l[l.size() - 2];
    auto& b = l.back();
    bytes = bytes && b.bytes - a.bytes >= 8 * n;
    fds = fds && b.fds > a.fds;
    threads = threads && b.threads > a.threads;
    fork = fork && b.handlers > a.handlers;
  }
  auto& a = l[0];
  auto& c = l.back();
  VF_CHECK(!bytes, "memory", "%s: %lld bytes in use, %lld after %d times, growing all the while", what, (long long)a.bytes, (long long)c.bytes, done * n);
  VF_CHECK(!fds, "descriptors", "%s: %d descriptors open, %d after %d times, growing all the while", what, a.fds, c.fds, done * n);
  VF_CHECK(!threads, "threads", "%s: %d threads, %d after %d times, growing all the while", what, a.threads, c.threads, done * n);
  VF_CHECK(!fork, "fork-handlers", "%s: %d fork handlers registered, %d after %d times, growing all the while", what, a.handlers, c.handlers, done * n);
  vf::eval(static_cast<uint64_t>(n) * static_cast<uint64_t>(done));
  vf::count(std::string("cycles:") + what, static_cast<uint64_t>(n) * static_cast<uint64_t>(done));
  if (getenv("VF_DEBUG")) fprintf(stderr, "%s x%d: %lld to %lld bytes, %d fds, %d threads, %d handlers, %d rounds\n", what, n, (long long)a.bytes, (long long)c.bytes, c.fds, c.threads, c.handlers, done);
}
// ---- a satellite that keeps nothing
enum Mood { good, silent, slow, resetting, closing, stuck, refusing, moods };
static const char* mood_names[] = {"good", "silent", "slow", "resetting", "closing", "stuck", "refusing"};
struct Sink {
  struct C { int fd = -1; char tail[5]; size_t got, stop; bool answered; };
  C c[64];
  int fd = -1, one = 1;
  uint16_t port = 0;
  Mood mood = good;
  Rng r{1};
  uint64_t conns = 0, bytes = 0;
  std::vector<char> b = std::vector<char>(1 << 16);
  explicit Sink(Mood m, uint64_t seed) : mood(m), r(seed) {
    fd = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    socklen_t l = sizeof a;
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(fd, reinterpret_cast<sockaddr*>(&a), l) != 0 || (mood != refusing && ::listen(fd, 64) != 0) || getsockname(fd, reinterpret_cast<sockaddr*>(&a), &l) != 0) { perror("harness: listen"); _exit(77); }
    port = ntohs(a.sin_port);
  }
  ~Sink() {
    for (auto& x : c) if (x.fd >= 0) ::close(x.fd);
    ::close(fd);
  }
  void shut(C& x, bool rst) {
    linger l{1, 0};
    if (rst) setsockopt(x.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    ::close(x.fd);
    x.fd = -1;
  }
  bool step() {
    bool any = false;
    if (mood == refusing) return false;
    for (auto& x : c) {
      if (x.fd < 0) {
        x.fd = ::accept4(fd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
        if (x.fd < 0) continue;
        x.got = 0;
        x.answered = false;
        x.stop = 1 + r.below(r.chance(1, 2) ? 300 : 5000);
        memset(x.tail, 0, 5);
        ++conns;
        any = true;
      }
      if (mood == stuck) { char q; if (::recv(x.fd, &q, 1, MSG_PEEK | MSG_DONTWAIT) == 0) shut(x, false); pollfd p{x.fd, POLLRDHUP, 0}; if (x.fd >= 0 && ::poll(&p, 1, 0) == 1) shut(x, true); continue; }
      size_t room = mood == slow ? 1 + r.below(200) : b.size();
      if (mood == resetting || mood == closing) room = std::min(room, x.stop - x.got);
      ssize_t n = ::recv(x.fd, b.data(), room, MSG_DONTWAIT);
      if (n == 0 || (n < 0 && errno != EAGAIN)) { shut(x, false); any = true; continue; }
      if (n < 0) continue;
      any = true;
      x.got += static_cast<size_t>(n);
      bytes += static_cast<size_t>(n);
      for (ssize_t k = std::max<ssize_t>(0, n - 5); k < n; ++k) { memmove(x.tail, x.tail + 1, 4); x.tail[4] = b[static_cast<size_t>(k)]; }
      if ((mood == resetting || mood == closing) && x.got >= x.stop) { shut(x, mood == resetting); continue; }
      if (!x.answered && memcmp(x.tail, "0\r\n\r\n", 5) == 0) {
        x.answered = true;
        if (mood != silent) { static const char ok[] = "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"; (void)!::send(x.fd, ok, sizeof ok - 1, MSG_NOSIGNAL); }
        ::shutdown(x.fd, SHUT_WR);
      }
    }
    return any;
  }
};
struct Player {  // plays satellites in real time
  std::vector<std::unique_ptr<Sink>>& s;
  std::atomic<bool> stop{false};
  std::thread t;
  explicit Player(std::vector<std::unique_ptr<Sink>>& x) : s(x), t([this] {
    while (!stop) {
      bool any = false;
      for (auto& y : s) any = y->step() || any;
      if (!any) usleep(200);
    }
  }) {}
  ~Player() { stop = true; t.join(); }
};
struct Answer : DnsResolution {
  std::vector<IpAddress> a;
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override {
    for (auto& x : a) if (!f(x)) return false;
    return true;
  }
};
static Rng names{1};
static int unresolved = 0;  // per 100
struct FakeResolver : DnsResolver {
  void Resolve(const char*, int family, DnsResolutionCallback& cb) noexcept override {
    Answer a;
    if (family == AF_INET && names.below(100) >= static_cast<uint64_t>(unresolved)) {
      a.a.emplace_back("127.0.0.1", static_cast<uint16_t>(0));
      if (names.chance(1, 3)) a.a.emplace_back("127.0.0.1", static_cast<uint16_t>(0));
      cb.OnDnsResolution(a, "");
    } else {
      cb.OnDnsResolution(a, "no such host");
    }
  }
};
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new FakeResolver}; }
}  // namespace lightstep
// ---- transports
struct Sync : SyncTransporter {
  Rng r;
  unsigned bad;
  Sync(uint64_t s, unsigned b) : r(s), bad(b) {}
  opentracing::expected<void> Send(const google::protobuf::Message&, google::protobuf::Message& q) override {
    if (r.chance(bad, 100)) return opentracing::make_unexpected(std::make_error_code(std::errc::timed_out));
    q.CopyFrom(*Transporter::MakeCollectorResponse());
    return {};
  }
};
struct Async : AsyncTransporter {
  Rng r;
  unsigned bad;
  bool hold;
  std::vector<std::pair<std::unique_ptr<BufferChain>, Callback*>> held;
  Async(uint64_t s, unsigned b, bool h) : r(s), bad(b), hold(h) {}
  void end(BufferChain& m, Callback& cb) { if (r.chance(bad, 100)) cb.OnFailure(m); else cb.OnSuccess(m); }
  void OnSpanBufferFull() noexcept override {}
  void Send(std::unique_ptr<BufferChain>&& m, Callback& cb) noexcept override {
    if (!hold) { end(*m, cb); return; }
    held.emplace_back(std::move(m), &cb);
    if (held.size() >= 3) { for (auto& h : held) end(*h.first, *h.second); held.clear(); }
  }
};
struct LegacyAsync : LegacyAsyncTransporter {
  Rng r;
  unsigned bad;
  LegacyAsync(uint64_t s, unsigned b) : r(s), bad(b) {}
  void Send(const google::protobuf::Message&, google::protobuf::Message& q, Callback& cb) override {
    if (r.chance(bad, 100)) { cb.OnFailure(std::make_error_code(std::errc::timed_out)); return; }
    q.CopyFrom(*Transporter::MakeCollectorResponse());
    cb.OnSuccess();
  }
};
enum Kind { streaming, manual, legacy_manual, background, kinds };
static const char* kind_names[] = {"streaming", "manual", "legacy manual", "background"};
struct Make {  // how a tracer is made, always alike
  Kind kind;
  uint64_t seed;
  unsigned bad;      // of 100 reports
  bool hold;
  size_t max;
  std::vector<uint16_t> ports;
  int conns;
  milliseconds period;
  std::shared_ptr<LightStepTracer> operator()() const {
    auto log = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
    LightStepTracerOptions o;
    o.access_token = "token";
    o.component_name = "component";
    o.max_buffered_spans = max;
    o.reporting_period = period;
    std::unique_ptr<Recorder> rec;
    switch (kind) {
      case streaming: {
        o.satellite_endpoints.clear();
        for (auto p : ports) o.satellite_endpoints.emplace_back("sat", p);
        StreamRecorderOptions so;
        so.num_satellite_connections = conns;
        so.satellite_failure_retry_period = milliseconds{3};
        so.min_satellite_reconnect_period = milliseconds{10};
        so.max_satellite_reconnect_period = milliseconds{20};
        so.satellite_graceful_stream_shutdown_timeout = milliseconds{10};
        so.satellite_write_timeout = milliseconds{20};
        so.dns_failure_retry_period = milliseconds{5};
        so.min_dns_resolution_refresh_period = milliseconds{5};
        so.max_dns_resolution_refresh_period = milliseconds{9};
        rec.reset(new StreamRecorder{*log, std::move(o), std::move(so)});
        break;
      }
      case manual: rec.reset(new ManualRecorder{*log, std::move(o), std::unique_ptr<AsyncTransporter>{new Async{seed, bad, hold}}}); break;
      case legacy_manual: rec.reset(new LegacyManualRecorder{*log, std::move(o), std::unique_ptr<LegacyAsyncTransporter>{new LegacyAsync{seed, bad}}}); break;
      default: rec.reset(new AutoRecorder{*log, std::move(o), std::unique_ptr<SyncTransporter>{new Sync{seed, bad}}});
    }
    return vf::make_tracer(kind == legacy_manual || kind == background, std::move(rec), LightStepTracerOptions{}, log);
  }
};
static Make any_maker(Rng& r, const std::vector<std::unique_ptr<Sink>>& sinks) {
  Make m;
  m.kind = static_cast<Kind>(r.below(kinds));
  m.seed = r();
  static const unsigned bads[] = {0, 30, 100};
  m.bad = bads[r.below(3)];
  m.hold = r.chance(1, 3);
  m.max = 1 + r.skewed(300);
  for (auto& s : sinks) m.ports.push_back(s->port);
  m.conns = 1 + static_cast<int>(r.below(4));
  m.period = milliseconds{1 + r.below(20)};
  return m;
}
// a span with something of everything
static std::unique_ptr<opentracing::Span> busy(opentracing::Tracer& t, Rng& r, const opentracing::SpanContext* parent) {
  opentracing::StartSpanOptions so;
  if (parent) opentracing::ChildOf(parent).Apply(so);
  if (r.chance(1, 10)) so.references.emplace_back(opentracing::SpanReferenceType::FollowsFromRef, nullptr);
  auto s = t.StartSpanWithOptions(r.alnum(r.skewed(40)), so);
  if (!s) { vf::fail("span", "no span"); return nullptr; }
  for (size_t k = r.below(4); k > 0; --k) s->SetTag(r.alnum(5), r.alnum(r.chance(1, 10) ? r.below(5000) : r.below(50)));
  if (r.chance(1, 3)) s->SetTag("v", opentracing::Value{opentracing::Values{1, "two", 3.5, opentracing::Dictionary{{"k", nullptr}}}});
  if (r.chance(1, 3)) s->SetBaggageItem(r.alnum(3), r.alnum(20));
  if (r.chance(1, 3)) s->Log({{"event", r.alnum(10)}, {"n", 7}});
  if (r.chance(1, 10)) s->SetTag("sampling.priority", 0);
  if (r.chance(1, 5)) s->SetOperationName(r.alnum(20));
  return s;
}
static void use(opentracing::Tracer& t, uint64_t seed, size_t n) {
  Rng r(seed);
  std::unique_ptr<opentracing::Span> last;
  for (size_t k = 0; k < n; ++k) {
    auto s = busy(t, r, last && r.chance(1, 2) ? &last->context() : nullptr);
    if (!s) return;
    if (r.chance(1, 4)) { vf::HttpHeaders h; (void)t.Inject(s->context(), h); (void)t.Extract(h); }
    
    if (r.chance(5, 6)) s->Finish();
    if (r.chance(1, 6)) { s->Finish(); s->SetTag("after", "the end"); }
    last = std::move(s);
  }
}
static void extract_all(const std::shared_ptr<LightStepTracer>& t, uint64_t seed) {
  Rng r(seed);
  auto s = busy(*t, r, nullptr);
  if (!s) return;
  vf::HttpHeaders h;
  vf::TextMap m;
  (void)t->Inject(s->context(), h);
  (void)t->Inject(s->context(), m);
  std::stringstream bin;
  (void)t->Inject(s->context(), bin);
  for (int k = 0; k < 6; ++k) {
    (void)t->Extract(h);
    (void)t->Extract(m);
    (void)t->Extract(bin);
    if (!h.items.empty() && r.chance(1, 2)) { auto& i = h.items[r.below(h.items.size())]; if (r.chance(1, 2)) i.second = r.bytes(r.below(60)); else i.second += r.alnum(r.below(30)); }
    if (!m.items.empty() && r.chance(1, 2)) m.items[r.below(m.items.size())].second = r.bytes(r.below(60));
    std::stringstream junk(r.bytes(r.below(100)));
    (void)t->Extract(junk);
  }
}
// ---- cycles in real time
static void cycles(Rng& r, int64_t i) {
  std::vector<std::unique_ptr<Sink>> sinks;
  sinks.emplace_back(new Sink(static_cast<Mood>(r.below(moods)), r()));
  if (r.chance(1, 3)) sinks.emplace_back(new Sink(static_cast<Mood>(r.below(moods)), r()));
  unresolved = r.chance(1, 4) ? 100 : 0;
  Make make = any_maker(r, sinks);
  uint64_t seed = r();
  size_t spans = 1 + r.below(r.chance(1, 4) ? 300 : 20);
  auto scenario = static_cast<int>(i % 7);
  vf::distinct(vf::mix(seed));
  vf::count(std::string("tracers:") + kind_names[make.kind]);
  // closing a tracer made from options waits five seconds for unwilling satellites
  if (scenario == 5) { unresolved = 0; for (auto& x : sinks) if (x->mood != refusing) x->mood = good; }
  Player p(sinks);
  switch (scenario) {
    case 0: {
      bool close = r.chance(1, 2), flush = r.chance(1, 2), late = r.chance(1, 3);
      int64_t wait = r.chance(1, 2) ? static_cast<int64_t>(r.below(15)) : 0;
      steady("tracer", vf::thorough() ? 60 : 16, [&](int) {
        auto t = make();
        use(*t, seed, spans);
        std::unique_ptr<opentracing::Span> open;
        if (late) open = t->StartSpan("late");
        if (wait) usleep(static_cast<useconds_t>(wait * 1000));
        if (flush) t->FlushWithTimeout(milliseconds{20});
        if (close) t->Close();
      });
      break;
    }
    case 1: {
      auto t = make();
      bool two = r.chance(1, 2) && make.kind != legacy_manual;
      steady("thread", vf::thorough() ? 300 : 60, [&](int) {
        std::thread a([&] { use(*t, seed, 1 + spans % 5); });
        if (two) { std::thread b([&] { use(*t, seed + 1, 2); }); b.join(); }
        a.join();
        t->FlushWithTimeout(milliseconds{make.kind == streaming ? 5 : 0});
      });
      break;
    }
    case 2: {  // the spans buffered are dropped by a flush or stay; what stays is bounded by the buffer
      make.max = 1 + make.max % 40;
      auto t = make();
      steady("fork", vf::thorough() ? 40 : 12, [&](int k) {
        if (k == 0) for (size_t j = 0; j < make.max + 20; ++j) t->StartSpan("filling")->Finish();
        use(*t, seed, spans);
        pid_t c = fork();
        if (c == 0) _exit(0);
        int st = 0;
        waitpid(c, &st, 0);
        VF_CHECK(st == 0, "child", "a forked process ended with 0x%x", st);
      });
      break;
    }
    case 3: {
      std::vector<vf::Mode> modes;
      LightStepTracerOptions po = vf::any_modes(r, modes);
      auto log = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
      auto d = std::make_shared<vf::Delivered>();
      auto t = vf::make_tracer(r.chance(1, 2), std::unique_ptr<Recorder>{new vf::Capture{d}}, po, log);
      steady("propagation", vf::thorough() ? 3000 : 400, [&](int) { extract_all(t, seed); d->take(); });
      break;
    }
    case 4: {
      static const char* texts[] = {"{}", "{\"access_token\": 7}", "{\"access_token\": \"x\", \"component_name\": \"y\", \"satellites\": [{\"host\": \"h\", \"port\": 99999999}]}", "{", "[]",
                                    "{\"access_token\": \"x\", \"component_name\": \"y\", \"transporter_type\": \"none\"}", "{\"access_token\": \"x\", \"component_name\": \"y\", \"use_stream_recorder\": true, \"collector_plaintext\": true, \"satellites\": [{\"host\": \"h\", \"port\": 80}]}"};
      const char* text = texts[r.below(7)];
      steady("configuration", vf::thorough() ? 200 : 40, [&](int) {
        std::string error;
        LightStepTracerFactory f;
        auto t = f.MakeTracer(text, error);
        if (t) (*t)->Close();
      });
      break;
    }
    case 5: {  // options by hand, as applications do
      bool verbose = r.chance(1, 2);
      steady("made from options", vf::thorough() ? 60 : 16, [&](int k) {
        LightStepTracerOptions o;
        o.access_token = "x";
        o.verbose = verbose;
        o.logger_sink = [](LogLevel, opentracing::string_view) {};
        o.collector_plaintext = true;
        switch (make.kind) {
          case streaming: o.use_stream_recorder = true; o.satellite_endpoints = {{"127.0.0.1", make.ports[0]}}; break;
          case manual: o.use_thread = false; o.transporter.reset(new Async{make.seed, make.bad, false}); break;
          case legacy_manual: o.use_thread = false; o.transporter.reset(new LegacyAsync{make.seed, make.bad}); break;
          default: o.transporter.reset(new Sync{make.seed, make.bad});
        }
        if (k % 5 == 4) o.max_buffered_spans = 0, o.use_thread = false;
        auto t = MakeLightStepTracer(std::move(o));
        if (!t) return;
        use(*t, seed, 5);
        t->Close();
      });
      break;
    }
    default: {  // one tracer for a long time; with failing reports dropped counts only
      auto t = make();
      size_t most = make.kind == streaming ? 3 * make.max + 300 : 3 * spans;
      steady("batches", vf::thorough() ? 300 : 60, [&](int k) {
        if (k == 0) use(*t, seed, std::min<size_t>(most, 1500));
        use(*t, seed, spans);
        t->FlushWithTimeout(milliseconds{make.kind == streaming ? 2 : make.kind == background ? 200 : 0});
      });
    }
  }
  if (i < 7) vf::sample(vf::fmt("case %lld: %s, %zu spans, satellites %s", (long long)i, kind_names[make.kind], spans, mood_names[sinks[0]->mood]));
}
// ---- the streaming recorder for hours of virtual time
static void stream(Rng& r, int64_t) {
  auto& v = vf::vt();
  static const int64_t ms = 1000000;
  std::vector<std::unique_ptr<Sink>> sinks;
  for (size_t k = 1 + r.below(3); k > 0; --k) sinks.emplace_back(new Sink(static_cast<Mood>(r.below(moods)), r()));
  unresolved = r.chance(1, 3) ? static_cast<int>(r.below(101)) : 0;
  names = Rng{r()};
  LightStepTracerOptions o;
  o.satellite_endpoints.clear();
  for (auto& s : sinks) o.satellite_endpoints.emplace_back(vf::fmt("sat%d", s->port), s->port);
  o.max_buffered_spans = 1 + r.skewed(300);
  o.reporting_period = milliseconds{10 + r.below(500)};
  StreamRecorderOptions so;
  so.polling_period = milliseconds{10};
  so.num_satellite_connections = 1 + static_cast<int>(r.below(6));
  so.satellite_write_timeout = milliseconds{300};
  so.satellite_failure_retry_period = milliseconds{100};
  so.min_satellite_reconnect_period = milliseconds{300};
  so.max_satellite_reconnect_period = milliseconds{500};
  so.satellite_graceful_stream_shutdown_timeout = milliseconds{100};
  so.dns_failure_retry_period = milliseconds{200};
  so.min_dns_resolution_refresh_period = milliseconds{500};
  so.max_dns_resolution_refresh_period = milliseconds{900};
  auto log = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  std::shared_ptr<LightStepTracer> tracer;
  std::atomic<bool> ready{false}, over{false};
  const int windows = vf::thorough() ? 24 : 6;
  const int64_t width = 40000 * ms;
  int64_t low[32], t0 = 0, next = 0;
  int fds[32], peak = 0;
  for (auto& x : low) x = INT64_MAX;
  for (auto& x : fds) x = INT32_MAX;
  uint64_t made = 0, tick = 0;
  size_t burst = 1 + r.below(30);
  v.on = true;
  v.idle = [&] {
    if (!ready || over) { struct timespec q{0, 50000}; syscall(SYS_nanosleep, &q, nullptr); return; }
    if (!t0) t0 = v.now_ns;
    for (auto& s : sinks) s->step();
    int64_t w = (v.now_ns - t0) / width;
    if (w >= windows) { over = true; return; }
    low[w] = std::min(low[w], live());
    if (++tick % 16 == 0) { int n = entries("/proc/self/fd"); fds[w] = std::min(fds[w], n); peak = std::max(peak, n); }
    if (v.now_ns >= next) {
      next = v.now_ns + 100 * ms;
      for (size_t k = 0; k < burst; ++k) {
        auto s = tracer->StartSpan("operation");
        if (s) { s->SetTag("key", "value"); s->Finish(); }
        ++made;
      }
    }
  };
  uint64_t conns = 0, bytes = 0;
  {
    auto* rec = new StreamRecorder{*log, std::move(o), std::move(so)};
    tracer = vf::make_tracer(false, std::unique_ptr<Recorder>{rec}, LightStepTracerOptions{}, log);
    ready = true;
    while (!over) { struct timespec q{0, 300000}; syscall(SYS_nanosleep, &q, nullptr); }
    rec->PrepareForFork();
  }
  v.on = false;
  v.idle = nullptr;
  tracer.reset();
  for (auto& s : sinks) { conns += s->conns; bytes += s->bytes; }
  int third = windows / 4;
  int64_t a = INT64_MIN, b = INT64_MAX, worst = 0;
  int fa = 0, fb = INT32_MAX;
  for (int k = third; k < windows / 2 + 1; ++k) { a = std::max(a, low[k]); fa = std::max(fa, fds[k]); }
  for (int k = windows - third; k < windows; ++k) { b = std::min(b, low[k]); fb = std::min(fb, fds[k]); }
  (void)worst;
  VF_CHECK(b < a + 1500, "memory-stream", "a streaming recorder held %lld bytes after %d windows of %lld virtual seconds and %lld at the end; %llu connections", (long long)a, third, (long long)(width / ms / 1000), (long long)b, (unsigned long long)conns);
  VF_CHECK(fb <= fa, "descriptors-stream", "a streaming recorder's process had at least %d descriptors, at the end at least %d", fa, fb);
  if (getenv("VF_DEBUG")) {
    std::string t;
    for (int k = 0; k < windows; ++k) t += vf::fmt(" %lld/%d", (long long)low[k], fds[k]);
    fprintf(stderr, "stream %s: %llu conns, %llu spans, %llu bytes:%s\n", mood_names[sinks[0]->mood], (unsigned long long)conns, (unsigned long long)made, (unsigned long long)bytes, t.c_str());
  }
  vf::eval(made + conns);
  vf::distinct(vf::mix(conns ^ vf::mix(bytes)));
  vf::count("stream_connections", conns);
  vf::count("stream_spans", made);
  vf::count("stream_virtual_seconds", static_cast<uint64_t>(windows * (width / ms / 1000)));
  vf::count(std::string("streams:") + mood_names[sinks[0]->mood]);
}
// ---- more spans than the buffer holds: what is over is let go at once
static void bound(Rng& r, int64_t i) {
  std::vector<std::unique_ptr<Sink>> sinks;
  sinks.emplace_back(new Sink(refusing, r()));
  Make make = any_maker(r, sinks);
  make.kind = static_cast<Kind>(i % kinds);
  make.max = 1 + r.below(200);
  make.period = milliseconds{100000000};
  make.bad = 0;
  if (make.kind == legacy_manual) make.max = 1 + r.below(20);
  unresolved = 100;
  auto t = make();
  std::string load = r.alnum(1 + r.below(r.chance(1, 3) ? 20000 : 2000));
  auto one = [&] { auto s = t->StartSpan("operation"); if (s) { s->SetTag("load", load); s->Finish(); } };
  int64_t before = live();
  for (size_t k = 0; k < make.max; ++k) one();
  usleep(3000);
  int64_t full = live();
  size_t more = make.max * 4 + 50;
  for (size_t k = 0; k < more; ++k) one();
  if (make.kind == background) usleep(20000);
  int64_t after = live();
  int64_t span = (full - before) / static_cast<int64_t>(make.max) + static_cast<int64_t>(load.size()) + 600;
  int64_t room = make.kind == streaming || make.kind == manual ? 8 * span : (2 * static_cast<int64_t>(make.max) + 8) * span;  // the others have a second report under way
  VF_CHECK(after <= full + room, "overload", "%s recorder: %lld bytes without spans, %lld with the %zu spans that its buffer holds, %lld after %zu more", kind_names[make.kind], (long long)before, (long long)full, make.max, (long long)after, more);
  vf::eval(more);
  vf::distinct(vf::mix(load.size() * 1000 + make.max));
  vf::count("overload_spans", more);
  if (getenv("VF_DEBUG")) fprintf(stderr, "bound %s max %zu load %zu: %lld %lld %lld\n", kind_names[make.kind], make.max, load.size(), (long long)before, (long long)full, (long long)after);
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("cycles", vf::n(56, 420), cycles);
  vf::cases("stream", vf::n(8, 60), stream);
  vf::cases("bound", vf::n(24, 240), bound);
  return vf::finish();
}
