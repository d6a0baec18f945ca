// C24: flush, close and destruction of streaming and background recorders in real time, against satellites and transports in
// every state, from several threads; truthfulness, time bounds, cleanness of the end.
#include "satellite.h"
#include "disturb.h"
#include <algorithm>
#include <set>
#include "network/dns_resolver.h"
#include "recorder/auto_recorder.h"
#include "recorder/stream_recorder/stream_recorder.h"
using namespace lightstep;
using vf::Plan;
using vf::Rng;
using std::chrono::milliseconds;
static int64_t now_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static const int64_t ms = 1000000;
static const int64_t slack = 5000 * ms;  // for machines under load, sanitizers included
static void nap(int64_t ns) { std::this_thread::sleep_for(std::chrono::nanoseconds{ns}); }

// names that start with "sat" are addresses after the first dot; others are never resolved
struct Answer : DnsResolution {
  std::vector<IpAddress> a;
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override {
    for (auto& x : a) if (!f(x)) return false;
    return true;
  }
};
struct FakeResolver : DnsResolver {
  void Resolve(const char* name, int family, DnsResolutionCallback& cb) noexcept override {
    Answer a;
    if (family == AF_INET && strncmp(name, "sat.", 4) == 0) { a.a.emplace_back(name + 4, static_cast<uint16_t>(0)); cb.OnDnsResolution(a, ""); }
    else if (strncmp(name, "mute.", 5) != 0) cb.OnDnsResolution(a, "no such host");
  }
};
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new FakeResolver}; }
}  // namespace lightstep
enum Mood { good, silent_fin, erroring, closing, deaf, stuck, refusing, unresolved, mute, resetting, moods };
static const char* mood_names[] = {"good", "silent_fin", "erroring", "closing", "deaf", "stuck", "refusing", "unresolved", "mute", "resetting"};
struct Pool {  // satellites and the thread that plays them
  vf::Satellites s;
  std::mutex mu;
  std::atomic<bool> stop{false};
  std::thread t;
  std::function<void()> extra;
  void start() {
    s.now = now_ns;
    t = std::thread([this] {
      while (!stop) {
        bool any;
        { std::lock_guard<std::mutex> l(mu); any = s.step(); }
        if (!any) nap(200000);
      }
    });
  }
  void end() { stop = true; if (t.joinable()) t.join(); }
  ~Pool() { end(); }
};
static Plan plan_of(Mood m, Rng& r) {
  Plan p;
  switch (m) {
    case silent_fin: p.answer = Plan::silent_close; break;
    case erroring: p.answer = r.chance(1, 2) ? Plan::error : Plan::noise; break;
    case closing: p.answer = Plan::ok_open; break;
    case stuck: p.read_from = INT64_MAX; break;
    case resetting: p.act = Plan::rst; p.at = r.below(2000); break;
    default: break;
  }
  p.good = m == good;
  return p;
}
struct Stream {
  Pool pool;
  std::shared_ptr<vf::Observer::Counts> c = std::make_shared<vf::Observer::Counts>();
  std::shared_ptr<LightStepTracer> tracer;
  StreamRecorder* rec = nullptr;
  Mood mood;
  Rng rp;
  int64_t retry_ns = 0, graceful_ns = 0;
  int n_conn = 1;
  std::shared_ptr<Logger> log = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  Stream(Rng& r, Mood m, uint64_t tag, size_t max_spans, int64_t period_ms) : mood(m), rp(r()) {
    LightStepTracerOptions o;
    o.satellite_endpoints.clear();
    size_t n = 1 + r.below(3);
    for (size_t k = 0; k < n; ++k) {
      std::string ip = vf::fmt("127.%d.%d.%d", 1 + (int)(tag % 200), 1 + (int)(getpid() % 250), 2 + (int)k);
      pool.s.add(ip, r.chance(1, 3) ? 2304 : 0);
      std::string name = (m == unresolved ? "none." : m == mute ? "mute." : "sat.") + ip;
      o.satellite_endpoints.emplace_back(name, pool.s.sats.back().port);
      if (m == refusing) pool.s.refuse(k);
      if (m == deaf) pool.s.sats[k].deaf = true;
    }
    pool.s.plan = [this](size_t) { return plan_of(mood, rp); };
    o.max_buffered_spans = max_spans;
    o.reporting_period = milliseconds{period_ms};
    o.metrics_observer.reset(new vf::Observer{c});
    StreamRecorderOptions so;
    so.polling_period = milliseconds{1 + r.below(4)};
    so.num_satellite_connections = n_conn = 1 + static_cast<int>(r.below(6));
    so.satellite_failure_retry_period = milliseconds{10 + r.below(100)};
    so.satellite_write_timeout = milliseconds{50 + r.below(400)};
    // reconnecting early in some runs, so that closing meets it
    so.min_satellite_reconnect_period = milliseconds{r.chance(1, 2) ? 20 + r.below(100) : 5000};
    so.max_satellite_reconnect_period = so.min_satellite_reconnect_period + milliseconds{r.below(60)};
    so.satellite_graceful_stream_shutdown_timeout = milliseconds{30 + r.below(300)};
    so.dns_failure_retry_period = milliseconds{10 + r.below(100)};
    retry_ns = so.satellite_failure_retry_period.count() * 1000;
    graceful_ns = so.satellite_graceful_stream_shutdown_timeout.count() * 1000;
    pool.start();
    rec = new StreamRecorder{*log, std::move(o), std::move(so)};
    tracer = vf::make_tracer(false, std::unique_ptr<Recorder>{rec}, LightStepTracerOptions{}, log);
  }
};
static std::string finish_one(LightStepTracer& t, const std::string& name, size_t load) {
  auto s = t.StartSpan(name);
  if (!s) { vf::fail("span", "no span"); return name; }
  vf::mark(*s, name, load);
  s->Finish();
  return name;
}
static int64_t some_timeout(Rng& r) {
  switch (r.below(6)) {
    case 0: return 0;
    case 1: return -static_cast<int64_t>(r.below(1000)) * ms;
    case 2: return static_cast<int64_t>(r.below(3000)) * 1000;
    default: return static_cast<int64_t>(r.below(300)) * ms;
  }
}
// One thread finishes spans and flushes; what it finished before a flush must be out of the buffer if that succeeded.
static void stream_case(Rng& r, int64_t i) {
  Mood m = r.chance(1, 3) ? good : static_cast<Mood>(r.below(moods));
  size_t max_spans = 1 + r.skewed(2000);
  int64_t period = r.chance(1, 3) ? 60000 : 1 + static_cast<int64_t>(r.below(100));
  uint64_t h = vf::mix(static_cast<uint64_t>(m));
  std::vector<std::string> before_flush, all;
  int64_t t0, dt;
  {
    Stream w{r, m, r(), max_spans, period};
    int threads = r.chance(1, 2) ? 0 : 1 + static_cast<int>(r.below(3));
    std::atomic<bool> stop{false};
    std::vector<std::thread> others;
    bool shared_flush = r.chance(1, 2);
    for (int k = 0; k < threads; ++k)
      others.emplace_back([&, k, seed = r()] {
        Rng q{seed};
        for (int n = 0; !stop && n < 3000; ++n) {
          finish_one(*w.tracer, vf::fmt("o%lld-%d-%d", (long long)i, k, n), q.below(60));
          if (shared_flush && q.chance(1, 20)) w.tracer->FlushWithTimeout(std::chrono::nanoseconds{some_timeout(q)});
          if (q.chance(1, 3)) nap(static_cast<int64_t>(q.below(3000)) * 1000);
        }
      });
    size_t steps = 1 + r.below(8);
    uint64_t mine = 0;
    size_t failed = 0, ok = 0;
    for (size_t k = 0; k < steps; ++k) {
      for (size_t n = r.skewed(60); n > 0; --n) all.push_back(finish_one(*w.tracer, vf::fmt("m%lld-%llu", (long long)i, (unsigned long long)mine++), r.skewed(300)));
      if (r.chance(1, 3)) nap(static_cast<int64_t>(r.below(40)) * ms);
      // with good satellites and enough time a flush must succeed
      bool sure = m == good && r.chance(1, 3);
      int64_t timeout = sure ? 30000 * ms : some_timeout(r);
      if (r.chance(1, 10) && m == good) { timeout = INT64_MAX; sure = true; }
      int64_t d0 = w.c->dropped + w.c->sent;
      (void)d0;
      t0 = now_ns();
      bool done = w.tracer->FlushWithTimeout(timeout == INT64_MAX ? std::chrono::system_clock::duration::max() : std::chrono::system_clock::duration{timeout});
      dt = now_ns() - t0;
      VF_CHECK(sure || dt <= std::max<int64_t>(timeout, 0) + slack, "flush-late", "flush with a timeout of %.3f s took %.3f s (%s)", static_cast<double>(timeout) / 1e9, static_cast<double>(dt) / 1e9, mood_names[m]);
      VF_CHECK(done || !sure, "flush-failed", "flush failed after %.3f s of 30 or more, with good satellites", static_cast<double>(dt) / 1e9);
      if (done) {
        ++ok;
        // every span of this thread is counted as dropped or sent, but for those begun and unfinished on connections
        int64_t out = w.c->sent + w.c->dropped;
        VF_CHECK(out + w.n_conn >= static_cast<int64_t>(all.size()), "flush-untrue", "flush succeeded with %zu spans finished, %lld out, %d connections (%s)", all.size(), (long long)out, w.n_conn, mood_names[m]);
        if (!threads) VF_CHECK(w.rec->span_buffer().size() == 0, "flush-untrue", "flush succeeded with %zu spans buffered and none finished meanwhile", (size_t)w.rec->span_buffer().size());
        before_flush = all;
      } else {
        ++failed;
        if (!threads && timeout <= 0) vf::count("immediate_failures");
      }
      h = vf::mix(h * 2 + done);
    }
    stop = true;
    for (auto& t : others) t.join();
    uint64_t how = r.below(4);
    bool shut = false;
    int64_t closed_at = 0;
    if (how == 0 && (m == good || m == silent_fin || m == erroring || m == closing)) {
      t0 = now_ns();
      w.tracer->Close();
      dt = now_ns() - t0;
      VF_CHECK(dt <= 10000 * ms + slack, "close-late", "close took %.3f s (%s)", static_cast<double>(dt) / 1e9, mood_names[m]);
      closed_at = now_ns();
      shut = dt < 9000 * ms;  // both the flush and the shutdown succeeded in time
      VF_CHECK(shut || dt > 9000 * ms + slack, "close-slow", "close took %.3f s with satellites that take everything (%s)", static_cast<double>(dt) / 1e9, mood_names[m]);
      if (shut) before_flush = all;  // closing hands over what was finished before
      vf::count("closes");
    } else if (how == 1) {
      int64_t timeout = some_timeout(r);
      if (r.chance(1, 2)) timeout = 20000 * ms;
      t0 = now_ns();
      bool done = w.rec->ShutdownWithTimeout(std::chrono::system_clock::duration{timeout});
      dt = now_ns() - t0;
      VF_CHECK(dt <= std::max<int64_t>(timeout, 0) + slack, "shutdown-late", "shutdown with a timeout of %.3f s took %.3f s (%s)", static_cast<double>(timeout) / 1e9, static_cast<double>(dt) / 1e9, mood_names[m]);
      VF_CHECK(done || timeout < 20000 * ms, "shutdown-failed", "shutdown did not end within 20 s, the graceful timeout being %.3f s (%s)", static_cast<double>(w.graceful_ns) / 1e9, mood_names[m]);
      shut = done;
      closed_at = now_ns();
      vf::count("shutdowns");
    }
    if (shut) {
      // no connection may be opened any more
      if (r.chance(1, 2)) for (int k = 0; k < 5; ++k) finish_one(*w.tracer, vf::fmt("late%lld-%d", (long long)i, k), 10);
      nap(w.retry_ns + w.graceful_ns / 2);
      std::lock_guard<std::mutex> l(w.pool.mu);
      for (auto& c : w.pool.s.conns) VF_CHECK(c->opened <= closed_at + 2 * ms || w.mood == deaf, "reopened", "a connection was opened %.3f s after the recorder was shut down (%s)", static_cast<double>(c->opened - closed_at) / 1e9, mood_names[m]);
      vf::count("shut");
    }
    t0 = now_ns();
    w.tracer.reset();
    dt = now_ns() - t0;
    VF_CHECK(dt <= slack, "destroy-late", "destruction took %.3f s (%s)", static_cast<double>(dt) / 1e9, mood_names[m]);
    w.pool.end();
    w.pool.s.behave();
    bool drained = w.pool.s.drain(20000);
    VF_CHECK(drained, "descriptor-leak", "connections are open after the tracer is gone (%s)", mood_names[m]);
    // what a flush handed over arrives if the satellites read it
    std::map<std::string, int> seen;
    for (auto& c : w.pool.s.conns) {
      vf::Stream s = vf::decode(*c, "");
      for (auto& x : s.spans) VF_CHECK(++seen[x.first] == 1, "duplicate", "span %s was delivered twice", x.first.c_str());
    }
    if (m == good && w.c->dropped == 0) {
      size_t missing = 0;
      for (auto& n : before_flush) missing += !seen.count(n);
      // a connection closed while its socket is full may cut one span
      VF_CHECK(missing <= static_cast<size_t>(w.n_conn), "flushed-lost", "%zu of %zu spans flushed with success did not arrive", missing, before_flush.size());
      vf::count("flushed_and_arrived", before_flush.size() - missing);
    }
    vf::count("flushes_ok", ok);
    vf::count("flushes_failed", failed);
    vf::eval(ok + failed + 1);
    vf::count(std::string("mood:") + mood_names[m]);
  }
  vf::distinct(h ^ vf::mix(all.size()));
}
// ---- the background recorder
struct Slow : SyncTransporter {
  Rng r;
  int kind;
  std::mutex mu;
  std::set<std::string>* arrived;
  std::mutex* amu;
  std::atomic<int64_t>* taken;
  Slow(uint64_t s, int k, std::set<std::string>* a, std::mutex* m, std::atomic<int64_t>* t) : r(s), kind(k), arrived(a), amu(m), taken(t) {}
  opentracing::expected<void> Send(const google::protobuf::Message& q, google::protobuf::Message&) override {
    int64_t wait = kind == 0 ? 0 : static_cast<int64_t>(r.below(kind == 1 ? 20 : 400)) * ms;
    nap(wait);
    vf::Report p = vf::decode(q.SerializeAsString());
    std::lock_guard<std::mutex> l(*amu);
    for (auto& s : p.spans) VF_CHECK(arrived->insert(s).second, "duplicate", "span %s was sent twice", s.c_str());
    *taken += static_cast<int64_t>(p.spans.size());
    if (r.chance(1, 6)) return opentracing::make_unexpected(std::make_error_code(std::errc::timed_out));
    return {};
  }
};
static void auto_case(Rng& r, int64_t i) {
  std::set<std::string> arrived;
  std::mutex amu;
  std::atomic<int64_t> taken{0};
  auto c = std::make_shared<vf::Observer::Counts>();
  auto log = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  LightStepTracerOptions o;
  o.max_buffered_spans = 1 + r.skewed(300);
  int64_t period = r.chance(1, 4) ? 3000 : 1 + static_cast<int64_t>(r.below(60));
  o.reporting_period = milliseconds{period};
  o.metrics_observer.reset(new vf::Observer{c});
  int kind = static_cast<int>(r.below(3));
  bool legacy_kind = true;  // the background recorder takes the spans of the protobuf-based tracer
  size_t max_spans = o.max_buffered_spans.value();
  auto* rec = new AutoRecorder{*log, std::move(o), std::unique_ptr<SyncTransporter>{new Slow{r(), kind, &arrived, &amu, &taken}}};
  auto tracer = vf::make_tracer(legacy_kind, std::unique_ptr<Recorder>{rec}, LightStepTracerOptions{}, log);
  std::vector<std::string> mine;
  uint64_t h = 0;
  std::atomic<bool> stop{false};
  std::vector<std::thread> others;
  for (uint64_t k = r.chance(1, 2) ? 0 : 1 + r.below(3); k > 0; --k)
    others.emplace_back([&, k, seed = r()] {
      Rng q{seed};
      for (int n = 0; !stop && n < 2000; ++n) {
        finish_one(*tracer, vf::fmt("o%lld-%llu-%d", (long long)i, (unsigned long long)k, n), q.below(60));
        if (q.chance(1, 30)) tracer->FlushWithTimeout(std::chrono::nanoseconds{some_timeout(q)});
        if (q.chance(1, 2)) nap(static_cast<int64_t>(q.below(3000)) * 1000);
      }
    });
  bool alone = others.empty();
  for (size_t steps = 1 + r.below(6); steps > 0; --steps) {
    for (size_t n = r.skewed(40); n > 0; --n) mine.push_back(finish_one(*tracer, vf::fmt("m%lld-%zu", (long long)i, mine.size()), r.skewed(100)));
    bool sure = r.chance(1, 3);
    int64_t timeout = sure ? 30000 * ms : some_timeout(r);
    if (r.chance(1, 10)) { timeout = INT64_MAX; sure = true; }
    int64_t t0 = now_ns();
    bool done = tracer->FlushWithTimeout(timeout == INT64_MAX ? std::chrono::system_clock::duration::max() : std::chrono::system_clock::duration{timeout});
    int64_t dt = now_ns() - t0;
    VF_CHECK(sure || dt <= std::max<int64_t>(timeout, 0) + slack, "flush-late", "flush with a timeout of %.3f s took %.3f s", static_cast<double>(timeout) / 1e9, static_cast<double>(dt) / 1e9);
    VF_CHECK(done || !sure, "flush-failed", "flush failed after %.3f s of 30 or more although the transport goes on", static_cast<double>(dt) / 1e9);
    if (done) {
      std::lock_guard<std::mutex> l(amu);
      size_t missing = 0;
      for (auto& n : mine) missing += !arrived.count(n);
      VF_CHECK(static_cast<int64_t>(missing) <= c->dropped, "flush-untrue", "flush succeeded, %zu of %zu spans neither sent nor dropped", missing - static_cast<size_t>(c->dropped), mine.size());
      if (mine.size() <= max_spans && alone) VF_CHECK(missing == 0, "flush-untrue", "flush succeeded, %zu of %zu spans were not sent though all fit the buffer", missing, mine.size());
    }
    h = vf::mix(h * 2 + done);
    vf::eval();
    vf::count(done ? "auto_flushes_ok" : "auto_flushes_failed");
  }
  stop = true;
  for (auto& t : others) t.join();
  if (r.chance(1, 3)) {
    int64_t t0 = now_ns();
    tracer->Close();
    int64_t dt = now_ns() - t0;
    VF_CHECK(dt <= 10000 * ms + slack, "close-late", "close took %.3f s", static_cast<double>(dt) / 1e9);
    if (dt < 9000 * ms) {
      std::lock_guard<std::mutex> l(amu);
      size_t missing = 0;
      for (auto& n : mine) missing += !arrived.count(n);
      VF_CHECK(static_cast<int64_t>(missing) <= c->dropped, "close-lost", "closing took %.3f s and left %zu of %zu spans neither sent nor dropped", static_cast<double>(dt) / 1e9, missing - static_cast<size_t>(c->dropped), mine.size());
      vf::count("auto_closes");
    }
    for (int k = 0; k < 3; ++k) finish_one(*tracer, vf::fmt("late%lld-%d", (long long)i, k), 10);
  }
  int64_t t0 = now_ns();
  tracer.reset();
  int64_t dt = now_ns() - t0;
  VF_CHECK(dt <= slack, "destroy-late", "destruction took %.3f s", static_cast<double>(dt) / 1e9);
  vf::distinct(h ^ vf::mix(mine.size()));
}
// ---- spans that outlive the tracer; tracers that come and go at once
static void outlive(Rng& r, int64_t i) {
  Mood m = static_cast<Mood>(r.below(moods));
  Stream w{r, m, r(), 1 + r.below(100), 1 + static_cast<int64_t>(r.below(50))};
  std::vector<std::unique_ptr<opentracing::Span>> spans;
  for (size_t k = r.below(6); k > 0; --k) {
    std::string name = vf::fmt("s%lld-%zu", (long long)i, k);
    spans.push_back(w.tracer->StartSpan(name));
    vf::mark(*spans.back(), name, 10);
  }
  if (r.chance(1, 2)) nap(static_cast<int64_t>(r.below(20)) * ms);
  int64_t t0 = now_ns();
  if (r.chance(1, 3) && (m == good || m == erroring)) w.tracer->Close();
  w.tracer.reset();
  for (auto& s : spans) {
    if (r.chance(1, 2)) s->Finish();
  }
  if (r.chance(1, 2)) {
    std::thread t([&] { spans.clear(); });
    t.join();
  }
  spans.clear();
  int64_t dt = now_ns() - t0;
  VF_CHECK(dt <= 10000 * ms + slack, "destroy-late", "the end took %.3f s (%s)", static_cast<double>(dt) / 1e9, mood_names[m]);
  w.pool.end();
  w.pool.s.behave();
  VF_CHECK(w.pool.s.drain(20000), "descriptor-leak", "connections are open after the tracer is gone (%s)", mood_names[m]);
  for (auto& c : w.pool.s.conns) vf::decode(*c, "");
  vf::eval();
  vf::distinct(vf::mix(static_cast<uint64_t>(i) * 16 + static_cast<uint64_t>(m)));
}
// most of a case is waiting: many run at once
static void spread(const char* part, int64_t count, int width, void (*f)(Rng&, int64_t)) {
  auto& s = vf::st();
  if (!s.part.empty() && s.part != part) return;
  std::atomic<int64_t> next{0};
  std::vector<std::thread> v;
  for (int k = 0; k < width; ++k)
    v.emplace_back([&] {
      for (int64_t i = next++; i < count; i = next++) {
        if (s.only >= 0 && i != s.only) continue;
        Rng r(vf::mix(s.seed * 1000003ull + vf::hash(std::string(part))) ^ vf::mix(static_cast<uint64_t>(i)));
        f(r, i);
      }
    });
  vf::crumb(vf::fmt("--part %s", part));
  for (auto& t : v) t.join();
  vf::count(std::string("cases:") + part, static_cast<uint64_t>(count));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  spread("stream", vf::n(160, 4000), 12, stream_case);
  spread("auto", vf::n(120, 3000), 12, auto_case);
  spread("outlive", vf::n(60, 1500), 12, outlive);
  return vf::finish();
}
