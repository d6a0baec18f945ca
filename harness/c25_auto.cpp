// C25: the background recorder, on a clock of ours, over a scripted synchronous transport; then with real time and threads.
#include "reports.h"
#include "disturb.h"
#include <condition_variable>
#include <deque>
#include <set>
#include <stdexcept>
#include "lightstep/tracer.h"
#include "recorder/auto_recorder.h"
#include "recorder/grpc_transporter.h"
using namespace lightstep;
using vf::Rng;
using std::chrono::steady_clock;

// A condition variable on virtual time.  `step` waits until the writer sleeps again.
struct World {
  std::mutex mu;
  std::condition_variable cv;
  std::atomic<int64_t> now{1000000};
  std::atomic<uint64_t> acts{1}, idle{0};
  std::atomic<bool> holding{false}, release{false}, done{false};
};
struct Cv : ConditionVariableWrapper {
  World& w;
  std::condition_variable cv;
  explicit Cv(World& x) : w(x) {}
  steady_clock::time_point Now() const override { return steady_clock::time_point{steady_clock::duration{w.now.load()}}; }
  bool wait(std::unique_lock<std::mutex>& l, int64_t until, const std::function<bool()>& p, bool writer) {
    for (;;) {
      uint64_t a = w.acts;
      if (p()) return true;
      if (w.now >= until) return false;
      if (writer) w.idle = a;
      cv.wait_for(l, std::chrono::microseconds{200});
    }
  }
  bool WaitFor(std::unique_lock<std::mutex>& l, const steady_clock::duration& d, std::function<bool()> p) override { return wait(l, w.now + d.count(), p, false); }
  bool WaitUntil(std::unique_lock<std::mutex>& l, const steady_clock::time_point& t, std::function<bool()> p) override { return wait(l, t.time_since_epoch().count(), p, true); }
  void NotifyAll() override { cv.notify_all(); }
};
enum class Fate { ok, fail, throws, disable, empty_response };
struct Model {
  std::mutex mu;
  std::deque<std::pair<std::string, int64_t>> pending;  // with the time of finish
  int64_t dropped = 0, lost = 0, told = 0;
  std::set<std::string> delivered;
  std::set<std::string> sent;  // handed to the transport
  size_t sends = 0, done_sends = 0;
  int64_t last_end = 0;
  bool off = false;  // no more reports
  uint64_t reporter = 0, h = 0;
};
struct Transport : SyncTransporter {
  World& w;
  std::shared_ptr<Model> m;
  Rng r;
  std::atomic<int> hold{0};      // virtual duration of sends; >0: wait for release
  std::atomic<int> fate_bias{0};  // 0 mixed, 1 always ok
  Transport(World& x, std::shared_ptr<Model> y, uint64_t s) : w(x), m(std::move(y)), r(s) {}
  opentracing::expected<void> Send(const google::protobuf::Message& request, google::protobuf::Message& response) override {
    auto* p = dynamic_cast<const collector::ReportRequest*>(&request);
    auto* q = dynamic_cast<collector::ReportResponse*>(&response);
    if (!p || !q) { vf::fail("message-type", "not a report"); return {}; }
    std::string bytes = request.SerializeAsString();
    vf::Report rep = vf::decode(bytes);
    Fate f = Fate::ok;
    if (fate_bias == 0) {
      uint64_t x = r.below(100);
      f = x < 60 ? Fate::ok : x < 90 ? Fate::fail : x < 94 ? Fate::empty_response : x < 97 ? Fate::throws : Fate::disable;
    }
    {
      std::lock_guard<std::mutex> l(m->mu);
      ++m->sends;
      if (!m->reporter) m->reporter = rep.reporter;
      VF_CHECK(rep.reporter == m->reporter && rep.reporter && rep.token == "secret", "preamble", "reporter or token is wrong");
      VF_CHECK(!m->off, "after-end", "a report was sent after the end of reporting");
      VF_CHECK(rep.spans.size() == m->pending.size(), "report-spans", "a report has %zu spans, %zu are buffered", rep.spans.size(), m->pending.size());
      for (size_t i = 0; i < rep.spans.size() && i < m->pending.size(); ++i)
        VF_CHECK(rep.spans[i] == m->pending[i].first, "report-spans", "span %zu of a report is %s, expected %s", i, rep.spans[i].c_str(), m->pending[i].first.c_str());
      VF_CHECK(rep.dropped == m->dropped, "report-dropped", "a report says %lld spans were dropped, %lld were", (long long)rep.dropped, (long long)m->dropped);
      VF_CHECK(!rep.spans.empty(), "empty-report", "a report without spans was sent");
      m->pending.clear();
      m->dropped = 0;
      for (auto& s : rep.spans) m->sent.insert(s);
      m->h = vf::mix(m->h ^ (rep.spans.size() * 31 + static_cast<uint64_t>(rep.dropped) * 7 + static_cast<uint64_t>(f)));
    }
    if (hold > 0) {  // a slow back end: the driver goes on meanwhile
      w.release = false;
      w.holding = true;
      while (!w.release && !w.done) std::this_thread::sleep_for(std::chrono::microseconds{50});
      w.holding = false;
    }
    VF_CHECK(request.SerializeAsString() == bytes, "report-changed", "a report changed while it was being sent");
    std::lock_guard<std::mutex> l(m->mu);
    bool ok = f == Fate::ok || f == Fate::disable || f == Fate::empty_response;
    m->last_end = w.now;
    if (ok) {
      for (auto& s : rep.spans) VF_CHECK(m->delivered.insert(s).second, "twice", "span %s was sent successfully twice", s.c_str());
      m->told += rep.dropped;
    } else {
      m->dropped += rep.dropped + static_cast<int64_t>(rep.spans.size());
      m->lost += static_cast<int64_t>(rep.spans.size());
    }
    if (f == Fate::ok) {
      q->CopyFrom(*Transporter::MakeCollectorResponse());
      if (r.chance(1, 8)) q->add_errors("odd");
      if (r.chance(1, 8)) q->add_commands()->set_disable(false);
    }
    if (f == Fate::disable || f == Fate::throws) m->off = true;
    ++m->done_sends;
    switch (f) {
      case Fate::disable: vf::count("disabled"); q->add_commands()->set_disable(true); return {};
      case Fate::fail: return opentracing::make_unexpected(std::make_error_code(r.chance(1, 2) ? std::errc::network_down : std::errc::timed_out));
      case Fate::throws: vf::count("threw"); throw std::runtime_error("transport broke");
      default: return {};
    }
  }
};
static void virtual_time(Rng& r, int64_t) {
  World w;
  auto m = std::make_shared<Model>();
  auto counts = std::make_shared<vf::Observer::Counts>();
  const int64_t period = 1 + static_cast<int64_t>(r.below(1000000));
  auto max = std::make_shared<std::atomic<size_t>>(1 + r.skewed(30));
  LightStepTracerOptions o;
  o.access_token = "secret";
  o.verbose = r.chance(1, 4);
  o.reporting_period = steady_clock::duration{period};
  o.max_buffered_spans = std::function<size_t()>{[max] { return max->load(); }};
  o.metrics_observer.reset(new vf::Observer{counts});
  auto log = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  auto* t = new Transport{w, m, r()};
  auto* ar = new AutoRecorder{*log, std::move(o), std::unique_ptr<SyncTransporter>{t}, std::unique_ptr<ConditionVariableWrapper>{new Cv{w}}};
  std::unique_ptr<Recorder> rec{ar};
  auto tracer = vf::make_tracer(true, std::move(rec), LightStepTracerOptions{}, log);
  // until the writer has taken notice of everything done so far, or is inside a slow send, or has ended
  auto settle = [&](bool through) {
    uint64_t a = ++w.acts;
    for (int spins = 0;; ++spins) {
      if (through) w.release = true;
      if (!through && w.holding) return;
      bool off;
      { std::lock_guard<std::mutex> l(m->mu); off = m->off && m->done_sends == m->sends; }
      if (w.idle >= a) break;
      if (off && !ar->is_writer_running()) return;
      if (spins > 400000) { vf::fail("stuck", "the writer neither sleeps nor sends"); return; }
      std::this_thread::sleep_for(std::chrono::microseconds{50});
    }
    // asleep: nothing that is due may be left
    std::lock_guard<std::mutex> l(m->mu);
    if (m->off) return;
    VF_CHECK(m->pending.size() < *max, "full-unsent", "the writer sleeps with %zu spans buffered, the maximum is %zu", m->pending.size(), max->load());
    if (!m->pending.empty())
      VF_CHECK(w.now < std::max(m->pending[0].second, m->last_end) + period, "late", "a span has waited %lld, the reporting period is %lld", (long long)(w.now - m->pending[0].second), (long long)period);
    vf::eval();
  };
  auto end_send = [&] {
    auto ended = [&] { std::lock_guard<std::mutex> l(m->mu); return m->done_sends; };
    size_t n = ended();
    while (ended() == n) { w.release = true; std::this_thread::yield(); }
    settle(false);
  };
  size_t made = 0, snapshot = *max, lowest = *max;
  auto finish = [&] {
    std::string name = "s" + std::to_string(made++);
    auto s = tracer->StartSpan(name);
    vf::mark(*s, name, r.skewed(200));
    // the span may be taken by the writer before Finish returns, so it is expected first
    bool off, sending = w.holding;
    int64_t before = counts->dropped;
    {
      std::lock_guard<std::mutex> l(m->mu);
      off = m->off;
      m->pending.emplace_back(name, w.now);
    }
    s->Finish();
    std::lock_guard<std::mutex> l(m->mu);
    bool still = !m->sent.count(name);
    bool dropped = still && counts->dropped > before;  // while a send is held nothing else can drop
    if (dropped) {
      VF_CHECK(!m->pending.empty() && m->pending.back().first == name, "early-drop", "a span was dropped, yet it was sent");
      if (!m->pending.empty()) m->pending.pop_back();
      ++m->lost;
      ++m->dropped;
      m->h = vf::mix(m->h ^ 5);
      vf::count("overflow");
      VF_CHECK(off || (sending && m->pending.size() >= lowest), "early-drop", "a span was dropped with %zu of %zu spans buffered", m->pending.size(), lowest);
    } else {
      VF_CHECK(!off, "disabled-drop", "a span finished after the end of reporting was not counted as dropped");
      if (sending) VF_CHECK(m->pending.size() <= std::max(snapshot, max->load()), "bound", "%zu spans are buffered, the maximum is %zu", m->pending.size(), max->load());
    }
  };
  settle(false);
  for (size_t k = 5 + r.skewed(60); k > 0 && vf::st().violations.empty(); --k) {
    switch (r.below(10)) {
      case 0: w.now += static_cast<int64_t>(r.below(static_cast<uint64_t>(period) + 2)); settle(false); break;
      case 1: w.now += period; settle(false); break;
      case 2: {  // a slow send: until it ends the writer can't do anything else
        if (w.holding) { w.now += static_cast<int64_t>(r.below(static_cast<uint64_t>(period) * 3)); t->hold = static_cast<int>(r.below(2)); end_send(); }
        else t->hold = static_cast<int>(r.below(2));
        break;
      }
      case 3: {
        if (w.holding) break;
        size_t had, sends;
        { std::lock_guard<std::mutex> l(m->mu); had = m->pending.size(); sends = m->sends; }
        // nothing can happen meanwhile unless virtual time goes on
        bool ok = tracer->FlushWithTimeout(std::chrono::nanoseconds{0});
        std::lock_guard<std::mutex> l(m->mu);
        if (ok) VF_CHECK(had == 0 || m->sends > sends, "flush-true", "a flush that waited for nothing succeeded with %zu spans buffered", had);
        break;
      }
      case 4: {  // a flush that has the time
        if (w.holding) break;
        std::set<std::string> before;
        { std::lock_guard<std::mutex> l(m->mu); for (auto& p : m->pending) before.insert(p.first); }
        int keep = t->hold;
        t->hold = 0;
        std::atomic<int> res{-1};
        std::thread f([&] { res = tracer->FlushWithTimeout(std::chrono::nanoseconds{2 * period}); });
        int64_t start = w.now;
        for (int i = 0; res < 0 && i < 200000; ++i) {
          std::this_thread::sleep_for(std::chrono::microseconds{100});
          if (w.now < start + 4 * period + 10) w.now += period / 3 + 1;
        }
        f.join();
        settle(true);
        std::lock_guard<std::mutex> l(m->mu);
        size_t left = 0;
        for (auto& p : before) left += !m->sent.count(p);
        if (res == 1) VF_CHECK(left == 0, "flush-true", "a flush succeeded but %zu spans weren't sent", left);
        else if (!m->off) VF_CHECK(w.now >= start + 2 * period, "flush-false", "a flush gave up %lld ns after its start, it had %lld", (long long)(w.now - start), (long long)(2 * period));
        t->hold = keep;
        vf::count(res == 1 ? "flush_ok" : "flush_failed");
        break;
      }
      case 5:
        if (r.chance(1, 4)) {
          settle(true);
          if (w.holding) break;
          size_t v = 1 + r.below(20);
          *max = v;
          // the recorder takes notice when it next wakes
          w.now += period;
          settle(true);
          lowest = snapshot = v;
        }
        break;
      default: {
        bool held = w.holding;
        finish();
        if (!held) settle(false);
      }
    }
  }
  t->hold = 0;
  t->fate_bias = 1;
  settle(true);
  if (!m->off) {
    finish();
    w.now += 3 * period;
    settle(true);
    std::lock_guard<std::mutex> l(m->mu);
    if (!m->off) {
      VF_CHECK(m->pending.empty(), "drain", "%zu spans remain", m->pending.size());
      if (m->dropped == 0) VF_CHECK(m->told == m->lost, "conservation", "%lld spans were lost, reports tell of %lld", (long long)m->lost, (long long)m->told);
    }
  } else {
    size_t s = m->sends;
    for (int i = 0; i < 3; ++i) finish();
    w.now += 3 * period;
    std::this_thread::sleep_for(std::chrono::milliseconds{2});
    VF_CHECK(m->sends == s, "after-end", "a report was sent after the end of reporting");
  }
  {
    std::lock_guard<std::mutex> l(m->mu);
    VF_CHECK(m->delivered.size() + static_cast<size_t>(m->lost) + m->pending.size() == made, "conservation", "%zu finished, %zu delivered, %lld lost, %zu buffered", made, m->delivered.size(), (long long)m->lost, m->pending.size());
    VF_CHECK(counts->dropped == m->lost, "observer-dropped", "the observer counts %lld drops, %lld happened", (long long)counts->dropped.load(), (long long)m->lost);
    VF_CHECK(counts->sent >= static_cast<int64_t>(m->delivered.size()), "observer-sent", "the observer counts %lld sent, %zu were", (long long)counts->sent.load(), m->delivered.size());
    vf::distinct(m->h);
    vf::count("delivered", m->delivered.size());
  }
  w.done = true;
  tracer.reset();
}
// ---- real time
struct Real : SyncTransporter {
  struct S {
    std::mutex mu;
    std::set<std::string> delivered;
    std::atomic<bool> good{false};
    uint64_t dup = 0, h = 0;
    int64_t told = 0, failed = 0;
    std::atomic<int> inside{0}, sends{0};
    int throw_at = -1;  // the report that the transport breaks on
    std::atomic<bool> threw{false};
  };
  std::shared_ptr<S> s;
  Rng r;
  Real(std::shared_ptr<S> x, uint64_t seed) : s(std::move(x)), r(seed) {}
  opentracing::expected<void> Send(const google::protobuf::Message& request, google::protobuf::Message& response) override {
    VF_CHECK(++s->inside == 1, "one-at-a-time", "two reports are sent at once");
    auto rep = vf::decode(request.SerializeAsString());
    VF_CHECK(!s->threw, "after-end", "a report was sent after the end of reporting");
    if (r.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds{r.below(6000)});
    if (s->sends == s->throw_at) {
      s->threw = true;
      ++s->sends;
      --s->inside;
      vf::count("mt_threw");
      throw std::runtime_error("transport broke");
    }
    bool ok = s->good || r.chance(2, 3);
    {
      std::lock_guard<std::mutex> l(s->mu);
      s->h = vf::mix(s->h ^ (rep.spans.size() * 3 + ok));
      if (ok) {
        for (auto& x : rep.spans) s->dup += !s->delivered.insert(x).second;
        s->told += rep.dropped;
      } else s->failed += static_cast<int64_t>(rep.spans.size());
    }
    response.CopyFrom(*Transporter::MakeCollectorResponse());
    ++s->sends;
    --s->inside;
    if (ok) return {};
    return opentracing::make_unexpected(std::make_error_code(std::errc::network_down));
  }
};
static void threads(Rng& r, int64_t) {
  auto s = std::make_shared<Real::S>();
  auto counts = std::make_shared<vf::Observer::Counts>();
  LightStepTracerOptions o;
  o.metrics_observer.reset(new vf::Observer{counts});
  size_t cap = 1 + r.skewed(60);
  auto k = std::make_shared<std::atomic<uint64_t>>(0);
  o.max_buffered_spans = std::function<size_t()>{[cap, k] { return 1 + cap / (1 + vf::mix((*k)++) % 3); }};
  o.reporting_period = std::chrono::microseconds{200 + r.below(5000)};
  o.logger_sink = [](LogLevel, opentracing::string_view) {};
  o.transporter.reset(new Real{s, r()});
  if (r.chance(1, 3)) s->throw_at = static_cast<int>(r.below(12));
  auto tracer = MakeLightStepTracer(std::move(o));
  if (!tracer) { vf::fail("make", "no tracer"); return; }
  bool abrupt = s->throw_at >= 0 || r.chance(1, 5);
  vf::Disturber dist(r(), true, 300);
  int np = 2 + static_cast<int>(r.below(3)), per = 100;
  std::vector<std::thread> ts;
  for (int p = 0; p < np; ++p)
    ts.emplace_back([&, p, sd = r()] {
      vf::Disturber::Enrol e(dist);
      Rng q(sd);
      for (int n = 0; n < per; ++n) {
        std::string name = "t" + std::to_string(p) + "." + std::to_string(n);
        auto span = tracer->StartSpan(name);
        vf::mark(*span, name, q.below(40));
        span->Finish();
        if (q.chance(1, 30)) {
          bool ok = tracer->FlushWithTimeout(std::chrono::milliseconds{q.below(20)});
          (void)ok;
        }
        if (q.chance(1, 20)) std::this_thread::sleep_for(std::chrono::microseconds{q.below(1500)});
      }
    });
  for (auto& t : ts) t.join();
  if (!abrupt) {
    s->good = true;
    int extra = 0;
    for (int tries = 0; tries < 20; ++tries) {
      std::string name = "end." + std::to_string(extra++);
      auto span = tracer->StartSpan(name);
      vf::mark(*span, name, 3);
      span->Finish();
      VF_CHECK(tracer->FlushWithTimeout(std::chrono::seconds{60}), "flush", "flush failed");
      std::lock_guard<std::mutex> l(s->mu);
      if (static_cast<int64_t>(s->delivered.size()) + s->told == np * per + extra) break;
    }
    std::lock_guard<std::mutex> l(s->mu);
    int64_t made = np * per + extra, missing = made - static_cast<int64_t>(s->delivered.size());
    VF_CHECK(s->told == missing, "conservation", "%lld finished, %zu delivered, reports tell of %lld dropped", (long long)made, s->delivered.size(), (long long)s->told);
    VF_CHECK(counts->dropped == missing, "observer-dropped", "observer: %lld dropped, really %lld", (long long)counts->dropped.load(), (long long)missing);
    vf::count("mt_delivered", s->delivered.size());
    vf::count("mt_missing", static_cast<uint64_t>(missing));
  } else if (s->threw) {
    // what is in the buffer at the end stays there
    std::lock_guard<std::mutex> l(s->mu);
    int64_t left = np * per - static_cast<int64_t>(s->delivered.size());
    for (int tries = 0; tries < 20000 && counts->dropped + 2 + static_cast<int64_t>(cap) < left; ++tries) std::this_thread::sleep_for(std::chrono::milliseconds{1});
    VF_CHECK(counts->dropped <= left && left <= counts->dropped + 2 + static_cast<int64_t>(cap), "observer-dropped", "observer: %lld dropped, %lld spans weren't delivered when the transport broke", (long long)counts->dropped.load(), (long long)left);
  } else vf::count("abrupt");
  if (r.chance(1, 2)) tracer->Close();
  tracer.reset();
  int n = s->sends;
  VF_CHECK(s->inside == 0 && n == s->sends, "after-end", "the transport is used after the tracer is gone");
  VF_CHECK(s->dup == 0, "twice", "%llu spans were delivered twice", (unsigned long long)s->dup);
  vf::eval(static_cast<uint64_t>(np * per));
  vf::distinct(s->h);
}
// the period that zero stands for
static void periods(Rng& r, int64_t i) {
  auto s = std::make_shared<Real::S>();
  s->good = true;
  auto counts = std::make_shared<vf::Observer::Counts>();
  LightStepTracerOptions o;
  o.metrics_observer.reset(new vf::Observer{counts});
  o.reporting_period = i % 2 ? std::chrono::milliseconds{0} : std::chrono::milliseconds{500};
  o.logger_sink = [](LogLevel, opentracing::string_view) {};
  o.transporter.reset(new Real{s, r()});
  auto t0 = steady_clock::now();
  auto tracer = MakeLightStepTracer(std::move(o));
  if (!tracer) { vf::fail("make", "no tracer"); return; }
  std::this_thread::sleep_for(std::chrono::milliseconds{150});
  auto span = tracer->StartSpan("a");
  vf::mark(*span, "a", 3);
  span->Finish();
  while (s->sends == 0 && steady_clock::now() - t0 < std::chrono::seconds{60}) std::this_thread::sleep_for(std::chrono::milliseconds{1});
  VF_CHECK(s->sends == 1, "late", "a span isn't sent within a minute");
  int64_t flushes = counts->flushes;
  double took = std::chrono::duration<double>(steady_clock::now() - t0).count();
  VF_CHECK(static_cast<double>(flushes) <= took / 0.5 + 2, "period-zero", "%lld flushes in %.3f s with a period of %s", (long long)flushes, took, i % 2 ? "zero, which stands for the default" : "500 ms");
  vf::eval();
  vf::distinct(static_cast<uint64_t>(i));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
#if !VF_TSAN
  vf::cases("virtual", vf::n(1200, 20000), virtual_time);
  vf::cases("periods", vf::n(1, 5), periods);
#endif
  vf::cases("threads", vf::n(40, 800), threads);
  return vf::finish();
}
