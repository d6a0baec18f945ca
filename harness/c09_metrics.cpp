// C09: dropped-span accounting under concurrent recording, taking and putting back, and inside connections.
#include "vf.h"
#include "disturb.h"
#include "streams.h"
#include "http.h"
#include "recorder/serialization/embedded_metrics_message.h"
#include "recorder/serialization/report_request_header.h"
#include "recorder/stream_recorder/connection_stream.h"
#include "recorder/stream_recorder/span_stream.h"
#include "tracer/counting_metrics_observer.h"
using namespace lightstep;
using vf::Rng;

// Counts what each thread was told; a thread compares with what it caused.
static thread_local int64_t my_sent, my_dropped, my_flushes, my_calls;
struct Obs : MetricsObserver {
  std::atomic<int64_t> sent{0}, dropped{0}, flushes{0};
  void OnSpansSent(int n) noexcept override { sent += n; my_sent += n; ++my_calls; }
  void OnSpansDropped(int n) noexcept override { dropped += n; my_dropped += n; ++my_calls; }
  void OnFlush() noexcept override { ++flushes; ++my_flushes; ++my_calls; }
};

static void tracker(Rng& r, int64_t) {
  Obs obs;
  MetricsTracker m{obs};
  size_t recorders = 1 + r.below(4), reporters = 1 + r.below(2);
  int ops = static_cast<int>(200 + r.below(1500));
  std::atomic<int64_t> recorded{0}, delivered{0};
  std::atomic<size_t> live{recorders};
  std::atomic<uint64_t> order{0};
  vf::Disturber dist(r());
  std::vector<std::thread> ts;
  for (size_t t = 0; t < recorders; ++t)
    ts.emplace_back([&, s = r()] {
      vf::Disturber::Enrol e(dist);
      Rng q(s);
      int64_t dropped = 0, sent = 0, flushes = 0, calls = 0;
      my_sent = my_dropped = my_flushes = my_calls = 0;
      for (int i = 0; i < ops; ++i) {
        int k = q.chance(1, 3) ? 1 : static_cast<int>(q.below(50));
        switch (q.below(4)) {
          case 0: m.OnSpansSent(k); sent += k; ++calls; break;
          case 1: m.OnFlush(); ++flushes; ++calls; break;
          default: m.OnSpansDropped(k); dropped += k; ++calls;
        }
        VF_CHECK(my_dropped == dropped && my_sent == sent && my_flushes == flushes && my_calls == calls, "observer",
                 "caused %lld dropped %lld sent %lld flushes, was told %lld %lld %lld in %lld calls for %lld", (long long)dropped, (long long)sent,
                 (long long)flushes, (long long)my_dropped, (long long)my_sent, (long long)my_flushes, (long long)my_calls, (long long)calls);
      }
      recorded += dropped;
      --live;
    });
  std::atomic<int64_t> puts{0}, takes{0};
  for (size_t t = 0; t < reporters; ++t)
    ts.emplace_back([&, s = r()] {
      vf::Disturber::Enrol e(dist);
      Rng q(s);
      my_calls = 0;
      while (live > 0) {
        int k = m.ConsumeDroppedSpans();
        VF_CHECK(k >= 0, "negative", "took %d", k);
        if (k) { ++takes; order = vf::mix(order ^ static_cast<uint64_t>(k)); }
        if (q.chance(1, 4)) std::this_thread::yield();
        if (q.chance(1, 2)) { m.UnconsumeDroppedSpans(k); puts += k > 0; }  // the report failed
        else delivered += k;
        VF_CHECK(m.num_dropped_spans() >= 0, "negative", "pending %d", m.num_dropped_spans());
      }
      VF_CHECK(my_calls == 0, "observer", "taking or putting back counts told the observer");
    });
  for (auto& t : ts) t.join();
  VF_CHECK(delivered + m.num_dropped_spans() == recorded, "conservation", "%lld delivered + %d pending, %lld recorded", (long long)delivered.load(), m.num_dropped_spans(), (long long)recorded.load());
  VF_CHECK(obs.dropped == recorded, "observer", "observer saw %lld drops of %lld", (long long)obs.dropped.load(), (long long)recorded.load());
  int rest = m.ConsumeDroppedSpans();
  VF_CHECK(delivered + rest == recorded && m.num_dropped_spans() == 0 && m.ConsumeDroppedSpans() == 0, "conservation", "the last take does not empty the tracker");
  vf::eval(static_cast<uint64_t>(takes.load()));
  vf::count("taken", static_cast<uint64_t>(takes.load()));
  vf::count("put_back", static_cast<uint64_t>(puts.load()));
  vf::distinct(order);
}
// the counting observer a caller may install
static void counting(Rng& r, int64_t) {
  CountingMetricsObserver obs;
  MetricsTracker m{obs};
  std::atomic<int64_t> d{0}, s{0}, f{0};
  vf::Disturber dist(r());
  std::vector<std::thread> ts;
  for (size_t t = 0; t < 3; ++t)
    ts.emplace_back([&, sd = r()] {
      vf::Disturber::Enrol e(dist);
      Rng q(sd);
      for (int i = 0; i < 500; ++i) {
        int k = static_cast<int>(q.below(9));
        switch (q.below(3)) {
          case 0: m.OnSpansSent(k); s += k; break;
          case 1: m.OnFlush(); ++f; break;
          default: m.OnSpansDropped(k); d += k;
        }
      }
    });
  for (auto& t : ts) t.join();
  VF_CHECK(obs.num_spans_dropped == d && obs.num_spans_sent == s && obs.num_flushes == f, "counting", "counted %d %d %d of %lld %lld %lld",
           obs.num_spans_dropped.load(), obs.num_spans_sent.load(), obs.num_flushes.load(), (long long)d.load(), (long long)s.load(), (long long)f.load());
  vf::eval();
  vf::distinct(r());
}
// connections taking counts into their headers, failing and completing, while other threads drop spans
static void connections(Rng& r, int64_t) {
  Obs obs;
  MetricsTracker m{obs};
  CircularBuffer<ChainedStream> buffer{4};
  SpanStream ss{buffer, m};
  LightStepTracerOptions o;
  std::string common = WriteReportRequestHeader(o, 5), host = "Host:x\r\n";
  Fragment hf{&host[0], static_cast<int>(host.size())}, cf{&common[0], static_cast<int>(common.size())};
  size_t nc = 1 + r.below(3);
  std::vector<std::unique_ptr<ConnectionStream>> cs;
  std::vector<std::vector<std::string>> got(nc);
  for (size_t i = 0; i < nc; ++i) { cs.emplace_back(new ConnectionStream{hf, cf, ss}); got[i].emplace_back(); }
  std::atomic<int64_t> recorded{0};
  std::atomic<int> live{2};
  std::vector<std::thread> ts;
  vf::Disturber dist(r());
  for (int t = 0; t < 2; ++t)
    ts.emplace_back([&, s = r()] {
      vf::Disturber::Enrol e(dist);
      Rng q(s);
      for (int i = 0; i < 300; ++i) { int k = 1 + static_cast<int>(q.below(5)); m.OnSpansDropped(k); recorded += k; if (q.chance(1, 8)) std::this_thread::yield(); }
      --live;
    });
  uint64_t h = 0;
  auto step = [&](size_t i, int mode) {
    auto w = [&](std::initializer_list<FragmentInputStream*> l) {
      std::string a;
      for (auto s : l) a += vf::text(*s);
      size_t n = mode == 0 ? r.below(a.size() + 1) : a.size();
      got[i].back() += a.substr(0, n);
      if (a.empty()) return true;
      return Consume(l, static_cast<int>(n));
    };
    return cs[i]->Flush(w);
  };
  int rounds = 0;
  while (live > 0 || rounds < 40) {
    ++rounds;
    size_t i = r.below(nc);
    step(i, static_cast<int>(r.below(2)));
    if (r.chance(1, 3)) {
      if (r.chance(1, 2)) { cs[i]->Shutdown(); step(i, static_cast<int>(r.below(2))); }
      cs[i]->Reset();
      got[i].emplace_back();
    }
  }
  for (auto& t : ts) t.join();
  for (size_t i = 0; i < nc; ++i) { step(i, 1); cs[i]->Shutdown(); step(i, 1); }
  int64_t told = 0;
  for (auto& v : got)
    for (auto& s : v) {
      auto q = vf::parse_request(s);
      VF_CHECK(q.error.empty(), "http", "%s", q.error.c_str());
      collector::ReportRequest p;
      if (q.chunks.empty()) continue;
      VF_CHECK(p.ParseFromString(q.body), "parse", "body does not parse");
      int n = 0;
      for (auto& c : p.internal_metrics().counts()) { told += c.int_value(); ++n; h = vf::mix(h ^ static_cast<uint64_t>(c.int_value())); VF_CHECK(c.name() == "spans.dropped" && c.int_value() >= 0, "metric", "%s %lld", c.name().c_str(), (long long)c.int_value()); }
      VF_CHECK(n == 1, "metric", "%d counts", n);
    }
  VF_CHECK(told + m.num_dropped_spans() == recorded, "connections", "%lld told + %d pending, %lld recorded", (long long)told, m.num_dropped_spans(), (long long)recorded.load());
  VF_CHECK(obs.dropped == recorded && obs.sent == 0, "observer", "observer saw %lld drops of %lld", (long long)obs.dropped.load(), (long long)recorded.load());
  vf::eval(static_cast<uint64_t>(rounds));
  vf::distinct(h);
}
// the metrics record holds exactly the last count, whatever was set before
static void record(Rng& r, int64_t) {
  EmbeddedMetricsMessage e;
  for (int i = 0; i < 6; ++i) {
    int k = r.chance(1, 4) ? 0 : static_cast<int>(r.magnitude() & 0x7fffffff);
    e.set_num_dropped_spans(k);
    if (r.chance(1, 4)) { k = static_cast<int>(r.below(300)); e.set_num_dropped_spans(k); }
    VF_CHECK(e.num_dropped_spans() == k, "record", "%d for %d", e.num_dropped_spans(), k);
    auto f = e.MakeFragment();
    collector::ReportRequest p;
    VF_CHECK(p.ParseFromArray(f.first, f.second) && p.internal_metrics().counts_size() == 1 && p.internal_metrics().counts(0).int_value() == k, "record", "fragment does not hold %d", k);
    vf::eval();
    vf::distinct(static_cast<uint64_t>(k));
  }
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("tracker", vf::n(60, 1500), tracker);
  vf::cases("counting", vf::n(20, 400), counting);
  vf::cases("connections", vf::n(80, 2000), connections);
  vf::cases("record", vf::n(1000, 20000), record);
  return vf::finish();
}
