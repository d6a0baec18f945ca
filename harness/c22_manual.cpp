// C22: manually flushed recorders over scripted transports; every span is tracked from finish to report.
#include "reports.h"
#include "disturb.h"
#include <deque>
#include <set>
#include <stdexcept>
#include "recorder/legacy_manual_recorder.h"
#include "recorder/manual_recorder.h"
using namespace lightstep;
using vf::Rng;

struct Model {
  bool legacy;
  size_t max;
  std::deque<std::string> pending;
  std::vector<std::string> unsettled;  // being finished just now
  int64_t dropped = 0;                 // not yet in a report
  int64_t lost = 0, ok_dropped = 0;    // dropped altogether; told to the back end by successful reports
  std::set<std::string> delivered;
  size_t flights = 0, reports = 0, sends = 0;
  bool disabled = false;
  uint64_t reporter = 0;
  uint64_t h = 0;
};
struct Flight { std::vector<std::string> spans; int64_t dropped = 0; };
static void on_send(Model& m, const vf::Report& r, Flight& f) {
  ++m.sends;
  if (!m.reporter) m.reporter = r.reporter;
  VF_CHECK(r.reporter == m.reporter && r.reporter != 0 && r.token == "secret", "preamble", "reporter %llx token %s", (unsigned long long)r.reporter, r.token.c_str());
  std::vector<std::string> rest;
  for (auto& s : r.spans) {
    auto it = std::find(m.unsettled.begin(), m.unsettled.end(), s);
    if (it != m.unsettled.end()) { *it = ""; continue; }  // the span that is being finished may go with it
    rest.push_back(s);
  }
  std::vector<std::string> want(m.pending.begin(), m.pending.end());
  VF_CHECK(rest == want, "report-spans", "a report has %zu spans (first %s), %zu are buffered (first %s)", rest.size(), rest.empty() ? "-" : rest[0].c_str(), want.size(), want.empty() ? "-" : want[0].c_str());
  VF_CHECK(r.dropped == m.dropped, "report-dropped", "a report says %lld spans were dropped, %lld were", (long long)r.dropped, (long long)m.dropped);
  f.spans = r.spans;
  f.dropped = r.dropped;
  m.pending.clear();
  m.dropped = 0;
  ++m.flights;
  m.h = vf::mix(m.h ^ (r.spans.size() * 31 + static_cast<uint64_t>(r.dropped)));
}
static void on_done(Model& m, const Flight& f, bool ok) {
  --m.flights;
  m.h = vf::mix(m.h ^ (ok ? 7 : 11));
  if (ok) {
    for (auto& s : f.spans) VF_CHECK(m.delivered.insert(s).second, "twice", "span %s was delivered twice", s.c_str());
    m.ok_dropped += f.dropped;
    ++m.reports;
  } else {
    m.dropped += f.dropped + static_cast<int64_t>(f.spans.size());
    m.lost += static_cast<int64_t>(f.spans.size());
  }
}
struct Script {
  Rng r{1};
  Model* m = nullptr;
  std::function<void()> flush;            // what the application does to flush
  std::function<void(bool)> more;         // another span from within a callback
  int depth = 0;
  bool draining = false;
};
// ---- the current interface
struct Modern : AsyncTransporter {
  struct Out { std::unique_ptr<BufferChain> msg; std::string bytes; Flight f; Callback* cb; };
  std::shared_ptr<Script> s;
  std::vector<Out> out;
  explicit Modern(std::shared_ptr<Script> x) : s(std::move(x)) {}
  void complete(size_t i, bool ok) {
    Out o = std::move(out[i]);
    out.erase(out.begin() + static_cast<long>(i));
    VF_CHECK(vf::raw(*o.msg) == o.bytes, "report-changed", "a report in flight changed");
    on_done(*s->m, o.f, ok);
    if (ok) o.cb->OnSuccess(*o.msg);
    else o.cb->OnFailure(*o.msg);
    VF_CHECK(vf::raw(*o.msg) == o.bytes, "report-changed", "a report changed on completion");
  }
  void Send(std::unique_ptr<BufferChain>&& msg, Callback& cb) noexcept override {
    Out o;
    o.msg = std::move(msg);
    o.cb = &cb;
    o.bytes = vf::raw(*o.msg);
    on_send(*s->m, vf::decode(o.bytes), o.f);
    out.push_back(std::move(o));
    if (s->draining) { complete(out.size() - 1, true); return; }
    if (s->depth > 3) return;
    ++s->depth;
    switch (s->r.below(8)) {
      case 0: complete(out.size() - 1, true); break;
      case 1: complete(out.size() - 1, false); break;
      case 2: while (!out.empty()) complete(s->r.below(out.size()), s->r.chance(1, 2)); break;
      case 3: s->more(true); break;
      case 4: complete(out.size() - 1, false); s->flush(); break;
    }
    --s->depth;
  }
  void OnSpanBufferFull() noexcept override {
    VF_CHECK(s->m->pending.size() >= s->m->max, "full", "told that the buffer is full with %zu of %zu spans", s->m->pending.size(), s->m->max);
    vf::count("buffer_full");
    if (s->depth > 3) return;
    ++s->depth;
    switch (s->r.below(6)) {
      case 0: case 1: s->flush(); break;
      case 2: s->flush(); while (!out.empty()) complete(s->r.below(out.size()), s->r.chance(1, 2)); break;
      case 3: if (!out.empty()) complete(0, s->r.chance(1, 2)); break;
      case 4: s->more(true); break;
    }
    --s->depth;
  }
};
// ---- the deprecated interface: one report at a time
struct Legacy : LegacyAsyncTransporter {
  std::shared_ptr<Script> s;
  Callback* cb = nullptr;
  const google::protobuf::Message* req = nullptr;
  google::protobuf::Message* resp = nullptr;
  std::string bytes;
  Flight f;
  explicit Legacy(std::shared_ptr<Script> x) : s(std::move(x)) {}
  void complete(bool ok) {
    VF_CHECK(req->SerializeAsString() == bytes, "report-changed", "a report in flight changed");
    Callback* c = cb;
    cb = nullptr;
    Flight g = std::move(f);
    auto* rp = dynamic_cast<collector::ReportResponse*>(resp);
    if (!rp) { vf::fail("response", "not a report response"); return; }
    rp->Clear();
    on_done(*s->m, g, ok);
    if (ok) {
      if (s->r.chance(1, 20)) rp->add_errors("bad thing");
      if (s->r.chance(1, 20)) rp->add_infos("fine");
      if (!s->draining && s->r.chance(1, 60)) {
        if (s->r.chance(1, 2)) rp->add_commands()->set_disable(false);
        rp->add_commands()->set_disable(true);
        s->m->disabled = true;
        vf::count("disabled");
      }
      c->OnSuccess();
    } else {
      c->OnFailure(std::make_error_code(std::errc::timed_out));
    }
  }
  void Send(const google::protobuf::Message& request, google::protobuf::Message& response, Callback& callback) override {
    VF_CHECK(cb == nullptr, "one-at-a-time", "a second report was sent while one is in flight");
    auto* p = dynamic_cast<const collector::ReportRequest*>(&request);
    if (!p) { vf::fail("request", "not a report request"); return; }
    cb = &callback;
    req = &request;
    resp = &response;
    request.SerializeToString(&bytes);
    on_send(*s->m, vf::decode(bytes), f);
    if (s->draining) { complete(true); return; }
    switch (s->r.below(9)) {
      case 0: complete(true); break;
      case 1: complete(false); break;
      case 2:  // gives up
        vf::count("threw");
        cb = nullptr;
        on_done(*s->m, f, false);
        throw std::runtime_error("no route");
      case 3:
        if (s->r.chance(1, 3)) { complete(s->r.chance(1, 2)); vf::count("threw"); throw std::runtime_error("after the callback"); }
        break;
      case 4:
        if (s->depth < 3) { ++s->depth; complete(s->r.chance(1, 2)); s->flush(); --s->depth; }
        break;
    }
  }
};
static void scripted(Rng& r, int64_t i) {
  bool legacy = i & 1;
  auto sc = std::make_shared<Script>();
  Model m;
  m.legacy = legacy;
  m.max = r.chance(1, 12) ? 0 : 1 + r.skewed(r.chance(1, 4) ? 200 : 12);
  if (!legacy && m.max == 0) m.max = 1;
  sc->r = Rng(r());
  sc->m = &m;
  auto counts = std::make_shared<vf::Observer::Counts>();
  auto max = std::make_shared<size_t>(m.max);
  LightStepTracerOptions o;
  o.access_token = "secret";
  o.verbose = r.chance(1, 4);
  bool observed = r.chance(7, 8);
  if (observed) o.metrics_observer.reset(new vf::Observer{counts});
  o.max_buffered_spans = DynamicConfigurationValue<size_t>{std::function<size_t()>{[max] { return *max; }}};
  auto log = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  Modern* mt = nullptr;
  Legacy* lt = nullptr;
  std::unique_ptr<Recorder> rec;
  LightStepTracerOptions none;
  if (legacy) {
    lt = new Legacy{sc};
    rec.reset(new LegacyManualRecorder{*log, std::move(o), std::unique_ptr<LegacyAsyncTransporter>{lt}});
  } else {
    mt = new Modern{sc};
    rec.reset(new ManualRecorder{*log, std::move(o), std::unique_ptr<AsyncTransporter>{mt}});
  }
  auto tracer = vf::make_tracer(legacy, std::move(rec), none, log);
  size_t made = 0, finished = 0;
  auto idle = [&] { return m.flights == 0; };
  sc->flush = [&] {
    size_t sends = m.sends, had = m.pending.size();
    bool was_idle = idle(), off = m.disabled;
    int64_t drops = m.dropped;
    std::set<std::string> before(m.pending.begin(), m.pending.end());
    // closing flushes too; what it achieved only the transport tells
    bool closing = sc->r.chance(1, 5);
    bool ok = false;
    if (closing) tracer->Close();
    else ok = sc->r.chance(1, 2) ? tracer->Flush() : tracer->FlushWithTimeout(std::chrono::microseconds{sc->r.below(1000)});
    VF_CHECK(!(off && ok), "flush-disabled", "flushing a disabled tracer succeeds");
    if (off) { VF_CHECK(m.sends == sends, "flush-disabled", "a disabled tracer sends"); return; }
    bool must = legacy ? was_idle && had > 0 : had > 0 || drops > 0;
    if (must) VF_CHECK(m.sends > sends, "flush-sends", "a flush of %zu buffered and %lld dropped spans sent nothing", had, (long long)drops);
    size_t left = 0;
    for (auto& p : m.pending) left += before.count(p);
    if (ok && !(legacy && !was_idle)) VF_CHECK(left == 0, "flush-true", "a flush succeeded but %zu of %zu spans remain", left, had);
    if (ok && legacy && !was_idle) VF_CHECK(had == 0, "flush-true", "a flush succeeded though it could not send %zu spans", had);
    if (!must && !legacy) VF_CHECK((ok || closing) && m.sends == sends, "flush-empty", "a flush of nothing sends or fails");
    vf::eval();
  };
  auto finish = [&](bool destroy) {
    std::string name = "s" + std::to_string(made++);
    auto span = tracer->StartSpan(name);
    if (!span) { vf::fail("start", "no span"); return; }
    bool sampled = sc->draining || !sc->r.chance(1, 15);
    if (!sampled) span->SetTag("sampling.priority", 0);
    vf::mark(*span, name, sc->r.chance(1, 10) ? vf::chain_size(sc->r) : sc->r.below(30));
    int64_t seen = counts->dropped, lost = m.lost;
    if (sampled) m.unsettled.push_back(name);
    size_t slot = m.unsettled.size() - 1;
    bool was_idle = idle(), off = m.disabled;
    if (destroy) span.reset();
    else { span->Finish(); if (sc->r.chance(1, 10)) span->Finish(); }
    if (!sampled) return;
    ++finished;
    bool gone = m.unsettled[slot].empty();
    m.unsettled.pop_back();
    if (observed) {
      // with nested finishes the inner ones have settled their own drops in m.lost
      int64_t now = counts->dropped - seen - (m.lost - lost);
      VF_CHECK(now == 0 || (now == 1 && !gone), "observer-dropped", "finishing a span told the observer of %lld drops beyond failed reports", (long long)now);
      if (now == 1) {
        ++m.lost;
        ++m.dropped;
        m.h = vf::mix(m.h ^ 3);
        vf::count("overflow");
        VF_CHECK(off || m.disabled || (m.pending.size() >= *max && (!legacy || !was_idle || !idle())), "early-drop", "a span was dropped with %zu of %zu spans buffered", m.pending.size(), *max);
        return;
      }
    } else if (!gone) {  // no observer: by what must happen
      bool drop = off || (legacy ? m.pending.size() >= *max && !was_idle : m.pending.size() >= m.max);
      if (drop) { ++m.lost; ++m.dropped; return; }
    }
    if (off) VF_CHECK(false, "disabled-drop", "a span finished on a disabled tracer was not counted as dropped");
    if (!gone) m.pending.push_back(name);
    if (!legacy) VF_CHECK(m.pending.size() <= m.max, "bound", "%zu spans buffered, the maximum is %zu", m.pending.size(), m.max);
    else if (sc->depth == 0 && !m.disabled) VF_CHECK(m.pending.size() < *max || !idle() || *max == 0, "auto-flush", "%zu spans buffered of %zu and no report in flight", m.pending.size(), *max);
    vf::eval();
  };
  sc->more = [&](bool d) { finish(d); };
  size_t steps = 5 + r.skewed(150);
  for (size_t k = 0; k < steps; ++k) {
    switch (sc->r.below(12)) {
      case 0: sc->flush(); break;
      case 1: case 2: case 3: {
        bool ok = sc->r.chance(2, 3);
        if (legacy) { if (lt->cb) lt->complete(ok); }
        else if (!mt->out.empty()) mt->complete(sc->r.below(mt->out.size()), ok);
        break;
      }
      case 4:
        if (legacy && sc->r.chance(1, 3)) { *max = sc->r.below(2) ? 1 + sc->r.below(5) : 1 + m.pending.size() / 2; }
        break;
      default: finish(sc->r.chance(1, 4));
    }
  }
  // drain: everything in flight completes, then successful flushes
  sc->draining = r.chance(15, 16);
  if (sc->draining) {
    if (legacy) { if (lt->cb) lt->complete(r.chance(1, 2)); }
    else while (!mt->out.empty()) mt->complete(r.below(mt->out.size()), r.chance(1, 2));
    if (!m.disabled) {
      if (m.pending.empty() && legacy && m.dropped) finish(false);
      sc->flush();
      VF_CHECK(m.pending.empty() && idle(), "drain", "%zu spans and %zu reports remain after a flush", m.pending.size(), m.flights);
      if (legacy && m.dropped) { finish(false); sc->flush(); }
      VF_CHECK(m.dropped == 0 && m.ok_dropped == m.lost, "conservation", "%lld spans were dropped, reports tell of %lld, %lld pending", (long long)m.lost, (long long)m.ok_dropped, (long long)m.dropped);
    }
    VF_CHECK(m.delivered.size() + static_cast<size_t>(m.lost) + m.pending.size() == finished, "conservation", "%zu finished, %zu delivered, %lld dropped, %zu buffered", finished, m.delivered.size(), (long long)m.lost, m.pending.size());
    if (observed) {
      VF_CHECK(counts->dropped == m.lost, "observer-dropped", "the observer counts %lld drops, %lld happened", (long long)counts->dropped.load(), (long long)m.lost);
      int64_t failed_sends = legacy ? counts->sent - static_cast<int64_t>(m.delivered.size()) : 0;
      VF_CHECK(legacy ? failed_sends >= 0 : counts->sent == static_cast<int64_t>(m.delivered.size()), "observer-sent", "the observer counts %lld sent, %zu were", (long long)counts->sent.load(), m.delivered.size());
    }
    vf::count("drained");
  }
  vf::count("delivered", m.delivered.size());
  vf::count("lost", static_cast<uint64_t>(m.lost));
  vf::counter_max("in_flight_max", m.flights);
  // messages outlive the tracer
  std::vector<Modern::Out> kept;
  if (mt) kept = std::move(mt->out);
  tracer.reset();
  for (auto& k : kept) VF_CHECK(vf::raw(*k.msg) == k.bytes, "report-changed", "a report kept by the application changed");
  vf::distinct(m.h);
}
// ---- several threads over the current interface
struct Shared : AsyncTransporter {
  std::mutex mu;
  std::vector<std::pair<std::unique_ptr<BufferChain>, std::string>> out;
  Callback* cb = nullptr;
  std::function<void()> full;
  std::set<std::string> delivered;
  int64_t ok_dropped = 0, failed = 0;
  bool drain = false;
  uint64_t h = 0, dup = 0;
  void Send(std::unique_ptr<BufferChain>&& msg, Callback& c) noexcept override {
    std::string b = vf::raw(*msg);
    {
      std::lock_guard<std::mutex> l(mu);
      cb = &c;
      out.emplace_back(std::move(msg), std::move(b));
    }
    if (drain) complete(true);
  }
  void OnSpanBufferFull() noexcept override { full(); }
  bool complete(bool ok) {
    std::pair<std::unique_ptr<BufferChain>, std::string> o;
    Callback* c;
    {
      std::lock_guard<std::mutex> l(mu);
      if (out.empty()) return false;
      c = cb;
      o = std::move(out.back());
      out.pop_back();
      VF_CHECK(vf::raw(*o.first) == o.second, "report-changed", "a report in flight changed");
      auto r = vf::decode(o.second);
      h = vf::mix(h ^ (r.spans.size() + 977 * static_cast<uint64_t>(r.dropped) + ok));
      if (ok) {
        for (auto& s : r.spans) if (!delivered.insert(s).second) ++dup;
        ok_dropped += r.dropped;
      } else failed += static_cast<int64_t>(r.spans.size());
    }
    if (ok) c->OnSuccess(*o.first);
    else c->OnFailure(*o.first);
    return true;
  }
};
static void threads(Rng& r, int64_t) {
  auto counts = std::make_shared<vf::Observer::Counts>();
  LightStepTracerOptions o;
  o.metrics_observer.reset(new vf::Observer{counts});
  o.max_buffered_spans = 1 + r.skewed(40);
  auto log = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  auto* t = new Shared;
  std::unique_ptr<Recorder> rec{new ManualRecorder{*log, std::move(o), std::unique_ptr<AsyncTransporter>{t}}};
  Recorder* rp = rec.get();
  auto tracer = vf::make_tracer(false, std::move(rec), LightStepTracerOptions{}, log);
  int mode = static_cast<int>(r.below(3));
  std::atomic<uint64_t> k{0};
  t->full = [&] {
    uint64_t x = vf::mix(k++);
    if (mode == 0 || (mode == 1 && x % 2)) rp->FlushWithTimeout(std::chrono::seconds{1});
  };
  vf::Disturber dist(r());
  int np = 2 + static_cast<int>(r.below(3)), per = VF_TSAN ? 60 : 120;
  std::atomic<int> live{np};
  std::vector<std::thread> ts;
  for (int p = 0; p < np; ++p)
    ts.emplace_back([&, p, s = r()] {
      vf::Disturber::Enrol e(dist);
      Rng q(s);
      for (int n = 0; n < per; ++n) {
        std::string name = "t" + std::to_string(p) + "." + std::to_string(n);
        auto span = tracer->StartSpan(name);
        vf::mark(*span, name, q.below(40));
        span->Finish();
        if (q.chance(1, 20)) tracer->Flush();
      }
      --live;
    });
  for (int p = 0; p < 2; ++p)
    ts.emplace_back([&, p, s = r()] {
      vf::Disturber::Enrol e(dist);
      Rng q(s);
      while (live > 0) {
        if (p == 0 && q.chance(1, 4)) tracer->Flush();
        t->complete(q.chance(2, 3));
        if (q.chance(1, 3)) std::this_thread::yield();
      }
    });
  for (auto& x : ts) x.join();
  while (t->complete(r.chance(1, 2))) {}
  t->drain = true;
  tracer->Flush();
  int64_t made = np * per, missing = made - static_cast<int64_t>(t->delivered.size());
  VF_CHECK(t->dup == 0, "twice", "%llu spans were delivered twice", (unsigned long long)t->dup);
  VF_CHECK(t->ok_dropped == missing, "conservation", "%lld finished, %zu delivered, but reports tell of %lld dropped", (long long)made, t->delivered.size(), (long long)t->ok_dropped);
  VF_CHECK(counts->dropped == missing && counts->sent == made - missing, "observer-dropped", "observer: %lld dropped %lld sent, really %lld %lld", (long long)counts->dropped.load(), (long long)counts->sent.load(),
           (long long)missing, (long long)(made - missing));
  if (mode == 0) vf::count("overflow_with_flush", static_cast<uint64_t>(missing - t->failed));
  vf::eval(static_cast<uint64_t>(made));
  vf::count("mt_missing", static_cast<uint64_t>(missing));
  vf::distinct(t->h);
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
#if !VF_TSAN
  vf::cases("scripted", vf::n(4000, 120000), scripted);
#endif
  vf::cases("threads", vf::n(60, 1500), threads);
  return vf::finish();
}
