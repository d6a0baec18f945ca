// C27: spans and tracers shared by threads.  Every operation on a shared span is recorded with its interval; what is
// delivered, read and injected must be explained by some order of the operations.  Under TSan and ASan.
#include "satellite.h"
#include "carriers.h"
#include "disturb.h"
#include <algorithm>
#include <set>
#include <sstream>
#include "network/dns_resolver.h"
#include "recorder/auto_recorder.h"
#include "recorder/stream_recorder/stream_recorder.h"
using namespace lightstep;
using vf::Plan;
using vf::Rng;
using std::chrono::milliseconds;
typedef uint64_t u64;
static int64_t now_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void nap(int64_t ns) { std::this_thread::sleep_for(std::chrono::nanoseconds{ns}); }

// Relaxed, so that the recording orders nothing for the race detector.
static std::atomic<u64> ticks{1};
static u64 tick() { return ticks.fetch_add(1, std::memory_order_relaxed); }

enum Kind { k_tag, k_log, k_name, k_baggage, k_read, k_finish, k_priority };
struct Op { u64 inv, ret; Kind kind; std::string key, value; size_t span; int n; };
struct Shared {
  std::unique_ptr<opentracing::Span> span;
  std::string name;
  u64 span_id = 0, trace_id = 0;
};
static const char* keys[] = {"alpha", "Beta", "GAMMA", "d-e"};
static std::string low(std::string s) { for (auto& c : s) c = static_cast<char>(tolower(c)); return s; }
static std::string padded(Rng& r, std::string s) { if (r.chance(1, 6)) s += "|" + std::string(r.below(400), 'x'); return s; }

// may a read during [inv, ret] of a register, first written by `initial`, give `value`?
static bool explained(const std::vector<const Op*>& writes, const std::string& initial, const std::string& value, u64 inv, u64 ret) {
  const Op* w = nullptr;
  for (auto o : writes) if (o->value == value) w = o;
  if (!w && value != initial) return false;
  if (w && w->inv > ret) return false;
  u64 since = w ? w->ret : 0;
  for (auto o : writes) if (o != w && o->inv > since && o->ret < inv) return false;
  return true;
}
// `got` are values of operations in the order they took effect: is it one, and whole, given the time of finishing?
static void sequence(const char* what, const std::vector<std::string>& got, const std::vector<const Op*>& ops, u64 f_inv, u64 f_ret) {
  std::map<std::string, const Op*> by;
  for (auto o : ops) by[o->value] = o;
  std::set<std::string> seen;
  u64 latest = 0;
  for (auto& g : got) {
    auto it = by.find(g);
    if (it == by.end()) { vf::fail(std::string(what) + "-unknown", std::string("delivered with a ") + what + " nobody gave: " + vf::hex(g)); continue; }
    VF_CHECK(seen.insert(g).second, std::string(what) + "-twice", "a %s is delivered twice", what);
    VF_CHECK(it->second->inv < f_ret, std::string(what) + "-late", "a %s given after the span was finished is delivered", what);
    VF_CHECK(it->second->ret > latest, std::string(what) + "-order", "a %s is delivered after one that was begun when it had ended", what);
    latest = std::max(latest, it->second->inv);
  }
  for (auto o : ops)
    if (o->ret < f_inv && !seen.count(o->value)) { vf::fail(std::string(what) + "-lost", vf::fmt("a %s given before the span was finished is not delivered", what)); break; }
}
static LightStepTracerOptions options_of(Rng& r, std::vector<vf::Mode>& modes) {
  if (r.chance(1, 2)) { modes = {vf::Mode::lightstep}; return LightStepTracerOptions{}; }
  return vf::any_modes(r, modes);
}
// what became of the shared spans, given all operations
static u64 judge(std::vector<Shared>& sh, const std::vector<std::vector<Op>>& ops, const std::map<u64, const collector::Span*>& by_id, u64 end, u64 over) {
  u64 h = ops.size();
  size_t ns = sh.size();
  std::vector<std::vector<const Op*>> per_span(ns);
  for (auto& v : ops) for (auto& x : v) per_span[x.span].push_back(&x);
  for (size_t i = 0; i < ns; ++i) {
    std::map<int, std::vector<const Op*>> of;
    std::map<std::string, std::vector<const Op*>> bag;
    for (auto x : per_span[i]) { of[x->kind].push_back(x); if (x->kind == k_baggage) bag[x->key].push_back(x); }
    u64 f_inv = end, f_ret = over;
    if (!of[k_finish].empty()) {
      f_inv = ~0ull; f_ret = 0;
      for (auto f : of[k_finish]) { f_inv = std::min(f_inv, f->inv); f_ret = std::max(f_ret, f->ret); }
    }
    for (auto x : of[k_read]) {
      // an update after the finish has no effect, or has one: both are orders of the calls
      auto w = bag[x->key];
      if (f_inv < x->ret) { w.erase(std::remove_if(w.begin(), w.end(), [&](const Op* y) { return y->ret > f_inv && y->value != x->value; }), w.end()); }
      VF_CHECK(explained(w, "", x->value, x->inv, x->ret), "read", "a read of baggage gives %s, which no order of the updates explains", vf::hex(x->value).c_str());
    }
    vf::eval(of[k_read].size());
    vf::count("reads", of[k_read].size());
    auto it = by_id.find(sh[i].span_id);
    // sampled at the end?
    bool may = of[k_priority].empty(), may_not = false;
    {
      bool initial = true;
      for (auto w : of[k_priority]) if (w->ret < f_inv) initial = false;
      if (initial) may = true;
      for (auto w : of[k_priority]) {
        if (w->inv > f_ret) continue;
        bool over2 = false;
        for (auto w2 : of[k_priority]) if (w2->inv > w->ret && w2->ret < f_inv) over2 = true;
        if (!over2) (w->value == "1" ? may : may_not) = true;
      }
    }
    if (it == by_id.end()) { VF_CHECK(may_not, "missing", "a sampled span is not delivered"); continue; }
    VF_CHECK(may, "unsampled", "a span that isn't sampled is delivered");
    auto& s = *it->second;
    VF_CHECK(s.span_context().trace_id() == sh[i].trace_id, "trace", "delivered with another trace id");
    std::vector<std::string> tags, logs, flogs;
    for (auto& t : s.tags()) if (t.key() == "t") tags.push_back(t.string_value()); else VF_CHECK(t.key() == "sampling.priority", "tag-key", "a tag %s", vf::hex(t.key()).c_str());
    for (auto& l : s.logs()) {
      if (l.fields_size() == 2 && l.fields(0).key() == "event" && l.fields(1).key() == "again") {
        VF_CHECK(l.fields(0).string_value() == l.fields(1).string_value(), "log-mixed", "a log's fields come from two logs");
        logs.push_back(l.fields(0).string_value());
      } else if (l.fields_size() == 1 && l.fields(0).key() == "finish") flogs.push_back(l.fields(0).string_value());
      else vf::fail("log-torn", vf::fmt("a log with %d fields", l.fields_size()));
    }
    sequence("tag", tags, of[k_tag], f_inv, f_ret);
    sequence("log", logs, of[k_log], f_inv, f_ret);
    if (!flogs.empty() || !of[k_finish].empty()) {
      bool some = false;
      for (auto f : of[k_finish]) {
        size_t k = static_cast<size_t>(atoi(f->key.c_str()));
        bool same = flogs.size() == k;
        for (size_t j = 0; same && j < k; ++j) same = flogs[j] == f->value + "#" + std::to_string(j);
        some |= same;
      }
      VF_CHECK(some, "finish-logs", "%zu logs of the finish, which are not those of one finish", flogs.size());
    }
    auto cut = [&](std::vector<const Op*> w, const std::string& value) { w.erase(std::remove_if(w.begin(), w.end(), [&](const Op* y) { return y->ret > f_inv && y->value != value; }), w.end()); return w; };
    VF_CHECK(explained(cut(of[k_name], s.operation_name()), sh[i].name, s.operation_name(), f_inv, f_ret), "name", "delivered as %s, which no order explains", vf::hex(s.operation_name()).c_str());
    for (auto& b : bag) {
      auto f = s.span_context().baggage().find(b.first);
      std::string v = f == s.span_context().baggage().end() ? "" : f->second;
      VF_CHECK(explained(cut(b.second, v), "", v, f_inv, f_ret), "baggage", "delivered with %s for %s, which no order explains", vf::hex(v).c_str(), b.first.c_str());
    }
    for (auto& b : s.span_context().baggage()) VF_CHECK(bag.count(b.first), "baggage-key", "delivered with baggage %s nobody set", vf::hex(b.first).c_str());
    for (auto& x : tags) h = vf::hash(x.substr(0, x.find('.')), h);
    for (auto& x : logs) h = vf::hash(x.substr(0, x.find('.')), h);
    vf::eval(tags.size() + logs.size());
    vf::count("updates delivered", tags.size() + logs.size());
    size_t late = 0;
    for (auto k : {k_tag, k_log, k_name, k_baggage}) for (auto x : of[k]) late += x->inv < f_ret && x->ret > f_inv;
    if (late) vf::count("updates overlapping the finish", late);
  }
  return h;
}
static void spans(Rng& r, int64_t) {
  bool legacy = r.chance(1, 2);
  auto d = std::make_shared<vf::Delivered>();
  LightStepTracerOptions o;
  auto tracer = vf::make_tracer(legacy, std::unique_ptr<Recorder>{new vf::Capture{d}}, o);
  size_t ns = 1 + r.below(4), nt = 2 + r.below(5);
  std::vector<Shared> sh(ns);
  for (size_t i = 0; i < ns; ++i) {
    sh[i].name = "s" + std::to_string(i);
    sh[i].span = tracer->StartSpan(sh[i].name);
    auto& c = dynamic_cast<const LightStepSpanContext&>(sh[i].span->context());
    sh[i].span_id = c.span_id();
    sh[i].trace_id = c.trace_id_low();
  }
  // the end of a span in the middle or left to the destructor
  bool finish_early = r.chance(1, 2), priorities = r.chance(1, 3);
  size_t per = 4 + r.skewed(150);
  std::vector<std::vector<Op>> ops(nt);
  struct Child { u64 id, parent; size_t span; std::vector<std::pair<std::string, std::string>> baggage; };
  std::vector<std::vector<Child>> children(nt);
  std::atomic<size_t> ready{0};
  {
    vf::Disturber dist(r(), r.chance(3, 4));
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; ++t)
      ts.emplace_back([&, t, seed = r()] {
        vf::Disturber::Enrol e{dist};
        Rng q{seed};
        auto& mine = ops[t];
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < nt) {}
        for (size_t n = 0; n < per; ++n) {
          size_t i = q.below(ns);
          auto& s = *sh[i].span;
          std::string v = padded(q, std::to_string(t) + "." + std::to_string(n));
          std::string key = keys[q.below(4)];
          auto rec = [&](Kind k, const std::string& key2, const std::string& value, u64 a) { mine.push_back({a, tick(), k, key2, value, i, static_cast<int>(n)}); };
          auto reads = [&](const std::map<std::string, std::string>& got, u64 a) {
            u64 b = tick();
            for (auto k : keys) {
              auto it = got.find(low(k));
              mine.push_back({a, b, k_read, low(k), it == got.end() ? "" : it->second, i, static_cast<int>(n)});
            }
          };
          switch (q.below(finish_early ? 14 : 13)) {
            case 0: case 1: { u64 a = tick(); s.SetTag("t", v); rec(k_tag, "t", v, a); break; }
            case 2: case 3: { u64 a = tick(); s.Log({{"event", v}, {"again", v}}); rec(k_log, "event", v, a); break; }
            case 4: { u64 a = tick(); s.SetOperationName(v); rec(k_name, "", v, a); break; }
            case 5: case 6: { u64 a = tick(); s.SetBaggageItem(key, v); rec(k_baggage, low(key), v, a); break; }
            case 7: { u64 a = tick(); auto g = s.BaggageItem(key); rec(k_read, low(key), g, a); break; }
            case 8: {
              std::map<std::string, std::string> got;
              u64 a = tick();
              s.context().ForeachBaggageItem([&](const std::string& k, const std::string& x) { VF_CHECK(got.emplace(k, x).second, "baggage-twice", "a baggage key is visited twice"); return true; });
              reads(got, a);
              break;
            }
            case 9: {
              vf::TextMap c;
              std::map<std::string, std::string> got;
              u64 a = tick();
              auto ok = tracer->Inject(s.context(), c);
              VF_CHECK(ok, "inject", "inject failed");
              for (auto& x : c.items) if (x.first.compare(0, 11, "ot-baggage-") == 0) got[x.first.substr(11)] = x.second;
              reads(got, a);
              vf::HttpHeaders h;
              VF_CHECK(tracer->Inject(s.context(), h), "inject", "inject failed");
              break;
            }
            case 10: {
              std::ostringstream out;
              u64 a = tick();
              VF_CHECK(tracer->Inject(s.context(), out), "inject", "inject failed");
              u64 b = tick();
              std::istringstream in{out.str()};
              auto x = tracer->Extract(in);
              if (!x || !*x) { vf::fail("extract", "what was injected cannot be extracted"); break; }
              auto& c = dynamic_cast<const LightStepSpanContext&>(**x);
              VF_CHECK(c.span_id() == sh[i].span_id && c.trace_id_low() == sh[i].trace_id, "injected-ids", "other ids were injected");
              std::map<std::string, std::string> got;
              (*x)->ForeachBaggageItem([&](const std::string& k, const std::string& y) { got[k] = y; return true; });
              for (auto k : keys) { auto it = got.find(low(k)); mine.push_back({a, b, k_read, low(k), it == got.end() ? "" : it->second, i, static_cast<int>(n)}); }
              break;
            }
            case 11: {
              std::map<std::string, std::string> got;
              u64 a = tick();
              auto ch = tracer->StartSpan("child", {opentracing::ChildOf(&s.context())});
              u64 b = tick();
              if (!ch) { vf::fail("child", "no span"); break; }
              ch->context().ForeachBaggageItem([&](const std::string& k, const std::string& y) { got[k] = y; return true; });
              for (auto k : keys) { auto it = got.find(low(k)); mine.push_back({a, b, k_read, low(k), it == got.end() ? "" : it->second, i, static_cast<int>(n)}); }
              auto& c = dynamic_cast<const LightStepSpanContext&>(ch->context());
              VF_CHECK(c.trace_id_low() == sh[i].trace_id, "child-trace", "a child has another trace id");
              Child rec2{c.span_id(), sh[i].span_id, i, {}};
              for (auto& g : got) rec2.baggage.push_back(g);
              // a child of a span that isn't sampled isn't delivered
              if (priorities) ch->SetTag("sampling.priority", 1);
              ch->Finish();
              children[t].push_back(rec2);
              break;
            }
            case 12: {
              if (!priorities) { std::unique_ptr<opentracing::Span> own = tracer->StartSpan("own"); own->SetTag("a", v); break; }
              bool on = q.chance(1, 2);
              u64 a = tick();
              s.SetTag("sampling.priority", on ? 1 : 0);
              rec(k_priority, "", on ? "1" : "0", a);
              break;
            }
            default: {
              if (!q.chance(1, 12)) break;
              opentracing::FinishSpanOptions fo;
              size_t k = q.below(4);
              for (size_t j = 0; j < k; ++j) { opentracing::LogRecord l; l.timestamp = std::chrono::system_clock::now(); l.fields.emplace_back("finish", v + "#" + std::to_string(j)); fo.log_records.push_back(std::move(l)); }
              u64 a = tick();
              s.FinishWithOptions(fo);
              rec(k_finish, std::to_string(k), v, a);
            }
          }
        }
      });
    for (auto& t : ts) t.join();
  }
  u64 end = tick();
  for (auto& x : sh) x.span.reset();
  u64 over = tick();
  auto got = d->take();
  std::map<u64, const collector::Span*> by_id;
  for (auto& x : got) VF_CHECK(by_id.emplace(x.span_context().span_id(), &x).second, "twice", "a span is delivered twice");
  u64 h = judge(sh, ops, by_id, end, over);
  size_t kids = 0;
  for (auto& v : children)
    for (auto& c : v) {
      auto it = by_id.find(c.id);
      if (it == by_id.end()) { vf::fail("child-missing", "a child is not delivered"); continue; }
      auto& s = *it->second;
      VF_CHECK(s.references_size() == 1 && s.references(0).span_context().span_id() == c.parent, "child-reference", "a child refers to another span");
      std::map<std::string, std::string> b(s.span_context().baggage().begin(), s.span_context().baggage().end());
      VF_CHECK(b == (std::map<std::string, std::string>(c.baggage.begin(), c.baggage.end())), "child-baggage", "a child was delivered with other baggage than it had");
      ++kids;
    }
  vf::count("children", kids);
  vf::distinct(h);
}

// many spans, each finished by several threads at once, among updates
static void finishes(Rng& r, int64_t) {
  bool legacy = r.chance(1, 2);
  auto d = std::make_shared<vf::Delivered>();
  auto tracer = vf::make_tracer(legacy, std::unique_ptr<Recorder>{new vf::Capture{d}}, LightStepTracerOptions{});
  size_t ns = 150, nt = 2 + r.below(3);
  std::vector<Shared> sh(ns);
  for (size_t i = 0; i < ns; ++i) {
    sh[i].name = "s" + std::to_string(i);
    sh[i].span = tracer->StartSpan(sh[i].name);
    auto& c = dynamic_cast<const LightStepSpanContext&>(sh[i].span->context());
    sh[i].span_id = c.span_id();
    sh[i].trace_id = c.trace_id_low();
  }
  std::vector<std::vector<Op>> ops(nt);
  std::atomic<size_t> arrivals{0};
  int shape = static_cast<int>(r.below(3));
  {
    vf::Disturber dist(r(), r.chance(2, 3));
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; ++t)
      ts.emplace_back([&, t, seed = r()] {
        vf::Disturber::Enrol e{dist};
        Rng q{seed};
        auto& mine = ops[t];
        for (size_t i = 0; i < ns; ++i) {
          auto& s = *sh[i].span;
          std::string v = std::to_string(t) + "." + std::to_string(i);
          // the first thread finishes always, the others finish or update
          bool finish = t == 0 || shape == 0 || (shape == 1 && q.chance(1, 2));
          size_t before = q.below(3), spin = q.below(400);
          arrivals.fetch_add(1, std::memory_order_relaxed);
          while (arrivals.load(std::memory_order_relaxed) < nt * (i + 1)) {}
          for (volatile size_t k = 0; k < spin; ++k) {}
          for (size_t k = 0; k < (finish ? before : 4); ++k) {
            std::string w = v + "." + std::to_string(k);
            u64 a = tick();
            Kind kind;
            switch (q.below(5)) {
              case 0: s.Log({{"event", w}, {"again", w}}); kind = k_log; break;
              case 1: s.SetOperationName(w); kind = k_name; break;
              case 2: s.SetBaggageItem("alpha", w); kind = k_baggage; break;
              default: s.SetTag("t", w); kind = k_tag;
            }
            mine.push_back({a, tick(), kind, kind == k_baggage ? "alpha" : "", w, i, 0});
          }
          if (!finish) continue;
          opentracing::FinishSpanOptions fo;
          size_t k = q.below(3);
          for (size_t j = 0; j < k; ++j) { opentracing::LogRecord l; l.timestamp = std::chrono::system_clock::now(); l.fields.emplace_back("finish", v + "#" + std::to_string(j)); fo.log_records.push_back(std::move(l)); }
          u64 a = tick();
          s.FinishWithOptions(fo);
          mine.push_back({a, tick(), k_finish, std::to_string(k), v, i, 0});
        }
      });
    for (auto& t : ts) t.join();
  }
  u64 end = tick();
  for (auto& x : sh) x.span.reset();
  u64 over = tick();
  auto got = d->take();
  std::map<u64, const collector::Span*> by_id;
  for (auto& x : got) VF_CHECK(by_id.emplace(x.span_context().span_id(), &x).second, "twice", "a span is delivered twice");
  vf::distinct(judge(sh, ops, by_id, end, over));
  vf::count("finished at once", ns);
}

// ---- whole tracers: streaming or background recorders, with flushes, closing and release from any thread
struct Answer : DnsResolution {
  std::vector<IpAddress> a;
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override {
    for (auto& x : a) if (!f(x)) return false;
    return true;
  }
};
struct FakeResolver : DnsResolver {
  void Resolve(const char* name, int family, DnsResolutionCallback& cb) noexcept override {
    Answer a;
    if (family == AF_INET) { a.a.emplace_back(name, static_cast<uint16_t>(0)); cb.OnDnsResolution(a, ""); }
    else cb.OnDnsResolution(a, "no such host");
  }
};
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new FakeResolver}; }
}  // namespace lightstep
struct Arrived {
  std::mutex mu;
  std::map<std::string, int> n;
};
struct Transport : SyncTransporter {
  std::shared_ptr<Arrived> a;
  Rng r;
  Transport(std::shared_ptr<Arrived> x, u64 s) : a(std::move(x)), r(s) {}
  opentracing::expected<void> Send(const google::protobuf::Message& q, google::protobuf::Message&) override {
    if (r.chance(1, 3)) nap(static_cast<int64_t>(r.below(3000)) * 1000);
    vf::Report p = vf::decode(q.SerializeAsString());
    std::lock_guard<std::mutex> l(a->mu);
    for (auto& s : p.spans) VF_CHECK(++a->n[s] == 1, "duplicate", "span %s was sent twice", s.c_str());
    if (r.chance(1, 8)) return opentracing::make_unexpected(std::make_error_code(std::errc::timed_out));
    return {};
  }
};
static void tracers(Rng& r, int64_t i) {
  bool stream = r.chance(1, 2);
  auto arrived = std::make_shared<Arrived>();
  auto c = std::make_shared<vf::Observer::Counts>();
  auto log = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  vf::Satellites sat;
  sat.now = now_ns;
  std::mutex sat_mu;
  std::atomic<bool> sat_stop{false};
  std::thread sat_thread;
  std::shared_ptr<LightStepTracer> tracer;
  std::vector<vf::Mode> modes;
  LightStepTracerOptions o = options_of(r, modes), propagation;
  propagation.propagation_modes = o.propagation_modes;
  propagation.use_single_key_propagation = o.use_single_key_propagation;
  o.max_buffered_spans = 1 + r.skewed(400);
  o.metrics_observer.reset(new vf::Observer{c});
  o.reporting_period = milliseconds{1 + r.below(40)};
  if (stream) {
    o.satellite_endpoints.clear();
    for (size_t k = 0, n = 1 + r.below(2); k < n; ++k) {
      std::string ip = vf::fmt("127.%d.%d.%d", 1 + (int)(r.below(200)), 1 + (int)(getpid() % 250), 2 + (int)k);
      sat.add(ip, 0);
      o.satellite_endpoints.emplace_back(ip, sat.sats.back().port);
    }
    sat.plan = [seed = r()](size_t k) { Plan p; Rng q{seed + k}; if (q.chance(1, 4)) { p.act = Plan::rst; p.at = q.below(5000); } return p; };
    sat_thread = std::thread([&] { while (!sat_stop) { bool any; { std::lock_guard<std::mutex> l(sat_mu); any = sat.step(); } if (!any) nap(100000); } });
    StreamRecorderOptions so;
    so.polling_period = milliseconds{1};
    so.num_satellite_connections = 1 + static_cast<int>(r.below(3));
    so.satellite_failure_retry_period = milliseconds{10};
    so.min_satellite_reconnect_period = milliseconds{20};
    so.max_satellite_reconnect_period = milliseconds{40};
    so.satellite_graceful_stream_shutdown_timeout = milliseconds{20 + r.below(100)};
    tracer = vf::make_tracer(false, std::unique_ptr<Recorder>{new StreamRecorder{*log, std::move(o), std::move(so)}}, propagation, log);
  } else {
    tracer = vf::make_tracer(true, std::unique_ptr<Recorder>{new AutoRecorder{*log, std::move(o), std::unique_ptr<SyncTransporter>{new Transport{arrived, r()}}}}, propagation, log);
  }
  size_t nt = 2 + r.below(4);
  std::atomic<u64> finished{0};
  std::atomic<int> closes{r.chance(1, 20) ? 3 : 1};  // one more waits for spans that can't leave any more: 10 s
  size_t ns = 1 + r.below(3);
  std::vector<std::shared_ptr<opentracing::Span>> shared;
  for (size_t k = 0; k < ns; ++k) shared.push_back(std::shared_ptr<opentracing::Span>(tracer->StartSpan(vf::fmt("shared%lld-%zu", (long long)i, k)).release()));
  for (size_t k = 0; k < ns; ++k) vf::mark(*shared[k], vf::fmt("shared%lld-%zu", (long long)i, k), r.below(200));
  u64 expect = ns;
  {
    vf::Disturber dist(r(), r.chance(1, 2), 200);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; ++t)
      ts.emplace_back([&, t, seed = r(), mine = tracer, spans = shared]() mutable {
        vf::Disturber::Enrol e{dist};
        Rng q{seed};
        for (int n = 0, many = 10 + static_cast<int>(q.skewed(120)); n < many; ++n) {
          auto& sp = *spans[q.below(spans.size())];
          switch (q.below(10)) {
            case 0: sp.SetTag("x", n); break;
            case 1: sp.Log({{"event", n}}); break;
            case 2: sp.SetBaggageItem("k" + std::to_string(q.below(3)), std::to_string(n)); break;
            case 3: {
              std::stringstream b;
              vf::TextMap m;
              vf::HttpHeaders h;
              (void)mine->Inject(sp.context(), b); (void)mine->Inject(sp.context(), m); (void)mine->Inject(sp.context(), h);
              (void)mine->Extract(b); (void)mine->Extract(m); (void)mine->Extract(h);
              vf::count("injects");
              break;
            }
            case 4: if (q.chance(1, 4)) mine->FlushWithTimeout(std::chrono::microseconds{q.below(20000)}); break;
            case 5: if (q.chance(1, 40) && closes.fetch_sub(1, std::memory_order_relaxed) > 0) { mine->Close(); vf::count("closes"); } break;
            case 6: if (q.chance(1, 30)) sp.Finish(); break;
            default: {
              std::string name = vf::fmt("t%lld-%zu-%d", (long long)i, t, n);
              auto s = q.chance(1, 2) ? mine->StartSpan(name) : mine->StartSpan(name, {opentracing::FollowsFrom(&sp.context())});
              if (!s) { vf::fail("span", "no span"); break; }
              vf::mark(*s, name, q.below(120));
              if (q.chance(2, 3)) s->Finish();  // or left to the destructor
              finished.fetch_add(1, std::memory_order_relaxed);
            }
          }
          if (q.chance(1, 12)) nap(static_cast<int64_t>(q.below(2000)) * 1000);
        }
        // the last of them all ends the recorder
        if (q.chance(1, 2)) { mine.reset(); spans.clear(); } else { spans.clear(); mine.reset(); }
      });
    shared.clear();
    tracer.reset();
    for (auto& t : ts) t.join();
  }
  expect += finished;
  if (stream) {
    sat_stop = true;
    sat_thread.join();
    sat.behave();
    VF_CHECK(sat.drain(20000), "descriptor-leak", "connections are open after the tracer is gone");
    for (auto& k : sat.conns) {
      vf::Stream s = vf::decode(*k, "");
      for (auto& x : s.spans) VF_CHECK(++arrived->n[x.first] == 1, "duplicate", "span %s was delivered twice", x.first.c_str());
    }
  }
  VF_CHECK(arrived->n.size() <= expect, "invented", "%zu spans arrived, %llu were finished", arrived->n.size(), (unsigned long long)expect);
  vf::count(stream ? "spans streamed" : "spans sent", arrived->n.size());
  vf::eval(expect);
  vf::distinct(vf::mix(arrived->n.size()) ^ expect);
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  signal(SIGPIPE, SIG_IGN);
  vf::cases("spans", vf::n(VF_TSAN ? 400 : 300, VF_TSAN ? 6000 : 12000), spans);
  vf::cases("finishes", vf::n(VF_TSAN ? 100 : 150, VF_TSAN ? 3000 : 6000), finishes);
  vf::cases("tracers", vf::n(VF_TSAN ? 150 : 100, VF_TSAN ? 1200 : 2000), tracers);
  return vf::finish();
}
