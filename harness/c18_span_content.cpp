// C18: random programs on spans of both tracers; what is delivered is compared with what was recorded.
#include "spans.h"
#include <pthread.h>
#include "values.h"
#include "common/utility.h"
using namespace lightstep;
using opentracing::Value;
using vf::Rng;

struct Log { bool timed; int64_t ns; std::vector<std::pair<std::string, Value>> fields; };
struct Model {
  std::string name;
  bool sampled, started_timed = false, finish_timed = false;
  int64_t sys = 0, ste = 0, fin = 0;
  std::vector<std::pair<std::string, Value>> tags;
  std::vector<Log> logs;
  std::vector<std::array<uint64_t, 3>> refs;  // relation, trace, span
  uint64_t trace = 0, id = 0;
};
static const char priority[] = "sampling.priority";
static std::string key(Rng& r) {
  static const char* k[] = {"a", "b", "component", "error", "http.status_code", "k", ""};
  return r.chance(1, 2) ? k[r.below(7)] : vf::utf8(r, r.chance(1, 10) ? vf::text_size(r) : r.skewed(20));
}
static Value sampling(Rng& r) {
  switch (r.below(5)) {
    case 0: return Value(0);
    case 1: return Value(0u);
    case 2: return Value(1);
    case 3: return Value(1u);
    default: return Value(static_cast<int64_t>(r.below(100)) + 1);
  }
}
static bool on(const Value& v) { return !((v.kind() == Value::Int && v.i() == 0) || (v.kind() == Value::Uint && v.u() == 0)); }
static std::vector<std::pair<std::string, Value>> fields(Rng& r) {
  std::vector<std::pair<std::string, Value>> f;
  for (size_t n = r.chance(1, 20) ? r.below(300) : r.skewed(6); n > 0; --n) f.emplace_back(key(r), vf::any_value(r, static_cast<int>(r.below(3))));
  return f;
}
static void log_on(opentracing::Span& s, const std::vector<std::pair<std::string, Value>>& f) {
  using P = std::pair<opentracing::string_view, Value>;
  switch (f.size()) {  // Log takes an initializer list
    case 0: s.Log({}); break;
    case 1: s.Log({P{f[0].first, f[0].second}}); break;
    case 2: s.Log({P{f[0].first, f[0].second}, P{f[1].first, f[1].second}}); break;
    case 3: s.Log({P{f[0].first, f[0].second}, P{f[1].first, f[1].second}, P{f[2].first, f[2].second}}); break;
    default:
      s.Log({P{f[0].first, f[0].second}, P{f[1].first, f[1].second}, P{f[2].first, f[2].second}, P{f[3].first, f[3].second}, P{f[4].first, f[4].second}, P{f[5].first, f[5].second}, P{f[6].first, f[6].second}, P{f[7].first, f[7].second}});
  }
}
static void compare(const collector::Span& g, const Model& m, const std::string& who) {
  VF_CHECK(g.operation_name() == m.name, "name", "%s: name %s, expected %s", who.c_str(), vf::hex(g.operation_name()).c_str(), vf::hex(m.name).c_str());
  VF_CHECK(g.span_context().trace_id() == m.trace && g.span_context().span_id() == m.id, "ids", "%s: ids %llx %llx, expected %llx %llx", who.c_str(),
           (unsigned long long)g.span_context().trace_id(), (unsigned long long)g.span_context().span_id(), (unsigned long long)m.trace, (unsigned long long)m.id);
  if (m.started_timed) {
    int64_t t = g.start_timestamp().seconds() * 1000000000 + g.start_timestamp().nanos();
    VF_CHECK(t == m.sys, "start", "%s: start %lld, expected %lld", who.c_str(), (long long)t, (long long)m.sys);
  }
  if (m.started_timed && m.finish_timed)
    VF_CHECK(static_cast<int64_t>(g.duration_micros()) == (m.fin - m.ste) / 1000, "duration", "%s: duration %lld us, expected %lld", who.c_str(), (long long)g.duration_micros(),
             (long long)((m.fin - m.ste) / 1000));
  // tags: the last value of each key
  std::map<std::string, const Value*> want;
  for (auto& t : m.tags) want[t.first] = &t.second;
  std::map<std::string, const collector::KeyValue*> have;
  for (auto& t : g.tags()) have[t.key()] = &t;
  VF_CHECK(have.size() == want.size(), "tag-count", "%s: %zu distinct tags, expected %zu", who.c_str(), have.size(), want.size());
  for (auto& w : want) {
    auto it = have.find(w.first);
    std::string why = "missing";
    bool ok = it != have.end() && vf::same(*it->second, w.first, *w.second, &why);
    VF_CHECK(ok, "tag", "%s: tag %s: %s", who.c_str(), vf::hex(w.first).c_str(), why.c_str());
  }
  VF_CHECK(static_cast<size_t>(g.logs_size()) == m.logs.size(), "log-count", "%s: %d logs, expected %zu", who.c_str(), g.logs_size(), m.logs.size());
  for (size_t i = 0; i < m.logs.size() && i < static_cast<size_t>(g.logs_size()); ++i) {
    auto& gl = g.logs(static_cast<int>(i));
    auto& ml = m.logs[i];
    if (ml.timed) {
      int64_t t = gl.timestamp().seconds() * 1000000000 + gl.timestamp().nanos();
      VF_CHECK(t == ml.ns, "log-time", "%s: log %zu at %lld, expected %lld", who.c_str(), i, (long long)t, (long long)ml.ns);
    }
    VF_CHECK(static_cast<size_t>(gl.fields_size()) == ml.fields.size(), "field-count", "%s: log %zu has %d fields, expected %zu", who.c_str(), i, gl.fields_size(), ml.fields.size());
    for (size_t k = 0; k < ml.fields.size() && k < static_cast<size_t>(gl.fields_size()); ++k) {
      std::string why;
      bool ok = vf::same(gl.fields(static_cast<int>(k)), ml.fields[k].first, ml.fields[k].second, &why);
      VF_CHECK(ok, "field", "%s: log %zu field %zu: %s", who.c_str(), i, k, why.c_str());
    }
  }
  VF_CHECK(static_cast<size_t>(g.references_size()) == m.refs.size(), "reference-count", "%s: %d references, expected %zu", who.c_str(), g.references_size(), m.refs.size());
  for (size_t i = 0; i < m.refs.size() && i < static_cast<size_t>(g.references_size()); ++i) {
    auto& x = g.references(static_cast<int>(i));
    VF_CHECK(x.relationship() == (m.refs[i][0] ? collector::Reference::FOLLOWS_FROM : collector::Reference::CHILD_OF) && x.span_context().trace_id() == m.refs[i][1] &&
                 x.span_context().span_id() == m.refs[i][2],
             "reference", "%s: reference %zu is %d %llx %llx", who.c_str(), i, x.relationship(), (unsigned long long)x.span_context().trace_id(),
             (unsigned long long)x.span_context().span_id());
  }
}
struct Live { std::unique_ptr<opentracing::Span> s; Model m; bool finished = false; };

static void programs(Rng& r, int64_t i) {
  bool legacy = i & 1;
  vf::ForeignLocale loc(r.chance(1, 4));
  auto d = std::make_shared<vf::Delivered>();
  auto tracer = vf::make_tracer(legacy, std::unique_ptr<Recorder>{new vf::Capture{d}});
  std::vector<Live> live;
  std::map<uint64_t, Model> expected;  // by span id, sampled and finished
  std::map<uint64_t, bool> unsampled;
  uint64_t h = static_cast<uint64_t>(legacy);
  auto finish = [&](Live& l, bool destroy) {
    opentracing::FinishSpanOptions f;
    if (!destroy) {
      if (l.m.started_timed && r.chance(1, 2)) {
        l.m.fin = l.m.ste + static_cast<int64_t>(r.magnitude() & ((1ull << 55) - 1));
        f.finish_steady_timestamp = opentracing::SteadyTime{std::chrono::nanoseconds{l.m.fin}};
        l.m.finish_timed = true;
      }
      for (size_t n = r.skewed(3); n > 0; --n) {
        Log g{true, static_cast<int64_t>(r.magnitude() & ((1ull << 60) - 1)), fields(r)};
        f.log_records.push_back({opentracing::SystemTime{std::chrono::nanoseconds{g.ns}}, g.fields});
        l.m.logs.push_back(g);
      }
      l.s->FinishWithOptions(f);
    } else {
      l.s.reset();
    }
    l.finished = true;
    if (l.m.sampled) expected[l.m.id] = l.m;
    else unsampled[l.m.id] = true;
  };
  for (size_t step = 8 + r.below(30); step > 0; --step) {
    unsigned op = static_cast<unsigned>(r.below(12));
    h = vf::mix(h ^ op);
    if (live.empty() || op == 0) {
      Live l;
      opentracing::StartSpanOptions o;
      l.m.name = vf::utf8(r, r.chance(1, 5) ? vf::text_size(r) : r.skewed(30));
      if (r.chance(1, 2)) {
        l.m.started_timed = true;
        l.m.sys = static_cast<int64_t>((r.magnitude() & ((1ull << 62) - 1)) | 1);
        l.m.ste = static_cast<int64_t>((r.magnitude() & ((1ull << 60) - 1)) | 1);
        o.start_system_timestamp = opentracing::SystemTime{std::chrono::nanoseconds{l.m.sys}};
        o.start_steady_timestamp = opentracing::SteadyTime{std::chrono::nanoseconds{l.m.ste}};
      }
      bool any = false, samp = false;
      for (size_t n = live.empty() ? 0 : r.skewed(3); n > 0; --n) {
        auto& p = live[r.below(live.size())];
        auto* c = dynamic_cast<const LightStepSpanContext*>(&p.s->context());
        bool follows = r.chance(1, 2);
        o.references.emplace_back(follows ? opentracing::SpanReferenceType::FollowsFromRef : opentracing::SpanReferenceType::ChildOfRef, &p.s->context());
        l.m.refs.push_back({follows, c->trace_id_low(), c->span_id()});
        any = true;
        samp = samp || p.m.sampled;
      }
      l.m.sampled = any ? samp : true;
      for (size_t n = r.skewed(5); n > 0; --n) {
        if (r.chance(1, 8)) {
          auto v = sampling(r);
          o.tags.emplace_back(priority, v);
          l.m.sampled = on(v);
        } else {
          o.tags.emplace_back(key(r), vf::any_value(r));
        }
        l.m.tags.push_back(o.tags.back());
      }
      l.s = tracer->StartSpanWithOptions(l.m.name, o);
      if (!l.s) { vf::fail("no-span", "StartSpan returned null"); return; }
      auto* c = dynamic_cast<const LightStepSpanContext*>(&l.s->context());
      l.m.trace = c->trace_id_low();
      l.m.id = c->span_id();
      VF_CHECK(c->sampled() == l.m.sampled, "sampled", "context says sampled=%d, expected %d", c->sampled(), l.m.sampled);
      VF_CHECK(&l.s->tracer() == tracer.get(), "tracer", "the span names another tracer");
      live.push_back(std::move(l));
      continue;
    }
    auto& l = live[r.below(live.size())];
    switch (op) {
      case 1: case 2: case 3: {
        auto k = key(r);
        auto v = vf::any_value(r);
        l.s->SetTag(k, v);
        if (!l.finished) l.m.tags.emplace_back(k, v);
        break;
      }
      case 4: {
        if (l.finished) break;  // whether the context then still changes is not specified
        auto v = sampling(r);
        l.s->SetTag(priority, v);
        l.m.tags.emplace_back(priority, v);
        l.m.sampled = on(v);
        break;
      }
      case 5: {
        auto n = vf::utf8(r, r.skewed(300));
        l.s->SetOperationName(n);
        if (!l.finished) l.m.name = n;
        break;
      }
      case 6: case 7: {
        auto f = fields(r);
        if (f.size() >= 8) f.resize(8);
        else if (f.size() > 3) f.resize(3);
        log_on(*l.s, f);
        if (!l.finished) l.m.logs.push_back({false, 0, f});
        break;
      }
      case 8: case 9:
        if (!l.finished) finish(l, false);
        else { opentracing::FinishSpanOptions f; f.log_records.resize(1); l.s->FinishWithOptions(f); }  // again: no effect
        break;
      case 10:
        if (!l.finished) finish(l, true);
        if (&l != &live.back()) l = std::move(live.back());
        live.pop_back();
        break;
      default: {
        if (r.chance(1, 4)) l.s->SetBaggageItem("B" + std::to_string(r.below(3)), "v");
      }
    }
  }
  if (r.chance(1, 2)) tracer.reset();  // spans outlive the last handle of the tracer
  while (!live.empty()) {
    if (!live.back().finished) finish(live.back(), r.chance(1, 2));
    live.pop_back();
  }
  auto got = d->take();
  std::map<uint64_t, int> seen;
  for (auto& g : got) {
    uint64_t id = g.span_context().span_id();
    VF_CHECK(++seen[id] == 1, "twice", "a span was delivered twice");
    auto it = expected.find(id);
    if (it == expected.end()) {
      VF_CHECK(!unsampled.count(id), "unsampled", "an unsampled span was delivered");
      VF_CHECK(unsampled.count(id), "unknown", "an unknown span was delivered");
      continue;
    }
    compare(g, it->second, legacy ? "legacy" : "modern");
    vf::eval();
  }
  VF_CHECK(seen.size() >= expected.size(), "missing", "%zu spans delivered, %zu were finished and sampled", seen.size(), expected.size());
  vf::distinct(vf::mix(h ^ got.size()));
  vf::count("spans", got.size());
  vf::count("unsampled", unsampled.size());
  if (i < 3) vf::sample(vf::fmt("%s: %zu spans, %zu unsampled, first %s", legacy ? "legacy" : "modern", got.size(), unsampled.size(), got.empty() ? "-" : vf::hex(got[0].ShortDebugString(), 150).c_str()));
}
// Spans with very much of one thing, recorded on a thread whose stack is small.
static void huge_span(Rng& r, int64_t i) {
  bool legacy = i & 1;
  auto d = std::make_shared<vf::Delivered>();
  auto tracer = vf::make_tracer(legacy, std::unique_ptr<Recorder>{new vf::Capture{d}});
  const size_t n = 100000 + r.below(100000);
  Model m;
  m.name = "huge";
  m.sampled = true;
  auto numbered = [&](size_t k) { return std::make_pair("k" + std::to_string(k), k % 3 ? Value(static_cast<int64_t>(k)) : Value(opentracing::Values{Value(true), Value(std::string("x"))})); };
  opentracing::StartSpanOptions o;
  std::unique_ptr<opentracing::Span> parent;
  int kind = static_cast<int>(i / 2 % 5);
  if (kind == 0) m.name = std::string(n * 50, 'n');
  if (kind == 1)
    for (size_t k = 0; k < n; ++k) { m.tags.push_back(numbered(k)); o.tags.push_back(m.tags.back()); }
  if (kind == 2) {
    parent = tracer->StartSpan("parent");
    parent->SetTag(priority, 1);
    auto* c = dynamic_cast<const LightStepSpanContext*>(&parent->context());
    for (size_t k = 0; k < n; ++k) {
      o.references.emplace_back(k % 2 ? opentracing::SpanReferenceType::FollowsFromRef : opentracing::SpanReferenceType::ChildOfRef, &parent->context());
      m.refs.push_back({k % 2, c->trace_id_low(), c->span_id()});
    }
  }
  auto s = tracer->StartSpanWithOptions(m.name, o);
  if (!s) { vf::fail("no-span", "StartSpan returned null"); return; }
  auto* c = dynamic_cast<const LightStepSpanContext*>(&s->context());
  m.trace = c->trace_id_low();
  m.id = c->span_id();
  opentracing::FinishSpanOptions f;
  if (kind == 3) {
    Log g{true, 1, {}};
    for (size_t k = 0; k < n; ++k) g.fields.push_back(numbered(k));
    f.log_records.push_back({opentracing::SystemTime{std::chrono::nanoseconds{1}}, g.fields});
    m.logs.push_back(g);
  }
  if (kind == 4)
    for (size_t k = 0; k < n; ++k) {
      Log g{true, static_cast<int64_t>(k), {numbered(k)}};
      f.log_records.push_back({opentracing::SystemTime{std::chrono::nanoseconds{g.ns}}, g.fields});
      m.logs.push_back(g);
    }
  s->FinishWithOptions(f);
  auto got = d->take();
  size_t mine = 0;
  for (auto& g : got)
    if (g.span_context().span_id() == m.id) { ++mine; compare(g, m, legacy ? "legacy" : "modern"); vf::eval(); }
  VF_CHECK(mine == 1, "missing", "a span with %zu of one thing was delivered %zu times", n, mine);
  vf::distinct(vf::mix(n * 16 + static_cast<size_t>(kind)));
  vf::counter_max("most of one thing", n);
}
static void huge(Rng& r, int64_t i) {
  struct A { Rng* r; int64_t i; } a{&r, i};
  pthread_attr_t t;
  pthread_attr_init(&t);
  pthread_attr_setstacksize(&t, 512 * 1024);
  pthread_t h;
  if (pthread_create(&h, &t, [](void* p) -> void* { auto* x = static_cast<A*>(p); huge_span(*x->r, x->i); return nullptr; }, &a) == 0) pthread_join(h, nullptr);
  pthread_attr_destroy(&t);
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("huge", vf::n(9, 60), huge);
  vf::cases("programs", vf::n(3000, 80000), programs);
  return vf::finish();
}
