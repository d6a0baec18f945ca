// C19: random graphs of spans of both tracers, contexts made, extracted, null and foreign; inheritance against a model.
#include "spans.h"
#include "values.h"
#include "common/utility.h"
#include <algorithm>
#include <sstream>
using namespace lightstep;
using opentracing::Value;
using vf::Rng;

struct Foreign : opentracing::SpanContext {
  void ForeachBaggageItem(std::function<bool(const std::string&, const std::string&)> f) const override { f("foreign", "1"); }
};
struct Node {
  std::unique_ptr<opentracing::Span> span;
  std::unique_ptr<opentracing::SpanContext> made;
  int tracer = -1;  // 0 modern, 1 legacy, -1 a context only
  const opentracing::SpanContext* ctx() const { return span ? &span->context() : made.get(); }
  uint64_t hi = 0, lo = 0, id = 0;
  bool sampled = true, finished = false;
  std::map<std::string, std::set<std::string>> baggage;  // the values it may have (several when references disagree)
  std::vector<std::array<uint64_t, 3>> refs;
  unsigned flags = 0;              // trace flags beside the sampled one
  std::vector<std::string> state;  // members of the trace state
};
static std::vector<std::string> members(opentracing::string_view s) {
  std::vector<std::string> v(1);
  for (char c : std::string(s.data(), s.size())) if (c == ',') v.emplace_back(); else v.back() += c;
  v.erase(std::remove(v.begin(), v.end(), std::string{}), v.end());  // empty members mean nothing
  return v;
}
struct Map : opentracing::TextMapReader, opentracing::TextMapWriter {
  mutable std::map<std::string, std::string> m;
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view v) const override { m[k] = std::string(v); return {}; }
  opentracing::expected<void> ForeachKey(std::function<opentracing::expected<void>(opentracing::string_view, opentracing::string_view)> f) const override {
    for (auto& x : m) { auto r = f(x.first, x.second); if (!r) return r; }
    return {};
  }
};
static std::string lower(std::string s) {
  for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
  return s;
}
static std::string key(Rng& r) {
  static const char* k[] = {"a", "b", "user", "X-Thing", "mIxEd", "A", "B", "z9"};
  return r.chance(4, 5) ? k[r.below(8)] : r.alnum(1 + r.skewed(20));
}
static std::shared_ptr<LightStepTracer> w3c;
static void check(Node& n, const char* when, size_t at, bool all) {
  auto* c = dynamic_cast<const LightStepSpanContext*>(n.ctx());
  VF_CHECK((c->trace_flags() & 0xfeu) == n.flags, "flags", "%s: node %zu has trace flags %02x, expected %02x beside sampling", when, at, c->trace_flags(), n.flags);
  VF_CHECK(members(c->trace_state()) == n.state, "state", "%s: node %zu has trace state %s", when, at, vf::hex(std::string(c->trace_state().data(), c->trace_state().size())).c_str());
  if (all && !(n.span && n.finished)) {
    Map m;
    auto ok = w3c->Inject(*n.ctx(), static_cast<opentracing::TextMapWriter&>(m));
    VF_CHECK(ok && m.m["traceparent"] == vf::fmt("00-%016llx%016llx-%016llx-%02x", (unsigned long long)n.hi, (unsigned long long)n.lo, (unsigned long long)n.id, n.flags | n.sampled), "traceparent",
             "%s: node %zu sends traceparent %s", when, at, m.m["traceparent"].c_str());
    VF_CHECK(members(m.m["tracestate"]) == n.state, "tracestate", "%s: node %zu sends tracestate %s", when, at, vf::hex(m.m["tracestate"]).c_str());
  }
  VF_CHECK(c->trace_id_high() == n.hi && c->trace_id_low() == n.lo, "trace-id", "%s: node %zu has trace %llx/%llx, expected %llx/%llx", when, at, (unsigned long long)c->trace_id_high(),
           (unsigned long long)c->trace_id_low(), (unsigned long long)n.hi, (unsigned long long)n.lo);
  VF_CHECK(c->span_id() == n.id, "span-id", "%s: node %zu changed its span id", when, at);
  VF_CHECK(c->sampled() == n.sampled, "sampled", "%s: node %zu sampled=%d, expected %d", when, at, c->sampled(), n.sampled);
  std::map<std::string, std::string> have;
  c->ForeachBaggageItem([&](const std::string& k, const std::string& v) {
    VF_CHECK(have.emplace(k, v).second, "repeated-key", "%s: node %zu has key %s twice", when, at, vf::hex(k).c_str());
    return true;
  });
  VF_CHECK(have.size() == n.baggage.size(), "baggage-size", "%s: node %zu has %zu baggage items, expected %zu", when, at, have.size(), n.baggage.size());
  for (auto& b : n.baggage) {
    auto it = have.find(b.first);
    VF_CHECK(it != have.end() && b.second.count(it->second), "baggage", "%s: node %zu item %s is %s, expected %s", when, at, vf::hex(b.first).c_str(), it == have.end() ? "missing" : vf::hex(it->second).c_str(),
             vf::hex(*b.second.begin()).c_str());
    if (it != have.end()) b.second = {it->second};  // from now on that one
    if (n.span && all) {
      std::string k = b.first;
      for (auto& ch : k) if (vf::hash(k) & 1) ch = static_cast<char>(toupper(ch));
      std::string v = n.span->BaggageItem(k);
      VF_CHECK(b.second.count(v), "baggage-item", "%s: node %zu BaggageItem(%s) is %s", when, at, vf::hex(k).c_str(), vf::hex(v).c_str());
    }
  }
  if (n.span && all) VF_CHECK(n.span->BaggageItem("never set").empty(), "made-up", "an item that was never set has a value");
  size_t calls = 0;  // stopping early
  c->ForeachBaggageItem([&](const std::string&, const std::string&) { return ++calls < 2; });
  VF_CHECK(calls == std::min<size_t>(2, n.baggage.size()), "stop", "%s: node %zu: %zu calls after asking to stop", when, at, calls);
  vf::eval();
}
static void graphs(Rng& r, int64_t i) {
  std::shared_ptr<vf::Delivered> d[2];
  std::shared_ptr<LightStepTracer> t[2];
  for (int k = 0; k < 2; ++k) {
    d[k] = std::make_shared<vf::Delivered>();
    t[k] = vf::make_tracer(k == 1, std::unique_ptr<Recorder>{new vf::Capture{d[k]}});
  }
  LightStepTracerOptions b3o;
  b3o.propagation_modes = {PropagationMode::b3};
  LightStepTracerOptions wo;
  wo.propagation_modes = {PropagationMode::trace_context};
  w3c = vf::make_tracer(false, std::unique_ptr<Recorder>{new vf::Capture{d[0]}}, wo);
  auto b3 = vf::make_tracer(false, std::unique_ptr<Recorder>{new vf::Capture{d[0]}}, b3o);
  std::vector<Node> nodes;
  std::map<uint64_t, Node> expected[2];
  std::set<uint64_t> ids, off;
  Foreign foreign;
  uint64_t h = 0;
  auto finish = [&](Node& n) {
    if (!n.span || n.finished) return;
    n.finished = true;
    n.span->Finish();
    if (!n.sampled) { off.insert(n.id); return; }
    Node& e = expected[n.tracer][n.id];
    e.hi = n.hi; e.lo = n.lo; e.id = n.id;
    e.baggage = n.baggage;
    e.refs = n.refs;
  };
  for (size_t step = 10 + r.below(50); step > 0; --step) {
    unsigned op = static_cast<unsigned>(r.below(10));
    h = vf::mix(h ^ op);
    if (nodes.empty() || op < 3) {
      Node n;
      n.tracer = static_cast<int>(r.below(2));
      opentracing::StartSpanOptions o;
      size_t count = nodes.empty() ? 0 : r.skewed(5);
      bool first = true, any = false;
      for (size_t k = 0; k < count; ++k) {
        bool follows = r.chance(1, 2);
        auto type = follows ? opentracing::SpanReferenceType::FollowsFromRef : opentracing::SpanReferenceType::ChildOfRef;
        switch (r.below(8)) {
          case 0: o.references.emplace_back(type, nullptr); vf::count("null"); continue;
          case 1: o.references.emplace_back(type, &foreign); vf::count("foreign"); continue;
          default: break;
        }
        auto& p = nodes[r.below(nodes.size())];
        if (n.state.size() + p.state.size() > 60) continue;
        o.references.emplace_back(type, p.ctx());
        n.refs.push_back({follows, p.lo, p.id});
        if (first) { n.hi = p.hi; n.lo = p.lo; }
        first = false;
        any = any || p.sampled;
        n.flags |= p.flags;
        n.state.insert(n.state.end(), p.state.begin(), p.state.end());
        for (auto& b : p.baggage) n.baggage[b.first].insert(b.second.begin(), b.second.end());
        h = vf::mix(h ^ p.baggage.size() ^ (p.sampled << 8));
      }
      n.sampled = first ? true : any;
      if (r.chance(1, 6)) {
        n.sampled = r.chance(1, 2);
        o.tags.emplace_back("sampling.priority", Value(n.sampled ? 1 : 0));
      }
      n.span = t[n.tracer]->StartSpanWithOptions("s", o);
      if (!n.span) { vf::fail("no-span", "StartSpan returned null"); return; }
      auto* c = dynamic_cast<const LightStepSpanContext*>(n.ctx());
      n.id = c->span_id();
      if (first) {  // a new trace
        n.lo = c->trace_id_low();
        n.hi = c->trace_id_high();
        for (auto& x : nodes) VF_CHECK(x.lo != n.lo || x.hi != n.hi, "old-trace", "a span without references joined a trace");
        VF_CHECK(ids.insert(n.lo).second, "same-id", "a new trace's id is another's");
      }
      VF_CHECK(ids.insert(n.id).second, "same-id", "two spans have one id");
      nodes.push_back(std::move(n));
      check(nodes.back(), "start", nodes.size() - 1, true);
      auto got = t[0]->GetTraceSpanIdsSampled(*nodes.back().ctx());
      auto& b = nodes.back();
      VF_CHECK(got && (*got)[0] == b.lo && (*got)[1] == b.id && (*got)[2] == static_cast<uint64_t>(b.sampled), "ids-sampled", "GetTraceSpanIdsSampled differs");
      VF_CHECK(!t[1]->GetTraceSpanIdsSampled(foreign), "ids-foreign", "GetTraceSpanIdsSampled of a foreign context");
      continue;
    }
    Node& n = nodes[r.below(nodes.size())];
    switch (op) {
      case 3: {
        Node m;
        if (r.chance(1, 3)) {  // headers of another vendor's tracer, with a trace id of 128 bits
          m.hi = r() | 1; m.lo = r() | 1; m.id = r() | 1;
          m.sampled = r.chance(2, 3);
          Map c;
          c.m["X-B3-TraceId"] = vf::fmt("%016llx%016llx", (unsigned long long)m.hi, (unsigned long long)m.lo);
          c.m["X-B3-SpanId"] = vf::fmt("%016llx", (unsigned long long)m.id);
          c.m["X-B3-Sampled"] = m.sampled ? "1" : "0";
          auto x = b3->Extract(static_cast<opentracing::TextMapReader&>(c));
          if (!x || !*x) { vf::fail("extract-b3", "nothing was extracted"); break; }
          m.made = std::move(*x);
          nodes.push_back(std::move(m));
          check(nodes.back(), "b3", nodes.size() - 1, true);
          vf::count("wide");
          break;
        }
        if (r.chance(1, 2)) {  // W3C headers, with flags and a trace state
          m.hi = r() | 1; m.lo = r() | 1; m.id = r() | 1;
          m.sampled = r.chance(2, 3);
          if (r.chance(1, 2)) m.flags = static_cast<unsigned>(r() & 0xfe);
          for (size_t k = r.skewed(4); k > 0; --k) m.state.push_back(r.alnum(1 + r.below(10)) + "=" + r.alnum(r.below(20)));
          Map c;
          c.m["traceparent"] = vf::fmt("00-%016llx%016llx-%016llx-%02x", (unsigned long long)m.hi, (unsigned long long)m.lo, (unsigned long long)m.id, m.flags | m.sampled);
          std::string st;
          for (auto& x : m.state) st += (st.empty() ? "" : ",") + x;
          if (!st.empty()) c.m["tracestate"] = st;
          auto x = w3c->Extract(static_cast<opentracing::TextMapReader&>(c));
          if (!x || !*x) { vf::fail("extract-w3c", "nothing was extracted"); break; }
          m.made = std::move(*x);
          nodes.push_back(std::move(m));
          check(nodes.back(), "w3c", nodes.size() - 1, true);
          vf::count("w3c");
          break;
        }
        m.lo = r() | 1; m.id = r() | 1;
        m.sampled = r.chance(2, 3);
        std::unordered_map<std::string, std::string> b;
        for (size_t k = r.skewed(5); k > 0; --k) b[lower(key(r))] = vf::utf8(r, r.skewed(20));
        for (auto& x : b) m.baggage[x.first] = {x.second};
        auto c = t[r.below(2)]->MakeSpanContext(m.lo, m.id, m.sampled, std::move(b));
        if (!c) { vf::fail("make", "MakeSpanContext failed"); return; }
        m.made = std::move(*c);
        nodes.push_back(std::move(m));
        check(nodes.back(), "made", nodes.size() - 1, true);
        break;
      }
      case 4: {  // what another process would extract
        Node m;
        auto& from = t[r.below(2)];
        auto& to = t[r.below(2)];
        opentracing::expected<std::unique_ptr<opentracing::SpanContext>> c;
        if (r.chance(1, 2)) {
          Map carrier;
          auto ok = from->Inject(*n.ctx(), static_cast<opentracing::TextMapWriter&>(carrier));
          VF_CHECK(static_cast<bool>(ok), "inject", "injecting into a map failed");
          c = to->Extract(static_cast<opentracing::TextMapReader&>(carrier));
        } else {
          std::stringstream ss;
          auto ok = from->Inject(*n.ctx(), static_cast<std::ostream&>(ss));
          VF_CHECK(static_cast<bool>(ok), "inject", "injecting into a stream failed");
          c = to->Extract(static_cast<std::istream&>(ss));
        }
        if (!c || !*c) { vf::fail("extract", "nothing was extracted"); break; }
        m.made = std::move(*c);
        auto* x = dynamic_cast<const LightStepSpanContext*>(m.ctx());
        m.hi = x->trace_id_high();  // not every format carries it
        VF_CHECK(m.hi == 0 || m.hi == n.hi, "high", "another upper half of the trace id");
        m.lo = n.lo; m.id = n.id; m.sampled = x->sampled(); m.baggage = n.baggage;
        m.flags = x->trace_flags() & 0xfeu;  // nor these
        VF_CHECK((m.flags & ~n.flags) == 0, "new-flags", "the extracted context has trace flags %02x that the injected one had not", m.flags);
        m.state = members(x->trace_state());
        VF_CHECK(m.state.empty() || m.state == n.state, "new-state", "another trace state was extracted");
        VF_CHECK(!(m.sampled && !n.sampled) , "resampled", "the extracted context is sampled, the injected one was not");
        nodes.push_back(std::move(m));
        check(nodes.back(), "extracted", nodes.size() - 1, true);
        vf::count("extracted");
        break;
      }
      case 5: case 6: case 7:
        if (n.span && !n.finished) {
          auto k = key(r);
          auto v = vf::utf8(r, r.skewed(30));
          n.span->SetBaggageItem(k, v);
          n.baggage[lower(k)] = {v};
          VF_CHECK(n.span->BaggageItem(k) == v, "set-get", "item %s is not what was just set", vf::hex(k).c_str());
          vf::count("set");
        }
        break;
      case 8:
        if (n.span && !n.finished && r.chance(1, 2)) {
          n.sampled = r.chance(1, 2);
          n.span->SetTag("sampling.priority", Value(n.sampled ? 1 : 0));
        }
        break;
      default:
        if (r.chance(1, 3)) finish(n);
    }
    for (size_t k = 0; k < nodes.size(); ++k)
      if (&nodes[k] == &n || r.chance(1, 4)) check(nodes[k], "later", k, r.chance(1, 4));
  }
  for (auto& n : nodes) finish(n);
  for (size_t k = 0; k < nodes.size(); ++k) check(nodes[k], "end", k, true);
  for (int k = 0; k < 2; ++k) {
    size_t seen = 0;
    for (auto& g : d[k]->take()) {
      auto it = expected[k].find(g.span_context().span_id());
      VF_CHECK(it != expected[k].end(), "delivered-unsampled", "a span was delivered that was not sampled");
      if (it == expected[k].end()) continue;
      ++seen;
      Node& e = it->second;
      VF_CHECK(g.span_context().trace_id() == e.lo, "delivered-trace", "the delivered span has another trace id");
      VF_CHECK(g.span_context().baggage_size() == static_cast<int>(e.baggage.size()), "delivered-baggage-size", "%zu items delivered, expected %zu", (size_t)g.span_context().baggage_size(), e.baggage.size());
      for (auto& b : e.baggage) {
        auto x = g.span_context().baggage().find(b.first);
        VF_CHECK(x != g.span_context().baggage().end() && b.second.count(x->second), "delivered-baggage", "item %s of the delivered span", vf::hex(b.first).c_str());
      }
      VF_CHECK(g.references_size() == static_cast<int>(e.refs.size()), "delivered-references", "%d references, expected %zu", g.references_size(), e.refs.size());
      for (int j = 0; j < g.references_size() && j < static_cast<int>(e.refs.size()); ++j) {
        auto& x = g.references(j);
        auto& w = e.refs[static_cast<size_t>(j)];
        VF_CHECK((x.relationship() == collector::Reference::FOLLOWS_FROM) == (w[0] == 1) && x.span_context().trace_id() == w[1] && x.span_context().span_id() == w[2], "delivered-reference",
                 "reference %d differs", j);
      }
    }
    VF_CHECK(seen == expected[k].size(), "undelivered", "%zu spans delivered, expected %zu", seen, expected[k].size());
  }
  vf::distinct(vf::mix(h ^ nodes.size()));
  vf::count("nodes", nodes.size());
  if (i < 3) vf::sample(vf::fmt("%zu nodes, last with %zu items and %zu references", nodes.size(), nodes.back().baggage.size(), nodes.back().refs.size()));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("graphs", vf::n(4000, 120000), graphs);
  return vf::finish();
}
