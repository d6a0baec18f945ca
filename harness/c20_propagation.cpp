// C20: contexts of every kind through every format, carrier and combination and back.
#include "carriers.h"
#include "spans.h"
#include "values.h"
#include "lightstep/binary_carrier.h"
#include <sstream>
using namespace lightstep;
using vf::HttpHeaders;
using vf::Mode;
using vf::Rng;
using vf::TextMap;

struct Ctx {
  std::unique_ptr<opentracing::Span> span;
  std::unique_ptr<opentracing::SpanContext> made;
  const opentracing::SpanContext& get() const { return span ? span->context() : *made; }
  uint64_t hi = 0, lo = 0, id = 0;
  bool sampled = true;
  int flags = -1;
  std::string state;
  std::map<std::string, std::string> baggage;  // lower-cased keys
};
static std::string baggage_key(Rng& r, bool http) {
  if (http) {
    static const char tok[] = "abcdefghijklmnopqrstuvwxyz0123456789!#$%&'*+-.^_`|~";
    std::string s;
    for (size_t n = 1 + r.skewed(20); n > 0; --n) s += tok[r.below(sizeof tok - 1)];
    return s;
  }
  std::string s = vf::lower(vf::utf8(r, 1 + r.skewed(20)));
  return s.empty() ? "k" : s;
}
static std::string baggage_value(Rng& r, bool http) {
  size_t n = r.chance(1, 30) ? 70000 : vf::text_size(r);
  if (!http) return vf::utf8(r, n);
  std::string s;
  while (s.size() < n) s += static_cast<char>(r.range(33, 126));
  return s;
}
static std::shared_ptr<LightStepTracer> quiet(bool legacy, const LightStepTracerOptions& o) {
  return vf::make_tracer(legacy, std::unique_ptr<Recorder>{new vf::Capture{std::make_shared<vf::Delivered>()}}, o);
}
static Ctx any_context(Rng& r, bool http, std::shared_ptr<LightStepTracer>& keep) {
  Ctx c;
  keep = quiet(r.chance(1, 2), LightStepTracerOptions{});
  std::map<std::string, std::string> b;
  for (size_t n = r.skewed(8); n > 0; --n) b[baggage_key(r, http)] = baggage_value(r, http);
  c.baggage = b;
  auto fold_some = [&](const std::string& k) {
    std::string s = k;
    for (auto& x : s) if (r.chance(1, 4) && x >= 'a' && x <= 'z') x = static_cast<char>(x - 32);
    return s;
  };
  unsigned kind = static_cast<unsigned>(r.below(4));
  std::unique_ptr<opentracing::SpanContext> parent;
  if (kind == 0 || kind == 1) {  // from another vendor, 128 bits, with flags and state
    LightStepTracerOptions o;
    o.propagation_modes = {Mode::trace_context};
    auto t = quiet(r.chance(1, 2), o);
    TextMap m;
    c.hi = r.chance(1, 6) ? 0 : r.magnitude();
    c.lo = r.magnitude();
    c.id = r.magnitude();
    c.flags = static_cast<int>(r.below(256));
    c.sampled = c.flags & 1;
    m.Set("traceparent", vf::fmt("00-%016llx%016llx-%016llx-%02x", (unsigned long long)c.hi, (unsigned long long)c.lo, (unsigned long long)c.id, c.flags));
    if (r.chance(1, 2)) {
      c.state = "a=" + r.alnum(1 + r.skewed(300)) + (r.chance(1, 2) ? ",b@c=1" : "");
      m.Set("tracestate", c.state);
    }
    for (auto& x : b) m.Set("ot-baggage-" + x.first, x.second);
    auto x = t->Extract(static_cast<opentracing::TextMapReader&>(m));
    if (!x || !*x) { vf::fail("prepare", "no context from traceparent"); return c; }
    parent = std::move(*x);
    if (kind == 0) { c.made = std::move(parent); return c; }
  }
  if (kind == 2) {
    c.lo = r.magnitude();
    c.id = r.magnitude();
    c.sampled = r.chance(1, 2);
    std::unordered_map<std::string, std::string> u;
    for (auto& x : b) u[fold_some(x.first)] = x.second;
    c.made = std::move(*keep->MakeSpanContext(c.lo, c.id, c.sampled, std::move(u)));
    return c;
  }
  opentracing::StartSpanOptions o;
  if (parent) o.references.emplace_back(opentracing::SpanReferenceType::ChildOfRef, parent.get());
  if (!parent || r.chance(1, 3)) {
    c.sampled = r.chance(2, 3);
    o.tags.emplace_back("sampling.priority", opentracing::Value(c.sampled ? 1 : 0));
    if (c.flags >= 0) c.flags = (c.flags & ~1) | c.sampled;
  }
  c.span = keep->StartSpanWithOptions("s", o);
  for (auto& x : b) c.span->SetBaggageItem(fold_some(x.first), x.second);
  auto* l = dynamic_cast<const LightStepSpanContext*>(&c.span->context());
  c.hi = l->trace_id_high();
  c.lo = l->trace_id_low();
  c.id = l->span_id();
  if (r.chance(1, 4)) c.span->Finish();
  return c;
}
static void same(const Ctx& c, const opentracing::expected<std::unique_ptr<opentracing::SpanContext>>& x, bool wide, bool flags, bool baggage, const std::string& how) {
  if (!x) { vf::fail("error", how + ": " + x.error().message()); return; }
  if (!*x) { vf::fail("none", how + ": no context"); return; }
  auto* l = dynamic_cast<const LightStepSpanContext*>(x->get());
  VF_CHECK(l->span_id() == c.id, "span-id", "%s: span id %llx, injected %llx", how.c_str(), (unsigned long long)l->span_id(), (unsigned long long)c.id);
  VF_CHECK(l->trace_id_low() == c.lo, "trace-id", "%s: trace id %llx, injected %llx", how.c_str(), (unsigned long long)l->trace_id_low(), (unsigned long long)c.lo);
  VF_CHECK(l->trace_id_high() == (wide ? c.hi : 0), "trace-id-high", "%s: upper half %llx, injected %llx", how.c_str(), (unsigned long long)l->trace_id_high(), (unsigned long long)c.hi);
  VF_CHECK(l->sampled() == c.sampled, "sampled", "%s: sampled=%d, injected %d", how.c_str(), l->sampled(), c.sampled);
  if (flags && c.flags >= 0) {
    VF_CHECK(l->trace_flags() == c.flags, "flags", "%s: flags %x, injected %x", how.c_str(), l->trace_flags(), c.flags);
    if (c.made) VF_CHECK(std::string(l->trace_state().data(), l->trace_state().size()) == c.state, "state", "%s: another trace state", how.c_str());
  }
  if (baggage) {
    std::map<std::string, std::string> b;
    l->ForeachBaggageItem([&](const std::string& k, const std::string& v) { b[k] = v; return true; });
    VF_CHECK(b.size() == c.baggage.size(), "baggage-size", "%s: %zu items, injected %zu", how.c_str(), b.size(), c.baggage.size());
    for (auto& i : c.baggage) VF_CHECK(b.count(i.first) && b[i.first] == i.second, "baggage", "%s: item %s is %s", how.c_str(), vf::hex(i.first).c_str(), b.count(i.first) ? "different" : "missing");
  }
  vf::eval();
}
template <class C, class W, class Rd>
static void text(Rng& r, bool http) {
  std::vector<Mode> modes;
  auto o = vf::any_modes(r, modes);
  auto in = quiet(r.chance(1, 2), o), out = quiet(r.chance(1, 2), o);
  std::shared_ptr<LightStepTracer> keep;
  Ctx c = any_context(r, http, keep);
  std::string names;
  for (auto m : modes) names += std::string(names.empty() ? "" : "+") + vf::mode_name(m);
  names += http ? " http" : " map";
  C carrier;
  carrier.fold = http;
  carrier.lookup = r.chance(1, 2);
  auto junk = [&](C& x) {
    static const char* k[] = {"accept", "host", "ot-tracer", "x-b3", "traceparen", "x-cloud-trace", "ot-baggage", "", "x-b3-flags", "ot-tracer-other", "x-ot-span-contextual"};
    for (size_t n = r.below(4); n > 0; --n) x.Set(k[r.below(11)], r.alnum(r.skewed(30)));
  };
  junk(carrier);
  {  // what is in there so far is no context
    auto none = out->Extract(static_cast<Rd&>(carrier));
    VF_CHECK(none && !*none, "made-up", "%s: %s from a carrier without a context", names.c_str(), none ? "a context" : none.error().message().c_str());
  }
  if (r.chance(1, 10)) {  // a carrier that refuses
    C bad;
    bad.fold = http;
    bad.fail_at = static_cast<long>(r.below(4));
    auto res = in->Inject(c.get(), static_cast<W&>(bad));
    VF_CHECK(static_cast<bool>(res) == (bad.sets <= bad.fail_at), "refusal", "%s: the carrier's error did not come back", names.c_str());
    vf::count("refusals");
  }
  auto res = in->Inject(c.get(), static_cast<W&>(carrier));
  if (!res) { vf::fail("inject", names + ": " + res.error().message()); return; }
  for (auto m : modes) {
    bool any = false;
    for (auto& x : carrier.items) any = any || vf::belongs(x.first, m);
    VF_CHECK(any, "headers", "%s: nothing injected for %s", names.c_str(), vf::mode_name(m));
  }
  auto transit = [&](const std::vector<std::pair<std::string, std::string>>& items) {
    C x;
    x.fold = http;
    x.lookup = r.chance(1, 2);
    x.items = items;
    for (size_t i = x.items.size(); i > 1; --i) std::swap(x.items[i - 1], x.items[r.below(i)]);
    if (http)
      for (auto& it : x.items)
        for (auto& ch : it.first) {
          if (r.chance(1, 3)) ch = static_cast<char>(toupper(ch));
          else if (r.chance(1, 3)) ch = static_cast<char>(tolower(ch));
        }
    return x;
  };
  C arrived = transit(carrier.items);
  Mode first = modes[0];
  bool lone_envoy = modes.size() == 1 && first == Mode::envoy;
  (void)lone_envoy;
  same(c, out->Extract(static_cast<Rd&>(arrived)), vf::wide(first), first == Mode::trace_context, true, names);
  if (modes.size() > 1) {  // one format's headers alone
    Mode only = modes[r.below(modes.size())];
    std::vector<std::pair<std::string, std::string>> left;
    for (auto& x : carrier.items) {
      bool other = false;
      for (auto m : vf::all_modes) other = other || (m != only && vf::belongs(x.first, m));
      if (!other || vf::belongs(x.first, only)) left.push_back(x);
    }
    C a = transit(left);
    same(c, out->Extract(static_cast<Rd&>(a)), vf::wide(only), only == Mode::trace_context, true, names + ", only " + vf::mode_name(only));
    // and by a tracer configured for it alone
    LightStepTracerOptions one;
    one.propagation_modes = {only};
    auto t = quiet(r.chance(1, 2), one);
    C b = transit(carrier.items);
    same(c, t->Extract(static_cast<Rd&>(b)), vf::wide(only), only == Mode::trace_context, true, names + ", read by " + vf::mode_name(only));
    // without any of them, baggage alone is no context
    std::vector<std::pair<std::string, std::string>> bag;
    for (auto& x : carrier.items) {
      bool any = false;
      for (auto m : vf::all_modes) any = any || vf::belongs(x.first, m);
      if (!any) bag.push_back(x);
    }
    C g = transit(bag);
    auto none = out->Extract(static_cast<Rd&>(g));
    VF_CHECK(none && !*none, "baggage-context", "%s: a context from baggage alone", names.c_str());
  }
  vf::count("mode:" + names.substr(0, names.find_first_of("+ ")));
  vf::distinct(vf::hash(names) ^ vf::mix(c.baggage.size() * 8 + (c.hi != 0) * 4 + c.sampled * 2 + (c.flags > 1)));
}
static void texts(Rng& r, int64_t i) {
  if (i & 1) text<TextMap, opentracing::TextMapWriter, opentracing::TextMapReader>(r, false);
  else text<HttpHeaders, opentracing::HTTPHeadersWriter, opentracing::HTTPHeadersReader>(r, true);
}
struct FailBuf : std::streambuf {
  long left;
  explicit FailBuf(long n) : left(n) {}
  int overflow(int c) override { return left-- > 0 ? c : EOF; }
};
static void binary(Rng& r, int64_t i) {
  std::vector<Mode> modes;
  auto o = vf::any_modes(r, modes);
  auto in = quiet(r.chance(1, 2), o), out = quiet(r.chance(1, 2), o);
  std::shared_ptr<LightStepTracer> keep;
  Ctx c = any_context(r, false, keep);
  if (i & 1) {
    std::stringstream ss;
    {
      std::stringstream none;
      auto x = out->Extract(static_cast<std::istream&>(none));
      VF_CHECK(x && !*x, "made-up", "something from an empty stream");
      std::stringstream broken;
      broken.setstate(std::ios::badbit);
      auto y = out->Extract(static_cast<std::istream&>(broken));
      VF_CHECK(!y, "broken-stream", "no error from a broken stream");
      FailBuf fb(static_cast<long>(r.below(3)));
      std::ostream fos(&fb);
      auto z = in->Inject(c.get(), fos);
      VF_CHECK(!z || c.lo == 0 || c.id == 0, "refusal", "no error from a stream that takes nothing");
    }
    auto res = in->Inject(c.get(), static_cast<std::ostream&>(ss));
    VF_CHECK(static_cast<bool>(res), "inject", "binary injection failed");
    same(c, out->Extract(static_cast<std::istream&>(ss)), false, false, true, "stream");
  } else {
    BinaryCarrier b;
    LightStepBinaryWriter w{b};
    auto res = in->Inject(c.get(), static_cast<const opentracing::CustomCarrierWriter&>(w));
    VF_CHECK(static_cast<bool>(res), "inject", "injection into a message failed");
    std::string bytes;
    b.SerializeToString(&bytes);
    BinaryCarrier b2;
    b2.ParseFromString(bytes);
    LightStepBinaryReader rd{&b2};
    // keys that were given in capitals stay so: nothing is folded on this carrier
    auto x = out->Extract(static_cast<const opentracing::CustomCarrierReader&>(rd));
    Ctx l;
    l.hi = c.hi; l.lo = c.lo; l.id = c.id; l.sampled = c.sampled;
    c.get().ForeachBaggageItem([&](const std::string& k, const std::string& v) { l.baggage[k] = v; return true; });
    same(l, x, false, false, true, "message");
    LightStepBinaryReader empty{nullptr};
    auto y = out->Extract(static_cast<const opentracing::CustomCarrierReader&>(empty));
    VF_CHECK(y && !*y, "made-up", "something from no message");
  }
  vf::distinct(vf::mix(c.lo) ^ c.id);
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("text", vf::n(12000, 500000), texts);
  vf::cases("binary", vf::n(4000, 150000), binary);
  return vf::finish();
}
