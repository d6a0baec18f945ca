// C35: what is injected read by independent readers of each format; what independent writers of each format send, extracted.
#include "carriers.h"
#include "spans.h"
#include "values.h"
#include "lightstep/binary_carrier.h"
#include <sstream>
using namespace lightstep;
using vf::HttpHeaders;
using vf::Mode;
using vf::Rng;
using vf::TextMap;
typedef unsigned long long ull;
typedef std::map<std::string, std::string> Bag;
typedef std::vector<std::pair<std::string, std::string>> Items;
struct Ctx {
  uint64_t hi = 0, lo = 0, id = 0;
  int flags = 1;  // -1: only sampling is known
  bool sampled = true;
  std::string state;
  Bag bag;
};
static std::shared_ptr<LightStepTracer> quiet(bool legacy, const LightStepTracerOptions& o) {
  return vf::make_tracer(legacy, std::unique_ptr<Recorder>{new vf::Capture{std::make_shared<vf::Delivered>()}}, o);
}
static Bag any_bag(Rng& r, bool http) {
  Bag b;
  static const char tok[] = "abcdefghijklmnopqrstuvwxyz0123456789!#$%&'*+-.^_`|~";
  for (size_t n = r.skewed(6); n > 0; --n) {
    std::string k, v;
    for (size_t j = 1 + r.skewed(12); j > 0; --j) k += tok[r.below(sizeof tok - 1)];
    if (http) for (size_t j = r.skewed(40); j > 0; --j) v += static_cast<char>(r.range(33, 126));
    else v = vf::utf8(r, r.skewed(40));
    b[k] = v;
  }
  return b;
}
// ---- Envoy's and the binary format, by hand: a protobuf message
static const char AB[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string to64(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t v = 0;
    for (size_t k = 0; k < 3; ++k) v = v << 8 | (i + k < s.size() ? static_cast<unsigned char>(s[i + k]) : 0u);
    for (size_t k = 0; k < 4; ++k) o += i + k > s.size() ? '=' : AB[v >> (18 - 6 * k) & 63];
  }
  return o;
}
static bool from64(const std::string& s, std::string& o) {
  o.clear();
  if (s.size() % 4) return false;
  for (size_t i = 0; i < s.size(); i += 4) {
    uint32_t v = 0;
    size_t n = 0;
    for (size_t k = 0; k < 4; ++k) {
      if (s[i + k] == '=') { if (i + 4 != s.size() || k < 2) return false; v <<= 6; continue; }
      const char* p = strchr(AB, s[i + k]);
      if (!p || n != k) return false;
      v = v << 6 | static_cast<uint32_t>(p - AB);
      ++n;
    }
    for (size_t k = 0; k + 1 < n; ++k) o += static_cast<char>(v >> (16 - 8 * k));
  }
  return true;
}
static void varint(std::string& o, uint64_t x) { for (; x > 127; x >>= 7) o += static_cast<char>(x | 128); o += static_cast<char>(x); }
static void bytes(std::string& o, int field, const std::string& s) { varint(o, static_cast<uint64_t>(field << 3 | 2)); varint(o, s.size()); o += s; }
static void fixed64(std::string& o, int field, uint64_t x) { varint(o, static_cast<uint64_t>(field << 3 | 1)); for (int k = 0; k < 8; ++k) o += static_cast<char>(x >> 8 * k); }
static std::string write_message(Rng& r, const Ctx& c) {
  std::vector<std::string> parts;
  std::string p;
  if (c.lo || r.chance(1, 2)) { fixed64(p, 1, c.lo); parts.push_back(p); p.clear(); }
  if (c.id || r.chance(1, 2)) { fixed64(p, 2, c.id); parts.push_back(p); p.clear(); }
  if (c.sampled || r.chance(1, 2)) { varint(p, 3 << 3); varint(p, c.sampled); parts.push_back(p); p.clear(); }
  for (auto& b : c.bag) {
    std::string e;
    bool turn = r.chance(1, 4);
    if (!turn) bytes(e, 1, b.first);
    bytes(e, 2, b.second);
    if (turn) bytes(e, 1, b.first);
    bytes(p, 4, e);
    parts.push_back(p);
    p.clear();
  }
  if (r.chance(1, 4)) { bytes(p, 15, r.bytes(r.skewed(20))); parts.push_back(p); p.clear(); }  // a field of a later version
  for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.below(i)]);
  std::string basic, o;
  for (auto& x : parts) basic += x;
  if (r.chance(1, 4)) bytes(o, 1, r.bytes(r.skewed(20)));  // the deprecated field of earlier versions
  if (r.chance(1, 4)) { varint(o, 9 << 3); varint(o, r()); }
  bytes(o, 2, basic);
  return o;
}
struct Scan {
  const std::string& s;
  size_t at = 0;
  bool ok = true;
  uint64_t num() {
    uint64_t x = 0;
    for (int k = 0; k < 70; k += 7) {
      if (at >= s.size()) { ok = false; return 0; }
      unsigned char c = static_cast<unsigned char>(s[at++]);
      x |= static_cast<uint64_t>(c & 127) << k;
      if (c < 128) return x;
    }
    ok = false;
    return 0;
  }
  std::string blob() { uint64_t n = num(); if (!ok || n > s.size() - at) { ok = false; return ""; } at += n; return s.substr(at - n, n); }
  uint64_t f64() { if (s.size() - at < 8) { ok = false; return 0; } uint64_t x = 0; for (int k = 0; k < 8; ++k) x |= static_cast<uint64_t>(static_cast<unsigned char>(s[at++])) << 8 * k; return x; }
};
static bool read_message(const std::string& s, Ctx& c) {
  c = Ctx{};
  c.sampled = false;
  Scan a{s};
  bool found = false;
  while (a.ok && a.at < s.size()) {
    uint64_t t = a.num();
    if (t != (2 << 3 | 2) || found) return false;  // nothing else is to be written
    found = true;
    std::string basic = a.blob();
    Scan b{basic};
    while (b.ok && b.at < basic.size()) {
      uint64_t u = b.num();
      if (u == (1 << 3 | 1)) c.lo = b.f64();
      else if (u == (2 << 3 | 1)) c.id = b.f64();
      else if (u == 3 << 3) c.sampled = b.num() != 0;
      else if (u == (4 << 3 | 2)) {
        std::string e = b.blob(), k, v;
        Scan m{e};
        while (m.ok && m.at < e.size()) { uint64_t w = m.num(); if (w == 10) k = m.blob(); else if (w == 18) v = m.blob(); else m.ok = false; }
        if (!m.ok || c.bag.count(k)) return false;
        c.bag[k] = v;
      } else return false;
    }
    if (!b.ok) return false;
  }
  return a.ok && found;
}
static std::string hex(uint64_t x, int w) { return vf::fmt("%0*llx", w, (ull)x); }
// ---- what other implementations send
static std::string dress(Rng& r, std::string h, bool zeros) {  // the freedom that ids of separate headers have
  if (zeros && r.chance(1, 4)) { size_t k = h.find_first_not_of('0'); h = k == std::string::npos ? "0" : h.substr(k); }
  if (r.chance(1, 6)) for (auto& x : h) x = static_cast<char>(toupper(x));
  if (r.chance(1, 12)) h = " " + h + (r.chance(1, 2) ? " " : "");
  return h;
}
static void baggage(Items& o, const Bag& b) { for (auto& x : b) o.emplace_back("ot-baggage-" + x.first, x.second); }
static Items written_by_others(Rng& r, Mode m, Ctx& c) {
  Items o;
  c.state.clear();
  c.flags = c.sampled;
  switch (m) {
    case Mode::lightstep: case Mode::b3: {
      bool b = m == Mode::b3;
      if (!b || r.chance(1, 3)) c.hi = 0;
      std::string t = c.hi || r.chance(1, 4) ? hex(c.hi, 16) + hex(c.lo, 16) : hex(c.lo, 16);
      o.emplace_back(b ? "X-B3-TraceId" : "ot-tracer-traceid", dress(r, t, true));
      o.emplace_back(b ? "X-B3-SpanId" : "ot-tracer-spanid", dress(r, hex(c.id, 16), true));
      if (c.sampled && r.chance(1, 3)) break;  // the decision is left open, and taken for yes
      static const char* yes[] = {"1", "true"};
      static const char* no[] = {"0", "false"};
      o.emplace_back(b ? "X-B3-Sampled" : "ot-tracer-sampled", (c.sampled ? yes : no)[r.below(2)]);
      if (b && r.chance(1, 4)) o.emplace_back("X-B3-ParentSpanId", hex(r(), 16));
      break;
    }
    case Mode::trace_context: {
      c.flags = static_cast<int>(r.below(256) & ~1u) | c.sampled;
      unsigned version = r.chance(1, 4) ? 1 + static_cast<unsigned>(r.below(0xfe)) : 0;
      std::string v = vf::fmt("%02x-%s%s-%s-%02x", version, hex(c.hi, 16).c_str(), hex(c.lo, 16).c_str(), hex(c.id, 16).c_str(), c.flags);
      if (version && r.chance(1, 2)) v += "-" + r.alnum(1 + r.skewed(30));
      o.emplace_back("traceparent", v);
      if (r.chance(1, 2)) { c.state = "v@x=" + r.alnum(1 + r.skewed(60)) + (r.chance(1, 2) ? ",b=2" : ""); o.emplace_back("tracestate", c.state); }
      break;
    }
    case Mode::cloud_trace: {
      std::string v = hex(c.hi, 16) + hex(c.lo, 16);
      unsigned form = static_cast<unsigned>(r.below(5));
      if (form < 2) c.sampled = true;  // without options: sampled
      if (form == 0) c.id = 0;         // without a span
      else v += vf::fmt("/%llu", (ull)c.id);
      if (form >= 2) v += c.sampled ? ";o=1" : ";o=0";
      c.flags = c.sampled;
      o.emplace_back("x-cloud-trace-context", v);
      break;
    }
    case Mode::envoy:
      c.hi = 0;
      o.emplace_back("x-ot-span-context", to64(write_message(r, c)));
      return o;  // it carries its own baggage
  }
  baggage(o, c.bag);
  return o;
}
static void same(const Ctx& c, const opentracing::expected<std::unique_ptr<opentracing::SpanContext>>& x, const std::string& how) {
  vf::eval();
  if (!x) { vf::fail("error", how + ": " + x.error().message()); return; }
  if (!*x) { vf::fail("none", how + ": no context"); return; }
  auto* l = dynamic_cast<const LightStepSpanContext*>(x->get());
  VF_CHECK(l->trace_id_low() == c.lo && l->trace_id_high() == c.hi, "trace-id", "%s: trace id %llx %llx, sent %llx %llx", how.c_str(), (ull)l->trace_id_high(), (ull)l->trace_id_low(), (ull)c.hi, (ull)c.lo);
  VF_CHECK(l->span_id() == c.id, "span-id", "%s: span id %llx, sent %llx", how.c_str(), (ull)l->span_id(), (ull)c.id);
  VF_CHECK(l->sampled() == c.sampled, "sampled", "%s: sampled=%d, sent %d", how.c_str(), l->sampled(), c.sampled);
  VF_CHECK(c.flags < 0 || l->trace_flags() == c.flags, "flags", "%s: flags %x, sent %x", how.c_str(), l->trace_flags(), c.flags);
  VF_CHECK(std::string(l->trace_state().data(), l->trace_state().size()) == c.state, "state", "%s: trace state %s, sent %s", how.c_str(), std::string(l->trace_state()).c_str(), c.state.c_str());
  Bag b;
  l->ForeachBaggageItem([&](const std::string& k, const std::string& v) { b[k] = v; return true; });
  VF_CHECK(b == c.bag, "baggage", "%s: %zu items, sent %zu, or others", how.c_str(), b.size(), c.bag.size());
}
static std::string listed(const std::vector<Mode>& modes, bool http) {
  std::string s = http ? "http" : "map";
  for (auto m : modes) s += std::string("+") + vf::mode_name(m);
  return s;
}
template <class C, class Rd>
static void incoming(Rng& r, bool http) {
  std::vector<Mode> modes;
  auto o = vf::any_modes(r, modes);
  auto t = quiet(r.chance(1, 2), o);
  // which formats the sender knows: one of ours, or more; the first of ours that it knows counts
  std::vector<Mode> sent;
  sent.push_back(r.pick(modes));
  if (sent[0] == Mode::envoy && r.chance(1, 3)) sent[0] = Mode::lightstep;  // envoy understands that too
  for (auto m : vf::all_modes) if (r.chance(1, 6) && m != sent[0]) sent.push_back(m);
  std::vector<Mode> order;
  for (auto m : modes) {
    order.push_back(m);
    if (m == Mode::envoy) order.push_back(Mode::lightstep);
  }
  Bag bag = any_bag(r, http);
  Items all;
  std::map<Mode, Ctx> ctx;
  for (auto m : sent) {
    Ctx c;
    c.hi = r.magnitude();
    c.lo = r.magnitude();
    c.id = r.magnitude();
    c.sampled = r.chance(1, 2);
    c.bag = m == Mode::envoy ? any_bag(r, http) : bag;
    auto items = written_by_others(r, m, c);
    for (auto& x : items) {
      bool known = false;
      for (auto& y : all) known = known || y.first == x.first;
      if (!known) all.push_back(x);
    }
    ctx[m] = c;
  }
  bool state_alone = !ctx.count(Mode::trace_context) && r.chance(1, 6);
  if (state_alone) all.emplace_back("tracestate", "left=over");  // of a trace whose traceparent somebody took away
  if (!ctx.count(Mode::b3) && r.chance(1, 8)) all.emplace_back("X-B3-Flags", "1");
  C c;
  c.fold = http;
  c.lookup = r.chance(1, 2);
  c.items = all;
  for (size_t i = c.items.size(); i > 1; --i) std::swap(c.items[i - 1], c.items[r.below(i)]);
  if (http && r.chance(1, 2))
    for (auto& x : c.items) for (auto& ch : x.first) if (r.chance(1, 3)) ch = static_cast<char>(r.chance(1, 2) ? toupper(ch) : tolower(ch));
  const Ctx* want = nullptr;
  Mode by = Mode::lightstep;
  for (auto m : order) if (!want && ctx.count(m)) { want = &ctx[m]; by = m; }
  std::string how = listed(modes, http) + " reading";
  for (auto& x : c.items) how += " " + vf::hex(x.first, 60) + "=" + vf::hex(x.second, 100);
  if (!want) { vf::fail("harness", how); return; }
  same(*want, t->Extract(static_cast<Rd&>(c)), how);
  vf::count(std::string("read:") + vf::mode_name(by));
  if (state_alone) vf::count("stray_trace_states");
  vf::distinct(vf::hash(how));
}
// ---- what is injected
template <class Writer>
struct Log : Writer {
  mutable Items items;
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view v) const override {
    items.emplace_back(std::string(k.data(), k.size()), std::string(v.data(), v.size()));
    return {};
  }
};
static std::unique_ptr<opentracing::SpanContext> context(Rng& r, bool http, Ctx& c, std::shared_ptr<LightStepTracer>& keep, std::unique_ptr<opentracing::Span>& span) {
  c.bag = any_bag(r, http);
  if (r.chance(1, 2)) {  // as received
    LightStepTracerOptions o;
    o.propagation_modes = {Mode::trace_context};
    keep = quiet(r.chance(1, 2), o);
    TextMap m;
    c.hi = r.chance(1, 3) ? 0 : r.magnitude();
    c.lo = r.magnitude();
    c.id = r.magnitude();
    c.flags = static_cast<int>(r.below(256));
    c.sampled = c.flags & 1;
    m.Set("traceparent", "00-" + hex(c.hi, 16) + hex(c.lo, 16) + "-" + hex(c.id, 16) + "-" + hex(static_cast<uint64_t>(c.flags), 2));
    if (r.chance(1, 2)) { c.state = "a=" + r.alnum(1 + r.skewed(100)); m.Set("tracestate", c.state); }
    for (auto& x : c.bag) m.Set("ot-baggage-" + x.first, x.second);
    auto x = keep->Extract(static_cast<opentracing::TextMapReader&>(m));
    if (!x || !*x) { vf::fail("prepare", "no context from traceparent"); return nullptr; }
    return std::move(*x);
  }
  keep = quiet(r.chance(1, 2), LightStepTracerOptions{});
  c.sampled = r.chance(1, 2);
  c.flags = c.sampled;
  if (r.chance(1, 2)) {
    c.lo = r.magnitude();
    c.id = r.magnitude();
    return std::move(*keep->MakeSpanContext(c.lo, c.id, c.sampled, std::unordered_map<std::string, std::string>(c.bag.begin(), c.bag.end())));
  }
  opentracing::StartSpanOptions so;
  so.tags.emplace_back("sampling.priority", opentracing::Value(c.sampled ? 1 : 0));
  span = keep->StartSpanWithOptions("s", so);
  for (auto& x : c.bag) span->SetBaggageItem(x.first, x.second);
  auto* l = dynamic_cast<const LightStepSpanContext*>(&span->context());
  c.hi = l->trace_id_high();
  c.lo = l->trace_id_low();
  c.id = l->span_id();
  return nullptr;
}
template <class Writer>
static void outgoing(Rng& r, bool http) {
  std::vector<Mode> modes;
  auto o = vf::any_modes(r, modes);
  auto t = quiet(r.chance(1, 2), o);
  Ctx c;
  std::shared_ptr<LightStepTracer> keep;
  std::unique_ptr<opentracing::Span> span;
  auto made = context(r, http, c, keep, span);
  const opentracing::SpanContext* sc = span ? &span->context() : made.get();
  if (!sc) return;
  Log<Writer> w;
  auto res = t->Inject(*sc, static_cast<Writer&>(w));
  std::string how = listed(modes, http) + " writing";
  for (auto& x : w.items) how += " " + vf::hex(x.first, 60) + "=" + vf::hex(x.second, 100);
  VF_CHECK(static_cast<bool>(res), "inject", "%s", how.c_str());
  std::map<std::string, std::string> got;
  for (auto& x : w.items) {
    std::string k = http ? vf::lower(x.first) : x.first;
    VF_CHECK(!got.count(k), "twice", "%s: %s is set twice", how.c_str(), k.c_str());
    got[k] = x.second;
  }
  auto take = [&](const char* name, std::string& v) {
    auto i = got.find(http ? vf::lower(name) : name);
    if (i == got.end()) { vf::fail("missing", how + ": no " + name); return false; }
    v = i->second;
    got.erase(i);
    return true;
  };
  auto expect = [&](const char* name, const std::string& want) {
    std::string v;
    if (take(name, v)) VF_CHECK(v == want, "value", "%s: %s is %s, expected %s", how.c_str(), name, vf::hex(v, 120).c_str(), want.c_str());
  };
  auto id = [&](const char* name, uint64_t hi, uint64_t lo) {  // 16 or 32 digits in lower case
    std::string v;
    if (!take(name, v)) return;
    VF_CHECK(v == hex(hi, 16) + hex(lo, 16) || (hi == 0 && v == hex(lo, 16)), "value", "%s: %s is %s, expected %llx %llx", how.c_str(), name, vf::hex(v, 120).c_str(), (ull)hi, (ull)lo);
  };
  for (auto m : modes) {
    std::string v;
    switch (m) {
      case Mode::lightstep:
        id("ot-tracer-traceid", 0, c.lo);
        id("ot-tracer-spanid", 0, c.id);
        if (take("ot-tracer-sampled", v)) VF_CHECK(c.sampled ? v == "1" || v == "true" : v == "0" || v == "false", "value", "%s: sampled=%d", how.c_str(), c.sampled);
        break;
      case Mode::b3:
        id("X-B3-TraceId", c.hi, c.lo);
        id("X-B3-SpanId", 0, c.id);
        expect("X-B3-Sampled", c.sampled ? "1" : "0");
        break;
      case Mode::trace_context:
        expect("traceparent", "00-" + hex(c.hi, 16) + hex(c.lo, 16) + "-" + hex(c.id, 16) + "-" + hex(static_cast<uint64_t>(c.flags), 2));
        if (!c.state.empty()) expect("tracestate", c.state);
        break;
      case Mode::cloud_trace: expect("x-cloud-trace-context", hex(c.hi, 16) + hex(c.lo, 16) + vf::fmt("/%llu;o=%d", (ull)c.id, c.sampled)); break;
      case Mode::envoy:
        if (take("x-ot-span-context", v)) {
          std::string b;
          Ctx e;
          VF_CHECK(from64(v, b) && read_message(b, e), "message", "%s: not readable", how.c_str());
          VF_CHECK(e.lo == c.lo && e.id == c.id && e.sampled == c.sampled && e.bag == c.bag, "message", "%s: other contents", how.c_str());
        }
        break;
    }
    vf::count(std::string("written:") + vf::mode_name(m));
  }
  if (!(o.propagation_modes.size() == 1 && modes[0] == Mode::envoy) && !(o.propagation_modes.empty() && modes[0] == Mode::envoy))
    for (auto& x : c.bag) {
      // only that they are there: Envoy's format, repeated, brings them as well or not
      auto i = got.find("ot-baggage-" + x.first);
      bool optional = modes.size() == 1 && modes[0] == Mode::envoy;
      if (i == got.end()) { if (!optional) vf::fail("baggage", how + ": item " + vf::hex(x.first) + " is missing"); continue; }
      VF_CHECK(i->second == x.second, "baggage", "%s: item %s is %s", how.c_str(), vf::hex(x.first).c_str(), vf::hex(i->second, 100).c_str());
      got.erase(i);
    }
  for (auto& x : got) vf::fail("surplus", how + ": " + vf::hex(x.first));
  vf::eval();
  vf::distinct(vf::hash(how));
}
static void in(Rng& r, int64_t i) {
  if (i & 1) incoming<TextMap, opentracing::TextMapReader>(r, false);
  else incoming<HttpHeaders, opentracing::HTTPHeadersReader>(r, true);
}
static void out(Rng& r, int64_t i) {
  if (i & 1) outgoing<opentracing::TextMapWriter>(r, false);
  else outgoing<opentracing::HTTPHeadersWriter>(r, true);
}
static void streams(Rng& r, int64_t i) {
  std::vector<Mode> modes;
  auto o = vf::any_modes(r, modes);
  auto t = quiet(r.chance(1, 2), o);
  Ctx c;
  if (i & 1) {
    c.lo = r.magnitude();
    c.id = r.magnitude();
    c.sampled = r.chance(1, 2);
    c.flags = c.sampled;
    c.bag = any_bag(r, false);
    std::istringstream s(write_message(r, c));
    same(c, t->Extract(static_cast<std::istream&>(s)), "stream " + vf::hex(s.str(), 200));
    vf::distinct(vf::hash(s.str()));
  } else {
    std::shared_ptr<LightStepTracer> keep;
    std::unique_ptr<opentracing::Span> span;
    auto made = context(r, false, c, keep, span);
    if (!span && !made) return;
    std::ostringstream s;
    auto res = t->Inject(span ? span->context() : *made, static_cast<std::ostream&>(s));
    Ctx e;
    VF_CHECK(res && read_message(s.str(), e), "message", "stream %s is not readable", vf::hex(s.str(), 200).c_str());
    VF_CHECK(e.lo == c.lo && e.id == c.id && e.sampled == c.sampled && e.bag == c.bag, "message", "stream %s has other contents", vf::hex(s.str(), 200).c_str());
    vf::eval();
    vf::distinct(vf::hash(s.str()));
  }
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("in", vf::n(20000, 800000), in);
  vf::cases("out", vf::n(15000, 600000), out);
  vf::cases("stream", vf::n(8000, 300000), streams);
  return vf::finish();
}
