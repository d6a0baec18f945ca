// C21: hostile carriers in every configuration; a context may only come from well-formed ids that are really there.
#include "carriers.h"
#include "spans.h"
#include "values.h"
#include "lightstep-tracer-common/lightstep_carrier.pb.h"
#include "tracer/propagation/trace_context.h"
#include <sstream>
using namespace lightstep;
using vf::HttpHeaders;
using vf::Mode;
using vf::Rng;
using vf::TextMap;
using Ids = std::array<uint64_t, 3>;
using Items = std::vector<std::pair<std::string, std::string>>;

static int digit(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
static bool hexnum(const std::string& s, size_t max, uint64_t& hi, uint64_t& lo) {
  hi = lo = 0;
  if (s.empty()) return false;
  size_t sig = 0;
  for (char c : s) {
    int d = digit(c);
    if (d < 0) return false;
    if (sig || d) ++sig;
    if (sig > max) return false;
    hi = hi << 4 | lo >> 60;
    lo = lo << 4 | static_cast<uint64_t>(d);
  }
  return true;
}
static std::string trimmed(std::string s) {
  auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (!s.empty() && sp(s.back())) s.pop_back();
  size_t i = 0;
  while (i < s.size() && sp(s[i])) ++i;
  return s.substr(i);
}
static const char AB[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static bool b64(const std::string& s, std::string* o) {
  if (s.size() % 4) return false;
  for (size_t i = 0; i < s.size(); i += 4) {
    uint32_t v = 0;
    int n = 4;
    for (size_t k = 0; k < 4; ++k) {
      const char* p = s[i + k] ? strchr(AB, s[i + k]) : nullptr;
      if (p == nullptr) {
        if (s[i + k] != '=' || i + 4 != s.size() || k < 2) return false;
        if (k == 2 && s[i + 3] != '=') return false;
        n = static_cast<int>(k);
        break;
      }
      v = v << 6 | static_cast<uint32_t>(p - AB);
    }
    if (n == 2) *o += static_cast<char>(v >> 4);
    else if (n == 3) { *o += static_cast<char>(v >> 10); *o += static_cast<char>(v >> 2); }
    else { *o += static_cast<char>(v >> 16); *o += static_cast<char>(v >> 8); *o += static_cast<char>(v); }
  }
  return true;
}
static std::string to64(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t v = 0;
    for (size_t k = 0; k < 3; ++k) v = v << 8 | (i + k < s.size() ? static_cast<unsigned char>(s[i + k]) : 0u);
    for (size_t k = 0; k < 4; ++k) o += i + k > s.size() ? '=' : AB[v >> (18 - 6 * k) & 63];
  }
  return o;
}
static bool message(const std::string& s, Ids& ids, std::multimap<std::string, std::string>* bag = nullptr) {
  BinaryCarrier c;
  if (!c.ParseFromString(s)) return false;
  ids = {0, c.basic_ctx().trace_id(), c.basic_ctx().span_id()};
  if (bag) for (auto& x : c.basic_ctx().baggage_items()) bag->emplace(vf::lower(x.first), x.second);
  return true;
}
static std::vector<std::string> all(const Items& items, bool fold, const std::string& name) {
  std::vector<std::string> r;
  for (auto& x : items) if (fold ? vf::lower(x.first) == vf::lower(name) : x.first == name) r.push_back(x.second);
  return r;
}
// every set of ids that the carrier holds for a format, if some of its headers are repeated
static void held(const Items& items, bool fold, Mode m, std::vector<Ids>& out) {
  uint64_t hi, lo, z;
  switch (m) {
    case Mode::lightstep: case Mode::b3: {
      bool b = m == Mode::b3;
      for (auto& t : all(items, fold, b ? "X-B3-TraceId" : "ot-tracer-traceid"))
        for (auto& s : all(items, fold, b ? "X-B3-SpanId" : "ot-tracer-spanid")) {
          uint64_t id;
          if (hexnum(trimmed(t), 32, hi, lo) && hexnum(trimmed(s), 16, z, id)) out.push_back({hi, lo, id});
        }
      break;
    }
    case Mode::trace_context:
      for (auto& v : all(items, fold, "traceparent")) {
        uint64_t id, x;
        if (v.size() >= 55 && v[2] == '-' && v[35] == '-' && v[52] == '-' && hexnum(v.substr(0, 2), 2, z, x) && hexnum(v.substr(3, 32), 32, hi, lo) && hexnum(v.substr(36, 16), 16, z, id) &&
            hexnum(v.substr(53, 2), 2, z, x))
          out.push_back({hi, lo, id});
      }
      break;
    case Mode::cloud_trace:
      for (auto& v : all(items, fold, "x-cloud-trace-context")) {
        if (v.size() < 32 || !hexnum(v.substr(0, 32), 32, hi, lo)) continue;
        if (v.size() < 34) { out.push_back({hi, lo, 0}); continue; }  // the short form has no span id
        if (v[32] != '/' || v[33] < '0' || v[33] > '9') continue;
        uint64_t id = 0;
        bool big = false;
        size_t i = 33;
        for (; i < v.size() && v[i] >= '0' && v[i] <= '9'; ++i) {
          uint64_t d = static_cast<uint64_t>(v[i] - '0');
          big = big || id > (~0ull - d) / 10;
          id = id * 10 + d;
        }
        if (big) continue;
        if (v.size() - i >= 4 && v.compare(i, 3, ";o=") != 0) continue;
        out.push_back({hi, lo, id});
      }
      break;
    case Mode::envoy:
      for (auto& v : all(items, fold, "x-ot-span-context")) {
        std::string d;
        Ids ids;
        if (b64(v, &d) && !d.empty() && message(d, ids)) out.push_back(ids);
      }
      held(items, fold, Mode::lightstep, out);  // what envoy falls back to
      break;
  }
}
static std::string hexes(Rng& r, size_t n) {
  static const char ab[] = "0123456789abcdefABCDEF";
  std::string s;
  while (s.size() < n) s += ab[r.below(r.chance(1, 3) ? 22 : 16)];
  return s;
}
static std::string carrier_bytes(Rng& r) {
  BinaryCarrier c;
  c.mutable_basic_ctx()->set_trace_id(r.magnitude());
  c.mutable_basic_ctx()->set_span_id(r.magnitude());
  c.mutable_basic_ctx()->set_sampled(r.chance(1, 2));
  for (size_t n = r.skewed(4); n > 0; --n) (*c.mutable_basic_ctx()->mutable_baggage_items())[vf::utf8(r, r.skewed(10))] = vf::utf8(r, r.skewed(20));
  if (r.chance(1, 10)) c.clear_basic_ctx();
  std::string s;
  c.SerializeToString(&s);
  return s;
}
// a value for the header of a format: valid, nearly valid, or the other format's
static std::string value_for(Rng& r, const std::string& n) {
  std::string l = vf::lower(n);
  if (l == "traceparent") {
    std::string v = hexes(r, r.chance(1, 6) ? 2 : 0);
    if (v.empty()) v = "00";
    return v + "-" + hexes(r, 32) + "-" + hexes(r, 16) + "-" + hexes(r, 2) + (r.chance(1, 6) ? "-" + r.alnum(r.skewed(20)) : "");
  }
  if (l == "x-cloud-trace-context") {
    std::string v = hexes(r, 32);
    switch (r.below(6)) {
      case 0: return v;
      case 1: return v + "/" + std::to_string(r.magnitude());
      case 2: { v += "/"; for (size_t k = r.below(30); k > 0; --k) v += static_cast<char>('0' + r.below(10)); return v + (r.chance(1, 2) ? ";o=1" : ""); }
      case 3: return v + "/" + r.alnum(r.below(6));
      default: return v + "/" + std::to_string(r.magnitude()) + ";o=" + (r.chance(3, 4) ? std::to_string(r.below(3)) : "");
    }
  }
  if (l == "x-ot-span-context") return to64(carrier_bytes(r));
  if (l.find("sampled") != std::string::npos) { static const char* v[] = {"0", "1", "true", "false", "TRUE", "", "2", "d"}; return v[r.below(8)]; }
  if (l.find("spanid") != std::string::npos) return std::string(r.chance(1, 5) ? r.below(40) : 0, '0') + hexes(r, 1 + r.below(18));
  if (l.find("traceid") != std::string::npos) return std::string(r.chance(1, 5) ? r.below(60) : 0, '0') + hexes(r, 1 + r.below(35));
  return r.bytes(r.skewed(40));
}
static void damage(Rng& r, std::string& v) {
  switch (r.below(9)) {
    case 0: if (!v.empty()) v[r.below(v.size())] = static_cast<char>(r()); break;
    case 1: if (!v.empty()) v.resize(r.below(v.size())); break;
    case 2: v.insert(r.below(v.size() + 1), 1, static_cast<char>(r())); break;
    case 3: v += r.bytes(r.skewed(30)); break;
    case 4: v.insert(0, r.below(4), " \t\n\v"[r.below(4)]); break;
    case 5: v.clear(); break;
    case 6: if (!v.empty()) v.erase(r.below(v.size()), 1 + r.below(4)); break;
    case 7: v = v + v; break;
    default: if (!v.empty()) v[r.below(v.size())] = "-/;=0 "[r.below(6)];
  }
}
static const char* names[] = {"ot-tracer-traceid", "ot-tracer-spanid", "ot-tracer-sampled", "X-B3-TraceId", "X-B3-SpanId", "X-B3-Sampled", "x-ot-span-context", "traceparent", "tracestate",
                              "x-cloud-trace-context"};
static std::shared_ptr<LightStepTracer> quiet(bool legacy, const LightStepTracerOptions& o) {
  return vf::make_tracer(legacy, std::unique_ptr<Recorder>{new vf::Capture{std::make_shared<vf::Delivered>()}}, o);
}
template <class X>
static void judge(const X& x, const std::vector<Ids>& ok, const std::string& what) {
  vf::eval();
  if (!x) {
    VF_CHECK(static_cast<bool>(x.error()), "empty-error", "%s: an error without a code", what.c_str());
    vf::count("errors");
    return;
  }
  if (!*x) { vf::count("none"); return; }
  auto* l = dynamic_cast<const LightStepSpanContext*>(x->get());
  Ids got = {l->trace_id_high(), l->trace_id_low(), l->span_id()};
  VF_CHECK(std::find(ok.begin(), ok.end(), got) != ok.end(), "made-up", "%s: context %llx %llx %llx, which the carrier does not hold (%zu do)", what.c_str(), (unsigned long long)got[0],
           (unsigned long long)got[1], (unsigned long long)got[2], ok.size());
  vf::count("contexts");
}
template <class C, class Rd>
static void text(Rng& r, bool http, int64_t i) {
  std::vector<Mode> modes;
  auto o = vf::any_modes(r, modes);
  bool legacy = r.chance(1, 2);
  auto t = quiet(legacy, o);
  C c;
  c.fold = http;
  c.lookup = r.chance(1, 2);
  unsigned style = static_cast<unsigned>(r.below(4));
  if (style == 0) {  // anything
    for (size_t n = r.skewed(12); n > 0; --n) c.items.emplace_back(r.chance(1, 2) ? names[r.below(10)] : r.bytes(r.skewed(20)), r.bytes(r.skewed(60)));
  } else {
    Mode m = r.chance(3, 4) ? modes[r.below(modes.size())] : vf::all_modes[r.below(5)];
    for (auto* n : names) {
      if (!vf::belongs(n, m) && !r.chance(1, 8)) continue;
      if (r.chance(1, 8)) continue;
      c.items.emplace_back(n, value_for(r, n));
      if (r.chance(1, 6)) c.items.emplace_back(n, value_for(r, n));  // repeated
    }
    for (size_t n = r.skewed(4); n > 0; --n) c.items.emplace_back("ot-baggage-" + r.bytes(r.skewed(8)), r.bytes(r.skewed(30)));
    if (style >= 2)
      for (auto& x : c.items) {
        if (r.chance(1, 3)) damage(r, x.second);
        if (r.chance(1, 15)) damage(r, x.first);
      }
    for (auto& x : c.items)
      if (r.chance(1, 6)) for (auto& ch : x.first) if (r.chance(1, 2)) ch = static_cast<char>(toupper(static_cast<unsigned char>(ch)));
  }
  for (size_t k = c.items.size(); k > 1; --k) std::swap(c.items[k - 1], c.items[r.below(k)]);
  std::vector<Ids> ok;
  for (auto m : modes) held(c.items, http, m, ok);
  std::string what = http ? "http" : "map";
  for (auto m : modes) what += std::string(" ") + vf::mode_name(m);
  for (auto& x : c.items) what += " " + vf::hex(x.first) + "=" + vf::hex(x.second, 80);
  auto x = t->Extract(static_cast<Rd&>(c));
  judge(x, ok, what);
  if (x && *x) {  // its baggage was there too
    std::map<std::string, std::string> bag;
    std::multimap<std::string, std::string> there;
    for (auto& it : c.items) if (vf::lower(it.first.substr(0, 11)) == "ot-baggage-") there.emplace(vf::lower(it.first.substr(11)), it.second);
    for (auto& v : all(c.items, http, "x-ot-span-context")) {
      std::string d;
      Ids ids;
      std::multimap<std::string, std::string> b;
      if (b64(v, &d) && message(d, ids, &b)) there.insert(b.begin(), b.end());
    }
    (*x)->ForeachBaggageItem([&](const std::string& k, const std::string& v) {
      bool found = false;
      auto range = there.equal_range(k);
      for (auto p = range.first; p != range.second; ++p) found = found || p->second == v;
      VF_CHECK(found, "made-up-baggage", "%s: item %s is not in the carrier", what.c_str(), vf::hex(k).c_str());
      return true;
    });
    // and a span may be started from it
    opentracing::StartSpanOptions so;
    so.references.emplace_back(opentracing::SpanReferenceType::ChildOfRef, x->get());
    so.tags.emplace_back("sampling.priority", opentracing::Value(0));  // baggage that is not UTF-8 could not be encoded
    auto sp = t->StartSpanWithOptions("s", so);
    VF_CHECK(sp != nullptr, "no-span", "no span from an extracted context");
  }
  VF_CHECK(c.visits <= (c.items.size() + 1) * (modes.size() + 1), "visits", "%s: %zu visits for %zu headers", what.c_str(), c.visits, c.items.size());
  vf::distinct(vf::hash(what));
  if (i < 4) vf::sample(what.substr(0, 200) + (x ? *x ? ": context" : ": none" : ": error"));
}
static void texts(Rng& r, int64_t i) {
  if (i & 1) text<TextMap, opentracing::TextMapReader>(r, false, i);
  else text<HttpHeaders, opentracing::HTTPHeadersReader>(r, true, i);
}
static void streams(Rng& r, int64_t i) {
  std::vector<Mode> modes;
  auto o = vf::any_modes(r, modes);
  auto t = quiet(i & 1, o);
  std::string s = r.chance(1, 4) ? r.bytes(r.skewed(60)) : carrier_bytes(r);
  for (size_t n = r.below(4); n > 0; --n) damage(r, s);
  Ids ids;
  std::vector<Ids> ok;
  if (!s.empty() && message(s, ids)) ok.push_back(ids);
  std::stringstream ss(s);
  if (r.chance(1, 20)) ss.setstate(r.chance(1, 2) ? std::ios::failbit : std::ios::badbit);
  judge(t->Extract(static_cast<std::istream&>(ss)), ok, "stream " + vf::hex(s, 100));
  vf::distinct(vf::hash(s));
}
static void parents(Rng& r, int64_t) {  // the parser on exact blocks of every length
  std::string v = value_for(r, "traceparent");
  for (size_t n = r.below(3); n > 0; --n) damage(r, v);
  std::unique_ptr<char[]> p{new char[v.size()]};
  if (!v.empty()) memcpy(p.get(), v.data(), v.size());
  TraceContext c;
  bool good = static_cast<bool>(ParseTraceContext(opentracing::string_view{p.get(), v.size()}, c));
  std::vector<Ids> ok;
  held({{"traceparent", v}}, false, Mode::trace_context, ok);
  VF_CHECK(good == !ok.empty(), "traceparent", "%s: %s", vf::hex(v).c_str(), good ? "accepted" : "refused");
  if (good && !ok.empty()) {
    VF_CHECK(c.trace_id_high == ok[0][0] && c.trace_id_low == ok[0][1] && c.parent_id == ok[0][2], "traceparent-ids", "%s read wrongly", vf::hex(v).c_str());
    char b[56];
    b[55] = '#';
    SerializeTraceContext(c, b);
    VF_CHECK(b[55] == '#' && vf::lower(v.substr(0, 55)) == std::string(b, 55), "traceparent-again", "%s written as %s", vf::hex(v).c_str(), vf::hex(std::string(b, 56)).c_str());
  }
  vf::eval();
  vf::distinct(vf::hash(v));
}
static void large(Rng& r, int64_t i) {  // megabytes where a few bytes are expected
  std::vector<Mode> modes;
  auto o = vf::any_modes(r, modes);
  o.propagation_modes.assign(std::begin(vf::all_modes), std::end(vf::all_modes));
  auto t = quiet(i & 1, o);
  HttpHeaders c;
  c.fold = true;
  size_t n = 1u << 21;
  auto* name = names[i % 10];
  switch (r.below(4)) {
    case 0: c.items.emplace_back(name, std::string(n, '0')); break;
    case 1: c.items.emplace_back(name, hexes(r, 64) + std::string(n, ' ')); break;
    case 2: c.items.emplace_back(name, r.bytes(n)); break;
    default: for (int k = 0; k < 50000; ++k) c.items.emplace_back(k & 1 ? name : "ot-baggage-" + r.alnum(6), value_for(r, name));
  }
  std::vector<Ids> ok;
  for (auto m : vf::all_modes) {
    if (c.items.size() > 1) break;
    held(c.items, true, m, ok);
  }
  auto t0 = std::chrono::steady_clock::now();
  auto x = t->Extract(static_cast<opentracing::HTTPHeadersReader&>(c));
  double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  VF_CHECK(s < 20, "slow", "%s: %.1f s", name, s);
  if (c.items.size() == 1) judge(x, ok, std::string("large ") + name);
  vf::counter_max("slowest_ms", static_cast<uint64_t>(s * 1000));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("text", vf::n(40000, 2000000), texts);
  vf::cases("stream", vf::n(15000, 500000), streams);
  vf::cases("traceparent", vf::n(40000, 1000000), parents);
  vf::cases("large", vf::n(30, 200), large);
  return vf::finish();
}
