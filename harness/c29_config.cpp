// C29: tracer configurations in JSON, well- and ill-formed, against a model of every field; tracers made from options of all
// combinations, whose reports must carry what was configured.
#include "reports.h"
#include <google/protobuf/util/json_util.h>
#include <dlfcn.h>
#include <unistd.h>
#include <iostream>
#include <set>
#include "lightstep-tracer-configuration/tracer_configuration.pb.h"
#include "lightstep/tracer.h"
#include "network/dns_resolver.h"
#include "tracer/json_options.h"
#include "tracer/lightstep_tracer_factory.h"
#include <opentracing/dynamic_load.h>
using namespace lightstep;
using vf::Rng;
typedef tracer_configuration::TracerConfiguration Config;

struct MuteResolver : DnsResolver { void Resolve(const char*, int, DnsResolutionCallback&) noexcept override {} };
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new MuteResolver}; }
}  // namespace lightstep
static std::string program() {  // what the executable is called
  char b[4096];
  ssize_t n = ::readlink("/proc/self/exe", b, sizeof b);
  std::string s(b, n > 0 ? static_cast<size_t>(n) : 0);
  return s.substr(s.rfind('/') + 1);
}
struct Rejecting : std::streambuf {  // what is written to it fails
  int overflow(int) override { return traits_type::eof(); }
  std::streamsize xsputn(const char*, std::streamsize) override { return 0; }
};
struct Cerr {  // the host made std::cerr throw
  std::streambuf* old;
  Rejecting mine;
  bool on;
  explicit Cerr(bool o) : old(nullptr), on(o) { if (on) { old = std::cerr.rdbuf(&mine); std::cerr.clear(); std::cerr.exceptions(std::ios::badbit | std::ios::failbit); } }
  ~Cerr() { if (on) { std::cerr.exceptions(std::ios::goodbit); std::cerr.rdbuf(old); std::cerr.clear(); } }
};
// ---- texts
static std::string quote(Rng& r, const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\' || c < 32) o += vf::fmt("\\u%04x", c);
    else if (c < 128 && r.chance(1, 12)) o += vf::fmt("\\u%04x", c);
    else if (c == '/' && r.chance(1, 2)) o += "\\/";
    else o += static_cast<char>(c);
  }
  return o + "\"";
}
static std::string text(Rng& r) {
  switch (r.below(8)) {
    case 0: return "";
    case 1: return "\xc3\xa9\xe6\xbc\xa2\xf0\x9f\x98\x80";
    case 2: return "a\"b\\c\n\t\x01/";
    case 3: return r.alnum(r.below(5000));
    default: return r.alnum(1 + r.below(20));
  }
}
static std::string camel(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '_' && i + 1 < s.size()) o += static_cast<char>(toupper(s[++i])); else o += s[i]; }
  return o;
}
static std::string number(Rng& r, uint64_t& v, uint64_t hi) {
  switch (r.below(8)) {
    case 0: v = 0; break;
    case 1: v = hi; break;
    case 2: v = 1; break;
    default: v = r.below(3) ? r.below(100000) : r.magnitude() & 0xffffffffu;
  }
  if (v > hi) v %= hi + 1;
  std::string s = std::to_string(v);
  if (r.chance(1, 4)) return "\"" + s + "\"";
  if (r.chance(1, 10)) return s + ".0";
  return s;
}
static const char* modes[] = {"lightstep", "b3", "envoy", "trace_context", "cloud_trace"};
static const char* bad_modes[] = {"", "B3", "b3 ", "jaeger", "trace-context", "lightstep,b3", "TRACE_CONTEXT", "w3c"};
// a configuration as text and as a message; `wrong` tells that it must be rejected
static std::string document(Rng& r, Config& c, bool& wrong) {
  std::vector<std::string> f;
  wrong = false;
  auto add = [&](const char* name, const std::string& value) { f.push_back("\"" + (r.chance(1, 2) ? std::string(name) : camel(name)) + "\"" + (r.chance(1, 5) ? " : " : ":") + value); };
  auto str = [&](const char* name, void (*set)(Config&, const std::string&)) { if (!r.chance(1, 2)) return; if (r.chance(1, 12)) { add(name, "null"); return; } std::string s = text(r); set(c, s); add(name, quote(r, s)); };
  auto num = [&](const char* name, void (*set)(Config&, uint32_t)) { if (!r.chance(1, 2)) return; uint64_t v; std::string t = number(r, v, 0xffffffffu); set(c, static_cast<uint32_t>(v)); add(name, t); };
  auto flag = [&](const char* name, void (*set)(Config&, bool)) { if (!r.chance(1, 2)) return; bool v = r.chance(1, 2); set(c, v); add(name, v ? "true" : "false"); };
  str("component_name", [](Config& x, const std::string& s) { x.set_component_name(s); });
  str("access_token", [](Config& x, const std::string& s) { x.set_access_token(s); });
  str("collector_host", [](Config& x, const std::string& s) { x.set_collector_host(s); });
  num("collector_port", [](Config& x, uint32_t v) { x.set_collector_port(v); });
  flag("collector_plaintext", [](Config& x, bool v) { x.set_collector_plaintext(v); });
  flag("use_single_key_propagation", [](Config& x, bool v) { x.set_use_single_key_propagation(v); });
  num("max_buffered_spans", [](Config& x, uint32_t v) { x.set_max_buffered_spans(v); });
  num("reporting_period", [](Config& x, uint32_t v) { x.set_reporting_period(v); });
  num("report_timeout", [](Config& x, uint32_t v) { x.set_report_timeout(v); });
  str("ssl_root_certificates", [](Config& x, const std::string& s) { x.set_ssl_root_certificates(s); });
  flag("use_stream_recorder", [](Config& x, bool v) { x.set_use_stream_recorder(v); });
  flag("verbose", [](Config& x, bool v) { x.set_verbose(v); });
  if (r.chance(1, 2)) {
    std::string t = "[";
    for (size_t n = r.skewed(40), k = 0; k < n; ++k) {
      auto* e = c.add_satellite_endpoints();
      e->set_host(text(r));
      uint64_t port = 1 + r.below(65535);
      if (r.chance(1, 10)) port = r.chance(1, 2) ? 65535 : 1;
      if (r.chance(1, 30)) { static const uint64_t bad[] = {0, 65536, 65537, 131072, 0xffffffffu, 65536 + 80}; port = bad[r.below(6)]; wrong = true; }
      e->set_port(static_cast<uint32_t>(port));
      t += std::string(k ? "," : "") + "{\"host\":" + quote(r, e->host());
      if (port || r.chance(1, 2)) t += vf::fmt(",\"port\":%llu", (unsigned long long)port);
      t += "}";
    }
    add("satellite_endpoints", t + "]");
  }
  if (r.chance(1, 2)) {
    std::string t = "[";
    for (size_t n = r.below(6), k = 0; k < n; ++k) {
      std::string m = modes[r.below(5)];
      if (r.chance(1, 20)) { m = bad_modes[r.below(8)]; wrong = true; }
      c.add_propagation_modes(m);
      t += std::string(k ? "," : "") + quote(r, m);
    }
    add("propagation_modes", t + "]");
  }
  if (r.chance(1, 2)) {
    std::string t = "{";
    for (size_t n = r.skewed(20), k = 0; k < n; ++k) {
      std::string key = r.chance(1, 10) ? std::string("lightstep.component_name") : text(r), v = text(r);
      if (!c.tags().count(key)) { (*c.mutable_tags())[key] = v; t += std::string(t.size() > 1 ? "," : "") + quote(r, key) + ":" + quote(r, v); }
    }
    add("tags", t + "}");
  }
  for (size_t k = f.size(); k > 1; --k) std::swap(f[k - 1], f[r.below(k)]);
  std::string sep = r.chance(1, 3) ? ",\n  " : ",", o = "{";
  for (size_t k = 0; k < f.size(); ++k) o += (k ? sep : "") + f[k];
  return o + "}";
}
// ---- a model of the options
static void compare(const Config& c, const LightStepTracerOptions& o) {
  LightStepTracerOptions d;
  VF_CHECK(o.component_name == c.component_name(), "component_name", "%s", vf::hex(o.component_name).c_str());
  VF_CHECK(o.access_token == c.access_token(), "access_token", "%s", vf::hex(o.access_token).c_str());
  VF_CHECK(o.collector_host == (c.collector_host().empty() ? d.collector_host : c.collector_host()), "collector_host", "%s", vf::hex(o.collector_host).c_str());
  VF_CHECK(o.collector_port == (c.collector_port() ? c.collector_port() : d.collector_port), "collector_port", "%u for %u", o.collector_port, c.collector_port());
  VF_CHECK(o.collector_plaintext == c.collector_plaintext(), "collector_plaintext", "%d", o.collector_plaintext);
  VF_CHECK(o.use_single_key_propagation == c.use_single_key_propagation(), "use_single_key_propagation", "%d", o.use_single_key_propagation);
  VF_CHECK(o.max_buffered_spans.value() == (c.max_buffered_spans() ? c.max_buffered_spans() : d.max_buffered_spans.value()), "max_buffered_spans", "%zu for %u", o.max_buffered_spans.value(), c.max_buffered_spans());
  VF_CHECK(o.reporting_period == (c.reporting_period() ? std::chrono::microseconds{c.reporting_period()} : d.reporting_period), "reporting_period", "%lld ns for %u us", (long long)o.reporting_period.count(), c.reporting_period());
  VF_CHECK(o.report_timeout == (c.report_timeout() ? std::chrono::microseconds{c.report_timeout()} : d.report_timeout), "report_timeout", "%lld ns for %u us", (long long)o.report_timeout.count(), c.report_timeout());
  VF_CHECK(o.ssl_root_certificates == c.ssl_root_certificates(), "ssl_root_certificates", "%zu bytes of certificates, %zu given", o.ssl_root_certificates.size(), c.ssl_root_certificates().size());
  VF_CHECK(o.use_stream_recorder == c.use_stream_recorder(), "use_stream_recorder", "%d", o.use_stream_recorder);
  VF_CHECK(o.verbose == c.verbose(), "verbose", "%d", o.verbose);
  std::vector<std::pair<std::string, uint16_t>> e;
  for (auto& x : c.satellite_endpoints()) e.emplace_back(x.host(), static_cast<uint16_t>(x.port()));
  if (e.empty()) e = d.satellite_endpoints;
  VF_CHECK(o.satellite_endpoints == e, "satellite_endpoints", "%zu endpoints, %zu expected", o.satellite_endpoints.size(), e.size());
  std::vector<PropagationMode> m;
  static const PropagationMode pm[] = {PropagationMode::lightstep, PropagationMode::b3, PropagationMode::envoy, PropagationMode::trace_context, PropagationMode::cloud_trace};
  for (auto& x : c.propagation_modes()) for (int k = 0; k < 5; ++k) if (x == modes[k]) m.push_back(pm[k]);
  VF_CHECK(o.propagation_modes == m, "propagation_modes", "%zu modes, %zu given", o.propagation_modes.size(), m.size());
  VF_CHECK(o.tags.size() == c.tags().size(), "tags", "%zu tags, %zu given", o.tags.size(), c.tags().size());
  for (auto& t : c.tags()) {
    auto it = o.tags.find(t.first);
    VF_CHECK(it != o.tags.end() && it->second.kind() == opentracing::Value::Str && it->second.s() == t.second, "tags", "tag %s isn't as given", vf::hex(t.first).c_str());
  }
  VF_CHECK(o.use_thread == d.use_thread && !o.transporter && !o.metrics_observer && !o.logger_sink, "others", "an option that has no field differs from its default");
}
static bool acceptable(const Config& c) {
  for (auto& x : c.satellite_endpoints()) if (x.port() == 0 || x.port() > 65535) return false;
  for (auto& x : c.propagation_modes()) { bool ok = false; for (auto m : modes) ok |= x == m; if (!ok) return false; }
  return true;
}
// an exact heap block, so that reading past the end is seen
struct Block {
  char* p;
  explicit Block(const std::string& s) : p(new char[s.size() + 1]) { memcpy(p, s.c_str(), s.size() + 1); }
  ~Block() { delete[] p; }
};
static void judge(Rng& r, const std::string& doc, const Config* want, bool wrong) {
  std::string message;
  Block b(doc);
  Cerr mood{r.chance(1, 8)};
  auto o = MakeTracerOptions(b.p, message);
  if (!want) { VF_CHECK(!o, "accepted", "accepted although it isn't a configuration: %s", vf::hex(doc, 300).c_str()); }
  else if (wrong) VF_CHECK(!o, "accepted", "accepted although a field is out of range: %s", vf::hex(doc, 300).c_str());
  else if (!o) vf::fail("rejected", "rejected although it is right: " + vf::hex(message, 200) + ": " + vf::hex(doc, 300));
  if (!o) { VF_CHECK(!message.empty(), "unexplained", "rejected without an explanation: %s", vf::hex(doc, 300).c_str()); vf::count("rejected"); }
  else if (want && !wrong) { compare(*want, *o); vf::count("accepted"); }
  vf::eval();
  // the whole way, as a plug-in is loaded
  uint64_t spans = o ? o->max_buffered_spans.value() : 0;
  if (r.chance(1, 4) && (spans < 200000 || !o->use_stream_recorder)) {
    LightStepTracerFactory f;
    std::string why;
    auto t = f.MakeTracer(b.p, why);
    bool can = o && o->use_stream_recorder && o->collector_plaintext;  // built without gRPC
    if (can) {
      VF_CHECK(t && *t, "no-tracer", "no tracer from an accepted configuration: %s", vf::hex(why).c_str());
      if (t && *t) { auto s = (*t)->StartSpan("x"); VF_CHECK(s != nullptr, "no-span", "no span"); if (s) s->Finish(); }
      vf::count("tracers");
    } else {
      VF_CHECK(!t, "null-tracer", "a null tracer was returned as a success");
      if (!t) VF_CHECK(!why.empty(), "unexplained-tracer", "no tracer and no explanation: %s", vf::hex(doc, 300).c_str());
      if (!t) VF_CHECK(static_cast<bool>(t.error()) && !t.error().message().empty(), "no-error", "no tracer, but no error code");
      vf::count("no tracer");
    }
  }
  vf::distinct(vf::hash(doc));
}
static void well_formed(Rng& r, int64_t) {
  Config c;
  bool wrong;
  std::string doc = document(r, c, wrong);
  judge(r, doc, &c, wrong);
}
static void ill_formed(Rng& r, int64_t) {
  Config c;
  bool wrong;
  std::string d = document(r, c, wrong);
  static const char* pieces[] = {"{", "}", "[", "]", ",", ":", "\"", "null", "-1", "1.5", "1e400", "4294967296", "true", "{}", "[]", "\"x\"", "\\u0000", "\\ud800", "\xff", "\xc3", "collector_port", "nonsense", " ", "0x10", "//", "NaN"};
  switch (r.below(6)) {
    case 0: d = d.substr(0, r.below(d.size() + 1)); break;
    case 1: for (size_t k = 1 + r.below(3); k > 0; --k) { size_t at = r.below(d.size()); d[at] = static_cast<char>(r.chance(1, 2) ? 32 + r.below(95) : 1 + r.below(255)); } break;
    case 2: { size_t at = r.below(d.size()), n = std::min<size_t>(d.size() - at, r.below(6)); d.replace(at, n, pieces[r.below(26)]); break; }
    case 3: { static const char* extra[] = {"\"unknown\":1", "\"collector_port\":-1", "\"collector_port\":4294967296", "\"collector_port\":\"x\"", "\"collector_port\":1.5", "\"verbose\":\"yes\"", "\"verbose\":1", "\"tags\":[]", "\"tags\":{\"a\":{}}", "\"tags\":{\"a\":1}", "\"satellite_endpoints\":{}", "\"satellite_endpoints\":[1]", "\"propagation_modes\":\"b3\"", "\"component_name\":{}", "\"satellite_endpoints\":[{\"host\":\"a\",\"port\":70000}]", "\"satellite_endpoints\":[{\"host\":\"a\"}]", "\"propagation_modes\":[null]"};
      d = std::string("{") + extra[r.below(17)] + (d == "{}" ? "}" : "," + d.substr(1)); break; }
    case 4: { size_t n = r.chance(1, 40) ? r.below(300000) : r.below(200); std::string o(n, '['), p(n, ']'); d = r.chance(1, 2) ? o + p : "{\"tags\":" + o + p + "}"; break; }
    default: d = r.chance(1, 4) ? "" : r.bytes(r.below(60));
  }
  d = d.c_str();  // a C string ends at its first zero
  Config ref;
  bool parses = google::protobuf::util::JsonStringToMessage(d, &ref).ok();
  judge(r, d, parses ? &ref : nullptr, parses && !acceptable(ref));
  vf::count(parses ? "still parses" : "does not parse");
}
// ---- the entry point of the plug-in
extern "C" OpenTracingMakeTracerFactoryType* const OpenTracingMakeTracerFactory;
static void plug_in(Rng& r, int64_t) {
  const void* category = nullptr;
  std::string message;
  void* factory = nullptr;
  std::string abi = r.chance(1, 2) ? OPENTRACING_ABI_VERSION : r.alnum(r.below(12)), version = r.chance(1, 2) ? OPENTRACING_VERSION : r.alnum(r.below(40));
  Block a(abi), v(version);
  int rc = OpenTracingMakeTracerFactory(v.p, a.p, &category, &message, &factory);
  if (abi == OPENTRACING_ABI_VERSION) {
    VF_CHECK(rc == 0 && factory, "plug-in", "rc %d for the right version", rc);
    std::unique_ptr<opentracing::TracerFactory> f{static_cast<opentracing::TracerFactory*>(factory)};
    std::string why;
    auto t = f->MakeTracer("{\"use_stream_recorder\":true,\"collector_plaintext\":true,\"satellite_endpoints\":[{\"host\":\"x\",\"port\":80}]}", why);
    VF_CHECK(t && *t, "no-tracer", "no tracer through the plug-in: %s", why.c_str());
  } else {
    VF_CHECK(rc != 0 && category && !factory, "plug-in-version", "rc %d for the version %s", rc, vf::hex(abi).c_str());
    VF_CHECK(category == &opentracing::dynamic_load_error_category() && rc == opentracing::incompatible_library_versions_error.value(), "plug-in-version", "other error");
    VF_CHECK(message.find(abi) != std::string::npos && message.find(OPENTRACING_ABI_VERSION) != std::string::npos, "plug-in-version", "the explanation names no version: %s", vf::hex(message).c_str());
  }
  vf::eval();
  vf::distinct(vf::hash(abi));
}
// ---- tracers made from options
struct Seen {
  std::vector<collector::ReportRequest> reports;
  std::mutex mu;
  int alive = 0;
};
template <class T>
struct Tracked : T {
  std::shared_ptr<Seen> s;
  explicit Tracked(std::shared_ptr<Seen> x) : s(std::move(x)) { ++s->alive; }
  ~Tracked() override { --s->alive; }
  void keep(const std::string& b) { collector::ReportRequest q; if (!q.ParseFromString(b)) vf::fail("report-parse", "a report does not parse"); std::lock_guard<std::mutex> l(s->mu); s->reports.push_back(std::move(q)); }
};
struct Sync : Tracked<SyncTransporter> {
  using Tracked::Tracked;
  opentracing::expected<void> Send(const google::protobuf::Message& q, google::protobuf::Message&) override { keep(q.SerializeAsString()); return {}; }
};
struct Async : Tracked<AsyncTransporter> {
  using Tracked::Tracked;
  void Send(std::unique_ptr<BufferChain>&& m, Callback& c) noexcept override { keep(vf::raw(*m)); c.OnSuccess(*m); }
};
struct Legacy : Tracked<LegacyAsyncTransporter> {
  using Tracked::Tracked;
  void Send(const google::protobuf::Message& q, google::protobuf::Message&, Callback& c) override { keep(q.SerializeAsString()); c.OnSuccess(); }
};
struct Plain : Tracked<Transporter> { using Tracked::Tracked; };
static void options(Rng& r, int64_t) {
  auto seen = std::make_shared<Seen>();
  auto log = std::make_shared<std::vector<std::pair<LogLevel, std::string>>>();
  auto log_mu = std::make_shared<std::mutex>();
  LightStepTracerOptions o;
  int kind = static_cast<int>(r.below(5));
  o.use_thread = r.chance(1, 2);
  o.use_stream_recorder = r.chance(1, 2);
  o.collector_plaintext = r.chance(1, 2);
  o.verbose = r.chance(1, 2);
  o.component_name = r.chance(1, 3) ? "" : text(r);
  o.access_token = text(r);
  bool sink_throws = r.chance(1, 12), own_name = r.chance(1, 8);
  o.logger_sink = [log, log_mu, sink_throws](LogLevel l, opentracing::string_view s) {
    std::lock_guard<std::mutex> g(*log_mu);
    log->emplace_back(l, std::string(s.data(), s.size()));
    if (sink_throws) throw std::runtime_error{"sink"};
  };
  std::map<std::string, std::string> tags;
  for (size_t n = r.below(6); n > 0; --n) { std::string k = "t" + text(r), v = text(r); if (tags.emplace(k, v).second) o.tags.emplace(k, v); }
  if (own_name) { o.tags.emplace("lightstep.component_name", std::string("own")); }
  if (r.chance(1, 6)) o.tags.emplace("lightstep.tracer_platform", std::string("other"));
  std::string name = o.component_name, token = o.access_token;
  switch (kind) {
    case 1: o.transporter.reset(new Sync{seen}); break;
    case 2: o.transporter.reset(new Async{seen}); break;
    case 3: o.transporter.reset(new Legacy{seen}); break;
    case 4: o.transporter.reset(new Plain{seen}); break;
  }
  bool want;
  if (!o.use_thread) want = kind == 2 || kind == 3;
  else if (o.use_stream_recorder) want = o.collector_plaintext && kind == 0;
  else want = kind == 1;
  bool stream = o.use_thread && o.use_stream_recorder, verbose = o.verbose;
  if (stream && r.chance(1, 8)) { o.satellite_endpoints.clear(); want = false; }
  if (r.chance(1, 10)) o.reporting_period = std::chrono::steady_clock::duration{0};
  {
    auto t = MakeLightStepTracer(std::move(o));
    VF_CHECK((t != nullptr) == want, t ? "made" : "not-made", "transporter kind %d, threads or streaming %d: a tracer was %s", kind, stream, t ? "made" : "not made");
    if (!t) {
      std::lock_guard<std::mutex> g(*log_mu);
      bool told = false;
      for (auto& l : *log) told |= l.first == LogLevel::error && !l.second.empty();
      VF_CHECK(told, "silent", "no tracer was made, and nothing was logged");
    } else if (!stream) {
      auto s = t->StartSpan("op");
      if (s) s->Finish();
      bool ok = t->FlushWithTimeout(std::chrono::seconds{60});
      (void)ok;
      for (int k = 0; k < 1000; ++k) { { std::lock_guard<std::mutex> g(seen->mu); if (!seen->reports.empty()) break; } std::this_thread::sleep_for(std::chrono::milliseconds{10}); }
      std::lock_guard<std::mutex> g(seen->mu);
      VF_CHECK(seen->reports.size() >= 1, "unsent", "nothing was sent after a flush");
      for (auto& q : seen->reports) {
        VF_CHECK(q.auth().access_token() == token, "token", "sent with the token %s", vf::hex(q.auth().access_token()).c_str());
        std::map<std::string, const collector::KeyValue*> got;
        for (auto& x : q.reporter().tags()) VF_CHECK(got.emplace(x.key(), &x).second, "tag-twice", "reporter tag %s twice", vf::hex(x.key()).c_str());
        auto is = [&](const std::string& k, const std::string& v) { VF_CHECK(got.count(k) && got[k]->string_value() == v, "reporter-tag", "reporter tag %s isn't %s", vf::hex(k).c_str(), vf::hex(v).c_str()); };
        for (auto& x : tags) is(x.first, x.second);
        is("lightstep.tracer_platform", "c++");
        VF_CHECK(got.count("lightstep.tracer_version") && got.count("lightstep.opentracing_version") && got.count("lightstep.tracer_platform_version"), "reporter-tag", "a default tag is missing");
        VF_CHECK(got.count("lightstep.component_name"), "reporter-tag", "no component name");
        if (own_name) is("lightstep.component_name", "own");
        else if (!name.empty()) is("lightstep.component_name", name);
        else is("lightstep.component_name", program());
        VF_CHECK(got.size() == tags.size() + 5, "reporter-tag", "%zu reporter tags, %zu expected", got.size(), tags.size() + 5);
      }
      vf::count("reports", seen->reports.size());
    }
    std::lock_guard<std::mutex> g(*log_mu);
    if (!verbose) for (auto& l : *log) VF_CHECK(l.first >= LogLevel::error, "verbose", "a message of level %d was logged, though not asked for", (int)l.first);
    vf::count(want ? "made" : "refused");
  }
  VF_CHECK(seen->alive == (o.transporter ? 1 : 0), "transporter", "%d transporters alive after the tracer is gone", seen->alive);
  o.transporter.reset();
  VF_CHECK(seen->alive == 0, "transporter", "the transporter isn't destroyed");
  vf::eval();
  vf::distinct(static_cast<uint64_t>(kind) * 64 + stream * 32u + verbose * 16u + own_name * 8u + want * 4u + name.empty() * 2u + tags.size() * 1000);
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  // explanations of the factory go to stderr; they are not needed here
  vf::cases("well-formed", vf::n(4000, 100000), well_formed);
  vf::cases("ill-formed", vf::n(6000, 200000), ill_formed);
  vf::cases("plug-in", vf::n(100, 1000), plug_in);
  vf::cases("options", vf::n(1500, 20000), options);
  return vf::finish();
}
