// What a transport received: reports decoded as the back end would; and an observer that counts.
#pragma once
#include "spans.h"
#include "lightstep/buffer_chain.h"
#include "lightstep-tracer-common/collector.pb.h"
namespace vf {
struct Observer : ls::MetricsObserver {
  struct Counts { std::atomic<int64_t> sent{0}, dropped{0}, flushes{0}; };
  std::shared_ptr<Counts> c;
  explicit Observer(std::shared_ptr<Counts> x) : c(std::move(x)) {}
  void OnSpansSent(int n) noexcept override { VF_CHECK(n >= 0, "observer-negative", "%d spans sent", n); c->sent += n; }
  void OnSpansDropped(int n) noexcept override { VF_CHECK(n >= 0, "observer-negative", "%d spans dropped", n); c->dropped += n; }
  void OnFlush() noexcept override { ++c->flushes; }
};
struct Report { std::vector<std::string> spans; int64_t dropped = 0; uint64_t reporter = 0; std::string token, raw; size_t metrics = 0; bool ok = false; };
inline bool append_fragment(void* p, const void* d, size_t n) {
  static_cast<std::string*>(p)->append(static_cast<const char*>(d), n);
  return true;
}
inline std::string raw(const ls::BufferChain& b) {
  std::string t;
  if (!b.ForEachFragment(append_fragment, &t)) fail("iteration-stopped", "a whole iteration over a report says it was interrupted");
  if (t.size() != b.num_bytes()) fail("report-size", fmt("%zu bytes in the fragments, num_bytes says %zu", t.size(), b.num_bytes()));
  return t;
}
// A span made by `mark` carries its name in a tag too, with a payload derived from the name.
inline std::string payload(const std::string& name, size_t n) {
  std::string r;
  Rng q(hash(name));
  return q.alnum(n);
}
inline void mark(opentracing::Span& s, const std::string& name, size_t n) {
  s.SetTag("vf.size", static_cast<uint64_t>(n));
  s.SetTag("vf.load", payload(name, n));
}
inline bool intact(const ls::collector::Span& s) {
  const ls::collector::KeyValue *size = nullptr, *load = nullptr;
  for (auto& t : s.tags()) {
    if (t.key() == "vf.size") size = &t;
    if (t.key() == "vf.load") load = &t;
  }
  if (!size || !load) return false;
  return load->string_value() == payload(s.operation_name(), static_cast<size_t>(size->int_value()));
}
inline Report decode(const ls::collector::ReportRequest& p) {
  Report r;
  r.ok = true;
  for (auto& s : p.spans()) {
    r.spans.push_back(s.operation_name());
    if (!intact(s)) fail("span-altered", "span " + s.operation_name() + " arrived altered");
  }
  for (auto& m : p.internal_metrics().counts()) {
    if (m.name() == "spans.dropped") r.dropped += m.int_value();
    ++r.metrics;
  }
  r.reporter = p.reporter().reporter_id();
  r.token = p.auth().access_token();
  return r;
}
inline Report decode(const std::string& bytes) {
  ls::collector::ReportRequest p;
  if (!p.ParseFromString(bytes)) { fail("report-parse", "a report does not parse: " + hex(bytes, 200)); return {}; }
  Report r = decode(p);
  r.raw = bytes;
  return r;
}
}  // namespace vf
