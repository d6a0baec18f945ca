// Tracers of both kinds over a recorder that keeps what it is given.
#pragma once
#include "vf.h"
#include "streams.h"
#include "recorder/recorder.h"
#include "tracer/legacy/legacy_tracer_impl.h"
#include "tracer/lightstep_span_context.h"
#include "tracer/tracer_impl.h"
namespace vf {
namespace ls = lightstep;
struct Delivered {
  std::mutex mu;
  std::vector<ls::collector::Span> spans;
  size_t bad = 0;
  std::vector<ls::collector::Span> take() {
    std::lock_guard<std::mutex> l(mu);
    return std::move(spans);
  }
};
// what a Recorder receives, decoded as the back end would
class Capture : public ls::Recorder {
 public:
  explicit Capture(std::shared_ptr<Delivered> d, std::function<int64_t()> delta = nullptr) : d_(std::move(d)), delta_(std::move(delta)) {}
  ls::Fragment ReserveHeaderSpace(ls::ChainedStream& s) override {
    void* p;
    int n;
    if (!s.Next(&p, &n)) throw std::bad_alloc{};
    const int room = 7;
    s.BackUp(n - room);
    return {p, room};
  }
  void WriteFooter(google::protobuf::io::CodedOutputStream& c) override { c.WriteRaw("\r\n", 2); }
  void RecordSpan(ls::Fragment h, std::unique_ptr<ls::ChainedStream>&& s) noexcept override {
    if (!s) { fail("null-span", "a null span was recorded"); return; }
    int64_t n = s->ByteCount();
    s->CloseOutput();
    std::string t = text(*s);
    if (static_cast<int64_t>(t.size()) != n) fail("span-bytes", fmt("%zu bytes, ByteCount %lld", t.size(), (long long)n));
    if (h.second != 7 || t.size() < 9 || t.compare(t.size() - 2, 2, "\r\n") != 0) { fail("span-frame", "the reserved header or the footer is not there"); return; }
    ls::collector::Span p;
    if (!p.ParseFromString(t.substr(7, t.size() - 9))) { fail("span-parse", "the span does not parse: " + hex(t, 200)); return; }
    std::lock_guard<std::mutex> l(d_->mu);
    d_->spans.push_back(std::move(p));
  }
  void RecordSpan(const ls::collector::Span& s) noexcept override {
    std::string b;
    ls::collector::Span p;
    if (!s.SerializeToString(&b) || !p.ParseFromString(b)) fail("span-parse", "the span does not parse");
    std::lock_guard<std::mutex> l(d_->mu);
    d_->spans.push_back(std::move(p));
  }
  int64_t ComputeSystemSteadyTimestampDelta() const noexcept override { return delta_ ? delta_() : Recorder::ComputeSystemSteadyTimestampDelta(); }

 private:
  std::shared_ptr<Delivered> d_;
  std::function<int64_t()> delta_;
};
inline std::shared_ptr<ls::LightStepTracer> make_tracer(bool legacy, std::unique_ptr<ls::Recorder> rec, const ls::LightStepTracerOptions& o = ls::LightStepTracerOptions{},
                                                        std::shared_ptr<ls::Logger> log = std::make_shared<ls::Logger>([](ls::LogLevel, opentracing::string_view) {})) {
  if (legacy) return std::make_shared<ls::LegacyTracerImpl>(log, ls::MakePropagationOptions(o), std::move(rec));
  return std::make_shared<ls::TracerImpl>(log, ls::MakePropagationOptions(o), std::move(rec));
}
}  // namespace vf
