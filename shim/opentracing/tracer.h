#pragma once
#include <opentracing/propagation.h>
#include <opentracing/span.h>
#include <opentracing/string_view.h>
#include <opentracing/util.h>
#include <iosfwd>
#include <memory>
#include <vector>

namespace opentracing {
struct StartSpanOptions {
  SystemTime start_system_timestamp;
  SteadyTime start_steady_timestamp;
  std::vector<std::pair<SpanReferenceType, const SpanContext*>> references;
  std::vector<std::pair<std::string, Value>> tags;
};
class StartSpanOption {
 public:
  virtual ~StartSpanOption() = default;
  virtual void Apply(StartSpanOptions& options) const noexcept = 0;
};
class Tracer {
 public:
  virtual ~Tracer() = default;
  std::unique_ptr<Span> StartSpan(
      string_view name, std::initializer_list<option_wrapper<StartSpanOption>> l = {}) const noexcept {
    StartSpanOptions options;
    for (const auto& o : l) o.get().Apply(options);
    return StartSpanWithOptions(name, options);
  }
  virtual std::unique_ptr<Span> StartSpanWithOptions(string_view name,
                                                     const StartSpanOptions& options) const noexcept = 0;
  virtual expected<void> Inject(const SpanContext& sc, std::ostream& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc, const TextMapWriter& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc, const HTTPHeadersWriter& writer) const = 0;
  virtual expected<void> Inject(const SpanContext& sc, const CustomCarrierWriter& writer) const {
    return writer.Inject(*this, sc);
  }
  virtual expected<std::unique_ptr<SpanContext>> Extract(std::istream& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const TextMapReader& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const HTTPHeadersReader& reader) const = 0;
  virtual expected<std::unique_ptr<SpanContext>> Extract(const CustomCarrierReader& reader) const {
    return reader.Extract(*this);
  }
  virtual void Close() noexcept {}
};
class StartTimestamp : public StartSpanOption {
 public:
  StartTimestamp(SystemTime t) noexcept : system_(t) {}
  StartTimestamp(SteadyTime t) noexcept : steady_(t) {}
  StartTimestamp(SystemTime s, SteadyTime t) noexcept : system_(s), steady_(t) {}
  void Apply(StartSpanOptions& o) const noexcept override {
    o.start_system_timestamp = system_;
    o.start_steady_timestamp = steady_;
  }

 private:
  SystemTime system_;
  SteadyTime steady_;
};
class SpanReference : public StartSpanOption {
 public:
  SpanReference(SpanReferenceType t, const SpanContext* r) noexcept : t_(t), r_(r) {}
  void Apply(StartSpanOptions& o) const noexcept override {
    if (r_ != nullptr) o.references.emplace_back(t_, r_);
  }

 private:
  SpanReferenceType t_;
  const SpanContext* r_;
};
inline SpanReference ChildOf(const SpanContext* sc) noexcept {
  return {SpanReferenceType::ChildOfRef, sc};
}
inline SpanReference FollowsFrom(const SpanContext* sc) noexcept {
  return {SpanReferenceType::FollowsFromRef, sc};
}
class SetTag : public StartSpanOption {
 public:
  SetTag(string_view k, const Value& v) noexcept : k_(k), v_(v) {}
  void Apply(StartSpanOptions& o) const noexcept override { o.tags.emplace_back(k_, v_); }

 private:
  const string_view k_;
  const Value& v_;
};
class FinishTimestamp : public FinishSpanOption {
 public:
  FinishTimestamp(SteadyTime t) noexcept : t_(t) {}
  void Apply(FinishSpanOptions& o) const noexcept override { o.finish_steady_timestamp = t_; }

 private:
  SteadyTime t_;
};
}  // namespace opentracing
