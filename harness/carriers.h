// Carriers whose keys and values lie in exact heap blocks, and propagation configurations.
#pragma once
#include "vf.h"
#include <algorithm>
#include <memory>
#include <opentracing/propagation.h>
#include "lightstep/tracer.h"
namespace vf {
using opentracing::expected;
using opentracing::string_view;
inline std::string lower(std::string s) {
  for (auto& c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
  return s;
}
template <class Reader, class Writer>
struct CarrierOf : Reader, Writer {
  mutable std::vector<std::pair<std::string, std::string>> items;
  bool fold = false;    // names are compared without case
  bool lookup = false;  // LookupKey is supported
  long fail_at = -1;    // the n-th Set fails
  mutable long sets = 0;
  mutable size_t visits = 0;
  bool eq(const std::string& a, const std::string& b) const { return fold ? lower(a) == lower(b) : a == b; }
  expected<void> Set(string_view k, string_view v) const override {
    if (sets++ == fail_at) return opentracing::make_unexpected(std::make_error_code(std::errc::no_space_on_device));
    std::string key(k.data(), k.size()), val(v.data(), v.size());
    for (auto& x : items) if (eq(x.first, key)) { x.second = val; return {}; }
    items.emplace_back(key, val);
    return {};
  }
  static std::shared_ptr<char> block(const std::string& s) {
    std::shared_ptr<char> p(new char[s.size()], [](char* c) { delete[] c; });
    if (!s.empty()) memcpy(p.get(), s.data(), s.size());
    return p;
  }
  expected<string_view> LookupKey(string_view key) const override {
    if (!lookup) return Reader::LookupKey(key);
    for (auto& x : items)
      if (eq(x.first, std::string(key.data(), key.size()))) {
        held = block(x.second);
        return string_view{held.get(), x.second.size()};
      }
    return opentracing::make_unexpected(opentracing::key_not_found_error);
  }
  expected<void> ForeachKey(std::function<expected<void>(string_view, string_view)> f) const override {
    helds.clear();
    for (auto& x : items) {
      ++visits;
      auto k = block(x.first), v = block(x.second);
      helds.push_back(v);
      auto r = f(string_view{k.get(), x.first.size()}, string_view{v.get(), x.second.size()});
      if (!r) return r;
    }
    return {};
  }
  const std::string* find(const std::string& k) const {
    for (auto& x : items) if (eq(x.first, k)) return &x.second;
    return nullptr;
  }
  mutable std::shared_ptr<char> held;
  mutable std::vector<std::shared_ptr<char>> helds;
};
using TextMap = CarrierOf<opentracing::TextMapReader, opentracing::TextMapWriter>;
using HttpHeaders = CarrierOf<opentracing::HTTPHeadersReader, opentracing::HTTPHeadersWriter>;
using Mode = lightstep::PropagationMode;
inline const char* mode_name(Mode m) {
  switch (m) {
    case Mode::lightstep: return "lightstep";
    case Mode::b3: return "b3";
    case Mode::envoy: return "envoy";
    case Mode::trace_context: return "trace_context";
    case Mode::cloud_trace: return "cloud_trace";
  }
  return "?";
}
static const Mode all_modes[] = {Mode::lightstep, Mode::b3, Mode::envoy, Mode::trace_context, Mode::cloud_trace};
// a random configuration; `modes` lists what it stands for, without repetitions
inline lightstep::LightStepTracerOptions any_modes(Rng& r, std::vector<Mode>& modes) {
  lightstep::LightStepTracerOptions o;
  modes.clear();
  if (r.chance(1, 10)) {
    o.use_single_key_propagation = r.chance(1, 2);
    modes = {o.use_single_key_propagation ? Mode::envoy : Mode::lightstep};
    o.propagation_modes.clear();
    return o;
  }
  size_t n = r.chance(1, 2) ? 1 : 1 + r.below(6);
  o.propagation_modes.clear();
  for (; n > 0; --n) {
    Mode m = all_modes[r.below(5)];
    o.propagation_modes.push_back(m);
    if (std::find(modes.begin(), modes.end(), m) == modes.end()) modes.push_back(m);
  }
  o.use_single_key_propagation = r.chance(1, 4);
  return o;
}
// which format a header belongs to
inline bool belongs(const std::string& name, Mode m) {
  std::string l = lower(name);
  switch (m) {
    case Mode::lightstep: return l.compare(0, 10, "ot-tracer-") == 0;
    case Mode::b3: return l.compare(0, 5, "x-b3-") == 0;
    case Mode::envoy: return l == "x-ot-span-context";
    case Mode::trace_context: return l == "traceparent" || l == "tracestate";
    case Mode::cloud_trace: return l == "x-cloud-trace-context";
  }
  return false;
}
inline bool wide(Mode m) { return m == Mode::b3 || m == Mode::trace_context || m == Mode::cloud_trace; }
}  // namespace vf
