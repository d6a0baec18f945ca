// C34: carriers that fail or throw at every point at which they can: their own error comes back, and nothing else is disturbed.
#include "carriers.h"
#include "lightstep/binary_carrier.h"
#include "spans.h"
#include "values.h"
#include "lightstep-tracer-common/lightstep_carrier.pb.h"
#include <sstream>
using namespace lightstep;
using vf::Mode;
using vf::Rng;
struct Category : std::error_category {
  const char* name() const noexcept override { return "vf carrier"; }
  std::string message(int n) const override { return "failure " + std::to_string(n); }
};
static Category category;
struct Broken : std::runtime_error { using runtime_error::runtime_error; };
// A carrier which fails at its n-th step; a step is a call, or an item of an iteration, or the end of one.
enum class How { error, thrown, refuse_key };
template <class Base>
struct Failing : Base {
  mutable long steps = 0;
  long at = -1;
  How how = How::error;
  std::error_code code;
  mutable bool failed = false;
  mutable long after = 0;  // steps taken after the failure
  bool fails() const {
    if (failed) ++after;
    if (steps++ != at) return false;
    failed = true;
    if (how == How::thrown) throw Broken("carrier");
    return true;
  }
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view v) const override {
    if (fails()) return opentracing::make_unexpected(code);
    return Base::Set(k, v);
  }
  opentracing::expected<opentracing::string_view> LookupKey(opentracing::string_view key) const override {
    if (this->lookup && fails()) return opentracing::make_unexpected(code);
    return Base::LookupKey(key);
  }
  opentracing::expected<void> ForeachKey(std::function<opentracing::expected<void>(opentracing::string_view, opentracing::string_view)> f) const override {
    if (fails()) return opentracing::make_unexpected(code);
    bool broke = false;
    auto r = Base::ForeachKey([&](opentracing::string_view k, opentracing::string_view v) -> opentracing::expected<void> {
      auto x = f(k, v);
      if (!x) return x;
      if (fails()) { broke = true; return opentracing::make_unexpected(code); }
      return x;
    });
    if (!r && broke) return opentracing::make_unexpected(code);
    return r;
  }
};
static std::shared_ptr<LightStepTracer> quiet(bool legacy, const LightStepTracerOptions& o) {
  return vf::make_tracer(legacy, std::unique_ptr<Recorder>{new vf::Capture{std::make_shared<vf::Delivered>()}}, o);
}
static std::error_code any_code(Rng& r) {
  switch (r.below(5)) {
    case 0: return std::make_error_code(std::errc::io_error);
    case 1: return std::make_error_code(std::errc::not_enough_memory);
    case 2: return opentracing::span_context_corrupted_error;
    default: return {static_cast<int>(1 + r.below(6)), category};
  }
}
static std::string name_of(const std::vector<Mode>& modes) {
  std::string s;
  for (auto m : modes) s += std::string(s.empty() ? "" : "+") + vf::mode_name(m);
  return s;
}
struct Seen {  // what an extraction came to
  int kind = 0;  // 0 no context, 1 a context, 2 an error, 3 an exception
  std::error_code error;
  uint64_t hi = 0, lo = 0, id = 0;
  bool sampled = false;
  std::map<std::string, std::string> baggage;
  bool operator==(const Seen& o) const { return kind == o.kind && error == o.error && hi == o.hi && lo == o.lo && id == o.id && sampled == o.sampled && baggage == o.baggage; }
  std::string text() const { return kind == 0 ? "no context" : kind == 1 ? vf::fmt("context %llx%016llx/%llx", (unsigned long long)hi, (unsigned long long)lo, (unsigned long long)id) : kind == 2 ? "error " + error.message() : "an exception"; }
};
template <class Rd>
static Seen extract(const opentracing::Tracer& t, Rd& c) {
  Seen s;
  try {
    auto r = t.Extract(c);
    if (!r) { s.kind = 2; s.error = r.error(); return s; }
    if (!*r) return s;
    auto x = dynamic_cast<const LightStepSpanContext*>(r->get());
    if (!x) { vf::fail("context", "a context of another type"); return s; }
    s.kind = 1;
    s.hi = x->trace_id_high();
    s.lo = x->trace_id_low();
    s.id = x->span_id();
    s.sampled = x->sampled();
    x->ForeachBaggageItem([&](const std::string& k, const std::string& v) { s.baggage[k] = v; return true; });
  } catch (const Broken&) {
    s.kind = 3;
  } catch (const std::exception&) {
    s.kind = 4;
  }
  return s;
}
static std::unique_ptr<opentracing::Span> any_span(Rng& r, const opentracing::Tracer& t) {
  auto s = t.StartSpan("operation");
  for (size_t k = r.below(4); k > 0; --k) s->SetBaggageItem(r.alnum(1 + r.below(5)), r.alnum(r.below(20)));
  if (r.chance(1, 4)) s->SetTag("sampling.priority", 0);
  return s;
}
template <class C, class W, class Rd>
static void text(Rng& r, bool http) {
  std::vector<Mode> modes;
  auto o = vf::any_modes(r, modes);
  auto t = quiet(r.chance(1, 2), o);
  auto span = any_span(r, *t);
  std::string names = name_of(modes) + (http ? " http" : " map");
  // injection
  C good;
  good.fold = http;
  auto fine = t->Inject(span->context(), static_cast<W&>(good));
  VF_CHECK(fine, "inject", "%s: injection into a sound carrier failed", names.c_str());
  long sets = good.sets;
  for (long at = 0; at <= sets; ++at) {
    for (How how : {How::error, How::thrown}) {
      Failing<C> f;
      f.fold = http;
      f.at = at;
      f.how = how;
      f.code = any_code(r);
      try {
        auto x = t->Inject(span->context(), static_cast<W&>(f));
        if (!f.failed) VF_CHECK(x, "inject", "%s: injection failed though the carrier did not", names.c_str());
        else if (how == How::error) VF_CHECK(!x && x.error() == f.code, "inject-error", "%s: Set number %ld failed with \"%s\", Inject says %s", names.c_str(), at, f.code.message().c_str(), x ? "it went well" : x.error().message().c_str());
        else VF_CHECK(!x, "inject-thrown", "%s: Set number %ld threw, Inject says it went well", names.c_str(), at);
      } catch (const Broken&) {
        VF_CHECK(f.failed && how == How::thrown, "inject-thrown", "%s: an exception from nowhere", names.c_str());
      }
      VF_CHECK(f.failed == (at < sets), "inject-steps", "%s: %ld of %ld items were set", names.c_str(), f.steps, sets);
      VF_CHECK(f.after == 0, "inject-after", "%s: %ld more items were set after Set number %ld had failed", names.c_str(), f.after, at);
      vf::eval();
    }
  }
  C again;
  again.fold = http;
  VF_CHECK(t->Inject(span->context(), static_cast<W&>(again)) && again.sets == sets && extract(*t, static_cast<Rd&>(again)) == extract(*t, static_cast<Rd&>(good)), "inject-disturbed", "%s: after failures the same context is injected otherwise", names.c_str());
  // extraction, by a tracer of any configuration
  std::vector<Mode> m2;
  auto o2 = vf::any_modes(r, m2);
  auto u = quiet(r.chance(1, 2), r.chance(1, 2) ? o : o2);
  if (r.chance(1, 3)) good.items.erase(good.items.begin() + static_cast<long>(r.below(good.items.size())));
  if (r.chance(1, 5) && !good.items.empty()) good.items[r.below(good.items.size())].second = r.bytes(r.below(30));
  for (size_t k = r.below(3); k > 0; --k) good.items.insert(good.items.begin() + static_cast<long>(r.below(good.items.size() + 1)), {r.alnum(6), r.alnum(6)});
  Seen by_iteration, by_lookup;
  for (bool lookup : {false, true}) {
    good.lookup = lookup;
    Seen want = extract(*u, static_cast<Rd&>(good));
    VF_CHECK(want.kind <= 2, "thrown", "%s: extraction from a sound carrier threw", names.c_str());
    (lookup ? by_lookup : by_iteration) = want;
    for (How how : {How::error, How::thrown}) {
      for (long at = 0;; ++at) {
        Failing<C> f;
        f.items = good.items;
        f.fold = http;
        f.lookup = lookup;
        f.at = at;
        f.how = how;
        f.code = any_code(r);
        Seen got = extract(*u, static_cast<Rd&>(f));
        vf::eval();
        if (!f.failed) {
          VF_CHECK(got == want, "extract", "%s: %s, and %s from the same carrier that could have failed", names.c_str(), want.text().c_str(), got.text().c_str());
          vf::distinct(vf::mix(static_cast<uint64_t>(at) * 64 + modes.size() * 8 + static_cast<uint64_t>(want.kind) + (vf::hash(names) << 8)));
          vf::count("fail_points", static_cast<uint64_t>(at));
          break;
        }
        if (how == How::error) VF_CHECK(got.kind == 2 && got.error == f.code, "extract-error", "%s: step %ld of the carrier failed with \"%s\", Extract says %s", names.c_str(), at, f.code.message().c_str(), got.text().c_str());
        else VF_CHECK(got.kind == 2 || got.kind == 3, "extract-thrown", "%s: step %ld of the carrier threw, Extract says %s", names.c_str(), at, got.text().c_str());
        VF_CHECK(f.after == 0, "extract-after", "%s: %ld more steps after step %ld had failed", names.c_str(), f.after, at);
        if (at > 10000) { vf::fail("endless", names + ": extraction goes on without end"); break; }
      }
    }
  }
  bool unique = true;  // a carrier that can look up and one that cannot must agree, unless it has a key twice
  std::map<std::string, int> keys;
  for (auto& i : good.items) unique = unique && ++keys[vf::lower(i.first)] == 1;
  if (unique) VF_CHECK(by_iteration == by_lookup, "lookup", "%s: %s by iteration, %s by look-up", names.c_str(), by_iteration.text().c_str(), by_lookup.text().c_str());
}
// ---- streams that break
struct Buf : std::streambuf {
  std::string data;
  size_t at;        // fails once so many bytes have passed
  bool thrown, failed = false;
  size_t pos = 0;
  char one;
  Buf(std::string d, size_t a, bool t) : data(std::move(d)), at(a), thrown(t) {}
  bool bad() {
    if (pos < at) return false;
    failed = true;
    if (thrown) throw Broken("stream");
    return true;
  }
  int_type overflow(int_type c) override {
    if (bad()) return traits_type::eof();
    data += static_cast<char>(c);
    ++pos;
    return c;
  }
  int_type underflow() override {
    if (pos >= at && thrown) bad();
    if (pos >= data.size()) return traits_type::eof();
    one = data[pos++];
    setg(&one, &one, &one + 1);
    return traits_type::to_int_type(one);
  }
};
static void binary(Rng& r) {
  std::vector<Mode> modes;
  auto t = quiet(r.chance(1, 2), vf::any_modes(r, modes));
  auto span = any_span(r, *t);
  std::ostringstream whole;
  VF_CHECK(t->Inject(span->context(), whole), "inject", "injection into a sound stream failed");
  std::string bytes = whole.str();
  for (int mode = 0; mode < 4; ++mode) {
    bool thrown = mode & 1, exceptions = mode & 2;
    for (size_t at = 0; at <= bytes.size(); ++at) {
      {
        Buf b("", at, thrown);
        std::ostream s(&b);
        if (exceptions) s.exceptions(std::ios::badbit | std::ios::failbit);
        try {
          auto x = t->Inject(span->context(), s);
          VF_CHECK(static_cast<bool>(x) == !b.failed, "stream-inject", "a stream failed after %zu of %zu bytes, Inject says it went %s", at, bytes.size(), x ? "well" : "wrong");
          if (x) VF_CHECK(b.data.size() == bytes.size(), "stream-inject", "%zu bytes arrived of %zu", b.data.size(), bytes.size());
          else VF_CHECK(x.error() == std::make_error_code(std::errc::io_error), "stream-error", "the error of a broken stream is \"%s\"", x.error().message().c_str());
        } catch (const std::exception&) {
          VF_CHECK(b.failed && exceptions, "stream-thrown", "an exception from nowhere");
        }
        vf::eval();
      }
      if (thrown) {
        Buf b(bytes, at, true);
        std::istream s(&b);
        if (exceptions) s.exceptions(std::ios::badbit);
        Seen got = extract(*t, s);
        if (b.failed) VF_CHECK(got.kind >= 2 && (got.kind == 2 || exceptions), "stream-extract", "a stream failed after %zu of %zu bytes, Extract says %s", at, bytes.size(), got.text().c_str());
        else VF_CHECK(got.kind == 1, "stream-extract", "%s from a whole stream", got.text().c_str());
        vf::eval();
      }
    }
  }
  // one that has failed before
  std::istringstream dead(bytes);
  dead.setstate(r.chance(1, 2) ? std::ios::badbit : std::ios::failbit);
  VF_CHECK(extract(*t, dead).kind == 2, "stream-extract", "no error from a stream that has failed");
  std::istringstream sound(bytes);
  Seen got = extract(*t, sound);
  auto x = dynamic_cast<const LightStepSpanContext*>(&span->context());
  VF_CHECK(got.kind == 1 && x && got.id == x->span_id() && got.lo == x->trace_id_low(), "extract", "after failures, %s", got.text().c_str());
  vf::distinct(vf::hash(bytes));
}
// ---- contexts of others
struct Foreign : opentracing::SpanContext {
  void ForeachBaggageItem(std::function<bool(const std::string&, const std::string&)>) const override {}
};
struct Other : opentracing::Tracer {
  template <class T> using expected = opentracing::expected<T>;
  using Context = std::unique_ptr<opentracing::SpanContext>;
  std::unique_ptr<opentracing::Span> StartSpanWithOptions(opentracing::string_view, const opentracing::StartSpanOptions&) const noexcept override { return nullptr; }
  expected<void> Inject(const opentracing::SpanContext&, std::ostream&) const override { return {}; }
  expected<void> Inject(const opentracing::SpanContext&, const opentracing::TextMapWriter&) const override { return {}; }
  expected<void> Inject(const opentracing::SpanContext&, const opentracing::HTTPHeadersWriter&) const override { return {}; }
  expected<Context> Extract(std::istream&) const override { return Context{}; }
  expected<Context> Extract(const opentracing::TextMapReader&) const override { return Context{}; }
  expected<Context> Extract(const opentracing::HTTPHeadersReader&) const override { return Context{}; }
};
static void foreign(Rng& r) {
  std::vector<Mode> modes;
  auto t = quiet(r.chance(1, 2), vf::any_modes(r, modes));
  Foreign f;
  vf::TextMap m;
  vf::HttpHeaders h;
  std::ostringstream s;
  auto a = t->Inject(f, static_cast<opentracing::TextMapWriter&>(m));
  auto b = t->Inject(f, static_cast<opentracing::HTTPHeadersWriter&>(h));
  auto c = t->Inject(f, s);
  VF_CHECK(!a && !b && !c && a.error() == opentracing::invalid_span_context_error && b.error() == a.error() && c.error() == a.error(), "foreign", "a foreign context was injected, or refused with another error");
  VF_CHECK(m.items.empty() && h.items.empty() && s.str().empty(), "foreign", "something of a foreign context was written");
  // a message given to another tracer, or a foreign context written to a message
  Other other;
  auto span = any_span(r, *t);
  BinaryCarrier bc;
  bc.mutable_basic_ctx()->set_trace_id(7);
  std::string before = bc.SerializeAsString();
  LightStepBinaryWriter w{bc};
  LightStepBinaryReader rd{&bc};
  auto e = w.Inject(other, span->context());
  auto g = rd.Extract(other);
  auto i = w.Inject(*t, f);
  VF_CHECK(!e && !g && e.error() == opentracing::invalid_carrier_error && g.error() == e.error(), "foreign", "a message was used with a foreign tracer, or refused with another error");
  VF_CHECK(!i && i.error() == opentracing::invalid_span_context_error && bc.SerializeAsString() == before, "foreign", "a foreign context was written to a message, or refused with another error");
  vf::eval(6);
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("map", vf::n(700, 20000), [](Rng& r, int64_t) { text<vf::TextMap, opentracing::TextMapWriter, opentracing::TextMapReader>(r, false); });
  vf::cases("http", vf::n(700, 20000), [](Rng& r, int64_t) { text<vf::HttpHeaders, opentracing::HTTPHeadersWriter, opentracing::HTTPHeadersReader>(r, true); });
  vf::cases("binary", vf::n(150, 4000), [](Rng& r, int64_t) { binary(r); });
  vf::cases("foreign", vf::n(50, 500), [](Rng& r, int64_t) { foreign(r); });
  return vf::finish();
}
