// C06: hand-written wire encodings against protobuf's own decoder, in exact-size buffers.
#include "vf.h"
#include "values.h"
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/unknown_field_set.h>
#include "common/serialization.h"
#include "common/protobuf.h"
#include "common/utility.h"
#include "common/report_request_framing.h"
#include "common/chunked_http_framing.h"
#include "common/direct_coded_output_stream.h"
#include "recorder/serialization/embedded_metrics_message.h"
#include "recorder/serialization/report_request_header.h"
#include "tracer/serialization.h"
using namespace lightstep;
using vf::Rng;
namespace gp = google::protobuf;
namespace gpi = google::protobuf::io;

// a tiny decoder of our own
struct Field { uint32_t number; int type; uint64_t v; std::string s; };
static bool decode(const std::string& b, std::vector<Field>& out) {
  size_t i = 0;
  auto varint = [&](uint64_t& v) {
    v = 0;
    for (int k = 0; k < 10; ++k) {
      if (i >= b.size()) return false;
      uint8_t c = static_cast<uint8_t>(b[i++]);
      v |= static_cast<uint64_t>(c & 127) << (7 * k);
      if (!(c & 128)) return true;
    }
    return false;
  };
  while (i < b.size()) {
    Field f{};
    uint64_t tag;
    if (!varint(tag)) return false;
    f.number = static_cast<uint32_t>(tag >> 3);
    f.type = static_cast<int>(tag & 7);
    if (f.type == 0) { if (!varint(f.v)) return false; }
    else if (f.type == 1) { if (i + 8 > b.size()) return false; memcpy(&f.v, b.data() + i, 8); i += 8; }
    else if (f.type == 2) { if (!varint(f.v) || f.v > b.size() - i) return false; f.s = b.substr(i, f.v); i += f.v; }
    else return false;
    out.push_back(f);
  }
  return true;
}
// runs a writer on a heap block of exactly n bytes and returns what it holds
template <class F>
static std::string direct(size_t n, F f, const char* key) {
  std::unique_ptr<char[]> b{new char[n ? n : 1]};
  memset(b.get(), 0x5a, n);
  DirectCodedOutputStream s{reinterpret_cast<gp::uint8*>(b.get())};
  f(s);
  VF_CHECK(reinterpret_cast<const char*>(s.data()) == b.get() + n, key, "wrote %lld bytes, computed %zu", static_cast<long long>(reinterpret_cast<const char*>(s.data()) - b.get()), n);
  return std::string(b.get(), n);
}
// and through a stream that delivers blocks of random size
class Blocks : public gpi::ZeroCopyOutputStream {
 public:
  Blocks(Rng& r) : r_(r), mode_(r.below(3)) {}
  bool Next(void** d, int* n) override {
    size_t k = mode_ == 0 ? 1 + r_.below(4) : mode_ == 1 ? 1 + r_.below(64) : 4096;
    done();
    b_.reset(new char[k]);
    size_ = k;
    *d = b_.get();
    *n = static_cast<int>(k);
    return true;
  }
  void BackUp(int n) override { size_ -= static_cast<size_t>(n); }
  int64_t ByteCount() const override { return static_cast<int64_t>(out_.size() + size_); }
  std::string str() { done(); return out_; }
 private:
  void done() { if (b_) out_.append(b_.get(), size_); b_.reset(); size_ = 0; }
  Rng& r_;
  uint64_t mode_;
  std::unique_ptr<char[]> b_;
  size_t size_ = 0;
  std::string out_;
};
template <class F>
static std::string coded(Rng& r, F f) {
  Blocks b{r};
  {
    gpi::CodedOutputStream s{&b};
    f(s);
    VF_CHECK(!s.HadError(), "stream", "output error");
  }
  return b.str();
}

template <size_t N>
static void scalars(Rng& r) {
  uint64_t x = r.magnitude();
  uint32_t y = static_cast<uint32_t>(r.chance(1, 2) ? r.magnitude() : r.magnitude() >> 32);
  std::string s = r.bytes(vf::text_size(r));
  auto one = [&](const std::string& b, int type, uint64_t v, const std::string* t, const char* key) {
    std::vector<Field> f;
    bool ok = decode(b, f) && f.size() == 1 && f[0].number == N && f[0].type == type && (t ? f[0].s == *t : f[0].v == v);
    VF_CHECK(ok, key, "field %zu of %llx encodes to %s", N, static_cast<unsigned long long>(v), vf::hex(b).c_str());
    vf::eval();
  };
  size_t nx = ComputeVarintSerializationSize<N>(x);
  one(direct(nx, [&](DirectCodedOutputStream& o) { WriteVarint<N>(o, x); }, "varint64-size"), 0, x, nullptr, "varint64");
  one(direct(nx, [&](DirectCodedOutputStream& o) { WriteBigVarint<N>(o, x); }, "big-varint-size"), 0, x, nullptr, "big-varint");
  std::string c = coded(r, [&](gpi::CodedOutputStream& o) { WriteVarint<N>(o, x); });
  VF_CHECK(c.size() == nx, "varint64-size", "%zu bytes, computed %zu", c.size(), nx);
  one(c, 0, x, nullptr, "varint64");
  c = coded(r, [&](gpi::CodedOutputStream& o) { WriteBigVarint<N>(o, x); });
  VF_CHECK(c.size() == nx, "big-varint-size", "%zu bytes, computed %zu", c.size(), nx);
  one(c, 0, x, nullptr, "big-varint");
  size_t ny = ComputeVarintSerializationSize<N>(y);
  one(direct(ny, [&](DirectCodedOutputStream& o) { WriteVarint<N>(o, y); }, "varint32-size"), 0, y, nullptr, "varint32");
  c = coded(r, [&](gpi::CodedOutputStream& o) { WriteVarint<N>(o, y); });
  VF_CHECK(c.size() == ny, "varint32-size", "%zu bytes, computed %zu", c.size(), ny);
  one(c, 0, y, nullptr, "varint32");
  size_t nf = StaticKeySerializationSize<N, WireType::Fixed64>::value + 8;
  one(direct(nf, [&](DirectCodedOutputStream& o) { WriteFixed64<N>(o, &x); }, "fixed64-size"), 1, x, nullptr, "fixed64");
  size_t ns = ComputeLengthDelimitedSerializationSize<N>(s.size());
  VF_CHECK(ns == ComputeLengthDelimitedHeaderSerializationSize<N>(s.size()) + s.size(), "header-size", "sizes disagree for %zu", s.size());
  one(direct(ns, [&](DirectCodedOutputStream& o) { WriteString<N>(o, s); }, "string-size"), 2, 0, &s, "string");
  c = coded(r, [&](gpi::CodedOutputStream& o) { WriteString<N>(o, s); });
  VF_CHECK(c.size() == ns, "string-size", "%zu bytes, computed %zu", c.size(), ns);
  one(c, 2, 0, &s, "string");
  vf::distinct(vf::mix(x) ^ y ^ vf::hash(s));
}
static void key_values(Rng& r, int64_t) {
  vf::ForeignLocale loc(r.chance(1, 4));
  std::string key = vf::utf8(r, vf::text_size(r)), json, why;
  vf::Value v = vf::any_value(r);
  int jc = 0;
  size_t n = ComputeKeyValueSerializationSize(key, v, json, jc);
  VF_CHECK(jc == (v.kind() >= vf::Value::Arr ? 1 : 0), "json-count", "counted %d json values", jc);
  std::string b = coded(r, [&](gpi::CodedOutputStream& o) {
    int k = 0;
    WriteKeyValueImpl(o, key, v, &json, k);
    VF_CHECK(k == jc, "json-count", "used %d json values of %d", k, jc);
  });
  VF_CHECK(b.size() == n, "key-value-size", "%zu bytes, computed %zu", b.size(), n);
  collector::KeyValue kv;
  VF_CHECK(kv.ParseFromString(b) && kv.GetReflection()->GetUnknownFields(kv).empty(), "key-value-parse", "not a KeyValue: %s", vf::hex(b).c_str());
  VF_CHECK(vf::same(kv, key, v, &why), "key-value", "decodes differently: %s", why.c_str());
  // the tag of a span carries its own field header
  collector::Span span;
  b = coded(r, [&](gpi::CodedOutputStream& o) { WriteTag(o, key, v); });
  VF_CHECK(span.ParseFromString(b) && span.tags_size() == 1 && vf::same(span.tags(0), key, v, &why), "tag", "tag decodes differently: %s", why.c_str());
  VF_CHECK(vf::same(ToKeyValue(key, v), key, v, &why), "to-key-value", "%s", why.c_str());
  if (v.kind() >= vf::Value::Arr) VF_CHECK(vf::Json(ToJson(v)).matches(v, &why), "json", "%s", why.c_str());
  vf::distinct(vf::hash(b));
  vf::eval(4);
  if (vf::st().samples.size() < 3 && b.size() < 60 && b.size() > 30) vf::sample("tag bytes " + vf::hex(b));
}
static std::chrono::system_clock::time_point any_time(Rng& r) {
  uint64_t v = r.magnitude() >> 1;
  if (r.chance(1, 4)) v = r.below(9000000000ull) * 1000000000ull + (r.chance(1, 2) ? 0 : 999999999);
  return std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::nanoseconds(v)));
}
static bool same_time(const gp::Timestamp& t, std::chrono::system_clock::time_point p) {
  auto n = std::chrono::duration_cast<std::chrono::nanoseconds>(p.time_since_epoch()).count();
  return t.seconds() == n / 1000000000 && t.nanos() == n % 1000000000;
}
static void span_parts(Rng& r, int64_t) {
  collector::Span want, got;
  std::string op = vf::utf8(r, vf::text_size(r)), why;
  auto start = any_time(r);
  uint64_t dur = r.magnitude() >> 14;
  uint64_t tid = r.magnitude(), sid = r.magnitude();
  std::vector<std::pair<std::string, std::string>> bag;
  std::map<std::string, std::string> bagm;
  for (size_t i = r.skewed(8); i > 0; --i) {
    std::string k = vf::utf8(r, r.skewed(30)) + std::to_string(i), x = vf::utf8(r, vf::text_size(r));
    bag.emplace_back(k, x);
    bagm[k] = x;
  }
  struct Ref { bool child; uint64_t t, s; };
  std::vector<Ref> refs;
  for (size_t i = r.skewed(5); i > 0; --i) refs.push_back({r.chance(1, 2), r.magnitude(), r.magnitude()});
  struct Log { std::chrono::system_clock::time_point t; std::vector<std::pair<std::string, vf::Value>> f; };
  std::vector<Log> logs;
  for (size_t i = r.skewed(4); i > 0; --i) {
    Log l;
    l.t = any_time(r);
    for (size_t k = r.skewed(7); k > 0; --k) l.f.emplace_back(vf::utf8(r, r.skewed(20)), vf::any_value(r));
    logs.push_back(std::move(l));
  }
  std::vector<std::pair<std::string, vf::Value>> tags;
  for (size_t i = r.skewed(5); i > 0; --i) tags.emplace_back(vf::utf8(r, r.skewed(20)), vf::any_value(r));
  bool views = r.chance(1, 2);
  std::string b = coded(r, [&](gpi::CodedOutputStream& o) {
    WriteOperationName(o, op);
    WriteStartTimestamp(o, start);
    for (auto& x : refs) WriteSpanReference(o, x.child ? opentracing::SpanReferenceType::ChildOfRef : opentracing::SpanReferenceType::FollowsFromRef, x.t, x.s);
    for (auto& t : tags) WriteTag(o, t.first, t.second);
    for (auto& l : logs) {
      if (views) {
        std::vector<std::pair<opentracing::string_view, vf::Value>> f(l.f.begin(), l.f.end());
        WriteLog(o, l.t, f.data(), f.data() + f.size());
      } else {
        WriteLog(o, l.t, l.f.data(), l.f.data() + l.f.size());
      }
    }
    WriteDuration(o, std::chrono::microseconds(dur));
    WriteSpanContext(o, tid, sid, bag);
  });
  VF_CHECK(got.ParseFromString(b), "span-parse", "not a Span: %s", vf::hex(b, 200).c_str());
  VF_CHECK(got.GetReflection()->GetUnknownFields(got).empty(), "span-parse", "unknown fields");
  VF_CHECK(got.operation_name() == op, "operation-name", "%s for %s", vf::hex(got.operation_name()).c_str(), vf::hex(op).c_str());
  VF_CHECK(same_time(got.start_timestamp(), start), "start", "start differs: %s", got.start_timestamp().ShortDebugString().c_str());
  VF_CHECK(got.duration_micros() == dur, "duration", "%llu for %llu", (unsigned long long)got.duration_micros(), (unsigned long long)dur);
  VF_CHECK(got.span_context().trace_id() == tid && got.span_context().span_id() == sid, "context", "ids differ");
  VF_CHECK(got.span_context().baggage_size() == static_cast<int>(bagm.size()), "baggage", "%d items for %zu", (int)got.span_context().baggage_size(), bagm.size());
  for (auto& x : got.span_context().baggage()) VF_CHECK(bagm.count(x.first) && bagm[x.first] == x.second, "baggage", "item %s", vf::hex(x.first).c_str());
  VF_CHECK(got.references_size() == static_cast<int>(refs.size()), "references", "%d for %zu", got.references_size(), refs.size());
  for (int i = 0; i < got.references_size() && i < static_cast<int>(refs.size()); ++i) {
    auto& g = got.references(i);
    auto& x = refs[static_cast<size_t>(i)];
    VF_CHECK((g.relationship() == collector::Reference::CHILD_OF) == x.child && g.span_context().trace_id() == x.t && g.span_context().span_id() == x.s, "references", "reference %d differs", i);
  }
  VF_CHECK(got.tags_size() == static_cast<int>(tags.size()), "tags", "%d tags", got.tags_size());
  for (int i = 0; i < got.tags_size() && i < static_cast<int>(tags.size()); ++i)
    VF_CHECK(vf::same(got.tags(i), tags[static_cast<size_t>(i)].first, tags[static_cast<size_t>(i)].second, &why), "tags", "tag %d: %s", i, why.c_str());
  VF_CHECK(got.logs_size() == static_cast<int>(logs.size()), "logs", "%d logs", got.logs_size());
  for (int i = 0; i < got.logs_size() && i < static_cast<int>(logs.size()); ++i) {
    auto& l = logs[static_cast<size_t>(i)];
    VF_CHECK(same_time(got.logs(i).timestamp(), l.t), "log-time", "log %d time", i);
    VF_CHECK(got.logs(i).fields_size() == static_cast<int>(l.f.size()), "log-fields", "log %d has %d fields", i, got.logs(i).fields_size());
    for (int k = 0; k < got.logs(i).fields_size() && k < static_cast<int>(l.f.size()); ++k)
      VF_CHECK(vf::same(got.logs(i).fields(k), l.f[static_cast<size_t>(k)].first, l.f[static_cast<size_t>(k)].second, &why), "log-fields", "log %d field %d: %s", i, k, why.c_str());
    auto built = ToLog(l.t, l.f.begin(), l.f.end());
    VF_CHECK(same_time(built.timestamp(), l.t) && built.fields_size() == static_cast<int>(l.f.size()), "to-log", "ToLog");
    for (int k = 0; k < built.fields_size() && k < static_cast<int>(l.f.size()); ++k)
      VF_CHECK(vf::same(built.fields(k), l.f[static_cast<size_t>(k)].first, l.f[static_cast<size_t>(k)].second, &why), "to-log", "field %d: %s", k, why.c_str());
  }
  // one part alone occupies what it announces: nothing trails it
  vf::eval(12 + logs.size());
  vf::distinct(vf::hash(b));
}
static void embedded(Rng& r, int64_t) {
  // a message inside another, for any field number
  collector::KeyValue kv;
  kv.set_key(vf::utf8(r, vf::text_size(r)));
  if (r.chance(1, 2)) kv.set_string_value(vf::utf8(r, vf::text_size(r)));
  uint32_t field = static_cast<uint32_t>(1 + r.below(r.chance(1, 2) ? 40 : (1u << 29) - 1));
  size_t n = ComputeEmbeddedMessageSerializationSize(field, kv);
  VF_CHECK(n == ComputeEmbeddedMessageSerializationSize(field, kv.ByteSizeLong()), "embedded-size", "sizes disagree");
  std::unique_ptr<char[]> buf{new char[n]};
  {
    gpi::ArrayOutputStream a{buf.get(), static_cast<int>(n)};
    gpi::CodedOutputStream o{&a};
    if (r.chance(1, 2)) WriteEmbeddedMessage(o, field, kv);
    else WriteEmbeddedMessage(o, field, kv.ByteSizeLong(), kv);
    VF_CHECK(!o.HadError() && o.ByteCount() == static_cast<int>(n), "embedded-size", "wrote %d, computed %zu", o.ByteCount(), n);
  }
  std::vector<Field> f;
  collector::KeyValue back;
  VF_CHECK(decode(std::string(buf.get(), n), f) && f.size() == 1 && f[0].number == field && f[0].type == 2 && back.ParseFromString(f[0].s) && back.SerializeAsString() == kv.SerializeAsString(), "embedded", "does not decode");
  // the metrics record, set again and again
  EmbeddedMetricsMessage m;
  for (int i = 0; i < 4; ++i) {
    int d = r.chance(1, 3) ? static_cast<int>(r.below(3)) : static_cast<int>(r.magnitude() & 0x7fffffff);
    m.set_num_dropped_spans(d);
    VF_CHECK(m.num_dropped_spans() == d, "metrics", "num_dropped_spans %d after setting %d", m.num_dropped_spans(), d);
    auto fr = m.MakeFragment();
    collector::ReportRequest rep;
    bool ok = rep.ParseFromArray(fr.first, fr.second) && rep.internal_metrics().counts_size() == 1 && rep.internal_metrics().counts(0).name() == "spans.dropped" && rep.internal_metrics().counts(0).int_value() == d &&
              rep.spans_size() == 0 && rep.GetReflection()->GetUnknownFields(rep).empty();
    VF_CHECK(ok, "metrics", "fragment for %d decodes to %s", d, rep.ShortDebugString().c_str());
    vf::distinct(vf::hash(fr.first, static_cast<size_t>(fr.second)));
  }
  // the header of a report
  LightStepTracerOptions o;
  o.access_token = vf::utf8(r, vf::text_size(r));
  for (size_t i = r.skewed(6); i > 0; --i) o.tags[vf::utf8(r, r.skewed(20))] = vf::any_value(r);
  uint64_t id = r.magnitude();
  std::string h = WriteReportRequestHeader(o, id), why;
  collector::ReportRequest rep;
  VF_CHECK(rep.ParseFromString(h) && rep.reporter().reporter_id() == id && rep.auth().access_token() == o.access_token && rep.reporter().tags_size() == static_cast<int>(o.tags.size()) && rep.spans_size() == 0, "header", "header decodes differently");
  std::unordered_set<std::string> seen;
  for (auto& t : rep.reporter().tags()) {
    auto it = o.tags.find(t.key());
    VF_CHECK(seen.insert(t.key()).second && it != o.tags.end() && vf::same(t, t.key(), it->second, &why), "header-tags", "%s", why.c_str());
  }
  vf::eval(8);
}
static void framing(Rng& r, int64_t) {
  uint32_t n = static_cast<uint32_t>(r.chance(1, 2) ? r.magnitude() : r.magnitude() >> 33);
  size_t room = ReportRequestSpansMaxHeaderSize + r.below(3) * r.below(8);
  std::unique_ptr<char[]> b{new char[room]};
  memset(b.get(), 0x5a, room);
  size_t k = WriteReportRequestSpansHeader(b.get(), room, n);
  VF_CHECK(k <= room, "framing", "header of %zu in %zu", k, room);
  // tag and length alone, at the end of the buffer
  std::string got(b.get() + room - k, k), want;
  want += static_cast<char>(3 << 3 | 2);
  for (uint64_t v = n;;) { uint8_t c = v & 127; v >>= 7; want += static_cast<char>(v ? c | 128 : c); if (!v) break; }
  VF_CHECK(got == want, "framing", "span header for %u is %s", n, vf::hex(got).c_str());
  for (size_t i = 0; i + k < room; ++i) VF_CHECK(b[i] == 0x5a, "framing", "touched byte %zu before the header", i);
  room = ChunkedHttpMaxHeaderSize + r.below(3) * r.below(8);
  b.reset(new char[room]);
  memset(b.get(), 0x5a, room);
  k = WriteHttpChunkHeader(b.get(), room, n);
  got.assign(b.get() + room - k, k);
  char* end;
  bool ok = k >= 3 && k <= room && got.compare(k - 2, 2, "\r\n") == 0 && isxdigit(static_cast<unsigned char>(got[0])) && strtoull(got.c_str(), &end, 16) == n && end == got.c_str() + k - 2;
  VF_CHECK(ok, "chunk-header", "chunk header for %u is %s", n, vf::hex(got).c_str());
  for (size_t i = 0; i + k < room; ++i) VF_CHECK(b[i] == 0x5a, "chunk-header", "touched byte %zu before the header", i);
  vf::eval(2);
  vf::distinct(n);
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("scalars", vf::n(2000, 60000), [](Rng& r, int64_t) {
    switch (r.below(9)) {
      case 0: scalars<1>(r); break;
      case 1: scalars<2>(r); break;
      case 2: scalars<3>(r); break;
      case 3: scalars<15>(r); break;
      case 4: scalars<16>(r); break;
      case 5: scalars<17>(r); break;
      case 6: scalars<2047>(r); break;
      case 7: scalars<2048>(r); break;
      default: scalars<536870911>(r);
    }
  });
  // every power of two and its neighbours
  vf::cases("edges", 64, [](Rng&, int64_t i) {
    for (int d = -2; d <= 2; ++d) {
      uint64_t x = (1ull << i) + static_cast<uint64_t>(static_cast<int64_t>(d));
      for (bool big : {false, true}) {
        std::string b = direct(ComputeVarintSerializationSize<1>(x), [&](DirectCodedOutputStream& o) { if (big) WriteBigVarint<1>(o, x); else WriteVarint<1>(o, x); }, "varint-edge-size");
        std::vector<Field> f;
        VF_CHECK(decode(b, f) && f.size() == 1 && f[0].v == x, "varint-edge", "%llx encodes to %s", (unsigned long long)x, vf::hex(b).c_str());
        vf::eval();
      }
    }
  });
  vf::cases("key-values", vf::n(2500, 60000), key_values);
  vf::cases("span", vf::n(1200, 30000), span_parts);
  vf::cases("embedded", vf::n(1000, 20000), embedded);
  vf::cases("framing", vf::n(4000, 100000), framing);
  return vf::finish();
}
