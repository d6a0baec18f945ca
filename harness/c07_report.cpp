// C07: report requests against protobuf's decoder and against their own fragments.
#include "vf.h"
#include "values.h"
#include "streams.h"
#include "common/report_request_framing.h"
#include "recorder/serialization/report_request.h"
#include "recorder/serialization/report_request_header.h"
using namespace lightstep;
using vf::Rng;

static collector::Span any_span(Rng& r) {
  collector::Span s;
  s.mutable_span_context()->set_span_id(r());
  s.mutable_span_context()->set_trace_id(r());
  s.set_operation_name(vf::utf8(r, r.chance(1, 3) ? vf::chain_size(r) : r.skewed(50)));
  for (size_t i = r.skewed(5); i > 0; --i) {
    auto* t = s.add_tags();
    t->set_key(vf::utf8(r, r.skewed(20)));
    t->set_string_value(vf::utf8(r, r.chance(1, 8) ? vf::chain_size(r) : r.skewed(40)));
  }
  return s;
}
// a framed span as the recorders store it: written after reserved room, framed, output closed, room skipped
static std::unique_ptr<ChainedStream> stored(Rng& r, const collector::Span& s) {
  std::unique_ptr<ChainedStream> c{new ChainedStream};
  size_t room = ReportRequestSpansMaxHeaderSize;
  void* d;
  int n;
  c->Next(&d, &n);
  c->BackUp(n - static_cast<int>(room));
  std::string b = s.SerializeAsString();
  if (r.chance(1, 2)) {
    google::protobuf::io::CodedOutputStream o{c.get()};
    o.WriteRaw(b.data(), static_cast<int>(b.size()));
  } else {
    s.SerializeToZeroCopyStream(c.get());
  }
  size_t body = static_cast<size_t>(c->ByteCount()) - room;
  VF_CHECK(body == b.size(), "body-size", "%zu bytes after the room, wrote %zu", body, b.size());
  size_t h = WriteReportRequestSpansHeader(static_cast<char*>(d), room, static_cast<uint32_t>(body));
  c->CloseOutput();
  c->Seek(0, static_cast<int>(room - h));
  return c;
}
struct Ctx { std::string out; size_t calls = 0, stop = ~0ull, zero = 0; };
static bool collect(void* p, const void* d, size_t n) {
  auto c = static_cast<Ctx*>(p);
  ++c->calls;
  c->zero += n == 0;
  c->out.append(static_cast<const char*>(d), n);
  return c->calls < c->stop;
}
static void report(Rng& r, int64_t) {
  LightStepTracerOptions o;
  o.access_token = vf::utf8(r, vf::text_size(r));
  for (size_t i = r.skewed(4); i > 0; --i) o.tags[vf::utf8(r, r.skewed(20))] = vf::any_value(r, 1);
  uint64_t id = r();
  auto header = std::make_shared<const std::string>(WriteReportRequestHeader(o, id));
  int dropped = r.chance(1, 2) ? 0 : static_cast<int>(r.magnitude() & 0x7fffffff);
  std::vector<collector::Span> spans;
  std::unique_ptr<ReportRequest> rr{new ReportRequest{header, dropped}};
  if (r.chance(1, 2)) header.reset();  // the report keeps what it needs alive
  size_t n = r.chance(1, 20) ? r.below(300) : r.skewed(12);
  auto check = [&] {
    VF_CHECK(rr->num_spans() == static_cast<int>(spans.size()), "num-spans", "num_spans %d, added %zu", rr->num_spans(), spans.size());
    VF_CHECK(rr->num_dropped_spans() == dropped, "num-dropped", "num_dropped_spans %d, given %d", rr->num_dropped_spans(), dropped);
    Ctx c;
    bool all = rr->ForEachFragment(collect, &c);
    VF_CHECK(all, "iteration", "a complete iteration says it was stopped");
    VF_CHECK(rr->num_fragments() == c.calls, "num-fragments", "num_fragments %zu, yields %zu (dropped %d, spans %zu)", rr->num_fragments(), c.calls, dropped, spans.size());
    VF_CHECK(rr->num_bytes() == c.out.size(), "num-bytes", "num_bytes %zu, yields %zu", rr->num_bytes(), c.out.size());
    size_t room = rr->num_bytes() + (r.chance(1, 2) ? 0 : r.below(20));
    std::unique_ptr<char[]> b{new char[room + 1]};
    memset(b.get(), 0x5a, room + 1);
    std::unique_ptr<char[]> exact{new char[room ? room : 1]};
    memset(exact.get(), 0x5a, room);
    rr->CopyOut(exact.get(), room);
    VF_CHECK(std::string(exact.get(), c.out.size()) == c.out, "copy-out", "CopyOut differs from the fragments");
    for (size_t i = c.out.size(); i < room; ++i) VF_CHECK(exact[i] == 0x5a, "copy-out", "CopyOut wrote past the end");
    // stopping early yields a prefix
    Ctx e;
    e.stop = 1 + r.below(c.calls);
    bool done = rr->ForEachFragment(collect, &e);
    VF_CHECK(e.calls == e.stop && c.out.compare(0, e.out.size(), e.out) == 0, "early-stop", "stopped at %zu of %zu after %zu calls", e.stop, c.calls, e.calls);
    VF_CHECK(!done, "early-stop", "an interrupted iteration says it was complete");
    collector::ReportRequest m;
    if (!m.ParseFromString(c.out)) { vf::fail("parse", "not a report: " + vf::hex(c.out, 200)); return; }
    VF_CHECK(m.GetReflection()->GetUnknownFields(m).empty(), "parse", "unknown fields");
    VF_CHECK(m.reporter().reporter_id() == id && m.auth().access_token() == o.access_token && m.reporter().tags_size() == static_cast<int>(o.tags.size()), "header", "reporter or token differ");
    std::string why;
    std::unordered_set<std::string> seen;
    for (auto& t : m.reporter().tags()) {
      auto it = o.tags.find(t.key());
      VF_CHECK(seen.insert(t.key()).second && it != o.tags.end() && vf::same(t, t.key(), it->second, &why), "header", "reporter tag: %s", why.c_str());
    }
    VF_CHECK(m.spans_size() == static_cast<int>(spans.size()), "spans", "%d spans, added %zu", m.spans_size(), spans.size());
    for (int i = 0; i < m.spans_size() && i < static_cast<int>(spans.size()); ++i)
      VF_CHECK(m.spans(i).SerializeAsString() == spans[static_cast<size_t>(i)].SerializeAsString(), "spans", "span %d differs", i);
    int64_t told = 0;
    for (auto& s : m.internal_metrics().counts()) if (s.name() == "spans.dropped") told += s.int_value();
    VF_CHECK(told == dropped, "dropped-metric", "reports %lld dropped, given %d", (long long)told, dropped);
    vf::eval(9);
    vf::distinct(vf::hash(c.out));
  };
  check();
  for (size_t i = 0; i < n; ++i) {
    spans.push_back(any_span(r));
    rr->AddSpan(stored(r, spans.back()));
    if (r.chance(1, n > 20 ? 60 : 4)) check();
  }
  check();
  vf::counter_max("most_spans", n);
  if (vf::st().samples.size() < 3) vf::sample(vf::fmt("%zu spans, %zu bytes in %zu fragments, %d dropped", n, rr->num_bytes(), rr->num_fragments(), dropped));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("report", vf::n(1500, 40000), report);
  return vf::finish();
}
