// C08: connections sharing one span stream, with scripted partial, blocked and failing writes.
#include "vf.h"
#include "streams.h"
#include "http.h"
#include <deque>
#include "common/chunked_http_framing.h"
#include "common/report_request_framing.h"
#include "recorder/stream_recorder/connection_stream.h"
#include "recorder/stream_recorder/span_stream.h"
#include "recorder/serialization/report_request_header.h"
using namespace lightstep;
using vf::Rng;

struct Obs : MetricsObserver {
  int sent = 0, dropped = 0;
  void OnSpansSent(int n) noexcept override { sent += n; if (n < 0) vf::fail("negative", "OnSpansSent(negative)"); }
  void OnSpansDropped(int n) noexcept override { dropped += n; }
};
// a span framed as the stream recorder frames it
static std::unique_ptr<ChainedStream> framed(const collector::Span& s, std::string* bytes) {
  std::unique_ptr<ChainedStream> c{new ChainedStream};
  const int room = static_cast<int>(ReportRequestSpansMaxHeaderSize + ChunkedHttpMaxHeaderSize);
  void* d;
  int n;
  c->Next(&d, &n);
  c->BackUp(n - room);
  std::string b = s.SerializeAsString();
  {
    google::protobuf::io::CodedOutputStream o{c.get()};
    o.WriteRaw(b.data(), static_cast<int>(b.size()));
    o.WriteRaw(ChunkedHttpFooter.data(), static_cast<int>(ChunkedHttpFooter.size()));
  }
  size_t h = WriteReportRequestSpansHeader(static_cast<char*>(d), static_cast<size_t>(room), static_cast<uint32_t>(b.size()));
  size_t k = WriteHttpChunkHeader(static_cast<char*>(d), static_cast<size_t>(room) - h, static_cast<uint32_t>(b.size() + h));
  c->CloseOutput();
  c->Seek(0, static_cast<int>(static_cast<size_t>(room) - h - k));
  *bytes = vf::text(*c);
  return c;
}
static collector::Span span(Rng& r, uint64_t id) {
  collector::Span s;
  s.mutable_span_context()->set_span_id(id);
  s.set_operation_name(r.alnum(r.chance(1, 4) ? vf::chain_size(r) : r.skewed(40)));
  return s;
}
// ---- the span stream alone: one model of bytes
static void stream_only(Rng& r, int64_t) {
  Obs obs;
  MetricsTracker metrics{obs};
  CircularBuffer<ChainedStream> buffer{1 + r.below(12)};
  SpanStream ss{buffer, metrics};
  std::deque<std::string> model;  // bytes of the buffered spans
  int sent = 0;
  uint64_t id = 0, h = 0;
  for (size_t step = 20 + r.below(40); step > 0; --step) {
    for (size_t k = r.below(4); k > 0; --k) {
      std::string b;
      auto s = framed(span(r, ++id), &b);
      if (buffer.Add(s)) model.push_back(b);
    }
    ss.Allot();
    size_t seen = model.size();
    for (size_t k = r.chance(1, 3) ? r.below(3) : 0; k > 0; --k) {  // added after the allotment: not part of it
      std::string b;
      auto s = framed(span(r, ++id), &b);
      if (buffer.Add(s)) model.push_back(b);
    }
    std::string all;
    std::vector<size_t> ends;
    for (size_t i = 0; i < seen; ++i) { all += model[i]; ends.push_back(all.size()); }
    int nf = 0;
    std::string t = vf::text(ss, &nf);
    VF_CHECK(t == all, "allotment", "stream holds %zu bytes, buffer held %zu", t.size(), all.size());
    VF_CHECK(ss.num_fragments() == nf, "fragments", "num_fragments %d, yields %d", ss.num_fragments(), nf);
    VF_CHECK(ss.empty() == (nf == 0), "empty", "empty() with %d fragments", nf);
    // nothing, a random cut, a cut at or next to a boundary, or everything
    size_t n = r.below(all.size() + 1);
    if (!ends.empty() && r.chance(1, 2)) {
      n = r.pick(ends) + r.below(3) - 1;
      if (n > all.size()) n = all.size();
    }
    if (r.chance(1, 6)) n = all.size();
    if (r.chance(1, 8)) n = 0;
    bool touched = n > 0 || r.chance(1, 2);
    h = vf::mix(h ^ n ^ (all.size() << 20));
    if (touched) {
      bool done = Consume({&ss}, static_cast<int>(n));
      VF_CHECK(done == (n == all.size()), "done", "Consume(%zu of %zu) says %d", n, all.size(), done);
    }
    size_t gone = 0, full = 0;
    while (full < seen && ends[full] <= n) ++full;
    gone = full;
    std::string want;
    if (n < all.size() && full < seen && n > (full ? ends[full - 1] : 0)) {
      want = all.substr(n, ends[full] - n);
      ++gone;
    }
    for (size_t i = 0; i < gone; ++i) model.pop_front();
    sent += static_cast<int>(full);
    auto rem = ss.ConsumeRemnant();
    VF_CHECK((rem != nullptr) == !want.empty(), "remnant", "consumed %zu of %zu: remnant %s, expected %zu bytes", n, all.size(), rem ? "present" : "absent", want.size());
    if (rem) {
      std::string g = vf::text(*rem);
      VF_CHECK(g == want, "remnant", "remnant of %zu bytes, expected %zu", g.size(), want.size());
    }
    VF_CHECK(ss.ConsumeRemnant() == nullptr, "remnant-twice", "a remnant was handed out twice");
    VF_CHECK(buffer.size() == model.size(), "buffered", "%zu spans buffered, expected %zu", (size_t)buffer.size(), model.size());
    VF_CHECK(obs.sent == sent, "sent", "%d spans counted as sent, %d were handed out", obs.sent, sent);
    vf::eval(8);
  }
  VF_CHECK(obs.dropped == 0, "dropped", "%d dropped", obs.dropped);
  vf::distinct(h);
}
// ---- several connections
struct Session { std::string got; bool live = true; };
static void connections(Rng& r, int64_t) {
  Obs obs;
  MetricsTracker metrics{obs};
  CircularBuffer<ChainedStream> buffer{1 + r.below(r.chance(1, 2) ? 8 : 60)};
  SpanStream ss{buffer, metrics};
  LightStepTracerOptions o;
  o.access_token = r.alnum(r.below(30));
  std::string common = WriteReportRequestHeader(o, 77), host = "Host:" + r.alnum(1 + r.below(9)) + "\r\n";
  Fragment hf{&host[0], static_cast<int>(host.size())}, cf{&common[0], static_cast<int>(common.size())};
  size_t nc = 1 + r.below(4);
  std::vector<std::unique_ptr<ConnectionStream>> cs;
  std::vector<std::vector<Session>> sessions(nc);
  for (size_t i = 0; i < nc; ++i) {
    cs.emplace_back(new ConnectionStream{hf, cf, ss});
    sessions[i].emplace_back();
  }
  std::map<uint64_t, std::string> spans;  // accepted by the buffer
  uint64_t id = 0, h = nc;
  int extra_dropped = 0, cut = 0;
  bool failing = r.chance(1, 2), final = false;
  size_t total_flushes = 0, partial = 0, thrown = 0;
  auto flush = [&](size_t i, int mode) {  // 0 random budget, 1 everything, 2 nothing, 3 fail after a random budget
    auto& se = sessions[i].back();
    auto writer = [&](std::initializer_list<FragmentInputStream*> l) {
      std::string all;
      for (auto s : l) all += vf::text(*s);
      size_t n = mode == 1 ? all.size() : mode == 2 ? 0 : r.chance(1, 4) ? std::min<size_t>(all.size(), r.below(30)) : r.below(all.size() + 1);
      se.got += all.substr(0, n);
      h = vf::mix(h ^ (n << 3) ^ i);
      bool done = all.empty() ? true : Consume(l, static_cast<int>(n));
      if (mode == 3) throw std::runtime_error("connection reset");
      VF_CHECK(done == (n == all.size()), "done", "wrote %zu of %zu, Consume says %d", n, all.size(), done);
      partial += !done;
      return done;
    };
    ++total_flushes;
    vf::eval();
    try {
      bool done = cs[i]->Flush(writer);
      if (mode == 1) VF_CHECK(done, "flush", "everything was accepted but Flush says %d", done);
    } catch (const std::runtime_error&) {
      ++thrown;
      return false;
    }
    return true;
  };
  auto reset = [&](size_t i) {
    cs[i]->Reset();
    sessions[i].back().live = false;
    sessions[i].emplace_back();
    h = vf::mix(h ^ 0xdead);
  };
  size_t steps = 20 + r.below(80);
  for (size_t step = 0; step < steps; ++step) {
    switch (r.below(8)) {
      case 0: case 1: case 2:
        for (size_t k = 1 + r.below(4); k > 0; --k) {
          std::string b;
          auto s = span(r, ++id);
          auto f = framed(s, &b);
          if (buffer.Add(f)) spans[id] = s.SerializeAsString();
          else { metrics.OnSpansDropped(1); ++extra_dropped; }
        }
        break;
      case 3: case 4: case 5: {
        size_t i = r.below(nc);
        int mode = r.chance(1, 4) ? 1 : r.chance(1, 8) ? 2 : failing && r.chance(1, 5) ? 3 : 0;
        if (!flush(i, mode)) reset(i);  // as a connection does after an error
        break;
      }
      case 6: {
        size_t i = r.below(nc);
        if (r.chance(1, 2)) {
          cs[i]->Shutdown();
          VF_CHECK(cs[i]->shutting_down(), "shutdown", "not shutting down after Shutdown");
          if (!flush(i, r.chance(1, 2) ? 1 : 0)) reset(i);
        } else if (cs[i]->completed() || (failing && r.chance(1, 3))) {
          bool comp = cs[i]->completed();
          size_t before = sessions[i].size() - 1;
          reset(i);
          if (comp) {
            auto q = vf::parse_request(sessions[i][before].got);
            VF_CHECK(q.error.empty() && q.done, "complete", "completed() but the request is not: %s", q.error.c_str());
          }
        }
        break;
      }
      default:
        if (cs[r.below(nc)]->completed()) vf::count("completed_seen");
    }
  }
  // wind down: everything that is left goes out on well-behaved connections
  final = true;
  for (size_t i = 0; i < nc; ++i) { flush(i, 1); cs[i]->Shutdown(); flush(i, 1); VF_CHECK(cs[i]->completed(), "complete", "a fully flushed connection is not completed"); reset(i); }
  flush(0, 1);
  cs[0]->Shutdown();
  flush(0, 1);
  (void)final;
  VF_CHECK(buffer.empty(), "left-over", "%zu spans left in the buffer", (size_t)buffer.size());
  // ---- what the satellites got
  std::map<uint64_t, int> seen;
  std::vector<uint64_t> order;
  int64_t told = 0;
  for (auto& v : sessions)
    for (auto& s : v) {
      if (s.got.empty()) continue;
      auto q = vf::parse_request(s.got);
      if (!q.error.empty()) { vf::fail("http", q.error); continue; }
      if (!q.head) continue;
      VF_CHECK(!q.headers.empty() && q.header("Host") == host.substr(5, host.size() - 7), "host", "host header %s", vf::hex(q.header("Host")).c_str());
      collector::ReportRequest m;
      if (!m.ParseFromString(q.body)) { vf::fail("parse", "chunks do not form a report"); continue; }
      if (!q.chunks.empty()) VF_CHECK(m.auth().access_token() == o.access_token && m.reporter().reporter_id() == 77, "header", "reporter or token differ");
      for (auto& c : m.internal_metrics().counts()) if (c.name() == "spans.dropped") told += c.int_value();
      for (auto& sp : m.spans()) {
        uint64_t k = sp.span_context().span_id();
        ++seen[k];
        VF_CHECK(spans.count(k), "unknown-span", "span %llu was never buffered", (unsigned long long)k);
        if (spans.count(k)) VF_CHECK(sp.SerializeAsString() == spans[k], "altered", "span %llu altered", (unsigned long long)k);
      }
      if (q.used < s.got.size() && q.head && !q.chunks.empty()) ++cut;
    }
  size_t missing = 0;
  for (auto& s : spans) {
    int k = seen.count(s.first) ? seen[s.first] : 0;
    VF_CHECK(k <= 1, "duplicate", "span %llu delivered %d times", (unsigned long long)s.first, k);
    missing += k == 0;
  }
  // a session that was cut inside a span loses that span, and only that; the loss is counted
  VF_CHECK(static_cast<int>(missing) == obs.dropped - extra_dropped, "accounting", "%zu buffered spans missing, %d of them counted as dropped (%zu flushes, %zu failed)", missing, obs.dropped - extra_dropped, total_flushes, thrown);
  VF_CHECK(static_cast<int>(missing) <= cut, "lost", "%zu spans missing, %d sessions were cut inside a span", missing, cut);
  VF_CHECK(obs.sent == static_cast<int>(spans.size() - missing), "sent", "%d counted as sent, %zu delivered", obs.sent, spans.size() - missing);
  // dropped counts: told in complete first chunks, or still pending in the tracker or in the last, unsent headers
  for (size_t i = 1; i < nc; ++i) cs[i]->Reset();
  int64_t held = metrics.num_dropped_spans();
  std::vector<std::unique_ptr<ConnectionStream>> rest;
  for (size_t i = 1; i < nc; ++i) {  // sessions opened by the resets hold counts too: send them
    cs[i]->Shutdown();
    std::string got;
    cs[i]->Flush([&](std::initializer_list<FragmentInputStream*> l) { std::string a; for (auto s : l) a += vf::text(*s); got += a; return Consume(l, static_cast<int>(a.size())); });
    collector::ReportRequest m;
    auto q = vf::parse_request(got);
    if (m.ParseFromString(q.body)) for (auto& c : m.internal_metrics().counts()) told += c.int_value();
    // counted in held as well if taken by this session's header
  }
  held = metrics.num_dropped_spans();
  VF_CHECK(told + held == obs.dropped, "dropped-conservation", "%lld dropped spans told + %lld pending, %d recorded", (long long)told, (long long)held, obs.dropped);
  vf::eval(6 + spans.size());
  vf::distinct(h);
  vf::count("flushes", total_flushes);
  vf::count("partial_writes", partial);
  vf::count("failed_writes", thrown);
  vf::count("spans_cut", missing);
  if (vf::st().samples.size() < 3) vf::sample(vf::fmt("%zu connections, %zu spans, %zu flushes (%zu partial, %zu failing), %zu cut and counted, %d refused", nc, spans.size(), total_flushes, partial, thrown, missing, extra_dropped));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("stream", vf::n(1500, 40000), stream_only);
  vf::cases("connections", vf::n(2500, 60000), connections);
  return vf::finish();
}
