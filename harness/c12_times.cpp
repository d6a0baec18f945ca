// C12: start times, durations and log times against the clocks, on a virtual clock that moves at every reading.
#include "spans.h"
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include "common/serialization.h"
#include "common/timestamp.h"
#include "common/utility.h"
#include "recorder/stream_recorder/stream_recorder.h"
#include "tracer/serialization.h"
using namespace lightstep;
using vf::Rng;
using Sys = std::chrono::system_clock;
using Ste = std::chrono::steady_clock;
using ns = std::chrono::nanoseconds;

// ---- the clocks: system = steady + offset; each reading may advance them
static struct { bool on = false; int64_t steady = 0, offset = 0; Rng* rng = nullptr; int64_t step = 0; uint64_t reads = 0; } ck;
static std::atomic<int64_t> sys_shift{0};  // for the part with real threads
extern "C" int clock_gettime(clockid_t c, struct timespec* t) {
  if (ck.on && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC)) {
    ck.steady += static_cast<int64_t>(ck.rng->below(static_cast<uint64_t>(ck.step) + 1));
    ++ck.reads;
    int64_t n = ck.steady + (c == CLOCK_REALTIME ? ck.offset : 0);
    t->tv_sec = n / 1000000000;
    t->tv_nsec = n % 1000000000;
    return 0;
  }
  int r = static_cast<int>(syscall(SYS_clock_gettime, c, t));
  if (c == CLOCK_REALTIME) t->tv_sec += sys_shift.load(std::memory_order_relaxed);
  return r;
}
static Sys::time_point sys(int64_t n) { return Sys::time_point{ns{n}}; }
static Ste::time_point ste(int64_t n) { return Ste::time_point{ns{n}}; }
static int64_t of(const google::protobuf::Timestamp& t) { return t.seconds() * 1000000000 + t.nanos(); }
static int64_t a_time(Rng& r) {  // nanoseconds after 1970-01-01, at most 2^62 ns (the year 2116)
  int64_t s = static_cast<int64_t>(r.below(4611686018ull));
  switch (r.below(6)) {
    case 0: return std::max<int64_t>(1, s * 1000000000);                       // whole seconds
    case 1: return s * 1000000000 + 999999999;
    case 2: return s * 1000000000 + static_cast<int64_t>(r.below(3)) + 1;
    case 3: return 1 + static_cast<int64_t>(r.below(3000000000ull));           // just after the epoch
    case 4: return static_cast<int64_t>((r.magnitude() & ((1ull << 62) - 1)) | 1);
    default: return s * 1000000000 + static_cast<int64_t>(r.below(1000000000));
  }
}
// ---- conversions
static void conversions(Rng& r, int64_t) {
  for (int k = 0; k < 20; ++k) {
    int64_t t = r.chance(1, 8) ? static_cast<int64_t>(r.magnitude() >> 1) : a_time(r);
    auto p = ToTimestamp(sys(t));
    VF_CHECK(p.seconds() >= 0 && p.nanos() >= 0 && p.nanos() < 1000000000 && p.seconds() == t / 1000000000 && p.nanos() == t % 1000000000, "to-timestamp",
             "%lld ns became %lld s %d ns", (long long)t, (long long)p.seconds(), p.nanos());
    std::string b;
    {
      google::protobuf::io::StringOutputStream so{&b};
      google::protobuf::io::CodedOutputStream co{&so};
      WriteStartTimestamp(co, sys(t));
      std::vector<std::pair<std::string, opentracing::Value>> f;
      if (r.chance(1, 2)) f.emplace_back("k", opentracing::Value{1});
      WriteLog(co, sys(t), f.data(), f.data() + f.size());
    }
    collector::Span s;
    bool ok = s.ParseFromString(b);
    VF_CHECK(ok && s.start_timestamp().seconds() == p.seconds() && s.start_timestamp().nanos() == p.nanos(), "wire-timestamp", "%lld ns on the wire: %lld s %d ns", (long long)t,
             (long long)s.start_timestamp().seconds(), s.start_timestamp().nanos());
    VF_CHECK(ok && s.logs_size() == 1 && s.logs(0).timestamp().seconds() == p.seconds() && s.logs(0).timestamp().nanos() == p.nanos(), "wire-log-timestamp", "%lld ns", (long long)t);
    std::vector<std::pair<std::string, opentracing::Value>> none;
    auto lg = ToLog(sys(t), none.begin(), none.end());
    VF_CHECK(of(lg.timestamp()) == t, "log-timestamp", "%lld ns", (long long)t);
    // between the clocks
    int64_t st = static_cast<int64_t>(r.below(1ull << 60)), delta = t - st;
    VF_CHECK(ToSystemTimestamp(delta, ste(st)) == sys(t), "to-system", "%lld + %lld", (long long)st, (long long)delta);
    VF_CHECK(ToSteadyTimestamp(delta, sys(t)) == ste(st), "to-steady", "%lld - %lld", (long long)t, (long long)delta);
    int64_t us = static_cast<int64_t>(r.magnitude() >> 2);
    auto tv = ToTimeval(std::chrono::microseconds{us});
    VF_CHECK(tv.tv_usec >= 0 && tv.tv_usec < 1000000 && tv.tv_sec == us / 1000000 && tv.tv_usec == us % 1000000, "timeval", "%lld us became %lld s %lld us", (long long)us,
             (long long)tv.tv_sec, (long long)tv.tv_usec);
    vf::eval(7);
    vf::distinct(vf::mix(static_cast<uint64_t>(t)));
  }
}
// ---- spans
static void spans(Rng& r, int64_t i) {
  bool legacy = i & 1;
  ck.rng = &r;
  ck.step = std::vector<int64_t>{0, 1, 50, 999, 1500, 1000000}[r.below(6)];
  ck.steady = 1 + static_cast<int64_t>(r.below(1ull << 52));
  ck.offset = static_cast<int64_t>(r.below(1ull << 61));
  ck.on = true;
  auto d = std::make_shared<vf::Delivered>();
  auto tracer = vf::make_tracer(legacy, std::unique_ptr<Recorder>{new vf::Capture{d}});
  for (int k = 0; k < 12; ++k) {
    opentracing::StartSpanOptions o;
    int64_t gs = 0, gt = 0;  // given system and steady start
    int given = static_cast<int>(r.below(4));
    int64_t ahead = r.chance(1, 2) ? 0 : r.range(-2000000000, 2000000000);
    if (given & 1) {
      gs = r.chance(1, 3) && (given & 2) ? a_time(r) : std::max<int64_t>(1, Sys::now().time_since_epoch().count() + std::min<int64_t>(0, ahead));
      o.start_system_timestamp = sys(gs);
    }
    if (given & 2) {
      gt = std::max<int64_t>(1, Ste::now().time_since_epoch().count() + std::min<int64_t>(0, ahead));
      if (r.chance(1, 4)) gt = 1 + static_cast<int64_t>(r.below(static_cast<uint64_t>(ck.steady)));
      o.start_steady_timestamp = ste(gt);
    }
    int64_t b = ck.steady;
    auto s = tracer->StartSpanWithOptions("x", o);
    int64_t e = ck.steady;
    int64_t l0 = ck.steady;
    s->Log({{"a", 1}});
    int64_t l1 = ck.steady;
    opentracing::FinishSpanOptions f;
    int64_t gf = 0, ls = a_time(r);
    f.log_records.resize(1);
    f.log_records[0].timestamp = sys(ls);
    if (r.chance(1, 2)) {
      int64_t from = given & 2 ? gt : given & 1 ? std::max<int64_t>(1, gs - ck.offset) + (e - b) : e;
      gf = from + static_cast<int64_t>(r.chance(1, 3) ? r.below(3000) : r.magnitude() & ((1ull << r.below(58)) - 1));
      f.finish_steady_timestamp = ste(gf);
    }
    int64_t fb = ck.steady;
    if (gf == 0 && r.chance(1, 4)) s.reset();
    else s->FinishWithOptions(f);
    bool logs = s != nullptr;
    int64_t fe = ck.steady;
    auto got = d->take();
    if (got.size() != 1) { vf::fail("delivered", vf::fmt("%zu spans delivered", got.size())); break; }
    auto& g = got[0];
    int64_t start = of(g.start_timestamp());
    VF_CHECK(g.start_timestamp().nanos() >= 0 && g.start_timestamp().nanos() < 1000000000, "nanos", "%d", g.start_timestamp().nanos());
    std::string how = vf::fmt("%s given=%d step=%lld", legacy ? "legacy" : "modern", given, (long long)ck.step);
    // the start on the system clock
    if (given & 1) VF_CHECK(start == gs, "start-given", "%s: start %lld, given %lld", how.c_str(), (long long)start, (long long)gs);
    else {
      int64_t lo = given & 2 ? gt + ck.offset - (e - b) : b + ck.offset, hi = given & 2 ? gt + ck.offset + (e - b) : e + ck.offset;
      VF_CHECK(start >= lo && start <= hi, "start-derived", "%s: start %lld not in [%lld, %lld]", how.c_str(), (long long)start, (long long)lo, (long long)hi);
    }
    // the start on the steady clock, as an interval
    int64_t slo = b, shi = e;
    if (given & 2) slo = shi = gt;
    else if (given & 1) { slo = gs - ck.offset - (e - b); shi = gs - ck.offset + (e - b); }
    int64_t flo = gf ? gf : fb, fhi = gf ? gf : fe;
    int64_t dmin = (flo - shi) / 1000 - 1, dmax = (fhi - slo) / 1000;
    if (given & 2 && gf) { dmin = dmax = (gf - gt) / 1000; }
    int64_t dur = static_cast<int64_t>(g.duration_micros());
    VF_CHECK(dur >= 0, "negative", "%s: duration %lld", how.c_str(), (long long)dur);
    VF_CHECK(dur >= dmin && dur <= dmax, "duration", "%s: duration %lld us not in [%lld, %lld]", how.c_str(), (long long)dur, (long long)dmin, (long long)dmax);
    // logs
    VF_CHECK(g.logs_size() == 1 + logs, "logs", "%d logs", g.logs_size());
    if (g.logs_size() >= 1) {
      int64_t t = of(g.logs(0).timestamp());
      VF_CHECK(t >= l0 + ck.offset && t <= l1 + ck.offset, "log-now", "log at %lld not in [%lld, %lld]", (long long)t, (long long)(l0 + ck.offset), (long long)(l1 + ck.offset));
    }
    if (g.logs_size() >= 2) VF_CHECK(of(g.logs(1).timestamp()) == ls, "log-given", "log at %lld, given %lld", (long long)of(g.logs(1).timestamp()), (long long)ls);
    vf::eval(4);
    vf::distinct(vf::mix(static_cast<uint64_t>(start) ^ vf::mix(static_cast<uint64_t>(dur) * 8 + static_cast<uint64_t>(given))));
    if (i < 2 && k == 0) vf::sample(vf::fmt("%s: start %lld ns, duration %lld us", how.c_str(), (long long)start, (long long)dur));
  }
  tracer.reset();
  ck.on = false;
}
// ---- the streaming recorder caches the distance of the clocks: it must follow when the system clock is set
static void cached(Rng& r, int64_t i) {
  auto d = std::make_shared<vf::Delivered>();
  Logger log{[](LogLevel, opentracing::string_view) {}};
  LightStepTracerOptions o;
  o.satellite_endpoints = {{"127.0.0.1", 9}};
  StreamRecorderOptions so;
  so.timestamp_delta_period = std::chrono::milliseconds{2 + r.below(6)};
  auto* rec = new StreamRecorder{log, std::move(o), std::move(so)};
  std::unique_ptr<Recorder> own{rec};
  for (int k = 0; k < 4; ++k) {
    sys_shift = r.range(-1000000, 1000000);
    if (k == 3) sys_shift = 0;
    auto off = [&] {  // how far the derived times are from the clocks, in nanoseconds
      auto s0 = Sys::now();
      auto derived = rec->ComputeCurrentSystemTimestamp(Ste::now());
      auto delta = rec->ComputeSystemSteadyTimestampDelta();
      auto back = ToSteadyTimestamp(delta, s0);
      int64_t a = std::llabs((derived - s0).count());
      int64_t c = std::llabs((back - Ste::now()).count());
      return std::max<int64_t>(a, c);
    };
    bool ok = false;
    int64_t last = 0;
    for (int w = 0; w < 4000 && !ok; ++w) {  // 20 s at the very least, for a period of a few ms
      last = off();
      ok = last < 500000000;
      if (!ok) usleep(5000);
    }
    VF_CHECK(ok, "cached-delta", "after the clock was set by %lld s, times are still %lld ms off", (long long)sys_shift.load(), (long long)(last / 1000000));
    vf::eval();
    vf::distinct(vf::mix(static_cast<uint64_t>(sys_shift) + static_cast<uint64_t>(i) * 7919));
    if (!ok) break;
  }
  sys_shift = 0;
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("conversions", vf::n(4000, 100000), conversions);
  vf::cases("spans", vf::n(4000, 100000), spans);
  vf::cases("cached", vf::n(3, 30), cached);
  return vf::finish();
}
