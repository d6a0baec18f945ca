// C26: processes that fork while they report, by the streaming and the manual recorder: each process's spans are reported by itself,
// once, under a reporter id of its own; nobody hangs or crashes.
#include "satellite.h"
#include <signal.h>
#include <sys/wait.h>
#include <set>
#include "network/dns_resolver.h"
#include "recorder/manual_recorder.h"
#include "recorder/stream_recorder/stream_recorder.h"
using namespace lightstep;
using vf::Rng;
using std::chrono::milliseconds;
static int64_t now_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void nap_us(int64_t us) { std::this_thread::sleep_for(std::chrono::microseconds{us}); }
// ---- what all processes of a case write to
static const int kProcs = 40;
struct Text {
  std::atomic<uint32_t> used;
  char b[1 << 20];
  void put(const std::string& s) {  // one line; whole or not at all
    uint32_t n = static_cast<uint32_t>(s.size()) + 1;
    uint32_t at = used.fetch_add(n);
    if (at + n > sizeof b) return;
    memcpy(b + at, s.data(), s.size());
    b[at + s.size()] = '\n';
  }
  std::vector<std::string> lines() const {
    std::vector<std::string> r;
    std::string all(b, std::min<uint32_t>(used, sizeof b));
    for (size_t i = 0; i < all.size();) {
      size_t j = all.find('\n', i);
      if (j == std::string::npos) j = all.size();
      r.push_back(all.substr(i, j - i));
      i = j + 1;
    }
    return r;
  }
};
struct Shared {
  std::atomic<int> procs, running;
  struct Proc { int pid, parent; int clean; int64_t dropped; } p[kProcs];
  std::atomic<int> ports_ready;
  uint16_t port[8];
  Text finished;   // process, tracer, name
  Text connects;   // pid, address, local port
  Text sent;       // by the manual transport: pid, tracer, name
  Text reports;    // by the manual transport: pid, dropped
  Text fails;      // key, detail
};
static Shared* sh;
static int me;                        // index of this process
static std::shared_ptr<vf::Observer::Counts> counts;
extern "C" int connect(int fd, const struct sockaddr* a, socklen_t n) {
  auto rc = syscall(SYS_connect, fd, a, n);
  int e = errno;
  if (sh && a->sa_family == AF_INET) {
    sockaddr_in b{};
    socklen_t l = sizeof b;
    getsockname(fd, reinterpret_cast<sockaddr*>(&b), &l);
    sh->connects.put(vf::fmt("%ld %llu", syscall(SYS_getpid), (unsigned long long)(static_cast<uint64_t>(reinterpret_cast<const sockaddr_in*>(a)->sin_addr.s_addr) << 16 | ntohs(b.sin_port))));
  }
  errno = e;
  return static_cast<int>(rc);
}
static void report_failures() {  // of this process, to the one that judges
  for (auto& v : vf::st().violations) sh->fails.put(v.key + "\t" + v.detail);
  vf::st().violations.clear();
}
struct Answer : DnsResolution {
  std::vector<IpAddress> a;
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override {
    for (auto& x : a) if (!f(x)) return false;
    return true;
  }
};
struct FakeResolver : DnsResolver {
  void Resolve(const char* name, int family, DnsResolutionCallback& cb) noexcept override {
    Answer a;
    if (family == AF_INET) { a.a.emplace_back(name + 4, static_cast<uint16_t>(0)); cb.OnDnsResolution(a, ""); }
    else cb.OnDnsResolution(a, "no such host");
  }
};
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new FakeResolver}; }
}  // namespace lightstep
// ---- the satellites' process
static std::vector<std::string> addresses(Rng& r, int64_t i) {
  std::vector<std::string> ip;
  for (size_t k = 1 + r.below(3); k > 0; --k) ip.push_back(vf::fmt("127.%d.%d.%d", 1 + (int)(i % 200), 1 + (int)(getpid() % 250), (int)(1 + k)));
  return ip;
}
static void put64(FILE* f, uint64_t x) { fwrite(&x, 8, 1, f); }
static void be_satellites(const std::vector<std::string>& ip, int stop_fd, const std::string& file, bool slow, uint64_t seed) {
  vf::Satellites s;
  s.now = now_ns;
  Rng r(seed);
  for (size_t k = 0; k < ip.size(); ++k) { s.add(ip[k], slow && r.chance(1, 2) ? 2304 : 0); sh->port[k] = s.sats[k].port; }
  s.plan = [&](size_t) {
    vf::Plan p;
    if (slow && r.chance(1, 2)) p.rate = 100 + r.below(3000);
    return p;
  };
  sh->ports_ready = 1;
  for (;;) {
    if (s.step()) continue;
    pollfd q{stop_fd, POLLIN, 0};
    if (poll(&q, 1, 0) > 0) break;
    nap_us(200);
  }
  s.behave();
  bool drained = s.drain(20000);
  FILE* f = fopen(file.c_str(), "w");
  if (!f) _exit(3);
  put64(f, s.conns.size());
  for (auto& c : s.conns) {
    put64(f, c->key);
    put64(f, c->in.size());
    fwrite(c->in.data(), 1, c->in.size(), f);
  }
  if (fclose(f) != 0) _exit(3);
  _exit(drained ? 0 : 4);
}
// ---- the application
struct MemoryTransporter : AsyncTransporter {  // the manual recorder's: delivers at once
  int tracer;
  Rng r;
  MemoryTransporter(int t, uint64_t s) : tracer(t), r(s) {}
  void OnSpanBufferFull() noexcept override {}
  void Send(std::unique_ptr<BufferChain>&& message, Callback& callback) noexcept override {
    if (r.chance(1, 5)) { callback.OnFailure(*message); return; }
    vf::Report p = vf::decode(vf::raw(*message));
    long pid = syscall(SYS_getpid);
    for (auto& n : p.spans) sh->sent.put(vf::fmt("%ld %d %s", pid, tracer, n.c_str()));
    sh->reports.put(vf::fmt("%ld %lld", pid, (long long)p.dropped));
    callback.OnSuccess(*message);
  }
};
struct App {
  int64_t no = 0;
  std::vector<std::string> ip;
  std::shared_ptr<Logger> log = std::make_shared<Logger>([](LogLevel, opentracing::string_view) {});
  struct T { int id; bool manual; std::shared_ptr<LightStepTracer> t; int n_conn; };
  std::vector<T> tracers;
  struct Open { int tracer; std::unique_ptr<opentracing::Span> s; };
  std::vector<Open> open;
  std::vector<std::pair<pid_t, int>> children;
  int next_tracer = 0, next_span = 0, depth = 0;
  bool clean = true;
  void add(Rng& r) {
    T t;
    t.id = me * 100 + next_tracer++;
    t.manual = r.chance(1, 4);
    t.n_conn = 1;
    LightStepTracerOptions o;
    o.satellite_endpoints.clear();
    o.max_buffered_spans = r.chance(1, 3) ? 1 + r.below(20) : 5000;
    o.metrics_observer.reset(new vf::Observer{counts});
    o.reporting_period = milliseconds{r.chance(1, 2) ? 60000 : 1 + r.below(50)};
    std::unique_ptr<Recorder> rec;
    if (t.manual) {
      rec.reset(new ManualRecorder{*log, std::move(o), std::unique_ptr<AsyncTransporter>{new MemoryTransporter{t.id, r()}}});
    } else {
      for (size_t k = 0; k < ip.size(); ++k) o.satellite_endpoints.emplace_back("sat." + ip[k], sh->port[k]);
      StreamRecorderOptions so;
      so.polling_period = milliseconds{1 + r.below(3)};
      so.num_satellite_connections = t.n_conn = 1 + static_cast<int>(r.below(4));
      so.satellite_failure_retry_period = milliseconds{20};
      so.satellite_write_timeout = milliseconds{20000};
      so.min_satellite_reconnect_period = milliseconds{r.chance(1, 2) ? 10 + r.below(50) : 5000};
      so.max_satellite_reconnect_period = so.min_satellite_reconnect_period + milliseconds{20};
      so.satellite_graceful_stream_shutdown_timeout = milliseconds{20000};
      rec.reset(new StreamRecorder{*log, std::move(o), std::move(so)});
    }
    t.t = vf::make_tracer(false, std::move(rec), LightStepTracerOptions{}, log);
    tracers.push_back(std::move(t));
  }
  void finish(Rng& r, Open&& o) {
    std::string name = vf::fmt("%d.%d.%d", me, o.tracer, next_span++);
    o.s->SetOperationName(name);
    vf::mark(*o.s, name, r.skewed(400));
    sh->finished.put(vf::fmt("%d %d %s", me, o.tracer, name.c_str()));
    o.s->Finish();
  }
  bool flush(T& t, int64_t ms) { return t.t->FlushWithTimeout(milliseconds{ms}); }
  void close_one(T& t) {
    bool ok = flush(t, 30000);
    if (t.manual) while (counts->dropped != last_drop) { last_drop = counts->dropped; ok = flush(t, 0) && ok; }  // a failed report's drops
    VF_CHECK(ok, "flush-failed", "a last flush of 30 s failed with satellites that work (process %d of %d)", me, (int)sh->procs);
    t.t->Close();
    t.t.reset();
  }
  int64_t last_drop = 0;
  void end() {
    std::set<int> gone;
    for (auto& o : open) gone.insert(o.tracer);
    // spans still open are reported by their destructor
    for (auto& o : open) {
      bool alive = false;
      for (auto& t : tracers) alive = alive || t.id == o.tracer;
      if (alive) { std::string name = vf::fmt("%d.%d.%d", me, o.tracer, next_span++); o.s->SetOperationName(name); vf::mark(*o.s, name, 5); sh->finished.put(vf::fmt("%d %d %s", me, o.tracer, name.c_str())); }
    }
    open.clear();
    for (auto& t : tracers) close_one(t);
    tracers.clear();
    reap();
    sh->p[me].clean = clean;
    sh->p[me].dropped = counts->dropped;
  }
  void reap() {
    for (auto& c : children) {
      int st = 0;
      int64_t t0 = now_ns();
      for (;;) {
        pid_t k = waitpid(c.first, &st, WNOHANG);
        if (k == c.first) break;
        if (now_ns() - t0 > 100000000000ll) {
          sh->fails.put(vf::fmt("hang\tforked process %d did not end within 100 s", c.second));
          kill(c.first, SIGKILL);
          waitpid(c.first, &st, 0);
          break;
        }
        nap_us(500);
      }
      if (st != 0) sh->fails.put(vf::fmt("crash\tforked process %d ended with status 0x%x", c.second, st));
    }
    children.clear();
  }
  void fork_one(Rng& r) {
    if (sh->procs >= kProcs - 10) return;
    uint64_t seed = r();
    int index = sh->procs++;
    sh->p[index].parent = me;
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "harness: fork: %s\n", strerror(errno)); _exit(77); }
    if (pid > 0) { children.emplace_back(pid, index); return; }
    me = index;
    sh->p[me].pid = static_cast<int>(getpid());
    vf::st().violations.clear();
    children.clear();
    counts->dropped = counts->sent = 0;
    last_drop = 0;
    next_span = next_tracer = 0;
    ++depth;
    clean = true;
    Rng q(seed);
    if (q.chance(1, 6)) { sh->p[me].clean = 0; _exit(0); }  // as before an exec
    live(q);
    end();
    report_failures();
    _exit(vf::st().violations.empty() ? 0 : 9);
  }
  void live(Rng& r) {
    for (uint64_t steps = 1 + r.below(depth ? 8 : 14); steps > 0; --steps) {
      switch (r.below(10)) {
        case 0: if (tracers.size() < 3 && r.chance(1, 2)) add(r); break;
        case 1:
          if (tracers.size() > 1 && r.chance(1, 3)) {
            size_t k = r.below(tracers.size());
            std::vector<Open> keep;
            for (auto& o : open) {
              if (o.tracer == tracers[k].id) finish(r, std::move(o));
              else keep.push_back(std::move(o));
            }
            open = std::move(keep);
            close_one(tracers[k]);
            tracers.erase(tracers.begin() + static_cast<long>(k));
          }
          break;
        case 2: case 3: {
          for (size_t n = r.skewed(150); n > 0; --n) {
            T& t = tracers[r.below(tracers.size())];
            Open o{t.id, t.t->StartSpan("x")};
            if (r.chance(1, 12)) open.push_back(std::move(o));
            else finish(r, std::move(o));
          }
          break;
        }
        case 4: if (!open.empty()) { size_t k = r.below(open.size()); Open o = std::move(open[k]); open.erase(open.begin() + static_cast<long>(k)); finish(r, std::move(o)); } break;
        case 5: flush(tracers[r.below(tracers.size())], static_cast<int64_t>(r.below(2) * r.below(100))); break;
        case 6: nap_us(static_cast<int64_t>(r.below(r.chance(1, 2) ? 500 : 30000))); break;
        default:
          if (depth < 3 && r.chance(1, static_cast<unsigned>(depth) + 1)) {
            if (r.chance(1, 3)) { std::thread t([&] { fork_one(r); }); t.join(); }
            else fork_one(r);
          }
      }
    }
  }
};
// ---- a case
static void one(Rng& r, int64_t i, const std::string& dir) {
  memset(static_cast<void*>(sh), 0, sizeof *sh);
  counts = std::make_shared<vf::Observer::Counts>();
  me = 0;
  sh->procs = 1;
  sh->p[0].pid = static_cast<int>(getpid());
  sh->p[0].parent = -1;
  App a;
  a.no = i;
  a.ip = addresses(r, i);
  int stop[2];
  if (pipe(stop) != 0) _exit(77);
  std::string file = dir + vf::fmt("/c%lld", (long long)i);
  bool slow = r.chance(1, 3);
  uint64_t sseed = r();
  pid_t sat = fork();
  if (sat == 0) { be_satellites(a.ip, stop[0], file, slow, sseed); _exit(0); }
  for (int64_t t0 = now_ns(); !sh->ports_ready;) {
    nap_us(100);
    if (now_ns() - t0 > 30000000000ll) { fprintf(stderr, "harness: no satellites\n"); _exit(77); }
  }
  a.add(r);
  a.live(r);
  a.end();
  report_failures();
  if (write(stop[1], "x", 1) != 1) _exit(77);
  int st = 0;
  waitpid(sat, &st, 0);
  ::close(stop[0]);
  ::close(stop[1]);
  if (st != 0 && WEXITSTATUS(st) != 4) { fprintf(stderr, "harness: satellites ended with 0x%x\n", st); _exit(77); }
  VF_CHECK(st == 0, "descriptor-leak", "connections are open after all processes have closed");
  for (auto& l : sh->fails.lines()) { size_t k = l.find('\t'); vf::fail(l.substr(0, k), l.substr(k + 1)); }
  if (sh->finished.used > sizeof sh->finished.b || sh->connects.used > sizeof sh->connects.b || sh->sent.used > sizeof sh->sent.b) { vf::count("too_large"); unlink(file.c_str()); return; }
  // judge
  std::map<int, int> index;
  for (int k = 0; k < sh->procs; ++k) if (sh->p[k].pid) index[sh->p[k].pid] = k;
  std::map<uint64_t, std::vector<int>> owner;  // of connections, in order
  for (auto& l : sh->connects.lines()) { int pid; unsigned long long key; if (sscanf(l.c_str(), "%d %llu", &pid, &key) == 2) owner[key].push_back(pid); }
  std::map<std::string, int> seen;
  std::map<int, int64_t> reported;
  std::map<int, std::set<uint64_t>> reporters;  // by pid
  auto got = [&](int pid, const std::string& name, const char* by) {
    VF_CHECK(++seen[name] == 1, "duplicate", "span %s was delivered twice, now by process %d", name.c_str(), index.count(pid) ? index[pid] : -1);
    int p = atoi(name.c_str());
    VF_CHECK(index.count(pid) && index[pid] == p, "foreign", "span %s was finished by process %d but delivered by process %d (%s)", name.c_str(), p, index.count(pid) ? index[pid] : -1, by);
  };
  FILE* f = fopen(file.c_str(), "r");
  if (!f) { fprintf(stderr, "harness: no %s\n", file.c_str()); _exit(77); }
  uint64_t n = 0;
  if (fread(&n, 8, 1, f) != 1) _exit(77);
  std::map<uint64_t, size_t> nth;
  uint64_t connections = n;
  for (; n > 0; --n) {
    vf::Conn c;
    uint64_t size;
    if (fread(&c.key, 8, 1, f) != 1 || fread(&size, 8, 1, f) != 1) _exit(77);
    c.in.resize(size);
    if (size && fread(&c.in[0], 1, size, f) != size) _exit(77);
    c.marks.emplace_back(size, 1);
    auto& o = owner[c.key];
    size_t k = nth[c.key]++;
    if (k >= o.size()) { vf::fail("harness-connection", "a connection nobody opened"); continue; }
    vf::Stream s = vf::decode(c, "");
    if (!s.q.head) continue;
    for (auto& x : s.spans) got(o[k], x.first, "stream");
    if (s.header) { reported[o[k]] += s.dropped; reporters[o[k]].insert(s.reporter); }
  }
  fclose(f);
  unlink(file.c_str());
  for (auto& l : sh->sent.lines()) {
    int pid, t;
    char name[64];
    if (sscanf(l.c_str(), "%d %d %63s", &pid, &t, name) == 3) got(pid, name, "manual");
  }
  for (auto& l : sh->reports.lines()) { int pid; long long d; if (sscanf(l.c_str(), "%d %lld", &pid, &d) == 2) reported[pid] += d; }
  std::map<int, int64_t> missing, total;
  for (auto& l : sh->finished.lines()) {
    int p, t;
    char name[64];
    if (sscanf(l.c_str(), "%d %d %63s", &p, &t, name) != 3) continue;
    ++total[p];
    missing[p] += !seen.count(name);
  }
  uint64_t h = 0;
  for (int k = 0; k < sh->procs; ++k) {
    auto& p = sh->p[k];
    h = vf::mix(h * 64 + static_cast<uint64_t>(p.parent + 1)) + static_cast<uint64_t>(total[k]);
    if (!p.clean) continue;
    VF_CHECK(missing[k] == p.dropped, "conservation", "process %d (child of %d) finished %lld spans, %lld were not delivered, %lld counted as dropped", k, p.parent, (long long)total[k], (long long)missing[k], (long long)p.dropped);
    VF_CHECK(reported[p.pid] <= p.dropped, "reported", "process %d (child of %d) dropped %lld spans and reported %lld as dropped", k, p.parent, (long long)p.dropped, (long long)reported[p.pid]);
  }
  std::map<uint64_t, int> whose;
  for (auto& x : reporters)
    for (auto id : x.second) {
      auto e = whose.emplace(id, x.first);
      VF_CHECK(e.second, "reporter", "processes %d and %d report under the same id", index.count(e.first->second) ? index[e.first->second] : -1, index.count(x.first) ? index[x.first] : -1);
    }
  vf::eval(total.size() + connections);
  vf::distinct(h);
  vf::count("processes", static_cast<uint64_t>(sh->procs));
  vf::count("connections", connections);
  vf::count("spans_delivered", seen.size());
  for (auto& m : missing) vf::count("spans_dropped", static_cast<uint64_t>(m.second));
  vf::counter_max("deepest_family", static_cast<uint64_t>(sh->procs));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  signal(SIGPIPE, SIG_IGN);
  char dir[] = "/tmp/vf-fork-XXXXXX";
  if (!mkdtemp(dir)) return 77;
  // several workers, each with its own cases and shared memory; what they found is collected here
  const int width = 8;
  struct Out { Text fails, counts, hashes; std::atomic<uint64_t> evals; };
  auto* out = static_cast<Out*>(mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  int64_t total = vf::n(600, 12000);
  auto& s = vf::st();
  std::vector<pid_t> pids;
  vf::crumb("--part fork");
  for (int w = 0; w < width; ++w) {
    pid_t p = fork();
    if (p == 0) {
      sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      s.crumb = nullptr;
      for (int64_t i = w; i < total; i += width) {
        if (s.only >= 0 && i != s.only) continue;
        s.current = vf::fmt("--part fork --case %lld", (long long)i);
        Rng r(vf::mix(s.seed * 1000003ull + vf::hash(std::string("fork"))) ^ vf::mix(static_cast<uint64_t>(i)));
        one(r, i, dir);
        for (auto& v : s.violations) out->fails.put(v.key + "\t" + v.detail + "\t" + s.current);
        s.violations.clear();
      }
      for (auto& c : s.counters) out->counts.put(vf::fmt("%s %llu", c.first.c_str(), (unsigned long long)c.second));
      for (auto h : s.distinct) out->hashes.put(vf::fmt("%llu", (unsigned long long)h));
      out->evals += s.evals;
      _exit(0);
    }
    pids.push_back(p);
  }
  bool harness_error = false;
  for (auto p : pids) {
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) harness_error = true;
    else if (st != 0) vf::fail("crash", vf::fmt("a process that forks ended with status 0x%x", st));
  }
  for (auto& l : out->fails.lines()) {
    size_t a = l.find('\t'), b = l.rfind('\t');
    s.current = l.substr(b + 1);
    vf::fail(l.substr(0, a), l.substr(a + 1, b - a - 1));
  }
  for (auto& l : out->counts.lines()) {
    size_t a = l.rfind(' ');
    std::string k = l.substr(0, a);
    uint64_t v = strtoull(l.c_str() + a, nullptr, 10);
    if (k == "deepest_family") vf::counter_max(k, v);
    else vf::count(k, v);
  }
  for (auto& l : out->hashes.lines()) vf::distinct(strtoull(l.c_str(), nullptr, 10));
  vf::eval(out->evals);
  rmdir(dir);
  if (harness_error) return 77;
  return vf::finish();
}
