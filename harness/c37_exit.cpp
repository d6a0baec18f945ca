// C37: a process may end at any moment of a tracer's life.  Children of this program make a tracer, record, and end in every
// way a process can while the tracer is held in every place it can be held; what they leave behind is checked from here.
#include "satellite.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <set>
#include <sstream>
#include <opentracing/tracer.h>
using namespace lightstep;
using vf::Rng;
using std::chrono::milliseconds;
extern char** environ;
static int64_t now_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void nap_us(uint64_t us) { std::this_thread::sleep_for(std::chrono::microseconds{us}); }

enum Kind { k_stream, k_auto, k_manual, kinds };
enum Mood { m_good, m_stuck, m_deaf, m_refusing, m_unresolved, m_erroring, moods };
enum Holder { h_global, h_early_static, h_late_static, h_leaked, h_thread_local, h_local, h_spans_only, h_context_only, holders };
enum Way { w_return, w_exit, w_exit_thread, w_pthread_exit, w_quick, w_underscore, w_exec, w_term, ways };
enum Act { a_none, a_finish, a_record, a_flush, a_close, a_drop, a_propagate, acts };
static const char* kind_names[] = {"stream", "auto", "manual"};
static const char* mood_names[] = {"good", "stuck", "deaf", "refusing", "unresolved", "erroring"};
static const char* holder_names[] = {"global", "early_static", "late_static", "leaked", "thread_local", "local", "spans_only", "context_only"};
static const char* way_names[] = {"return", "exit", "exit_thread", "pthread_exit", "quick_exit", "_exit", "exec", "signal"};
struct Plan37 {
  Kind kind; Mood mood; Holder holder; Way way;
  Act early_exit, late_exit, early_static, late_static;  // what handlers and destructors do, by when they were registered
  bool second, fork, handler_first;
  int running;     // threads that go on recording until the process is gone
  int blocked;     // threads that wait in a flush or close
  int spans, unfinished, code;
  int before_end;  // 0 nothing, 1 flush, 2 close, 3 both
  uint64_t pause_us, send_us;
  size_t max_spans;
  int64_t period_ms;
};
static Plan37 plan_from(uint64_t seed) {
  Rng r{seed};
  Plan37 p;
  p.kind = r.chance(1, 2) ? k_stream : static_cast<Kind>(r.below(kinds));
  p.mood = r.chance(1, 2) ? m_good : static_cast<Mood>(r.below(moods));
  p.holder = static_cast<Holder>(r.below(holders));
  p.way = r.chance(1, 2) ? static_cast<Way>(r.below(2)) : static_cast<Way>(r.below(ways));
  auto act = [&r] { return r.chance(1, 2) ? a_none : static_cast<Act>(r.below(acts)); };
  p.early_exit = act(); p.late_exit = act(); p.early_static = act(); p.late_static = act();
  p.second = r.chance(1, 4);
  p.handler_first = r.chance(1, 2);
  p.running = r.chance(1, 3) ? 1 + static_cast<int>(r.below(3)) : 0;
  p.blocked = r.chance(1, 5) ? 1 + static_cast<int>(r.below(2)) : 0;
  p.fork = p.kind != k_auto && r.chance(1, 4);
  p.spans = static_cast<int>(r.skewed(60));
  p.unfinished = r.chance(1, 2) ? static_cast<int>(r.below(5)) : 0;
  p.code = 1 + static_cast<int>(r.below(60));
  p.before_end = static_cast<int>(r.below(4));
  p.pause_us = r.chance(1, 2) ? 0 : r.below(30000);
  p.send_us = r.chance(1, 3) ? r.below(60000) : 0;
  p.max_spans = 1 + r.skewed(500);
  p.period_ms = r.chance(1, 3) ? 60000 : 1 + static_cast<int64_t>(r.below(100));
  if (p.kind == k_manual) {  // not made for threads that flush at once
    p.blocked = 0;
    p.mood = m_good;
    p.running = std::min(p.running, 1);
  }
  if (p.kind == k_auto && p.mood != m_good) p.mood = m_erroring;
  return p;
}
static std::string text(const Plan37& p) {
  return vf::fmt("%s/%s held by %s, ends by %s, handlers %d %d destructors %d %d%s%s running %d blocked %d spans %d unfinished %d before the end %d", kind_names[p.kind],
                 mood_names[p.mood], holder_names[p.holder], way_names[p.way], p.early_exit, p.late_exit, p.early_static, p.late_static, p.second ? " second tracer" : "",
                 p.fork ? " forks" : "", p.running, p.blocked, p.spans, p.unfinished, p.before_end);
}
// ------------------------------------------------------------------------------------------------ the child
namespace child {
static int out = 1;
static Plan37* plan;
static void say(const std::string& s) {
  std::string l = s + "\n";
  if (write(out, l.data(), l.size()) < 0) _exit(78);
}
static pid_t owner;  // the process that may report what
struct Sync : SyncTransporter {
  opentracing::expected<void> Send(const google::protobuf::Message& m, google::protobuf::Message&) override {
    if (plan->send_us) nap_us(plan->send_us);
    if (plan->mood == m_erroring) return opentracing::make_unexpected(std::make_error_code(std::errc::timed_out));
    collector::ReportRequest q;
    std::string b;
    if (!m.SerializeToString(&b) || !q.ParseFromString(b)) { say("bad report"); return {}; }
    for (auto& s : q.spans()) say("sent " + s.operation_name());
    return {};
  }
};
struct Async : AsyncTransporter {
  void OnSpanBufferFull() noexcept override {}
  void Send(std::unique_ptr<BufferChain>&& m, AsyncTransporter::Callback& c) noexcept override {
    collector::ReportRequest q;
    std::string b(m->num_bytes(), 0);
    m->CopyOut(&b[0], b.size());
    if (!q.ParseFromString(b)) say("bad report");
    for (auto& s : q.spans()) say("sent " + s.operation_name());
    c.OnSuccess(*m);
  }
};
using Tracer = std::shared_ptr<LightStepTracer>;
using Spans = std::vector<std::unique_ptr<opentracing::Span>>;
static std::string prefix;
static std::atomic<int> number{0};
static void record(LightStepTracer& t, Spans* keep, bool promise, bool quiet = false) {
  std::string name = prefix + (quiet ? "q" : "s") + std::to_string(number++);
  auto s = t.StartSpan(name);
  if (!s) { say("no span"); return; }
  vf::mark(*s, name, 20);
  s->Log({{"event", "x"}});
  s->SetBaggageItem("k", "v");
  if (keep) { keep->push_back(std::move(s)); return; }
  if (promise) {
    auto c = t.StartSpan(name + "c", {opentracing::ChildOf(&s->context())});
    if (c) { vf::mark(*c, name + "c", 0); c->Finish(); }
  }
  s->Finish();
  if (promise) { say("done " + name); say("done " + name + "c"); }
}
static Spans* pending = new Spans;  // unfinished when main ends; what is dropped in destructors is another copy
static void perform(Act a, const Tracer& t, const char* where) {
  if (a == a_none || !t) return;
  say(std::string("acts ") + where);
  switch (a) {
    case a_finish: for (auto& s : *pending) if (s) s->Finish(); break;
    case a_record: for (int i = 0; i < 3; ++i) record(*t, nullptr, false, true); break;
    case a_flush: t->FlushWithTimeout(milliseconds{50}); break;
    case a_close: t->Close(); break;
    case a_drop: pending->clear(); break;
    case a_propagate: {
      std::string name = prefix + "p" + std::to_string(number++);
      auto s = t->StartSpan(name);
      if (s) vf::mark(*s, name, 0);
      std::ostringstream o;
      if (s) t->Inject(s->context(), o);
      std::istringstream i{o.str()};
      auto c = t->Extract(i);
      if (!c || !*c) say("no context");
      break;
    }
    default: break;
  }
}
static std::unique_ptr<opentracing::SpanContext> context_of(LightStepTracer& t) {
  std::string name = prefix + "x" + std::to_string(number++);
  auto s = t.StartSpan(name);
  vf::mark(*s, name, 0);
  s->SetBaggageItem("a", "b");
  std::ostringstream o;
  t.Inject(s->context(), o);
  std::istringstream i{o.str()};
  auto c = t.Extract(i);
  if (!c || !*c) { say("no context"); return nullptr; }
  return std::move(*c);
}
struct Keeper {  // acts when it is destroyed, and only then lets go
  Act act = a_none;
  const char* where = "";
  Tracer tracer, other;
  Spans spans;
  std::unique_ptr<opentracing::SpanContext> context;
  ~Keeper() {
    perform(act, tracer, where);
    for (auto& s : spans) s->Finish();
    if (context) { int n = 0; context->ForeachBaggageItem([&](const std::string&, const std::string&) { ++n; return true; }); }
  }
};
static Keeper early;  // destroyed after whatever functions of the library keep in statics
static Keeper& late() { static Keeper k; return k; }
static Keeper& local_of_thread() { static thread_local Keeper k; return k; }
static Tracer& global_tracer() { static Tracer g; return g; }  // as opentracing keeps it
static Tracer* raw = nullptr;  // for the handlers: never destroyed
static Tracer make(const std::vector<std::pair<std::string, uint16_t>>& sats) {
  LightStepTracerOptions o;
  o.access_token = "secret";
  o.collector_plaintext = true;
  o.component_name = "c37";
  o.max_buffered_spans = plan->max_spans;
  o.reporting_period = milliseconds{plan->period_ms};
  o.satellite_endpoints = sats;
  o.logger_sink = [](LogLevel, opentracing::string_view) {};
  if (plan->kind == k_stream) o.use_stream_recorder = true;
  else if (plan->kind == k_auto) o.transporter.reset(new Sync);
  else { o.use_thread = false; o.transporter.reset(new Async); }
  return MakeLightStepTracer(std::move(o));
}
static void on_exit_early() { if (raw) perform(plan->early_exit, *raw, "early handler"); }
static void on_exit_late() { if (raw) perform(plan->late_exit, *raw, "late handler"); }
static int run(uint64_t seed, const char* tag, const std::vector<std::pair<std::string, uint16_t>>& sats) {
  plan = new Plan37(plan_from(seed));
  Plan37& p = *plan;
  prefix = tag;
  owner = getpid();
  if (p.handler_first) { atexit(on_exit_early); at_quick_exit(on_exit_early); }
  if (p.handler_first) late();
  Tracer t = make(sats);
  if (!t) { say("no tracer"); _exit(78); }
  atexit(on_exit_late);
  at_quick_exit(on_exit_late);
  if (!p.handler_first) late();
  bool handlers_hold = p.early_exit != a_none || p.late_exit != a_none;
  if (handlers_hold) raw = new Tracer(t);
  early.act = p.early_static; early.where = "early destructor";
  late().act = p.late_static; late().where = "late destructor";
  Tracer local;
  switch (p.holder) {
    case h_global: global_tracer() = t; break;
    case h_early_static: early.tracer = t; break;
    case h_late_static: late().tracer = t; break;
    case h_leaked: new Tracer(t); break;
    case h_thread_local: local_of_thread().tracer = t; local_of_thread().act = p.early_static; local_of_thread().where = "thread's destructor"; break;
    case h_local: local = t; break;
    default: break;
  }
  if (p.second) late().other = make(sats);
  Rng r{seed ^ 99};
  for (int i = 0; i < p.spans; ++i) record(*t, nullptr, true);
  for (int i = 0; i < p.unfinished; ++i) record(*t, i % 2 ? &early.spans : pending, false, true);
  if (p.holder == h_spans_only) for (int i = 0; i < 2; ++i) record(*t, i ? &early.spans : &late().spans, false, true);
  if (p.holder == h_context_only) { early.context = context_of(*t); late().context = context_of(*t); }
  if (p.second && late().other) record(*late().other, nullptr, false, true);
  if (p.pause_us) nap_us(p.pause_us);
  if (p.fork) {
    pid_t pid = fork();
    if (pid == 0) {
      prefix = std::string(tag) + "f";
      for (int i = 0; i < 3; ++i) record(*t, nullptr, true);
      if (r.chance(1, 2) && t->FlushWithTimeout(milliseconds{500})) say("flushed");
      say("ends forked");
      if (p.way == w_quick) quick_exit(7);
      if (p.way == w_underscore) _exit(7);
      t.reset();
      local.reset();
      exit(7);
    }
    int st = 0;
    pid_t got = waitpid(pid, &st, 0);
    if (got != pid || !WIFEXITED(st) || WEXITSTATUS(st) != 7) say(vf::fmt("bad fork %x", st));
    for (int i = 0; i < 3; ++i) record(*t, nullptr, true);
  }
  for (int i = 0; i < p.running; ++i)
    std::thread([t, i] {
      Rng q{static_cast<uint64_t>(i)};
      for (;;) {
        record(*t, nullptr, false, true);
        if (q.chance(1, 4)) nap_us(q.below(500));
      }
    }).detach();
  for (int i = 0; i < p.blocked; ++i)
    std::thread([t, i] {
      for (;;) {
        if (i) t->Close();
        else t->FlushWithTimeout(std::chrono::hours{1});
        nap_us(100);
      }
    }).detach();
  if (p.running || p.blocked) nap_us(p.pause_us / 2);
  if (p.before_end & 1) {
    int n = number;
    (void)n;
    if (t->FlushWithTimeout(milliseconds{3000})) say("flushed");
  }
  if (p.before_end & 2) {
    int64_t t0 = now_ns();
    t->Close();
    if (now_ns() - t0 < 4000000000ll) say("closed");
  }
  bool drop_here = !(p.holder == h_local && p.way != w_return);
  if (drop_here) t.reset();
  if (seed % 3 == 0) nap_us(p.pause_us);
  say("ends");
  switch (p.way) {
    case w_return: return p.code;
    case w_exit: exit(p.code);
    case w_exit_thread: std::thread([&p] { exit(p.code); }).detach(); for (;;) pause();
    case w_pthread_exit:
      std::thread([&p] { nap_us(3000); exit(p.code); }).detach();
      pthread_exit(nullptr);
    case w_quick: quick_exit(p.code);
    case w_underscore: _exit(p.code);
    case w_exec: {
      std::string cmd = "exit " + std::to_string(p.code);
      execl("/bin/sh", "sh", "-c", cmd.c_str(), static_cast<char*>(nullptr));
      _exit(78);
    }
    case w_term: kill(getpid(), SIGTERM); for (;;) pause();
    default: return p.code;
  }
}
static int main(int argc, char** argv) {  // --child SEED TAG IP:PORT...
  out = 3;
  std::vector<std::pair<std::string, uint16_t>> sats;
  for (int i = 4; i < argc; ++i) {
    std::string s = argv[i];
    auto c = s.rfind(':');
    sats.emplace_back(s.substr(0, c), static_cast<uint16_t>(atoi(s.c_str() + c + 1)));
  }
  return run(strtoull(argv[2], nullptr, 10), argv[3], sats);
}
}  // namespace child
// ------------------------------------------------------------------------------------------------ the parent
struct Child {
  Plan37 p;
  uint64_t seed;
  std::string tag, said;
  pid_t pid = -1;
  int fd = -1, err = -1;
  int status = 0;
  bool over = false, late = false, unjudged = false;
  int64_t began = 0, took = 0;
};
static std::string errors_of(int fd) {
  std::string s(6000, 0);
  ssize_t n = pread(fd, &s[0], s.size(), 0);
  s.resize(n > 0 ? static_cast<size_t>(n) : 0);
  return vf::hex(s, 2000);
}
static void batch(Rng& r, int64_t i, int size, size_t at_once, int64_t deadline_ms) {
  vf::Satellites sats;
  sats.now = now_ns;
  std::vector<Child> cs(static_cast<size_t>(size));
  std::vector<Mood> mood_of;
  for (auto& c : cs) {
    c.seed = r();
    c.p = plan_from(c.seed);
  }
  size_t started = 0, running = 0, hung = 0;
  auto start = [&](size_t k) {
    Child& c = cs[k];
    c.tag = vf::fmt("b%lldc%zu-", static_cast<long long>(i), k);
    std::vector<std::string> args{"c37_exit", "--child", std::to_string(c.seed), c.tag};
    if (c.p.kind == k_stream)
      for (int j = 0; j < 2; ++j) {
        std::string ip = vf::fmt("127.%d.%d.%d", 1 + static_cast<int>(i % 200), 1 + static_cast<int>(getpid() % 250), 2 + static_cast<int>(2 * k % 250) + j);
        size_t s = sats.add(ip, c.p.mood == m_stuck ? 2304 : 0);
        mood_of.resize(sats.sats.size(), m_good);
        mood_of[s] = c.p.mood;
        if (c.p.mood == m_refusing) sats.refuse(s);
        if (c.p.mood == m_deaf) sats.sats[s].deaf = true;
        args.push_back((c.p.mood == m_unresolved ? "no such name" : ip) + ":" + std::to_string(sats.sats[s].port));
      }
    int fds[2];
    if (pipe2(fds, O_CLOEXEC) != 0) _exit(77);
    c.fd = fds[0];
    fcntl(c.fd, F_SETFL, O_NONBLOCK);
    c.err = memfd_create("err", MFD_CLOEXEC);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, c.err, 2);
    posix_spawn_file_actions_adddup2(&fa, fds[1], 3);
    std::vector<char*> av;
    for (auto& a : args) av.push_back(&a[0]);
    av.push_back(nullptr);
    c.began = now_ns();
    if (posix_spawn(&c.pid, "/proc/self/exe", &fa, nullptr, av.data(), environ) != 0) { fprintf(stderr, "harness: cannot spawn\n"); _exit(77); }
    posix_spawn_file_actions_destroy(&fa);
    close(fds[1]);
    ++running;
  };
  sats.plan = [&](size_t s) {
    vf::Plan p;
    if (mood_of[s] == m_stuck) p.read_from = INT64_MAX;
    if (mood_of[s] == m_erroring) p.answer = vf::Plan::error;
    p.good = mood_of[s] == m_good;
    return p;
  };
  size_t left = cs.size();
  char buf[65536];
  auto read_all = [&](Child& c) {
    for (ssize_t n; (n = read(c.fd, buf, sizeof buf)) > 0;) c.said.append(buf, static_cast<size_t>(n));
  };
  while (left) {
    bool any = sats.step();
    if (hung >= 3) {  // enough was seen
      for (size_t k = 0; k < started; ++k) if (!cs[k].over) { kill(cs[k].pid, SIGKILL); waitpid(cs[k].pid, &cs[k].status, 0); close(cs[k].fd); close(cs[k].err); cs[k].unjudged = true; }
      for (size_t k = started; k < cs.size(); ++k) cs[k].unjudged = true;
      break;
    }
    while (started < cs.size() && running < at_once) start(started++);
    for (size_t k = 0; k < started; ++k) {
      Child& c = cs[k];
      if (c.over) continue;
      read_all(c);
      pid_t got = waitpid(c.pid, &c.status, WNOHANG);
      if (got == 0 && now_ns() - c.began > deadline_ms * 1000000) {
        c.late = true;
        ++hung;
        kill(c.pid, SIGKILL);
        got = waitpid(c.pid, &c.status, 0);
      }
      if (got != c.pid) continue;
      c.over = true;
      c.took = now_ns() - c.began;
      --left;
      --running;
      any = true;
      read_all(c);
    }
    if (!any) nap_us(300);
  }
  for (int k = 0; k < 50; ++k) if (!sats.step()) nap_us(200);
  // ---- judge
  std::map<std::string, int> delivered;
  for (auto& c : sats.conns) {
    auto s = vf::decode(*c, "");
    for (auto& x : s.spans) ++delivered[x.first];
  }
  for (auto& c : cs) {
    if (c.unjudged) continue;
    std::string what = text(c.p);
    std::map<std::string, int> sent;
    std::set<std::string> done;
    std::string line;
    bool ends = false, flushed = false, closed = false, bad = false;
    std::istringstream in{c.said};
    std::string forked = c.tag + "f";
    while (std::getline(in, line)) {
      if (line.compare(0, 5, "sent ") == 0) ++sent[line.substr(5)];
      else if (line.compare(0, 5, "done ") == 0) { if (!ends) done.insert(line.substr(5)); }
      else if (line == "flushed") flushed = true;
      else if (line == "closed") closed = true;
      else if (line == "ends") ends = true;
      else if (line == "ends forked") vf::count("forked_ends"), flushed = false;
      else if (line.compare(0, 5, "acts ") == 0) vf::count("acted:" + line.substr(5));
      else { bad = true; vf::fail("child", line + ": " + what); }
    }
    if (c.late) vf::fail(std::string("hang:") + way_names[c.p.way], vf::fmt("the process did not end in %lld ms: ", static_cast<long long>(deadline_ms)) + what);
    else {
      bool ok = c.p.way == w_term ? WIFSIGNALED(c.status) && WTERMSIG(c.status) == SIGTERM : WIFEXITED(c.status) && WEXITSTATUS(c.status) == c.p.code;
      if (!ok) vf::fail("end", vf::fmt("ended with status %x instead of exit code %d: ", c.status, c.p.code) + what + ": " + errors_of(c.err));
      if (!ends && ok && !bad) vf::fail("no-end", "the process ended before it meant to: " + what);
    }
    if (c.p.kind == k_stream) {
      for (auto& x : delivered) if (x.first.compare(0, c.tag.size(), c.tag) == 0) sent[x.first] += x.second;
    }
    size_t missing = 0, had = 0;
    std::string example;
    // spans that were unfinished at a fork are finished, and reported, by both
    if (!c.p.fork) for (auto& x : sent) VF_CHECK(x.second == 1, "duplicate", "span %s was delivered %d times: %s", x.first.c_str(), x.second, what.c_str());
    for (auto& x : done) {
      if (x.compare(0, forked.size(), forked) == 0) continue;
      ++had;
      if (!sent.count(x)) { ++missing; example = x; }
    }
    // nothing was dropped when everything fits
    bool fits = c.p.max_spans >= 2 * static_cast<size_t>(c.p.spans) + 8 && !c.p.running;
    bool reports = c.p.mood == m_good && fits && (c.p.kind == k_stream ? closed && !c.p.fork && !c.p.blocked : flushed || closed);
    if (reports && !c.late) {
      size_t may = 0;
      VF_CHECK(missing <= may, "lost", "%zu of %zu spans that were flushed or closed before the end were not delivered (%s): %s", missing, had, example.c_str(), what.c_str());
      vf::count("delivered_before_end", had - missing);
    }
    vf::eval();
    vf::count(std::string("ended:") + way_names[c.p.way]);
    vf::count(std::string("held:") + holder_names[c.p.holder]);
    vf::count(std::string("kind:") + kind_names[c.p.kind] + ":" + mood_names[c.p.mood]);
    vf::counter_max("longest_ms", static_cast<uint64_t>(c.took / 1000000));
    vf::distinct(vf::hash(what));
    close(c.fd);
    close(c.err);
  }
}
int main(int argc, char** argv) {
  if (argc > 3 && std::string(argv[1]) == "--child") return child::main(argc, argv);
  vf::init(argc, argv);
  int64_t deadline_ms = 60000;
  vf::cases("end", vf::n(3, 80), [&](Rng& r, int64_t i) { batch(r, i, 120, 16, deadline_ms); });
  return vf::finish();
}
