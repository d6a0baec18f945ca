// C30: messages, levels and sinks, one thread and many.
#include "vf.h"
#include "disturb.h"
#include <set>
#include "common/logger.h"
using namespace lightstep;
using vf::Rng;

static const LogLevel levels[] = {LogLevel::debug, LogLevel::info, LogLevel::warn, LogLevel::error};
static bool passes(LogLevel m, LogLevel t) { return static_cast<int>(m) >= static_cast<int>(t); }
struct Bad { int kind; };
static std::ostream& operator<<(std::ostream& o, const Bad& b) {
  o << "partial";
  switch (b.kind) {
    case 0: throw std::runtime_error("value");
    case 1: throw std::bad_alloc();
    default: throw std::out_of_range("value");
  }
}
static void send(Logger& l, Rng& r, LogLevel v, std::string* text) {
  std::string a = r.bytes(r.skewed(r.chance(1, 20) ? 20000 : 60));
  for (auto& c : a) if (c == '\n') c = ' ';
  int n = static_cast<int>(r());
  switch (r.below(6)) {
    case 0: *text = a; l.Log(v, opentracing::string_view{a}); break;
    case 1: *text = a.c_str(); l.log(v, a.c_str()); break;
    case 2: *text = a + std::to_string(n) + "x"; l.Log(v, a, n, 'x'); break;
    case 3: *text = a; l.Log(v, a); break;
    default:
      *text = "n=" + std::to_string(n) + a + "end";
      switch (v) {
        case LogLevel::debug: l.Debug("n=", n, a, "end"); break;
        case LogLevel::info: l.Info("n=", n, a, "end"); break;
        case LogLevel::warn: l.Warn("n=", n, a, "end"); break;
        default: l.Error("n=", n, a, "end");
      }
  }
}
static void sequence(Rng& r, int64_t) {
  std::vector<std::pair<LogLevel, std::string>> got;
  bool throwing = false;
  Logger l{[&](LogLevel v, opentracing::string_view s) {
    got.emplace_back(v, std::string(s.data(), s.size()));
    if (throwing) throw std::runtime_error("sink");
  }};
  LogLevel t = l.level();
  uint64_t h = 0;
  for (int i = 0; i < 60; ++i) {
    if (r.chance(1, 6)) {
      t = r.chance(1, 5) ? LogLevel::off : levels[r.below(4)];
      l.set_level(t);
      VF_CHECK(l.level() == t, "level", "level() is not what was set");
    }
    LogLevel v = levels[r.below(4)];
    got.clear();
    throwing = r.chance(1, 5);
    if (r.chance(1, 8)) {
      l.Log(v, "before", Bad{static_cast<int>(r.below(3))}, "after");
      VF_CHECK(got.size() <= (passes(v, t) ? 1u : 0u), "throwing-value", "a message whose value throws was passed on %zu times", got.size());
    } else {
      std::string text;
      send(l, r, v, &text);
      VF_CHECK(got.size() == (passes(v, t) ? 1u : 0u), "count", "level %d at threshold %d was passed on %zu times", static_cast<int>(v), static_cast<int>(t), got.size());
      if (got.size() == 1) {
        VF_CHECK(got[0].first == v, "level", "sent at level %d, arrived at %d", static_cast<int>(v), static_cast<int>(got[0].first));
        VF_CHECK(got[0].second == text, "text", "\"%s\" arrived as \"%s\"", vf::hex(text).c_str(), vf::hex(got[0].second).c_str());
      }
      h = vf::hash(text, h);
    }
    vf::eval();
  }
  vf::distinct(h);
}
static void concurrent(Rng& r, int64_t) {
  std::mutex mu;
  std::map<std::string, int> got;
  Logger l{[&](LogLevel v, opentracing::string_view s) {
    bool boom;
    { std::lock_guard<std::mutex> g(mu); ++got[std::to_string(static_cast<int>(v)) + std::string(s.data(), s.size())]; boom = got.size() % 7 == 0; }
    if (boom) throw std::runtime_error("sink");
  }};
  LogLevel t = levels[r.below(4)];
  l.set_level(t);
  vf::Disturber dist(r());
  std::vector<std::thread> ts;
  std::map<std::string, int> want;
  for (int k = 0; k < 4; ++k)
    ts.emplace_back([&, k, s = r()] {
      vf::Disturber::Enrol e(dist);
      Rng q(s);
      std::map<std::string, int> mine;
      for (int i = 0; i < 150; ++i) {
        LogLevel v = levels[q.below(4)];
        std::string tag = std::to_string(k) + ":" + std::to_string(i) + ":" + q.alnum(q.skewed(100));
        l.Log(v, tag.substr(0, 3), tag.substr(3));
        if (passes(v, t)) ++mine[std::to_string(static_cast<int>(v)) + tag];
      }
      std::lock_guard<std::mutex> g(mu);
      for (auto& m : mine) want[m.first] += m.second;
    });
  for (auto& x : ts) x.join();
  VF_CHECK(got == want, "mixed", "%zu distinct messages arrived, %zu were due", got.size(), want.size());
  vf::eval(600);
  vf::distinct(r());
}
// without a sink: whole, labelled lines on the standard error stream
static void standard(Rng& r, int64_t) {
  char path[] = "/tmp/vf-c30-XXXXXX";
  int f = mkstemp(path), old = dup(2);
  if (f < 0) exit(77);
  unlink(path);
  dup2(f, 2);
  std::multiset<std::string> want;
  {
    std::function<void(LogLevel, opentracing::string_view)> none;
    Logger plain, given{std::move(none)};
    Logger& l = r.chance(1, 2) ? plain : given;
    LogLevel t = levels[r.below(4)];
    l.set_level(t);
    vf::Disturber dist(r());
    std::mutex mu;
    std::vector<std::thread> ts;
    for (int k = 0; k < 4; ++k)
      ts.emplace_back([&, k, s = r()] {
        vf::Disturber::Enrol e(dist);
        Rng q(s);
        for (int i = 0; i < 60; ++i) {
          size_t w = q.below(4);
          static const char* names[] = {"Debug: ", "Info: ", "Warn: ", "Error: "};
          std::string m = std::to_string(k) + "-" + std::to_string(i) + "-" + q.alnum(q.skewed(200));
          l.Log(levels[w], m, "!");
          if (passes(levels[w], t)) { std::lock_guard<std::mutex> g(mu); want.insert(names[w] + m + "!"); }
        }
      });
    for (auto& x : ts) x.join();
  }
  dup2(old, 2);
  close(old);
  std::string all;
  char b[65536];
  lseek(f, 0, SEEK_SET);
  ssize_t n;
  while ((n = read(f, b, sizeof b)) > 0) all.append(b, static_cast<size_t>(n));
  close(f);
  std::multiset<std::string> got;
  for (size_t i = 0; i < all.size();) {
    size_t e = all.find('\n', i);
    if (e == std::string::npos) { vf::fail("default-sink", "the last line is cut"); break; }
    got.insert(all.substr(i, e - i));
    i = e + 1;
  }
  if (got != want) {
    std::string odd;
    for (auto& g : got) if (!want.count(g)) { odd = g; break; }
    vf::fail("default-sink", vf::fmt("%zu lines on stderr, %zu due; odd line: ", got.size(), want.size()) + vf::hex(odd, 200));
  }
  vf::eval(want.size() + 1);
  vf::distinct(vf::hash(all));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("sequence", vf::n(1500, 40000), sequence);
  vf::cases("concurrent", vf::n(30, 500), concurrent);
  vf::cases("standard", vf::n(30, 500), standard);
  return vf::finish();
}
