// Common part of every harness: seeded generation, case breadcrumbs, violation recording, coverage counts.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace vf {
inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { return s = mix(s); }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n ? (*this)() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a) + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template <class C>
  auto pick(const C& c) -> decltype(c[0]) { return c[below(c.size())]; }
  // sizes skewed to the small, with the occasional large one
  size_t skewed(size_t max) {
    switch (below(4)) {
      case 0: return below(std::min<size_t>(max, 3) + 1);
      case 1: return below(std::min<size_t>(max, 20) + 1);
      default: return below(max + 1);
    }
  }
  std::string bytes(size_t n) {
    std::string r(n, 0);
    for (auto& c : r) c = static_cast<char>((*this)());
    return r;
  }
  std::string alnum(size_t n) {
    static const char t[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    std::string r(n, 0);
    for (auto& c : r) c = t[below(sizeof(t) - 1)];
    return r;
  }
  // an integer of any magnitude
  uint64_t magnitude() {
    uint64_t bits = below(65);
    uint64_t v = bits == 64 ? (*this)() : ((*this)() & ((1ull << bits) - 1));
    switch (below(6)) {
      case 0: return bits ? (1ull << (bits - 1)) : 0;
      case 1: return bits ? (1ull << (bits - 1)) - 1 : ~0ull;
      default: return v;
    }
  }
};
inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto b = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

struct State {
  uint64_t seed = 1;
  bool thorough = false;
  std::string out, part;
  int64_t only = -1;
  double scale = 1;
  std::mutex mu;
  std::atomic<uint64_t> evals{0};
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  struct V { std::string key, detail, at; };
  std::vector<V> violations;
  uint64_t suppressed = 0;
  char* crumb = nullptr;
  std::string current;
};
inline State& st() {
  static State* s = new State;  // never destroyed: threads may still report at exit
  return *s;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  va_list a;
  va_start(a, f);
  char b[4096];
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
inline std::string hex(const std::string& s, size_t max = 64) {
  std::string r;
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c >= 32 && c < 127 && c != '\\' && c != '"') r += static_cast<char>(c);
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  if (s.size() > max) r += fmt("...(%zu bytes)", s.size());
  return r;
}
inline void init(int argc, char** argv) {
  State& s = st();
  std::string crumb;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") s.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--tier") s.thorough = v == "thorough";
    else if (k == "--out") s.out = v;
    else if (k == "--crumb") crumb = v;
    else if (k == "--part") s.part = v;
    else if (k == "--case") s.only = atoll(v.c_str());
    else if (k == "--scale") s.scale = atof(v.c_str());
  }
  if (!crumb.empty()) {
    int fd = open(crumb.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) {
      void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) s.crumb = static_cast<char*>(p);
    }
    if (fd >= 0) close(fd);
  }
}
inline bool thorough() { return st().thorough; }
// number of cases: quick, thorough
inline int64_t n(int64_t quick, int64_t deep) {
  return static_cast<int64_t>((st().thorough ? deep : quick) * st().scale) + 1;
}
inline void crumb(const std::string& s) {
  st().current = s;
  if (st().crumb) {
    size_t k = std::min<size_t>(s.size(), 4000);
    memcpy(st().crumb, s.data(), k);
    st().crumb[k] = 0;
  }
}
inline void eval(uint64_t k = 1) { st().evals += k; }
inline void distinct(uint64_t h) {
  std::lock_guard<std::mutex> l(st().mu);
  if (st().distinct.size() < 4000000) st().distinct.insert(h);
}
inline void count(const std::string& name, uint64_t k = 1) {
  std::lock_guard<std::mutex> l(st().mu);
  st().counters[name] += k;
}
inline void counter_max(const std::string& name, uint64_t k) {
  std::lock_guard<std::mutex> l(st().mu);
  auto& c = st().counters[name];
  if (k > c) c = k;
}
inline void sample(const std::string& s) {
  std::lock_guard<std::mutex> l(st().mu);
  if (st().samples.size() < 5) st().samples.push_back(s);
}
inline void fail(const std::string& key, const std::string& detail) {
  std::lock_guard<std::mutex> l(st().mu);
  for (auto& v : st().violations)
    if (v.key == key) { ++st().suppressed; return; }
  fprintf(stderr, "VF-FAIL [%s] %s  (at %s)\n", key.c_str(), detail.c_str(), st().current.c_str());
  st().violations.push_back({key, detail, st().current});
}
#define VF_CHECK(cond, key, ...) do { if (!(cond)) ::vf::fail(key, ::vf::fmt(__VA_ARGS__)); } while (0)

inline std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
    else r += static_cast<char>(c);
  }
  return r + "\"";
}
inline int finish() {
  State& s = st();
  std::lock_guard<std::mutex> l(s.mu);
  std::string o = "{\"evaluations\":" + std::to_string(s.evals.load()) + ",\"distinct\":" + std::to_string(s.distinct.size()) + ",\"counters\":{";
  bool first = true;
  for (auto& c : s.counters) { o += (first ? "" : ",") + js(c.first) + ":" + std::to_string(c.second); first = false; }
  o += "},\"samples\":[";
  first = true;
  for (auto& c : s.samples) { o += (first ? "" : ",") + js(c); first = false; }
  o += "],\"violations\":[";
  first = true;
  for (auto& v : s.violations) {
    o += std::string(first ? "" : ",") + "{\"key\":" + js(v.key) + ",\"detail\":" + js(v.detail) + ",\"at\":" + js(v.at) + "}";
    first = false;
  }
  o += "],\"repeats\":" + std::to_string(s.suppressed) + "}\n";
  if (!s.out.empty()) {
    FILE* f = fopen(s.out.c_str(), "w");
    if (f) { fwrite(o.data(), 1, o.size(), f); fclose(f); }
  } else {
    fwrite(o.data(), 1, o.size(), stdout);
  }
  return s.violations.empty() ? 0 : 1;
}
// runs `count` cases of a part, each from its own generator; `--part` and `--case` narrow it down for a replay
inline void cases(const char* part, int64_t count, const std::function<void(Rng&, int64_t)>& f) {
  State& s = st();
  if (!s.part.empty() && s.part != part) return;
  if (getenv("VF_FAILFAST") && !s.violations.empty()) return;
  for (int64_t i = 0; i < count; ++i) {
    if (s.only >= 0 && i != s.only) continue;
    Rng r(mix(s.seed * 1000003ull + hash(std::string(part))) ^ mix(static_cast<uint64_t>(i)));
    crumb(fmt("--part %s --case %lld", part, static_cast<long long>(i)));
    f(r, i);
    if (s.violations.size() >= (getenv("VF_FAILFAST") ? 1u : 8u)) break;
  }
  vf::count(std::string("cases:") + part, static_cast<uint64_t>(count));
}
}  // namespace vf
