// C10: identifiers drawn by threads and by trees of forked processes.
#include "vf.h"
#include "disturb.h"
#include <sys/wait.h>
#include <unordered_map>
#include <condition_variable>
#include "common/random.h"
using namespace lightstep;
using vf::Rng;

static const size_t kMax = 1 << 21;
struct Shared { std::atomic<uint64_t> n; uint64_t id[kMax]; };
static Shared* sh;
static void put(uint64_t x) {
  uint64_t i = sh->n++;
  if (i < kMax) sh->id[i] = x;
}
static void draw(Rng& r, size_t k) {
  while (k > 0) {
    switch (r.below(4)) {
      case 0: { auto a = GenerateIds<2>(); for (auto x : a) put(x); k -= std::min<size_t>(k, 2); break; }
      case 1: { auto a = GenerateIds<8>(); for (auto x : a) put(x); k -= std::min<size_t>(k, 8); break; }
      case 2: put(GetRandomNumberGenerator()()); --k; break;
      default: put(GenerateId()); --k;
    }
  }
}
static void judge(const char* key, uint64_t expect_at_least) {
  uint64_t n = std::min<uint64_t>(sh->n, kMax);
  VF_CHECK(n >= expect_at_least, "lost", "%llu ids recorded, %llu expected", (unsigned long long)n, (unsigned long long)expect_at_least);
  std::unordered_map<uint64_t, uint64_t> seen;
  seen.reserve(n * 2);
  for (uint64_t i = 0; i < n; ++i) {
    auto e = seen.emplace(sh->id[i], i);
    if (!e.second) { vf::fail(key, vf::fmt("id %016llx drawn twice (draws %llu and %llu of %llu)", (unsigned long long)sh->id[i], (unsigned long long)e.first->second, (unsigned long long)i, (unsigned long long)n)); break; }
  }
  vf::eval(n);
  vf::count("ids", n);
}
static void threads(Rng& r, int64_t) {
  sh->n = 0;
  vf::Disturber dist(r());
  size_t waves = 1 + r.below(4), total = 0;
  for (size_t w = 0; w < waves; ++w) {
    std::vector<std::thread> ts;
    size_t k = 1 + r.below(8);
    for (size_t i = 0; i < k; ++i) {
      size_t m = 1 + r.below(400);
      total += m;
      ts.emplace_back([&dist, m, s = r()] { vf::Disturber::Enrol e(dist); Rng q(s); draw(q, m); });
    }
    size_t m = r.below(200);
    total += m;
    draw(r, m);
    for (auto& t : ts) t.join();
  }
  judge("duplicate-threads", total);
  vf::distinct(r());
}
// A process draws some, forks some children that do the same, and draws more; forks happen from fresh threads too.
static void node(Rng& r, int depth) {
  draw(r, r.below(3) ? r.below(20) : 0);
  size_t kids = depth > 0 ? r.below(3) + (depth == 3) : 0;
  std::vector<pid_t> pids;
  for (size_t i = 0; i < kids; ++i) {
    uint64_t s = r();
    bool in_thread = r.chance(1, 3), drawn_before = r.chance(1, 2);
    auto spawn = [&] {
      Rng q(s);
      if (drawn_before) draw(q, 1 + q.below(5));
      pid_t p = fork();
      if (p == 0) {
        node(q, depth - 1);
        draw(q, 3 + q.below(10));
        _exit(0);
      }
      if (p < 0) _exit(77);
      pids.push_back(p);
      draw(q, q.below(10));
    };
    if (in_thread) { std::thread t(spawn); t.join(); } else spawn();
    if (r.chance(1, 2)) draw(r, r.below(10));
  }
  draw(r, 2 + r.below(10));
  for (auto p : pids) {
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      if (depth == 3) vf::fail("child", vf::fmt("a forked process ended with status %d", st));
      else _exit(3);
    }
  }
}
static void forks(Rng& r, int64_t) {
  sh->n = 0;
  // the first draw of this process may come only after the fork
  pid_t p = fork();
  if (p == 0) {
    Rng q(r());
    node(q, 3);
    for (auto& v : vf::st().violations) { (void)v; _exit(4); }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "child", "a tree of forked processes ended with status %d", st);
  judge("duplicate-forks", 2);
  vf::distinct(r());
}
// a running thread that has drawn, while another forks: parent threads and child stay apart
static void mixed(Rng& r, int64_t) {
  sh->n = 0;
  std::atomic<bool> stop{false};
  std::vector<std::thread> ts;
  for (int i = 0; i < 3; ++i) ts.emplace_back([&, s = r()] { Rng q(s); while (!stop) { draw(q, 1); usleep(50); } });
  draw(r, r.below(4));
  std::vector<pid_t> pids;
  for (int i = 0; i < 4; ++i) {
    pid_t p = fork();
    if (p == 0) {
      for (int k = 0; k < 20; ++k) put(GenerateId());
      std::thread t([] { for (int k = 0; k < 20; ++k) put(GenerateId()); });
      t.join();
      _exit(0);
    }
    pids.push_back(p);
    for (size_t k = r.below(20); k > 0; --k) put(GenerateId());
  }
  for (auto p : pids) {
    int st = 0;
    waitpid(p, &st, 0);
    VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "child", "child ended with status %d", st);
  }
  stop = true;
  for (auto& t : ts) t.join();
  judge("duplicate-forks", 160);
  vf::distinct(r());
}
// Frequencies that a fair source misses with a chance below 1e-12.
static void bits(Rng&, int64_t c) {
  const int n = 200000;
  std::vector<int> ones(64, 0), flips(64, 0), across(64, 0);
  uint64_t prev = 0;
  std::vector<uint64_t> all;
  std::thread t([&] {
    // drawn one by one, several at once, or both
    for (int i = 0; i < n; i += 4) {
      if (c % 3 == 0 || (c % 3 == 2 && i % 8)) {
        auto a = GenerateIds<4>();
        for (auto x : a) all.push_back(x);
      } else
        for (int k = 0; k < 4; ++k) all.push_back(GenerateId());
    }
  });
  t.join();
  for (size_t i = 0; i < all.size(); ++i) {
    uint64_t x = all[i];
    for (int b = 0; b < 64; ++b) {
      ones[b] += x >> b & 1;
      flips[b] += (x ^ prev) >> b & 1;
      across[b] += (x ^ (x >> 32 | x << 32)) >> b & 1;
    }
    prev = x;
  }
  double sd = std::sqrt(n / 4.0);
  for (int b = 0; b < 64; ++b) {
    VF_CHECK(std::abs(ones[b] - n / 2) < 8 * sd, "bias", "bit %d is one in %d of %d draws", b, ones[b], n);
    VF_CHECK(std::abs(flips[b] - n / 2) < 8 * sd, "dependence", "bit %d changes in %d of %d successive draws", b, flips[b], n);
    VF_CHECK(std::abs(across[b] - n / 2) < 8 * sd, "halves", "bit %d equals its partner in %d of %d draws", b, n - across[b], n);
  }
  std::vector<int> bucket(256, 0);
  for (auto x : all) { ++bucket[x & 255]; }
  double chi = 0;
  for (int c : bucket) chi += (c - n / 256.0) * (c - n / 256.0) / (n / 256.0);
  VF_CHECK(chi < 255 + 9 * std::sqrt(510.0), "buckets", "low bytes are uneven: chi2 %.1f", chi);
  vf::eval(static_cast<uint64_t>(n));
  vf::distinct(all[0]);
}
// first draws of many fresh threads: the seeds themselves must not repeat
static void seeds(Rng& r, int64_t) {
  sh->n = 0;
  for (int w = 0; w < 8; ++w) {
    std::vector<std::thread> ts;
    for (int i = 0; i < 16; ++i) ts.emplace_back([] { put(GenerateId()); });
    for (auto& t : ts) t.join();
  }
  judge("duplicate-seeds", 128);
  vf::distinct(r());
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (sh == MAP_FAILED) return 77;
#if !VF_TSAN
  vf::cases("forks", vf::n(60, 1200), forks);
#endif
#if !VF_TSAN && !VF_ASAN  // forking while other threads allocate: the sanitizers' allocators don't allow for it
  vf::cases("mixed", vf::n(30, 400), mixed);
#endif
  vf::cases("threads", vf::n(40, 800), threads);
  vf::cases("seeds", vf::n(6, 60), seeds);
  vf::cases("bits", vf::n(6, 60), bits);
  return vf::finish();
}
