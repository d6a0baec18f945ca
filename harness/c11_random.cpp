// C11: random durations and traversals.
#include "vf.h"
#include <algorithm>
#include <set>
#include "common/random.h"
#include "common/random_traverser.h"
using namespace lightstep;
using vf::Rng;
using namespace std::chrono;

static int64_t any(Rng& r) {
  switch (r.below(6)) {
    case 0: return std::numeric_limits<int64_t>::min() + static_cast<int64_t>(r.below(3));
    case 1: return std::numeric_limits<int64_t>::max() - static_cast<int64_t>(r.below(3));
    case 2: return r.range(-5, 5);
    default: { int64_t v = static_cast<int64_t>(r.magnitude()); return r.chance(1, 2) ? v : static_cast<int64_t>(0 - static_cast<uint64_t>(v)); }
  }
}
static void nanos(Rng& r, int64_t) {
  int64_t a = any(r), b = r.chance(1, 6) ? a : any(r);
  if (a > b) std::swap(a, b);
  nanoseconds lo{a}, hi{b};
  double width = static_cast<double>(static_cast<uint64_t>(b) - static_cast<uint64_t>(a)), least = 1, most = 0;
  int low_half = 0, n = 60;
  for (int i = 0; i < n; ++i) {
    auto d = GenerateRandomDuration(lo, hi);
    VF_CHECK(d >= lo && d <= hi, "bounds", "%lld outside [%lld, %lld]", (long long)d.count(), (long long)a, (long long)b);
    double x = width > 0 ? static_cast<double>(static_cast<uint64_t>(d.count()) - static_cast<uint64_t>(a)) / width : 0;
    least = std::min(least, x);
    most = std::max(most, x);
    low_half += x < 0.5;
  }
  if (width >= 64) {  // 260 fair draws miss a fifth at either end with a chance below 1e-24
    for (int i = 0; i < 200; ++i) {
      double x = static_cast<double>(static_cast<uint64_t>(GenerateRandomDuration(lo, hi).count()) - static_cast<uint64_t>(a)) / width;
      least = std::min(least, x);
      most = std::max(most, x);
    }
    VF_CHECK(least < 0.2 && most > 0.8, "coverage", "260 draws from [%lld, %lld] stay within %.3f..%.3f of it", (long long)a, (long long)b, least, most);
  } else {
    std::set<int64_t> seen;
    int k = static_cast<int>(width) + 1;
    for (int i = 0; i < 60 * k; ++i) seen.insert(GenerateRandomDuration(lo, hi).count());
    VF_CHECK(static_cast<int>(seen.size()) == k, "coverage", "%zu of the %d values of [%lld, %lld] seen", seen.size(), k, (long long)a, (long long)b);
  }
  vf::eval(260);
  vf::distinct(vf::mix(static_cast<uint64_t>(a)) ^ static_cast<uint64_t>(b));
}
template <class D>
static void unit(Rng& r, const char* name) {
  int64_t per = duration_cast<nanoseconds>(D{1}).count();
  int64_t lim = std::numeric_limits<int64_t>::max() / per;
  auto pick = [&] { int64_t v = static_cast<int64_t>(r.magnitude() >> 1); v %= lim; return r.chance(1, 3) ? -v : v; };
  int64_t a = pick(), b = r.chance(1, 6) ? a : pick();
  if (r.chance(1, 3)) b = a > lim - 5000 ? a : a + static_cast<int64_t>(r.below(5000));
  if (b > lim) b = lim;
  if (a > b) std::swap(a, b);
  double least = 1, most = 0;
  for (int i = 0; i < 260; ++i) {
    D d = GenerateRandomDuration(D{static_cast<typename D::rep>(a)}, D{static_cast<typename D::rep>(b)});
    VF_CHECK(d.count() >= a && d.count() <= b, "bounds", "%lld %s outside [%lld, %lld]", (long long)d.count(), name, (long long)a, (long long)b);
    double x = b > a ? static_cast<double>(static_cast<uint64_t>(d.count()) - static_cast<uint64_t>(a)) / static_cast<double>(static_cast<uint64_t>(b) - static_cast<uint64_t>(a)) : 0;
    least = std::min(least, x);
    most = std::max(most, x);
  }
  if (static_cast<uint64_t>(b) - static_cast<uint64_t>(a) >= 64) VF_CHECK(least < 0.2 && most > 0.8, "coverage", "260 draws of %s from [%lld, %lld] stay within %.3f..%.3f", name, (long long)a, (long long)b, least, most);
  vf::eval(260);
  vf::distinct(vf::mix(static_cast<uint64_t>(a)) ^ static_cast<uint64_t>(b) ^ static_cast<uint64_t>(per));
}
static void units(Rng& r, int64_t) {
  unit<microseconds>(r, "us");
  unit<milliseconds>(r, "ms");
  unit<seconds>(r, "s");
  unit<minutes>(r, "min");
  unit<nanoseconds>(r, "ns");
}
static void traversal(Rng& r, int64_t i) {
  int n = i < 40 ? static_cast<int>(i) : static_cast<int>(r.skewed(300));
  RandomTraverser t{n};
  std::vector<int> first;
  bool varied = false;
  for (int round = 0; round < 30; ++round) {
    bool stopping = r.chance(1, 3);
    int limit = stopping ? static_cast<int>(r.below(static_cast<uint64_t>(n) + 1)) : n + 1;
    std::vector<int> order;
    bool res = t.ForEachIndex([&](int k) { order.push_back(k); return static_cast<int>(order.size()) != limit; });
    std::vector<int> s = order;
    std::sort(s.begin(), s.end());
    VF_CHECK(std::unique(s.begin(), s.end()) == s.end(), "repeat", "a slot of %d was visited twice", n);
    VF_CHECK(s.empty() || (s.front() >= 0 && s.back() < n), "range", "a slot outside [0, %d)", n);
    bool stopped = limit >= 1 && limit <= n;
    VF_CHECK(res == !stopped, "result", "returned %d, %s", res, stopped ? "stopped" : "not stopped");
    VF_CHECK(static_cast<int>(order.size()) == (stopped ? limit : n), "coverage", "%zu of %d slots visited, stop at %d", order.size(), n, limit);
    if (!stopped) {
      if (first.empty()) first = order;
      else varied = varied || order != first;
    }
    vf::eval();
    vf::distinct(vf::hash(order.data(), order.size() * sizeof(int)));
  }
  if (n >= 6) VF_CHECK(varied, "varies", "all full traversals of %d slots had the same order", n);
}
// every slot comes first, and last, sometimes; all orders of three occur
static void fairness(Rng& r, int64_t) {
  RandomTraverser t{3};
  std::set<std::vector<int>> orders;
  for (int i = 0; i < 400; ++i) { std::vector<int> o; t.ForEachIndex([&](int k) { o.push_back(k); return true; }); orders.insert(o); }
  VF_CHECK(orders.size() == 6, "orders", "%zu of the 6 orders of 3 slots seen in 400 traversals", orders.size());
  int n = 2 + static_cast<int>(r.below(15));
  RandomTraverser u{n};
  std::vector<int> firsts(static_cast<size_t>(n), 0);
  const int rounds = 100 * n;
  for (int i = 0; i < rounds; ++i) u.ForEachIndex([&](int k) { ++firsts[static_cast<size_t>(k)]; return false; });
  for (int k = 0; k < n; ++k) VF_CHECK(firsts[static_cast<size_t>(k)] > 30 && firsts[static_cast<size_t>(k)] < 100 + 90, "starved", "slot %d of %d came first %d times in %d", k, n, firsts[static_cast<size_t>(k)], rounds);
  vf::eval(500);
  vf::distinct(r());
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("nanos", vf::n(1500, 40000), nanos);
  vf::cases("units", vf::n(500, 15000), units);
  vf::cases("traversal", vf::n(400, 8000), traversal);
  vf::cases("fairness", vf::n(60, 800), fairness);
  return vf::finish();
}
