// C02: a buffer in use for very long: the counts of what was added and consumed grow beyond 2^31 (and 2^32); around those ages, and at
// every power of two before, every operation is watched, in between every batch.
#include "vf.h"
#include <memory>
#include <vector>
#include "common/circular_buffer.h"
using namespace lightstep;
using vf::Rng;

static void aged(Rng& r, int64_t) {
  const int64_t goal = vf::n(int64_t{1} << 31, int64_t{1} << 32) + 4096;
  const size_t cap = 300 + r.below(400);
  CircularBuffer<int> b{cap};
  std::vector<std::unique_ptr<int>> pool(cap);  // elements go round: what comes out is put in again, in the same order
  for (size_t i = 0; i < cap; ++i) pool[i].reset(new int(static_cast<int>(i)));
  size_t put = 0, got = 0;  // next to put, next expected
  int64_t in = 0, out = 0;
  bool order = true;
  auto add = [&]() noexcept -> bool {
    if (!b.Add(pool[put])) return false;
    if (++put == cap) put = 0;
    ++in;
    return true;
  };
  auto take = [&](size_t k) noexcept {
    b.Consume(k, [&](CircularBufferRange<AtomicUniquePtr<int>>& g) noexcept {
      if (g.size() != k) order = false;
      g.ForEach([&](AtomicUniquePtr<int>& x) noexcept {
        x.Swap(pool[got]);
        if (!pool[got] || *pool[got] != static_cast<int>(got)) order = false;
        if (++got == cap) got = 0;
        return true;
      });
    });
    out += static_cast<int64_t>(k);
  };
  auto agree = [&]() -> bool {
    bool ok = b.size() == static_cast<size_t>(in - out) && b.empty() == (in == out) && b.production_count() == in && b.consumption_count() == out && b.Peek().size() == b.size() && order;
    VF_CHECK(ok, "aged", "after %lld adds and %lld consumed: size %zu, added %lld, consumed %lld, seen %zu, in order: %d", (long long)in, (long long)out, b.size(),
             (long long)b.production_count(), (long long)b.consumption_count(), b.Peek().size(), order);
    return ok;
  };
  auto refused = [&] { vf::fail("aged-full", vf::fmt("refused with %lld of %zu held, after %lld adds", (long long)(in - out), cap, (long long)in)); };
  int64_t age = 2048, steps = 0;  // the next power of two
  while (in < goal) {
    if (in < age - 1024 - static_cast<int64_t>(cap)) {
      for (size_t i = 0; i < cap; ++i) if (!add()) return refused();
      take(cap);
      if (!agree()) return;
      continue;
    }
    for (; in < age + 1024; ++steps) {
      size_t held = static_cast<size_t>(in - out);
      if (held == cap) {
        std::unique_ptr<int> more{new int{-1}};
        bool took = b.Add(more);
        VF_CHECK(!took && more, "aged-full", "took more than %zu, after %lld adds", cap, (long long)in);
        if (took) return;
      }
      if (held < cap && (held == 0 || r.chance(5, 8))) { if (!add()) return refused(); }
      else take(1 + r.below(std::min<uint64_t>(2, held)));
      if (!agree()) return;
    }
    take(static_cast<size_t>(in - out));
    age *= 2;
  }
  vf::count("steps", static_cast<uint64_t>(steps));
  vf::counter_max("oldest", static_cast<uint64_t>(in));
  vf::eval();
  vf::distinct(vf::mix(cap));
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("aged", 1, aged);
  return vf::finish();
}
