// C02: the span buffer, its two-part views and its slots against a deque model, one thread.
#include "vf.h"
#include <deque>
#include <memory>
#include "common/circular_buffer.h"
#include "common/circular_buffer_range.h"
using namespace lightstep;
using vf::Rng;
static int64_t live = 0;
struct Item {
  uint64_t id;
  bool* gone;
  explicit Item(uint64_t i) : id(i), gone(nullptr) { ++live; }
  ~Item() { --live; if (id == ~0ull) vf::fail("double-release", "element destroyed twice"); id = ~0ull; }
};
using Ptr = AtomicUniquePtr<Item>;

static void history(Rng& r, int64_t) {
  size_t cap = r.chance(1, 30) ? 0 : r.chance(1, 2) ? 1 + r.below(5) : 1 + r.below(70);
  uint64_t next = 1, h = cap;
  int64_t live0 = live, wraps = 0;
  {
    CircularBuffer<Item> b{cap};
    std::deque<uint64_t> m;
    int64_t in = 0, out = 0;
    VF_CHECK(b.max_size() == cap, "max-size", "max_size %zu, configured %zu", b.max_size(), cap);
    int ops = static_cast<int>(20 + r.below(200));
    for (int o = 0; o < ops; ++o) {
      switch (r.below(8)) {
        case 0: case 1: case 2: case 3: {
          size_t k = r.chance(1, 6) ? r.below(cap + 2) : 1;
          while (k--) {
            std::unique_ptr<Item> it{new Item(next)};
            Item* raw = it.get();
            bool ok = b.Add(it);
            VF_CHECK(ok == (m.size() < cap), "add-result", "add returned %d with %zu of %zu held", ok, m.size(), cap);
            if (ok) {
              VF_CHECK(it == nullptr, "accepted-but-kept", "caller still owns an accepted element");
              m.push_back(next); ++in; ++next;
            } else {
              VF_CHECK(it.get() == raw && it && it->id == next, "refused-but-taken", "a refused element was taken from the caller");
            }
            h = vf::mix(h ^ ok);
          }
          break;
        }
        case 4: {  // consume with a callback
          size_t n = r.below(m.size() + 1);
          std::vector<uint64_t> got;
          size_t calls = 0, sz = 0;
          bool keep = r.chance(1, 2);
          b.Consume(n, [&](CircularBufferRange<Ptr> g) noexcept {
            ++calls;
            sz = g.size();
            VF_CHECK(g.empty() == (n == 0), "range-empty", "a range of %zu elements says empty=%d", n, g.empty());
            g.ForEach([&](Ptr& p) noexcept {
              if (p.IsNull()) { vf::fail("consumed-null", "empty slot consumed"); return true; }
              got.push_back((*p).id);
              if (keep) { std::unique_ptr<Item> o; p.Swap(o); } else p.Reset();
              VF_CHECK(p.IsNull(), "slot-not-empty", "slot still owns its element");
              return true;
            });
          });
          VF_CHECK(calls == 1 && sz == n && got.size() == n, "consume-size", "asked for %zu, got %zu in %zu calls", n, got.size(), calls);
          for (size_t i = 0; i < got.size() && i < n; ++i)
            VF_CHECK(got[i] == m[i], "consume-order", "consumed element %zu is %llu, expected %llu", i, (unsigned long long)got[i], (unsigned long long)m[i]);
          m.erase(m.begin(), m.begin() + static_cast<long>(n));
          out += static_cast<int64_t>(n);
          h = vf::mix(h ^ (n + 7));
          break;
        }
        case 5: {
          size_t n = r.below(m.size() + 1);
          int64_t before = live;
          b.Consume(n);
          VF_CHECK(before - live == static_cast<int64_t>(n), "consume-release", "consuming %zu elements released %lld", n, (long long)(before - live));
          m.erase(m.begin(), m.begin() + static_cast<long>(n));
          out += static_cast<int64_t>(n);
          h = vf::mix(h ^ (n + 1007));
          break;
        }
        case 6:
          if (r.chance(1, 4)) {
            out += static_cast<int64_t>(m.size());
            int64_t before = live;
            b.Clear();
            VF_CHECK(before - live == static_cast<int64_t>(m.size()), "clear-release", "clearing %zu elements released %lld", m.size(), (long long)(before - live));
            m.clear();
            h = vf::mix(h ^ 99);
          }
          break;
        default: break;
      }
      // observers
      VF_CHECK(b.size() == m.size(), "size", "size %zu, model %zu", b.size(), m.size());
      VF_CHECK(b.empty() == m.empty(), "empty", "empty %d, model %d", b.empty(), m.empty());
      VF_CHECK(b.production_count() == in && b.consumption_count() == out, "counters", "counters %lld/%lld, model %lld/%lld",
               (long long)b.production_count(), (long long)b.consumption_count(), (long long)in, (long long)out);
      VF_CHECK(b.max_size() == cap, "max-size", "max_size changed");
      auto range = b.Peek();
      VF_CHECK(range.size() == m.size(), "peek-size", "peek shows %zu of %zu", range.size(), m.size());
      VF_CHECK(range.empty() == m.empty(), "peek-empty", "peek empty %d with %zu held", range.empty(), m.size());
      size_t i = 0;
      bool all = range.ForEach([&](const Ptr& p) {
        VF_CHECK(i < m.size() && !p.IsNull() && (*p).id == m[i], "peek-order", "peeked element %zu wrong", i);
        ++i;
        return true;
      });
      VF_CHECK(all && i == m.size(), "peek-all", "iteration visited %zu of %zu", i, m.size());
      size_t k = r.below(m.size() + 1);
      auto sub = range.Take(k);
      VF_CHECK(sub.size() == k, "take-size", "Take(%zu) has %zu", k, sub.size());
      VF_CHECK(sub.empty() == (k == 0), "take-empty", "Take(%zu) empty=%d", k, sub.empty());
      i = 0;
      sub.ForEach([&](const Ptr& p) { VF_CHECK(i < k && (*p).id == m[i], "take-order", "Take element %zu wrong", i); ++i; return true; });
      VF_CHECK(i == k, "take-all", "Take(%zu) iterated %zu", k, i);
      size_t stop = r.below(m.size() + 1);
      i = 0;
      bool done = range.ForEach([&](const Ptr&) { return i++ < stop; });
      VF_CHECK(done == (stop >= m.size()) && i == std::min(stop + 1, m.size()), "early-stop", "early stop after %zu visited %zu", stop, i);
      VF_CHECK(live - live0 == static_cast<int64_t>(m.size()), "ownership", "%lld elements alive, %zu held", (long long)(live - live0), m.size());
    }
    wraps = in / static_cast<int64_t>(cap + 1);
  }
  VF_CHECK(live == live0, "leak", "%lld elements leaked with the buffer", (long long)(live - live0));
  vf::distinct(h);
  vf::counter_max("wraps", static_cast<uint64_t>(wraps));
  vf::eval();
  vf::sample(vf::fmt("capacity %zu, %lld wrap-arounds", cap, (long long)wraps));
}

static void ranges(Rng& r, int64_t) {  // every split of a view, over an array laid out as the ring would be
  size_t n1 = 1 + r.below(6), n2 = r.below(6);
  std::vector<int> a(n2 + r.below(3) + n1, -1);
  for (size_t i = 0; i < n2; ++i) a[i] = static_cast<int>(n1 + i);
  for (size_t i = 0; i < n1; ++i) a[a.size() - n1 + i] = static_cast<int>(i);
  int* d = a.data();
  CircularBufferRange<int> g{d + a.size() - n1, d + a.size(), n2 ? d : nullptr, n2 ? d + n2 : nullptr};
  CircularBufferRange<const int> c = g;
  VF_CHECK(g.size() == n1 + n2 && c.size() == n1 + n2, "range-size", "%zu+%zu gives %zu", n1, n2, g.size());
  for (size_t k = 0; k <= n1 + n2; ++k) {
    auto t = g.Take(k);
    VF_CHECK(t.size() == k && t.empty() == (k == 0), "range-take", "Take(%zu) of %zu+%zu has %zu", k, n1, n2, t.size());
    for (size_t j = 0; j <= k; ++j) {
      auto u = t.Take(j);
      int e = 0;
      bool all = u.ForEach([&](int& x) { VF_CHECK(x == e, "range-order", "element %d is %d", e, x); ++e; return true; });
      VF_CHECK(all && e == static_cast<int>(j), "range-iterate", "Take(%zu).Take(%zu) iterated %d", k, j, e);
    }
  }
  CircularBufferRange<int> none;
  VF_CHECK(none.empty() && none.size() == 0 && none.ForEach([](int&) { return false; }), "range-default", "default range is not empty");
  vf::eval();
  vf::distinct(vf::mix(n1 * 100 + n2) ^ 0x77);
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("history", vf::n(6000, 200000), history);
  vf::cases("ranges", vf::n(400, 4000), ranges);
  return vf::finish();
}
