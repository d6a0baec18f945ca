// C01: many producers, one consumer on the span buffer.  Offline checks over the recorded history.
#include "vf.h"
#include "disturb.h"
#include <algorithm>
#include <memory>
#include "common/circular_buffer.h"
using namespace lightstep;
using vf::Rng;

static std::atomic<int64_t> live{0}, built{0}, destroyed{0};
static std::atomic<int64_t> ticket{0};
struct Item {
  static constexpr uint64_t kMagic = 0x5ca1ab1e0ddba11ull;
  uint64_t magic = kMagic;
  int producer, seq;
  int64_t start;
  uint64_t payload[3];
  Item(int p, int s) : producer(p), seq(s), start(0) {
    for (int i = 0; i < 3; ++i) payload[i] = vf::mix(static_cast<uint64_t>(p) << 32 | static_cast<uint64_t>(s) << 2 | i);
    live.fetch_add(1, std::memory_order_relaxed);
    built.fetch_add(1, std::memory_order_relaxed);
  }
  bool intact() const {
    if (magic != kMagic) return false;
    for (int i = 0; i < 3; ++i)
      if (payload[i] != vf::mix(static_cast<uint64_t>(producer) << 32 | static_cast<uint64_t>(seq) << 2 | i)) return false;
    return true;
  }
  ~Item() {
    if (magic != kMagic) vf::fail("double-release", "an element was destroyed twice");
    magic = 0xdead;
    live.fetch_sub(1, std::memory_order_relaxed);
    destroyed.fetch_add(1, std::memory_order_relaxed);
  }
};
using Ptr = AtomicUniquePtr<Item>;
struct Rec { int producer, seq; int64_t start; };

static void one(Rng& r, bool roomy) {
  const int P = static_cast<int>(1 + r.below(6));
  const int K = static_cast<int>(roomy ? 40 + r.below(200) : 50 + r.below(VF_TSAN ? 250 : 700));
  static const size_t caps[] = {1, 1, 2, 2, 3, 4, 7, 16, 100};
  const size_t cap = roomy ? static_cast<size_t>(P) * K + r.below(2) : caps[r.below(9)];
  const bool retry = r.chance(1, 2) || roomy;
  const int pace = static_cast<int>(r.below(3));
  const int cmode = static_cast<int>(r.below(4));
  const int64_t live0 = live;
  {
    CircularBuffer<Item> buf{cap};
    vf::Disturber d(r(), !VF_TSAN);
    std::vector<std::vector<int64_t>> ends(P, std::vector<int64_t>(K, -1));
    std::vector<std::vector<char>> accepted(P, std::vector<char>(K, 0));
    std::atomic<int64_t> started{0}, refused{0}, completed{0}, consumed{0}, consuming{0};
    std::atomic<int> running{P};
    std::vector<std::thread> ts;
    std::vector<uint64_t> seeds;
    for (int p = 0; p < P; ++p) seeds.push_back(r());
    for (int p = 0; p < P; ++p)
      ts.emplace_back([&, p] {
        vf::Disturber::Enrol en(d);
        Rng g(seeds[p]);
        for (int k = 0; k < K; ++k) {
          std::unique_ptr<Item> it{new Item(p, k)};
          while (true) {
            Item* raw = it.get();
            int64_t rf = refused.load(), c0 = consumed.load();
            int64_t t0 = ticket.fetch_add(1, std::memory_order_relaxed);
            it->start = t0;
            started.fetch_add(1, std::memory_order_relaxed);
            bool ok = buf.Add(it);
            int64_t t1 = ticket.fetch_add(1, std::memory_order_relaxed);
            if (ok) {
              int64_t done = completed.fetch_add(1) + 1;
              int64_t cons = consuming.load();
              VF_CHECK(done - cons <= static_cast<int64_t>(cap), "over-capacity", "%lld elements held with capacity %zu", (long long)(done - cons), cap);
              VF_CHECK(it == nullptr, "accepted-but-kept", "producer %d still owns element %d after a successful add", p, k);
              it.release();
              ends[p][k] = t1;
              accepted[p][k] = 1;
              break;
            }
            int64_t possible = started.load() - rf - 1;
            VF_CHECK(possible - c0 >= static_cast<int64_t>(cap), "refused-with-room",
                     "add refused although at most %lld elements could be held (capacity %zu)", (long long)(possible - c0), cap);
            if (it == nullptr || it.get() != raw || !it->intact()) {
              vf::fail("refused-but-taken", vf::fmt("producer %d lost element %d on a refused add", p, k));
              it.release();
              refused++;
              break;
            }
            refused++;
            if (!retry) break;
            if (pace) sched_yield();
          }
          if (pace == 2 && g.chance(1, 4)) sched_yield();
        }
        --running;
      });
    // what other threads see of its counters meanwhile
    std::atomic<bool> drained{false};
    uint64_t looks = 0;
    std::thread looker;
    if (r.chance(1, 3))
      looker = std::thread([&] {
        vf::Disturber::Enrol en(d);
        int64_t seen_in = 0, seen_out = 0;
        while (!drained) {
          int64_t out = buf.consumption_count();
          size_t n = buf.size();
          int64_t in = buf.production_count();
          VF_CHECK(static_cast<int64_t>(n) >= 0 && static_cast<int64_t>(n) <= in, "impossible-size", "size %zu when %lld elements were ever added", n, (long long)in);
          VF_CHECK(in >= seen_in && out >= seen_out && out <= in, "counters", "counts went from %lld and %lld to %lld and %lld", (long long)seen_in, (long long)seen_out, (long long)in, (long long)out);
          seen_in = in;
          seen_out = out;
          ++looks;
        }
      });
    std::vector<Rec> log;
    log.reserve(static_cast<size_t>(P) * K);
    {
      vf::Disturber::Enrol en(d);
      Rng g(r());
      int idle = 0;
      while (true) {
        bool last = running == 0;
        auto range = buf.Peek();
        size_t have = range.size();
        VF_CHECK(have <= cap, "peek-over-capacity", "%zu elements visible, capacity %zu", have, cap);
        if (have == 0) {
          if (last) break;
          if (++idle > 3) sched_yield();
          continue;
        }
        idle = 0;
        size_t n = cmode == 0 ? have : cmode == 1 ? 1 : g.below(have + 1);
        std::vector<Rec> peeked;
        range.ForEach([&](const Ptr& q) {
          if (peeked.size() >= n) return false;
          if (q.IsNull()) { vf::fail("peeked-null", "a held element is missing"); return false; }
          const Item& it = *q;
          if (!it.intact()) { vf::fail("peeked-corrupt", "a held element is corrupt"); return false; }
          peeked.push_back({it.producer, it.seq, it.start});
          return true;
        });
        consuming.fetch_add(static_cast<int64_t>(n));
        if (cmode == 3) {
          buf.Consume(n);
          log.insert(log.end(), peeked.begin(), peeked.end());
        } else {
          size_t i = 0;
          buf.Consume(n, [&](CircularBufferRange<Ptr> rg) noexcept {
            VF_CHECK(rg.size() == n, "consume-size", "asked for %zu elements, got %zu", n, rg.size());
            rg.ForEach([&](Ptr& q) noexcept {
              if (q.IsNull()) { vf::fail("consumed-null", "a consumed slot is empty"); return true; }
              std::unique_ptr<Item> out;
              q.Swap(out);
              if (!out || !out->intact()) { vf::fail("consumed-corrupt", "a consumed element is corrupt"); out.release(); return true; }
              if (i >= peeked.size() || peeked[i].producer != out->producer || peeked[i].seq != out->seq)
                vf::fail("peek-differs", "consumption delivered something else than was peeked");
              log.push_back({out->producer, out->seq, out->start});
              ++i;
              return true;
            });
          });
        }
        consumed.fetch_add(static_cast<int64_t>(n));
        if (cmode == 2 && g.chance(1, 3)) sched_yield();
      }
    }
    for (auto& t : ts) t.join();
    drained = true;
    if (looker.joinable()) looker.join();
    vf::count("sizes_seen", looks);
    // oracle over the whole history
    std::vector<std::vector<char>> got(P, std::vector<char>(K, 0));
    std::vector<int> lastseq(P, -1);
    int64_t maxstart = -1;
    uint64_t h = cap;
    for (auto& e : log) {
      h = vf::mix(h ^ static_cast<uint64_t>(e.producer));
      if (e.producer < 0 || e.producer >= P || e.seq < 0 || e.seq >= K) { vf::fail("invented", "an element nobody added"); continue; }
      if (got[e.producer][e.seq]++) vf::fail("duplicate", vf::fmt("element %d of producer %d delivered twice", e.seq, e.producer));
      if (!accepted[e.producer][e.seq]) vf::fail("refused-delivered", vf::fmt("refused element %d of producer %d was delivered", e.seq, e.producer));
      if (e.seq <= lastseq[e.producer]) vf::fail("reordered", vf::fmt("producer %d: %d delivered after %d", e.producer, e.seq, lastseq[e.producer]));
      lastseq[e.producer] = e.seq;
      if (ends[e.producer][e.seq] >= 0 && ends[e.producer][e.seq] < maxstart)
        vf::fail("real-time-order", "an element added entirely before another one was delivered after it");
      maxstart = std::max(maxstart, e.start);
    }
    int64_t acc = 0;
    for (int p = 0; p < P; ++p)
      for (int k = 0; k < K; ++k)
        if (accepted[p][k]) {
          ++acc;
          if (!got[p][k]) { vf::fail("lost", vf::fmt("element %d of producer %d was accepted and never delivered", k, p)); p = P - 1; break; }
        }
    VF_CHECK(buf.empty() && buf.size() == 0, "not-empty", "the buffer is not empty after a full drain");
    VF_CHECK(buf.production_count() == static_cast<int64_t>(log.size()) && buf.consumption_count() == static_cast<int64_t>(log.size()),
             "counters", "production %lld consumption %lld delivered %zu", (long long)buf.production_count(), (long long)buf.consumption_count(), log.size());
    vf::distinct(h);
    vf::count("events:added", static_cast<uint64_t>(acc));
    vf::count("events:refused", static_cast<uint64_t>(refused.load()));
    vf::count("events:delivered", log.size());
    vf::eval();
    vf::sample(vf::fmt("%d producers x %d adds, capacity %zu, %s, drain mode %d: %lld accepted, %lld refusals", P, K, cap,
                       retry ? "retrying" : "dropping", cmode, (long long)acc, (long long)refused.load()));
  }
  VF_CHECK(live == live0, "leak", "%lld elements leaked", (long long)(live - live0));
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("contended", vf::n(VF_TSAN ? 120 : 400, VF_TSAN ? 3000 : 15000), [](Rng& r, int64_t) { one(r, false); });
  vf::cases("roomy", vf::n(VF_TSAN ? 60 : 150, VF_TSAN ? 1500 : 6000), [](Rng& r, int64_t) { one(r, true); });
  // with elements left inside when the buffer goes away
  vf::cases("abandoned", vf::n(30, 500), [](Rng& r, int64_t) {
    int64_t live0 = live;
    {
      CircularBuffer<Item> buf{1 + r.below(20)};
      std::vector<std::thread> ts;
      for (int p = 0; p < 3; ++p)
        ts.emplace_back([&buf, p] { for (int k = 0; k < 15; ++k) { std::unique_ptr<Item> it{new Item(p, k)}; buf.Add(it); } });
      for (auto& t : ts) t.join();
      VF_CHECK(buf.size() <= buf.max_size(), "over-capacity", "size %zu", buf.size());
    }
    VF_CHECK(live == live0, "leak", "%lld elements leaked when the buffer was destroyed", (long long)(live - live0));
    vf::eval();
  });
  vf::count("preemptions", vf::disturb_hits().load());
  return vf::finish();
}
