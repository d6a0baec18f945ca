// C03: mutual exclusion of the spin lock and ownership of the atomic pointer.
#include "vf.h"
#include "disturb.h"
#include <memory>
#include "common/atomic_unique_ptr.h"
#include "common/spin_lock_mutex.h"
using namespace lightstep;
using vf::Rng;

static void exclusion(Rng& r, int64_t) {
  int T = static_cast<int>(2 + r.below(6)), K = static_cast<int>(VF_TSAN ? 300 : 1500);
  SpinLockMutex mu;
  // plain variables, so that the race detector sees any overlap as well
  int64_t counter = 0, last_owner = -1;
  std::atomic<int> inside{0};
  uint64_t h = 0;
  vf::Disturber d(r(), !VF_TSAN);
  std::vector<std::thread> ts;
  uint64_t seed = r();
  for (int t = 0; t < T; ++t)
    ts.emplace_back([&, t] {
      vf::Disturber::Enrol e(d);
      Rng g(seed + static_cast<uint64_t>(t));
      for (int k = 0; k < K; ++k) {
        bool guard = g.chance(1, 2);
        auto section = [&] {
          int n = inside.fetch_add(1, std::memory_order_relaxed) + 1;
          VF_CHECK(n == 1, "overlap", "%d threads inside the guarded region", n);
          int64_t c = counter;
          last_owner = t;
          if (g.chance(1, 40)) sched_yield();
          VF_CHECK(last_owner == t, "overlap", "another thread entered the guarded region");
          counter = c + 1;
          h = vf::mix(h ^ static_cast<uint64_t>(t));
          inside.fetch_sub(1, std::memory_order_relaxed);
        };
        if (guard) { SpinLockGuard l(mu); section(); }
        else { mu.lock(); section(); mu.unlock(); }
        if (g.chance(1, 10)) sched_yield();
      }
    });
  for (auto& t : ts) t.join();
  VF_CHECK(counter == static_cast<int64_t>(T) * K, "lost-update", "%lld increments under the lock, expected %lld", (long long)counter, (long long)T * K);
  vf::eval();
  vf::distinct(h);
  vf::count("sections", static_cast<uint64_t>(T) * static_cast<uint64_t>(K));
  vf::sample(vf::fmt("%d threads x %d sections", T, K));
}

static std::atomic<int64_t> live{0};
struct Obj {
  uint64_t id, magic;
  explicit Obj(uint64_t i) : id(i), magic(~i) { live.fetch_add(1, std::memory_order_relaxed); }
  ~Obj() {
    if (magic != ~id) vf::fail("double-delete", "an object was deleted twice or corrupted");
    magic = 0; id = 0;
    live.fetch_sub(1, std::memory_order_relaxed);
  }
};

// swaps and conditional swaps from many threads: every object is handed out to exactly one owner
static void ownership(Rng& r, int64_t) {
  int T = static_cast<int>(2 + r.below(5)), K = VF_TSAN ? 300 : 1200;
  const bool resets = r.chance(1, 3);
  int64_t live0 = live;
  std::atomic<int64_t> installed{0}, taken{0}, rejected{0};
  {
    AtomicUniquePtr<Obj> slot;
    vf::Disturber d(r(), !VF_TSAN);
    std::vector<std::thread> ts;
    uint64_t seed = r();
    for (int t = 0; t < T; ++t)
      ts.emplace_back([&, t] {
        vf::Disturber::Enrol e(d);
        Rng g(seed + static_cast<uint64_t>(t));
        std::unique_ptr<Obj> mine;
        for (int k = 0; k < K; ++k) {
          uint64_t id = (static_cast<uint64_t>(t) << 32) + static_cast<uint64_t>(k) + 1;
          if (!mine) mine.reset(new Obj(id));
          uint64_t myid = mine->id;
          Obj* raw = mine.get();
          if (g.chance(1, 2)) {
            if (slot.SwapIfNull(mine)) {
              installed++;
              VF_CHECK(mine == nullptr, "installed-but-kept", "a successful conditional swap left the object with the caller");
              mine.release();
            } else {
              rejected++;
              if (mine.get() != raw || mine->id != myid) { vf::fail("rejected-but-taken", "a failed conditional swap changed the caller's object"); mine.release(); }
            }
          } else if (resets && g.chance(1, 4)) {
            slot.Reset(mine.release());
            installed++;
          } else {
            if (g.chance(1, 2)) mine.reset();
            bool had = mine != nullptr;
            slot.Swap(mine);
            if (had) installed++;
            if (mine) {
              taken++;
              VF_CHECK(mine->magic == ~mine->id, "corrupt", "a swapped out object is dead");
              VF_CHECK(mine.get() != raw || !had, "self-swap", "a swap returned the object just put in");
            }
          }
        }
      });
    for (auto& t : ts) t.join();
    bool left = !slot.IsNull();
    VF_CHECK((slot.Get() != nullptr) == left, "is-null", "IsNull and Get disagree");
    if (!resets)
      VF_CHECK(installed - taken == (left ? 1 : 0), "conservation", "%lld installed, %lld taken out, %d left", (long long)installed.load(), (long long)taken.load(), left);
  }
  VF_CHECK(live == live0, "leak", "%lld objects leaked", (long long)(live - live0));
  vf::eval();
  vf::distinct(vf::mix(static_cast<uint64_t>(installed * 1000003 + taken * 17 + rejected)));
  vf::count("installed", static_cast<uint64_t>(installed.load()));
  vf::count("taken", static_cast<uint64_t>(taken.load()));
  vf::count("rejected", static_cast<uint64_t>(rejected.load()));
}

// producers install into an empty slot only, one consumer takes: nothing may be lost
static void handoff(Rng& r, int64_t) {
  int T = static_cast<int>(1 + r.below(4)), K = VF_TSAN ? 200 : 800;
  AtomicUniquePtr<Obj> slot;
  vf::Disturber d(r(), !VF_TSAN);
  std::vector<std::thread> ts;
  for (int t = 0; t < T; ++t)
    ts.emplace_back([&, t] {
      vf::Disturber::Enrol e(d);
      for (int k = 0; k < K; ++k) {
        std::unique_ptr<Obj> o{new Obj((static_cast<uint64_t>(t) << 32) + static_cast<uint64_t>(k) + 1)};
        while (!slot.SwapIfNull(o)) sched_yield();
        VF_CHECK(o == nullptr, "installed-but-kept", "a successful conditional swap left the object with the caller");
        o.release();
      }
    });
  std::vector<int64_t> last(static_cast<size_t>(T), 0);
  int64_t n = 0;
  uint64_t h = 0;
  while (n < static_cast<int64_t>(T) * K) {
    if (slot.IsNull()) { sched_yield(); continue; }
    std::unique_ptr<Obj> o;
    slot.Swap(o);
    if (!o) { vf::fail("lost", "an occupied slot yielded nothing"); break; }
    size_t t = o->id >> 32;
    int64_t k = static_cast<int64_t>(o->id & 0xffffffff);
    if (t >= last.size() || k != last[t] + 1) { vf::fail("handoff-order", vf::fmt("got %lld after %lld", (long long)k, t < last.size() ? (long long)last[t] : -1)); break; }
    last[t] = k;
    h = vf::mix(h ^ t);
    ++n;
  }
  if (n < static_cast<int64_t>(T) * K) { std::atomic<bool> stop{false}; for (auto& t : ts) t.detach(); exit(vf::finish()); }
  for (auto& t : ts) t.join();
  vf::eval();
  vf::distinct(h);
}

static void sequential(Rng& r, int64_t) {
  int64_t live0 = live;
  uint64_t h = 0, next = 1;
  {
    AtomicUniquePtr<Obj> slot;
    uint64_t held = 0;
    for (int i = 0; i < 60; ++i) {
      std::unique_ptr<Obj> o;
      uint64_t id = 0;
      if (r.chance(3, 4)) { id = next++; o.reset(new Obj(id)); }
      uint64_t op = r.below(4);
      h = vf::mix(h ^ op ^ (id ? 8 : 0));
      if (op == 0 && o) {
        bool ok = slot.SwapIfNull(o);
        VF_CHECK(ok == (held == 0), "conditional-swap", "conditional swap returned %d with the slot %s", ok, held ? "occupied" : "empty");
        if (ok) { VF_CHECK(!o, "installed-but-kept", "object kept"); held = id; }
        else VF_CHECK(o && o->id == id, "rejected-but-taken", "object taken");
      } else if (op == 1) {
        slot.Swap(o);
        VF_CHECK((o ? o->id : 0) == held, "swap", "swap returned %llu instead of %llu", (unsigned long long)(o ? o->id : 0), (unsigned long long)held);
        held = id;
      } else if (op == 2) {
        slot.Reset(o.release());
        held = id;
      } else if (r.chance(1, 2)) {
        slot.Reset();
        held = 0;
      }
      VF_CHECK(slot.IsNull() == (held == 0) && (slot.Get() != nullptr) == (held != 0), "null", "IsNull wrong");
      if (held) VF_CHECK((*slot).id == held && slot.Get()->id == held, "deref", "slot holds %llu", (unsigned long long)(*slot).id);
      VF_CHECK(live - live0 == (held ? 1 : 0) + (o ? 1 : 0), "alive", "%lld objects alive", (long long)(live - live0));
    }
  }
  VF_CHECK(live == live0, "leak", "%lld objects leaked", (long long)(live - live0));
  vf::eval();
  vf::distinct(h);
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("exclusion", vf::n(VF_TSAN ? 40 : 60, 1500), exclusion);
  vf::cases("ownership", vf::n(VF_TSAN ? 40 : 120, 3000), ownership);
  vf::cases("handoff", vf::n(VF_TSAN ? 40 : 100, 2000), handoff);
  vf::cases("sequential", vf::n(500, 20000), sequential);
  vf::count("preemptions", vf::disturb_hits().load());
  return vf::finish();
}
