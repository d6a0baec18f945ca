// C32: events and timers on a virtual clock, with owners that reset, move and destroy them from inside callbacks.
#include "vtime.h"
#include <event2/event.h>
#include <fcntl.h>
#include <sys/socket.h>
#include "network/event.h"
#include "network/event_base.h"
#include "network/timer_event.h"
using namespace lightstep;
using namespace std::chrono;
using vf::Rng;

// libevent's allocations, counted and made to fail
static int64_t allocs = 0, fail_at = -1;
static void* my_malloc(size_t n) { if (fail_at >= 0 && fail_at-- == 0) return nullptr; void* p = malloc(n); if (p) ++allocs; return p; }
static void* my_realloc(void* q, size_t n) { if (fail_at >= 0 && fail_at-- == 0) return nullptr; if (!q) ++allocs; return realloc(q, n); }
static void my_free(void* p) { if (p) --allocs; free(p); }

static const int64_t kMs = 1000000;
struct World;
struct Slot {
  World* w = nullptr;
  size_t index = 0;
  std::unique_ptr<TimerEvent> timer;
  std::unique_ptr<Event> event;      // on a socket pair
  int fd[2] = {-1, -1};
  int64_t interval = 0, due = -1;    // due < 0: not running
  uint64_t fires = 0;
  bool readable = false, added = false;
  uint64_t gen = 0;
  void OnTimer();
  void OnEvent(FileDescriptor, short);
};
struct Once { World* w; int64_t due; int fires; };
struct World {
  Rng r;
  EventBase base;
  std::vector<std::unique_ptr<Slot>> slots;      // contexts outlive the events
  std::vector<std::unique_ptr<Once>> once;
  int64_t budget = 0, fired = 0, end = 0;
  uint64_t h = 0;
  explicit World(uint64_t s) : r(s) {}
  void act(Slot* self);
  void start(Slot& s);
  void step();
  void overdue();
};
static int64_t interval(Rng& r) { return r.chance(1, 12) ? 1000000000ll * static_cast<int64_t>(1 + r.below(5)) : static_cast<int64_t>(1 + r.below(60)) * (r.chance(1, 3) ? 777000 : kMs); }
void World::start(Slot& s) {
  s.timer.reset();
  s.due = -1;
  ++s.gen;
  s.interval = interval(r) / 1000 * 1000;
  if (r.chance(1, 5)) {  // made idle, started later by Reset(tv)
    s.timer.reset(new TimerEvent{base, MakeTimerCallback<Slot, &Slot::OnTimer>(), static_cast<void*>(&s)});
    if (r.chance(1, 2)) {
      timeval tv{s.interval / 1000000000, s.interval / 1000 % 1000000};
      s.timer->Reset(&tv);
      s.due = vf::vnow() + s.interval;
    }
  } else {
    s.timer.reset(new TimerEvent{base, nanoseconds{s.interval}, MakeTimerCallback<Slot, &Slot::OnTimer>(), static_cast<void*>(&s)});
    s.due = vf::vnow() + s.interval;
  }
}
void World::overdue() {
  for (auto& s : slots)
    VF_CHECK(s->due < 0 || vf::vnow() <= s->due + 5 * kMs, "late", "timer of %.3f ms is %.3f ms overdue", s->interval / 1e6, (vf::vnow() - s->due) / 1e6);
  for (auto& o : once)
    VF_CHECK(o->fires || vf::vnow() <= o->due + 5 * kMs, "late", "deferred call is %.3f ms overdue", (vf::vnow() - o->due) / 1e6);
}
void Slot::OnTimer() {
  int64_t now = vf::vnow();
  ++fires;
  ++w->fired;
  vf::eval();
  VF_CHECK(timer != nullptr, "dead", "a destroyed timer fired");
  VF_CHECK(due >= 0, "removed", "a stopped timer fired");
  if (due >= 0) {
    VF_CHECK(now >= due - 10000, "early", "timer of %.3f ms fired %.3f ms early", interval / 1e6, (due - now) / 1e6);
    VF_CHECK(now <= due + 5 * kMs, "late", "timer of %.3f ms fired %.3f ms late", interval / 1e6, (now - due) / 1e6);
    // the next turn counts from the time this one was due, or from now if that has passed
    due = due + interval > now ? due + interval : now + interval;
  }
  w->h = vf::mix(w->h ^ index ^ static_cast<uint64_t>(now / kMs) << 8);
  w->act(this);
  if (w->fired > w->budget) w->base.LoopBreak();
}
void Slot::OnEvent(FileDescriptor f, short what) {
  ++fires;
  ++w->fired;
  vf::eval();
  VF_CHECK(event != nullptr && added, "removed", "a removed event fired");
  VF_CHECK(f == fd[0], "descriptor", "fired for descriptor %d instead of %d", f, fd[0]);
  if (what & EV_TIMEOUT) {
    VF_CHECK(due >= 0 && vf::vnow() >= due - 10000 && vf::vnow() <= due + 5 * kMs, "timeout", "timeout %.3f ms off", (vf::vnow() - due) / 1e6);
    VF_CHECK(!(what & EV_READ), "condition", "timeout and readable at once");
  } else {
    VF_CHECK((what & EV_READ) && readable, "condition", "fired as readable without data");
    char b[16];
    while (::read(fd[0], b, sizeof b) > 0) {}
    readable = false;
  }
  added = false;  // not persistent
  due = -1;
  w->h = vf::mix(w->h ^ index ^ 0xee);
  w->act(this);
  if (w->fired > w->budget) w->base.LoopBreak();
}
static void OnOnce(FileDescriptor, short, void* c) {
  auto o = static_cast<Once*>(c);
  ++o->fires;
  ++o->w->fired;
  vf::eval();
  VF_CHECK(o->fires == 1, "once", "a deferred call ran %d times", o->fires);
  VF_CHECK(vf::vnow() >= o->due - 10000, "early", "deferred call %.3f ms early", (o->due - vf::vnow()) / 1e6);
  VF_CHECK(vf::vnow() <= o->due + 5 * kMs, "late", "deferred call %.3f ms late", (vf::vnow() - o->due) / 1e6);
  o->w->act(nullptr);
  if (o->w->fired > o->w->budget) o->w->base.LoopBreak();
}
void World::act(Slot*) {
  overdue();
  for (size_t k = r.below(3); k > 0; --k) step();
}
void World::step() {
  Slot& s = *r.pick(slots);
  switch (r.below(10)) {
    case 0: if (!s.event) start(s); break;
    case 1: if (!s.event) { s.timer.reset(); s.due = -1; } break;
    case 2:
      if (s.timer && s.interval && !s.event) {
        if (r.chance(1, 3)) { s.timer->Reset(nullptr); s.due = -1; }
        else if (r.chance(1, 2) && s.due >= 0) { s.timer->Reset(); s.due = vf::vnow() + s.interval; }
        else {
          s.interval = interval(r) / 1000 * 1000;
          timeval tv{s.interval / 1000000000, s.interval / 1000 % 1000000};
          s.timer->Reset(&tv);
          s.due = vf::vnow() + s.interval;
        }
      }
      break;
    case 3:  // moved by construction and by assignment: the callback still belongs to the slot
      if (s.timer) {
        TimerEvent t{std::move(*s.timer)};
        s.timer.reset(new TimerEvent);
        *s.timer = std::move(t);
      }
      break;
    case 4: {
      once.emplace_back(new Once{this, 0, 0});
      int64_t d = r.chance(1, 5) ? 0 : interval(r) / 1000 * 1000;
      once.back()->due = vf::vnow() + d;
      base.OnTimeout(nanoseconds{d}, OnOnce, once.back().get());
      break;
    }
    case 5: case 6:
      if (s.event && !s.added) {
        bool timed = r.chance(1, 2);
        if (timed) {
          int64_t d = interval(r) / 1000 * 1000;
          s.due = vf::vnow() + d;
          if (r.chance(1, 2)) s.event->Add(duration_cast<microseconds>(nanoseconds{d}));
          else { timeval tv{d / 1000000000, d / 1000 % 1000000}; s.event->Add(&tv); }
        } else { s.due = -1; s.event->Add(nullptr); }
        s.added = true;
      }
      break;
    case 7: if (s.event && s.added) { s.event->Remove(); s.added = false; s.due = -1; } break;
    case 8: if (s.event && !s.readable) { if (::write(s.fd[1], "x", 1) == 1) s.readable = true; } break;
    default:
      if (s.event) {
        if (r.chance(1, 2)) { Event e{std::move(*s.event)}; s.event.reset(new Event); VF_CHECK(s.event->libevent_handle() == nullptr, "handle", "an empty event has a handle"); *s.event = std::move(e); }
        else { s.event.reset(new Event{base, s.fd[0], EV_READ, MakeEventCallback<Slot, &Slot::OnEvent>(), static_cast<void*>(&s)}); s.added = false; s.due = -1; }
      }
  }
}
static void run(Rng& r, int64_t) {
  auto& v = vf::vt();
  v.on = true;
  int64_t before = allocs;
  {
    World w(r());
    w.budget = static_cast<int64_t>(20 + w.r.below(120));
    for (size_t n = 2 + w.r.below(6); n > 0; --n) {
      w.slots.emplace_back(new Slot);
      auto& s = *w.slots.back();
      s.w = &w;
      s.index = w.slots.size();
      if (w.r.chance(1, 3)) {
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, s.fd)) exit(77);
        s.event.reset(new Event{w.base, s.fd[0], EV_READ, MakeEventCallback<Slot, &Slot::OnEvent>(), static_cast<void*>(&s)});
      } else {
        w.start(s);
      }
    }
    // one timer that no action touches keeps the loop alive
    Slot keep;
    keep.w = &w;
    keep.index = 999;
    keep.interval = 7 * kMs;
    keep.timer.reset(new TimerEvent{w.base, milliseconds{7}, MakeTimerCallback<Slot, &Slot::OnTimer>(), static_cast<void*>(&keep)});
    keep.due = v.now_ns + keep.interval;
    // slots that hold events must not be turned into timers
    int rounds = 1 + static_cast<int>(w.r.below(3));
    for (int i = 0; i < rounds; ++i) {
      w.fired = 0;
      w.base.Dispatch();
      w.overdue();
      if (i == 0 && w.r.chance(1, 3)) {
        // the loop itself changes hands
        EventBase b{std::move(w.base)};
        VF_CHECK(w.base.libevent_handle() == nullptr, "move", "a moved-from loop keeps its handle");
        EventBase c;
        c = std::move(b);
        w.base = std::move(c);
      }
    }
    vf::count("fired", static_cast<uint64_t>(w.fired));
    vf::distinct(w.h);
    for (auto& s : w.slots) { s->event.reset(); s->timer.reset(); }
    keep.timer.reset();
    for (auto& s : w.slots) if (s->fd[0] >= 0) { close(s->fd[0]); close(s->fd[1]); }
  }
  v.on = false;
  VF_CHECK(allocs == before, "leak", "%lld allocations of the loop remain", (long long)(allocs - before));
  vf::eval();
}
// failures: of memory, of a descriptor, of arguments
static void failures(Rng& r, int64_t) {
  vf::vt().on = true;
  int64_t before = allocs;
  {
    EventBase base;
    int calls = 0;
    auto cb = [](FileDescriptor, short, void* c) { ++*static_cast<int*>(c); };
    std::vector<TimerEvent> keep;
    int made = 0, failed = 0;
    for (int i = 0; i < 40; ++i) {
      int64_t mid = allocs;
      fail_at = static_cast<int64_t>(r.below(3));
      int what = static_cast<int>(r.below(5));
      try {
        switch (what) {
          case 0: { TimerEvent t{base, milliseconds{5}, cb, &calls}; fail_at = -1; keep.push_back(std::move(t)); break; }
          case 1: { TimerEvent t{base, cb, &calls}; break; }
          case 2: { Event e{base, -1, EV_PERSIST, cb, &calls}; e.Add(milliseconds{1}); break; }
          case 3: { fail_at = -1; Event e{base, 1 << 19, EV_READ, cb, &calls}; e.Add(nullptr); vf::fail("add", "adding an event for a descriptor that is not open raised nothing"); break; }
          default: base.OnTimeout(hours{1}, cb, &calls);
        }
        ++made;
        fail_at = -1;
      } catch (const std::exception& e) {
        VF_CHECK(fail_at == -1, "error", "raised although nothing failed: %s", e.what());
        VF_CHECK(e.what()[0], "error", "an error without text");
        ++failed;
        fail_at = -1;
        if (what != 3) VF_CHECK(allocs <= mid + 1, "leak", "a failure (%d) left %lld allocations", what, (long long)(allocs - mid));
      }
      fail_at = -1;
      vf::eval();
    }
    vf::count("failures", static_cast<uint64_t>(failed));
    vf::distinct(vf::mix(static_cast<uint64_t>(made) << 8 | static_cast<uint64_t>(failed)) ^ r());
    keep.clear();
  }
  fail_at = static_cast<int64_t>(r.below(4));
  try { EventBase b; fail_at = -1; } catch (const std::exception&) { }
  fail_at = -1;
  VF_CHECK(allocs == before, "leak", "%lld allocations of the loop remain after failures", (long long)(allocs - before));
  vf::vt().on = false;
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  event_set_mem_functions(my_malloc, my_realloc, my_free);
  { EventBase warm; }  // whatever libevent keeps for good
  vf::cases("run", vf::n(1500, 40000), run);
  vf::cases("failures", vf::n(200, 4000), failures);
  return vf::finish();
}
