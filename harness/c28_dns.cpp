// C28: the c-ares resolver on virtual time against fake name servers on the loopback that answer, err, truncate,
// answer over TCP in pieces, send nonsense, delay or stay silent; requests overlap, callbacks resolve again, and
// resolvers are destroyed at any moment.
#include "vtime.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <event2/event.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <algorithm>
#include <deque>
#include <memory>
#include <set>
#include "network/dns_resolver.h"
#include "network/event_base.h"
#include "network/timer_event.h"
using namespace lightstep;
using namespace std::chrono;
using vf::Rng;

static const int64_t kMs = 1000000;
static int open_fds() {
  int k = 0;
  if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++k; closedir(d); }
  return k;
}
static std::string u16(unsigned v) { return std::string{static_cast<char>(v >> 8), static_cast<char>(v)}; }
static std::string u32(unsigned v) { return u16(v >> 16) + u16(v & 0xffff); }

// ---- what a server does about a query
enum Act {
  kAnswer, kNoiseFirst, kWrongQuestion, kLate, kTruncated, kTwice, kCname,          // answered, in time
  kSilent, kServfail, kMalformed, kRefused, kNotImp,                                  // leads to another try
  kNxdomain, kNoData, kOtherType, kTooLate                                            // no address (kTooLate: after the timeout)
};
static const char* act_name[] = {"answer", "noise", "wrong question", "late", "truncated", "twice", "cname", "silent", "servfail", "malformed", "refused", "notimp", "nxdomain", "nodata", "other type", "too late"};
enum TcpAct { tWhole, tPieces, tBytes, tClose, tReset, tSilent, tBadLength, tMalformed };
struct Plan {
  std::vector<Act> acts;      // by number of the query, the last one for the rest
  std::vector<TcpAct> tcp;
  std::vector<std::string> addresses;  // raw
  size_t seen = 0, seen_tcp = 0;
  bool good = false, bad = false, answered = false;
};
struct Key { std::string name; int type; bool operator<(const Key& o) const { return std::tie(name, type) < std::tie(o.name, o.type); } };
struct Query { int64_t at; size_t server; Key key; bool tcp; };
struct World;
struct Conn { World* w; int fd; size_t server; ::event* ev; std::string in; int64_t free_at = 0; };
struct World {
  Rng* r;
  EventBase base;
  int port = 0;
  int64_t timeout_ms = 0;
  struct Server { int udp = -1, tcp = -1; bool dead = false; ::event *eu = nullptr, *et = nullptr; World* w; size_t index; };
  std::deque<Server> servers;
  std::map<Key, Plan> plans;
  std::vector<Query> queries;
  std::vector<std::unique_ptr<Conn>> conns;
  struct Later { World* w; std::function<void()> f; ::event* ev; bool done = false; };
  std::vector<std::unique_ptr<Later>> later;
  uint64_t acts[16] = {}, tacts[8] = {};
  int hot = 0;  // something was done over TCP, whose effects take real time

  void after(int64_t ns, std::function<void()> f) {
    auto l = new Later{this, std::move(f), nullptr};
    later.emplace_back(l);
    l->ev = evtimer_new(base.libevent_handle(), [](int, short, void* p) { auto x = static_cast<Later*>(p); x->done = true; x->f(); }, l);
    timeval tv{static_cast<time_t>(ns / 1000000000), static_cast<suseconds_t>(ns % 1000000000 / 1000)};
    evtimer_add(l->ev, &tv);
  }
  bool open(size_t n) {
    for (int tries = 0; tries < 200; ++tries) {
      int p = static_cast<int>(20000 + (*r)() % 40000);
      bool ok = true;
      for (size_t i = 0; i < n && ok; ++i) {
        servers.emplace_back();
        auto& s = servers.back();
        s.w = this; s.index = i;
        sockaddr_in a{};
        a.sin_family = AF_INET; a.sin_port = htons(static_cast<uint16_t>(p)); a.sin_addr.s_addr = htonl(0x7f000001 + static_cast<uint32_t>(i));
        s.udp = socket(AF_INET, SOCK_DGRAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
        s.tcp = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
        int one = 1;
        setsockopt(s.tcp, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        ok = bind(s.udp, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0 && bind(s.tcp, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0 && listen(s.tcp, 16) == 0;
      }
      if (ok) {
        port = p;
        for (auto& s : servers) {
          s.eu = event_new(base.libevent_handle(), s.udp, EV_READ | EV_PERSIST, [](int, short, void* q) { auto x = static_cast<Server*>(q); x->w->on_udp(*x); }, &s);
          s.et = event_new(base.libevent_handle(), s.tcp, EV_READ | EV_PERSIST, [](int, short, void* q) { auto x = static_cast<Server*>(q); x->w->on_accept(*x); }, &s);
          event_add(s.eu, nullptr);
          event_add(s.et, nullptr);
        }
        return true;
      }
      for (auto& s : servers) { close(s.udp); close(s.tcp); }
      servers.clear();
    }
    return false;
  }
  void kill(Server& s) {  // nobody listens any more
    if (s.dead) return;
    s.dead = true;
    event_free(s.eu); event_free(s.et);
    close(s.udp); close(s.tcp);
  }
  ~World() {
    for (auto& l : later) event_free(l->ev);
    for (auto& c : conns) if (c->fd >= 0) { event_free(c->ev); close(c->fd); }
    for (auto& s : servers) kill(s);
  }
  // ---- messages
  static bool parse(const std::string& q, std::string* name, std::string* raw, int* type) {
    if (q.size() < 17) return false;
    size_t i = 12;
    while (i < q.size() && q[i]) {
      size_t n = static_cast<unsigned char>(q[i]);
      if (n > 63 || i + 1 + n >= q.size()) return false;
      if (!name->empty()) *name += '.';
      *name += q.substr(i + 1, n);
      i += 1 + n;
    }
    if (i + 5 > q.size()) return false;
    *raw = q.substr(12, i + 5 - 12);
    *type = static_cast<unsigned char>(q[i + 1]) << 8 | static_cast<unsigned char>(q[i + 2]);
    return true;
  }
  static std::string reply(const std::string& q, const std::string& question, int rcode, const std::vector<std::pair<int, std::string>>& answers, bool tc, const std::string& cname = "") {
    std::string m = q.substr(0, 2) + u16(0x8180u | static_cast<unsigned>(rcode) | (tc ? 0x200u : 0u)) + u16(1) + u16(static_cast<unsigned>(answers.size() + (cname.empty() ? 0 : 1))) + u16(0) + u16(0) + question;
    std::string owner = u16(0xc00c);
    if (!cname.empty()) {
      m += owner + u16(5) + u16(1) + u32(60) + u16(static_cast<unsigned>(cname.size()));
      owner = u16(static_cast<unsigned>(0xc000 | m.size()));
      m += cname;
    }
    for (auto& a : answers) m += owner + u16(static_cast<unsigned>(a.first)) + u16(1) + u32(60) + u16(static_cast<unsigned>(a.second.size())) + a.second;
    return m;
  }
  std::string good_reply(const std::string& q, const std::string& question, Plan& p, int type, bool tcp, bool cname) {
    std::vector<std::pair<int, std::string>> rr;
    for (auto& a : p.addresses) rr.emplace_back(type, a);
    static const char alias[] = "\x05" "alias\x04" "test";
    std::string m = reply(q, question, 0, rr, false, cname ? std::string(alias, sizeof alias) : "");
    if (!tcp && m.size() > 512) hot = 4;
    if (!tcp && m.size() > 512) return reply(q, question, 0, {}, true);
    p.answered = true;
    return m;
  }
  void on_udp(Server& s) {
    for (;;) {
      char b[4096];
      sockaddr_in from{};
      socklen_t fl = sizeof from;
      ssize_t n = recvfrom(s.udp, b, sizeof b, 0, reinterpret_cast<sockaddr*>(&from), &fl);
      if (n < 0) return;
      std::string q(b, static_cast<size_t>(n)), name, question;
      int type = 0;
      if (!parse(q, &name, &question, &type)) { vf::fail("query", "a query that cannot be parsed: " + vf::hex(q)); continue; }
      Key k{name, type};
      queries.push_back({vf::vnow(), s.index, k, false});
      auto it = plans.find(k);
      int fd = s.udp;
      auto send = [fd, from](const std::string& m) { sendto(fd, m.data(), m.size(), 0, reinterpret_cast<const sockaddr*>(&from), sizeof from); };
      if (it == plans.end()) { send(reply(q, question, 3, {}, false)); continue; }
      Plan& p = it->second;
      Act a = p.acts[std::min(p.seen++, p.acts.size() - 1)];
      ++acts[a];
      Server* sp = &s;
      auto delayed = [this, send, sp](int64_t ns, const std::string& m) { after(ns, [send, sp, m] { if (!sp->dead) send(m); }); };
      switch (a) {
        case kAnswer: send(good_reply(q, question, p, type, false, false)); break;
        case kCname: send(good_reply(q, question, p, type, false, true)); break;
        case kNoiseFirst: {
          std::string other = good_reply(q, question, p, type, false, false);
          std::string m = other;
          other[0] = static_cast<char>(other[0] ^ 0x55);
          send(other);
          delayed(static_cast<int64_t>(r->below(static_cast<uint64_t>(timeout_ms) * 700000)), m);
          break;
        }
        case kWrongQuestion: {
          std::string w = question;
          w[1] = (w[1] | 32) == 'q' ? 'w' : 'q';
          Plan fake;
          for (size_t i = 0; i < 2; ++i) fake.addresses.push_back(r->bytes(type == 28 ? 16 : 4));
          send(good_reply(q, w, fake, type, false, false));
          delayed(static_cast<int64_t>(r->below(static_cast<uint64_t>(timeout_ms) * 700000)), good_reply(q, question, p, type, false, false));
          break;
        }
        case kLate: delayed(static_cast<int64_t>(r->below(static_cast<uint64_t>(timeout_ms) * 800000)), good_reply(q, question, p, type, false, false)); break;
        case kTooLate: delayed(static_cast<int64_t>(static_cast<uint64_t>(timeout_ms) * 1100000 + r->below(static_cast<uint64_t>(timeout_ms) * 3000000)), good_reply(q, question, p, type, false, false)); break;
        case kTwice: { auto m = good_reply(q, question, p, type, false, false); send(m); send(m); break; }
        case kTruncated: hot = 4; send(reply(q, question, 0, {}, true)); break;
        case kSilent: break;
        case kServfail: send(reply(q, question, 2, {}, false)); break;
        case kRefused: send(reply(q, question, 5, {}, false)); break;
        case kNotImp: send(reply(q, question, 4, {}, false)); break;
        case kNxdomain: send(reply(q, question, 3, {}, false)); break;
        case kNoData: send(reply(q, question, 0, {}, false)); break;
        case kOtherType: send(reply(q, question, 0, {{16, std::string("\x03txt")}, {99, r->bytes(r->below(40))}}, false)); break;
        case kMalformed: {
          Plan copy = p;
          while (copy.addresses.size() > 20) copy.addresses.pop_back();
          std::string m = good_reply(q, question, copy, type, false, r->chance(1, 2));
          switch (r->below(4)) {
            case 0: m.resize(m.size() > 14 ? 12 + r->below(m.size() - 12) : m.size() - 1); break;  // cut short
            case 1: { size_t at = m.size() >= 40 ? question.size() + 12 + r->below(8) : 13; if (at + 1 < m.size()) { m[at] = static_cast<char>(0xc0); m[at + 1] = static_cast<char>(at); } m.resize(m.size() - 1); break; }  // a name that points at itself
            case 2: m = m.substr(0, 12 + question.size()) + r->bytes(1 + r->below(60)); m[7] = 9; break;
            default: m = m.substr(0, 2) + r->bytes(1 + r->below(9)); break;
          }
          send(m);
          break;
        }
      }
    }
  }
  void on_accept(Server& s) {
    for (;;) {
      int fd = accept4(s.tcp, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC);
      if (fd < 0) return;
      hot = 4;
      int one = 1;
      setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
      auto c = new Conn{this, fd, s.index, nullptr, ""};
      conns.emplace_back(c);
      c->ev = event_new(base.libevent_handle(), fd, EV_READ | EV_PERSIST, [](int, short, void* q) { auto x = static_cast<Conn*>(q); x->w->on_tcp(*x); }, c);
      event_add(c->ev, nullptr);
    }
  }
  void drop(Conn& c, bool reset) {
    if (c.fd < 0) return;
    hot = 4;
    if (reset) { linger l{1, 0}; setsockopt(c.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
    event_free(c.ev);
    close(c.fd);
    c.fd = -1;
  }
  void on_tcp(Conn& c) {
    char b[8192];
    ssize_t n = read(c.fd, b, sizeof b);
    if (n < 0 && errno == EAGAIN) return;
    if (n <= 0) { drop(c, false); return; }
    c.in.append(b, static_cast<size_t>(n));
    hot = 4;
    while (c.fd >= 0 && c.in.size() >= 2) {
      size_t len = static_cast<size_t>(static_cast<unsigned char>(c.in[0]) << 8 | static_cast<unsigned char>(c.in[1]));
      if (c.in.size() < 2 + len) return;
      std::string q = c.in.substr(2, len), name, question;
      c.in.erase(0, 2 + len);
      int type = 0;
      if (!parse(q, &name, &question, &type)) { vf::fail("query", "a query over TCP that cannot be parsed: " + vf::hex(q)); continue; }
      Key k{name, type};
      queries.push_back({vf::vnow(), c.server, k, true});
      auto it = plans.find(k);
      auto frame = [](const std::string& m) { return u16(static_cast<unsigned>(m.size())) + m; };
      Conn* cp = &c;
      auto send = [](Conn* x, const std::string& m) { if (x->fd >= 0) { x->w->hot = 4; ssize_t k2 = ::send(x->fd, m.data(), m.size(), MSG_NOSIGNAL); (void)k2; } };
      if (it == plans.end()) { send(cp, frame(reply(q, question, 3, {}, false))); continue; }
      Plan& p = it->second;
      TcpAct a = p.tcp[std::min(p.seen_tcp++, p.tcp.size() - 1)];
      ++tacts[a];
      // replies of one connection follow each other
      int64_t start = std::max(vf::vnow(), c.free_at), budget = std::max<int64_t>(0, vf::vnow() + timeout_ms * 700000 - start);
      auto at = [&](int64_t t, const std::string& m) { c.free_at = t = std::max(c.free_at + 1000, t);  // timers of one time have no order
        after(t - vf::vnow(), [send, cp, m] { send(cp, m); }); };
      switch (a) {
        case tWhole: if (start == vf::vnow()) send(cp, frame(good_reply(q, question, p, type, true, false))); else at(start + 1000, frame(good_reply(q, question, p, type, true, false))); break;
        case tPieces: case tBytes: {
          std::string m = frame(good_reply(q, question, p, type, true, r->chance(1, 3)));
          size_t pieces = a == tPieces ? 1 + r->below(4) : std::min<size_t>(m.size(), 40), pos = 0;
          for (size_t i = 0; i < pieces; ++i) {
            size_t end = i + 1 == pieces ? m.size() : a == tBytes ? pos + 1 : std::min(m.size(), pos + r->skewed(m.size()));
            if (end > pos) at(start + 1000 + static_cast<int64_t>(i) * budget / 40, m.substr(pos, end - pos));
            pos = end;
          }
          break;
        }
        case tClose: drop(c, false); break;
        case tReset: drop(c, true); break;
        case tSilent: break;
        case tBadLength: { std::string m = frame(good_reply(q, question, p, type, true, false)); p.answered = true; m[0] = static_cast<char>(0x7f); send(cp, m); break; }
        case tMalformed: send(cp, frame(q.substr(0, 2) + r->bytes(3 + r->below(30)))); break;
      }
    }
  }
};

// ---- requests
struct Driver;
struct Request : DnsResolutionCallback {
  Driver* d = nullptr;
  std::string name;
  int family = 0;
  int calls = 0;
  bool started = false;
  int64_t started_at = 0, called_at = 0;
  int then = 0;  // what the callback does: 0 nothing, 1 resolves another, 2 resolves the same again
  bool ok = false, empty_answer = false;
  bool in_destruction = false;
  void OnDnsResolution(const DnsResolution& res, opentracing::string_view error) noexcept override;
};
struct Driver {
  World w;
  Logger logger{[](LogLevel, opentracing::string_view) {}};
  std::unique_ptr<DnsResolver> resolver;
  std::deque<std::unique_ptr<Request>> requests;
  Rng* r;
  size_t outstanding = 0, to_start = 0;
  bool destroying = false, over = false;
  int depth = 0;
  void start(Request& q) {
    q.started = true;
    q.started_at = vf::vnow();
    ++outstanding;
    ++depth;
    resolver->Resolve(q.name.c_str(), q.family, q);
    --depth;
  }
  Request& make(const std::string& name, int family, int then) {
    auto q = new Request;
    q->d = this; q->name = name; q->family = family; q->then = then;
    requests.emplace_back(q);
    return *q;
  }
};
void Request::OnDnsResolution(const DnsResolution& res, opentracing::string_view error) noexcept {
  ++calls;
  VF_CHECK(started, "unasked", "a callback was called before its request");
  VF_CHECK(calls == 1, "twice", "callback of %s called %d times", name.c_str(), calls);
  if (calls > 1) return;
  called_at = vf::vnow();
  in_destruction = d->destroying;
  --d->outstanding;
  std::vector<std::string> got;
  res.ForeachIpAddress([&](const IpAddress& a) {
    VF_CHECK(a.family() == family, "family", "an address of family %d for a request of family %d", a.family(), family);
    if (a.family() == AF_INET) got.emplace_back(reinterpret_cast<const char*>(&a.ipv4_address().sin_addr), 4);
    else got.emplace_back(reinterpret_cast<const char*>(&a.ipv6_address().sin6_addr), 16);
    return true;
  });
  // a visitor that stops is not called again
  size_t visits = 0, stop = got.empty() ? 0 : 1 + d->r->below(got.size());
  bool all = res.ForeachIpAddress([&](const IpAddress&) { return ++visits != stop; });
  VF_CHECK(got.empty() ? all : (!all && visits == stop), "visit", "a visitor that stopped at %zu was called %zu times", stop, visits);
  Key k{name, family == AF_INET ? 1 : 28};
  auto it = d->w.plans.find(k);
  if (!error.empty()) {
    VF_CHECK(got.empty(), "error-and-addresses", "an error came with %zu addresses", got.size());
    if (it != d->w.plans.end() && it->second.good && !d->destroying) vf::fail("failed", "the servers answer for " + name + ", but the request failed: " + std::string(error.data(), error.size()));
    vf::count("errors");
  } else {
    if (it == d->w.plans.end()) vf::fail("invented", vf::fmt("%zu addresses for a name that does not exist", got.size()));
    else {
      auto want = it->second.addresses;
      std::sort(want.begin(), want.end());
      std::sort(got.begin(), got.end());
      VF_CHECK(!it->second.bad && it->second.answered, "unanswered", "%zu addresses for %s that no server gave", got.size(), name.c_str());
      VF_CHECK(got == want, "addresses", "%zu addresses for %s, the server gave %zu, or others", got.size(), name.c_str(), want.size());
      VF_CHECK(!got.empty(), "nothing", "neither addresses nor an error for %s", name.c_str());
    }
    ok = true;
    vf::count("answers");
    vf::count("addresses", got.size());
  }
  if (then != 0 && !d->destroying && d->requests.size() < 30) {
    auto it2 = d->w.plans.begin();
    std::advance(it2, static_cast<long>(d->r->below(d->w.plans.size())));
    auto& q = then == 2 ? d->make(name, family, 0) : d->make(it2->first.name, it2->first.type == 1 ? AF_INET : AF_INET6, 0);
    vf::count("resolved again from a callback");
    d->start(q);
  }
}

static void scenario(Rng& r, int64_t) {
  int fds = open_fds();
  vf::vt().on = true;
  bool all_good = r.chance(1, 2);
  uint64_t h = 0;
  {
    Driver d;
    d.r = &r;
    World& w = d.w;
    w.r = &r;
    size_t ns = 1 + r.below(3);
    if (!w.open(ns)) { fprintf(stderr, "no port for the name servers\n"); _exit(77); }
    DnsResolverOptions o;
    for (size_t i = 0; i < ns; ++i) { in_addr a; a.s_addr = htonl(0x7f000001 + static_cast<uint32_t>(i)); o.resolution_servers.push_back(a); }
    o.resolution_server_port = static_cast<uint16_t>(w.port);
    static const int64_t touts[] = {1, 20, 100, 500, 2000, 5000};
    w.timeout_ms = r.chance(1, 8) ? 2000 : touts[1 + r.below(5)];
    if (r.chance(1, 12)) { o.timeout = milliseconds{0}; w.timeout_ms = 2000; }  // c-ares' own
    else o.timeout = milliseconds{w.timeout_ms};
    // names
    bool upset = false;  // one thing that costs all queries of a connection a try
    std::set<Key> used;
    for (size_t n = 1 + r.below(5); n > 0; --n) {
      Key k{r.chance(1, 3) && !used.empty() ? used.begin()->name : r.alnum(1 + r.below(20)) + ".sat.test", r.chance(1, 3) ? 28 : 1};
      if (!used.insert(k).second) continue;
      Plan p;
      size_t na = r.chance(1, 12) ? 100 + r.below(400) : 1 + r.below(28);
      for (size_t i = 0; i < na; ++i) p.addresses.push_back(i && r.chance(1, 10) ? p.addresses[0] : r.bytes(k.type == 1 ? 4 : 16));
      static const Act good[] = {kAnswer, kAnswer, kNoiseFirst, kWrongQuestion, kLate, kTruncated, kTwice, kCname};
      static const Act lossy[] = {kSilent, kServfail, kRefused, kNotImp, kMalformed};
      if (all_good) {
        p.good = true;
        if (r.chance(1, 3)) { Act a = lossy[r.below(upset ? 4 : 5)]; if (a == kMalformed) upset = true; p.acts.push_back(a); }
        for (size_t i = 0; i < 3; ++i) p.acts.push_back(good[r.below(8)]);
        for (size_t i = 0; i < 3; ++i) p.tcp.push_back(static_cast<TcpAct>(r.below(3)));
      } else if (r.chance(1, 3)) {
        p.bad = true;
        static const Act bad[] = {kSilent, kServfail, kMalformed, kRefused, kNotImp, kNxdomain, kNoData, kOtherType, kTruncated};
        static const TcpAct badt[] = {tClose, tReset, tSilent, tMalformed};
        bool same = r.chance(1, 2);
        for (size_t i = 0; i < 4; ++i) p.acts.push_back(same && i ? p.acts[0] : bad[r.below(9)]);
        for (size_t i = 0; i < 4; ++i) p.tcp.push_back(badt[r.below(4)]);
      } else {
        for (size_t i = 0; i < 5; ++i) p.acts.push_back(static_cast<Act>(r.below(16)));
        for (size_t i = 0; i < 5; ++i) p.tcp.push_back(static_cast<TcpAct>(r.below(8)));
      }
      w.plans.emplace(k, std::move(p));
    }
    if (!all_good && r.chance(1, 6)) w.kill(w.servers[r.below(ns)]);
    d.resolver = MakeDnsResolver(d.logger, w.base, o);
    // requests at random times
    size_t nr = 1 + r.below(8);
    int64_t unit = w.timeout_ms * kMs;
    for (size_t i = 0; i < nr; ++i) {
      std::string name;
      int family;
      if (r.chance(1, 12)) { name = r.alnum(5) + ".none.test"; family = r.chance(1, 2) ? AF_INET : AF_INET6; }
      else { auto it = w.plans.begin(); std::advance(it, static_cast<long>(r.below(w.plans.size()))); name = it->first.name; family = it->first.type == 1 ? AF_INET : AF_INET6; }
      auto& q = d.make(name, family, static_cast<int>(r.below(4)) % 3);
      if (r.chance(1, 2)) d.start(q);
      else { ++d.to_start; Request* qp = &q; Driver* dp = &d; w.after(static_cast<int64_t>(r.below(static_cast<uint64_t>(unit) * (r.chance(1, 3) ? 30 : 2))), [dp, qp] { --dp->to_start; if (dp->resolver) dp->start(*qp); }); }
    }
    // TCP takes real time
    vf::vt().idle = [&] { if (w.hot > 0) { --w.hot; usleep(250); } };
    int64_t begin = vf::vnow();
    bool destroy = r.chance(1, 4);
    int64_t until = destroy ? begin + static_cast<int64_t>(r.below(static_cast<uint64_t>(unit) * 4)) : begin + unit * 400 * static_cast<int64_t>(ns) + 30 * unit;
    bool expired = false;
    w.after(until - begin, [&] { expired = true; w.base.LoopBreak(); });
    std::function<void()> watch = [&] {
      if (!destroy && d.outstanding == 0 && d.to_start == 0) { w.base.LoopBreak(); return; }
      w.after(unit / 2 + 1000, watch);
    };
    w.after(unit / 2 + 1000, watch);
    w.base.Dispatch();
    if (!destroy) {
      for (auto& q : d.requests)
        if (q->started && q->calls == 0) vf::fail("never", vf::fmt("no callback for %s within %lld ms (timeout %lld ms, %zu servers)", q->name.c_str(), static_cast<long long>((vf::vnow() - q->started_at) / kMs), static_cast<long long>(w.timeout_ms), ns));
    }
    // the configured time: a first try that nothing answers is repeated or given up after it
    if (ns == 1 && !all_good)
      for (auto& q : d.requests) {
        auto it = w.plans.find(Key{q->name, q->family == AF_INET ? 1 : 28});
        if (it == w.plans.end() || w.servers[0].dead) continue;
        bool silent = true;
        for (auto a : it->second.acts) if (a != kSilent) silent = false;
        if (!silent || q->calls == 0 || q->in_destruction) continue;
        int64_t took = q->called_at - q->started_at;
        VF_CHECK(took >= unit && took <= 40 * unit + 50 * kMs, "time", "a silent server's request for %s failed after %lld ms, the timeout is %lld ms", q->name.c_str(), static_cast<long long>(took / kMs), static_cast<long long>(w.timeout_ms));
        vf::count("silent requests timed");
      }
    size_t pending = d.outstanding;
    d.destroying = true;
    if (r.chance(1, 5)) for (auto& s : w.servers) { if (r.chance(1, 2)) w.kill(s); }
    d.resolver.reset();
    for (auto& q : d.requests) VF_CHECK(!q->started || q->calls == 1, "destroyed", "%d callbacks for %s after the resolver was destroyed", q->calls, q->name.c_str());
    if (pending) vf::count("requests pending at destruction", pending);
    // nothing is left in the loop
    w.after(unit * 3 + 1, [&] { w.base.LoopBreak(); });
    w.base.Dispatch();
    for (auto& q : d.requests) { h = vf::hash(q->name.substr(q->name.find('.')), h) * 31 + static_cast<uint64_t>(q->ok) * 2 + q->in_destruction; h = vf::mix(h ^ static_cast<uint64_t>((q->called_at - q->started_at) / kMs)); }
    for (auto& q : w.queries) h = vf::mix(h ^ (q.server * 8 + static_cast<size_t>(q.tcp) * 4 + (q.key.type == 28)));
    vf::eval(d.requests.size());
    vf::count("queries", w.queries.size());
    vf::count("tcp connections", w.conns.size());
    for (int i = 0; i < 16; ++i) if (w.acts[i]) vf::count(std::string("udp ") + act_name[i], w.acts[i]);
    for (int i = 0; i < 8; ++i) if (w.tacts[i]) { static const char* t[] = {"whole", "pieces", "bytes", "close", "reset", "silent", "bad length", "malformed"}; vf::count(std::string("tcp ") + t[i], w.tacts[i]); }
    vf::vt().idle = nullptr;
  }
  vf::vt().on = false;
  int now = open_fds();
  VF_CHECK(now == fds, "descriptors", "%d descriptors open before, %d after", fds, now);
  vf::distinct(h);
}
// ---- the resolver of builds without c-ares: it knows only names that are addresses
#define MakeDnsResolver MakeAddressOnlyDnsResolver
#include "network/no_dns_resolver.cpp"
#undef MakeDnsResolver
static void address_only(Rng& r, int64_t) {
  struct Cb : DnsResolutionCallback {
    int calls = 0;
    std::vector<std::string> got;
    bool failed = false;
    void OnDnsResolution(const DnsResolution& d, opentracing::string_view e) noexcept override {
      ++calls;
      failed = !e.empty();
      d.ForeachIpAddress([&](const IpAddress& a) {
        char b[64] = "";
        if (a.family() == AF_INET) inet_ntop(AF_INET, &a.ipv4_address().sin_addr, b, sizeof b);
        else inet_ntop(AF_INET6, &a.ipv6_address().sin6_addr, b, sizeof b);
        got.push_back(std::to_string(a.family()) + " " + b);
        return true;
      });
    }
  } cb;
  int logged = 0;
  Logger logger{[&](LogLevel l, opentracing::string_view) { if (l >= LogLevel::error) ++logged; }};
  EventBase base;
  auto resolver = MakeAddressOnlyDnsResolver(logger, base, DnsResolverOptions{});
  unsigned char raw[16];
  for (auto& x : raw) x = static_cast<unsigned char>(r.chance(1, 2) ? 0 : r.below(256));
  char b[64];
  int of = 0;
  std::string name;
  switch (r.below(4)) {
    case 0: of = AF_INET; name = inet_ntop(AF_INET, raw, b, sizeof b); break;
    case 1: of = AF_INET6; name = inet_ntop(AF_INET6, raw, b, sizeof b); break;
    case 2: { static const char* odd[] = {"localhost", "", "1.2.3", "1.2.3.4.5", "256.1.1.1", ":::", "1::2::3", "collector.lightstep.com", "1.2.3.4 ", "[::1]"}; name = odd[r.below(10)]; break; }
    default: name = r.alnum(r.below(300));
  }
  int family = r.chance(1, 2) ? AF_INET : AF_INET6;
  resolver->Resolve(name.c_str(), family, cb);
  std::vector<std::string> want;
  if (of == family) want.push_back(std::to_string(of) + " " + name);
  VF_CHECK(cb.calls == 1, "callbacks", "%s: called back %d times", vf::hex(name).c_str(), cb.calls);
  VF_CHECK(cb.got == want && !(cb.failed && !want.empty()), "answer", "%s as family %d: %zu addresses, the first %s", vf::hex(name).c_str(), family, cb.got.size(), cb.got.empty() ? "-" : cb.got[0].c_str());
  VF_CHECK((logged > 0) == (of == 0), "explained", "%s: %d errors logged", vf::hex(name).c_str(), logged);
  vf::eval();
  vf::distinct(vf::hash(name) ^ static_cast<uint64_t>(family));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("address-only", vf::n(2000, 20000), address_only);
  vf::cases("dns", vf::n(1600, 60000), scenario);
  return vf::finish();
}
