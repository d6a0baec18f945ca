// C13: grouping of satellites and rotation over endpoints and addresses, with a scripted resolver on virtual time.
#include "vtime.h"
#include <arpa/inet.h>
#include <strings.h>
#include <algorithm>
#include <set>
#include "recorder/stream_recorder/host_header.h"
#include "recorder/stream_recorder/satellite_endpoint_manager.h"
#include "recorder/stream_recorder/utility.h"
using namespace lightstep;
using vf::Rng;

static std::string low(std::string s) { for (auto& c : s) c = static_cast<char>(tolower(static_cast<unsigned char>(c))); return s; }
typedef std::vector<std::pair<std::string, uint16_t>> Config;
static Config config(Rng& r) {
  Config c;
  static const char* hosts[] = {"a", "A", "b", "satellite", "Satellite", "SATELLITE", "sat", "satellite.example.com", "satellite-2", "10.0.0.1", "::1", "", "aa", "Aa", "collector", "localhost"};
  for (size_t n = 1 + r.skewed(12); n > 0; --n) {
    std::string h = r.chance(1, 5) ? r.alnum(1 + r.below(60)) : hosts[r.below(16)];
    if (h.empty()) h = "x";
    if (r.chance(1, 8)) while (h.size() < 250 && r.chance(9, 10)) h += "." + r.alnum(1 + r.below(62));  // as long as names get
    if (!c.empty() && r.chance(1, 4)) {  // much like another: one character changed, dropped or added, or another case
      h = r.pick(c).first;
      size_t at = r.chance(1, 2) ? h.size() - 1 : r.below(h.size());
      switch (r.below(4)) {
        case 0: h[at] = r.alnum(1)[0]; break;
        case 1: if (h.size() > 1) h.erase(at, 1); break;
        case 2: h.insert(at + 1, r.alnum(1)); break;
        default: for (auto& x : h) if (r.chance(1, 2)) x = static_cast<char>(r.chance(1, 2) ? toupper(x) : tolower(x));
      }
    }
    c.emplace_back(h, r.chance(1, 3) ? static_cast<uint16_t>(r()) : static_cast<uint16_t>(8000 + r.below(3)));
    if (r.chance(1, 4)) c.push_back(r.pick(c));
  }
  return c;
}
static void grouping(Rng& r, int64_t) {
  Config c = config(r);
  auto s = SeparateEndpoints(c);
  std::set<std::string> names, given;
  for (auto h : s.first) {
    VF_CHECK(h != nullptr, "name", "no name");
    VF_CHECK(names.insert(low(h)).second, "name-twice", "host %s listed twice", h);
  }
  for (auto& e : c) given.insert(low(e.first));
  VF_CHECK(names == given, "names", "%zu names listed, %zu configured", names.size(), given.size());
  std::multiset<std::pair<std::string, uint16_t>> want, got;
  for (auto& e : c) want.emplace(low(e.first), e.second);
  for (auto& e : s.second) {
    if (e.first < 0 || static_cast<size_t>(e.first) >= s.first.size()) { vf::fail("index", vf::fmt("endpoint refers to host %d of %zu", e.first, s.first.size())); return; }
    got.emplace(low(s.first[static_cast<size_t>(e.first)]), e.second);
  }
  VF_CHECK(got == want, "endpoints", "%zu endpoints for %zu configured, or other pairs", got.size(), want.size());
  // the host header of each
  LightStepTracerOptions o;
  o.satellite_endpoints = c;
  HostHeader hh{o};
  for (int k = 0; k < 6; ++k) {
    auto h = r.pick(s.first);
    hh.set_host(h);
    auto f = hh.fragment();
    std::string t(static_cast<char*>(f.first), static_cast<size_t>(f.second));
    size_t v = t.find_first_not_of(' ', 5);
    VF_CHECK(t.compare(0, 5, "Host:") == 0 && t.size() > 7 && t.compare(t.size() - 2, 2, "\r\n") == 0 && v != std::string::npos && t.substr(v, t.size() - 2 - v) == h, "host-header", "header %s for host %s", vf::hex(t).c_str(), h);
  }
  vf::eval(8);
  uint64_t hsh = 0;
  for (auto& e : c) hsh = vf::hash(e.first, hsh) ^ e.second;
  vf::distinct(hsh);
}
// ---- a resolver that answers as scripted
struct Answer : DnsResolution {
  std::vector<IpAddress> a;
  bool ForeachIpAddress(const FunctionRef<bool(const IpAddress&)>& f) const override {
    for (auto& x : a) if (!f(x)) return false;
    return true;
  }
};
struct Script {
  Rng* r;
  EventBase* base;
  bool sync = true;
  int good = 60;  // chance of an answer, in percent
  std::map<std::pair<std::string, int>, std::vector<IpAddress>> current;  // last answer given
  std::map<std::pair<std::string, int>, int> asked;
  std::map<std::pair<std::string, int>, int64_t> answered_at, failed_at;
  int outstanding = 0;
};
static Script* script;
struct FakeResolver : DnsResolver {
  struct Pending { std::string name; int family; DnsResolutionCallback* cb; };
  std::vector<std::unique_ptr<Pending>> all;
  static void answer(const std::string& name, int family, DnsResolutionCallback& cb) {
    auto& s = *script;
    Rng& r = *s.r;
    auto key = std::make_pair(low(name), family);
    Answer a;
    uint64_t k = r.below(100);
    if (k < static_cast<uint64_t>(s.good)) {
      size_t n = 1 + r.below(4);
      std::set<std::string> used;
      while (a.a.size() < n) {
        std::string t = family == AF_INET ? vf::fmt("10.%d.%d.%d", (int)r.below(2), (int)r.below(256), (int)r.below(256)) : vf::fmt("fd00::%x:%x", (int)r.below(65536), (int)r.below(65536));
        if (used.insert(t).second) a.a.emplace_back(t.c_str(), r.chance(1, 3) ? static_cast<uint16_t>(r()) : static_cast<uint16_t>(0));
      }
      s.current[key] = a.a;
      s.answered_at[key] = vf::vnow();
      s.failed_at.erase(key);
      cb.OnDnsResolution(a, "");
    } else {
      s.failed_at[key] = vf::vnow();
      s.answered_at.erase(key);
      if (k % 2) cb.OnDnsResolution(a, "");  // an empty answer
      else cb.OnDnsResolution(a, "no such host");
    }
  }
  static void later(FileDescriptor, short, void* c) {
    auto p = static_cast<Pending*>(c);
    --script->outstanding;
    answer(p->name, p->family, *p->cb);
  }
  void Resolve(const char* name, int family, DnsResolutionCallback& cb) noexcept override {
    auto& s = *script;
    auto key = std::make_pair(low(name), family);
    ++s.asked[key];
    if (s.answered_at.count(key)) {
      int64_t dt = vf::vnow() - s.answered_at[key];
      VF_CHECK(dt >= 60000000000ll - 5000000 && dt <= 120000000000ll + 10000000, "refresh", "%s resolved again after %.3f s", name, dt / 1e9);
      s.answered_at.erase(key);
      vf::count("refreshes");
    } else if (s.failed_at.count(key)) {
      int64_t dt = vf::vnow() - s.failed_at[key];
      VF_CHECK(dt >= 5000000000ll - 5000000 && dt <= 5000000000ll + 10000000, "retry", "%s retried after %.3f s", name, dt / 1e9);
      s.failed_at.erase(key);
      vf::count("retries");
    } else {
      VF_CHECK(s.asked[key] == 1, "asked-twice", "%s resolved %d times at once", name, s.asked[key]);
    }
    if (s.sync) { answer(name, family, cb); return; }
    all.emplace_back(new Pending{name, family, &cb});
    ++s.outstanding;
    s.base->OnTimeout(std::chrono::milliseconds{1 + s.r->below(900)}, later, all.back().get());
  }
};
namespace lightstep {
std::unique_ptr<DnsResolver> MakeDnsResolver(Logger&, EventBase&, const DnsResolverOptions&) { return std::unique_ptr<DnsResolver>{new FakeResolver}; }
}  // namespace lightstep
struct Driver {
  SatelliteEndpointManager* m;
  EventBase* base;
  Config* c;
  Rng* r;
  int ready = 0, turns = 0, max_turns = 0;
  uint64_t h = 0;
  bool any() const {
    for (auto& a : script->current) if (!a.second.empty()) return true;
    return false;
  }
  const std::vector<IpAddress>* in_use(const std::string& host) const {
    auto i = script->current.find({host, AF_INET});
    if (i != script->current.end() && !i->second.empty()) return &i->second;
    i = script->current.find({host, AF_INET6});
    return i != script->current.end() && !i->second.empty() ? &i->second : nullptr;
  }
  void probe() {
    if (!any()) return;
    // the endpoints that can be reached now
    std::multiset<std::pair<std::string, uint16_t>> alive;
    std::map<std::string, size_t> per_host;
    for (auto& e : *c) if (in_use(low(e.first))) { alive.emplace(low(e.first), e.second); ++per_host[low(e.first)]; }
    int rounds = 1 + static_cast<int>(r->below(12));
    std::multiset<std::pair<std::string, uint16_t>> got, want;
    std::map<std::pair<std::string, uint16_t>, std::vector<std::vector<std::string>>> addrs;  // of each endpoint, turn by turn
    for (int k = 0; k < rounds; ++k) {
      for (size_t i = 0; i < alive.size(); ++i) {
        auto e = m->RequestEndpoint();
        std::string host = low(e.second);
        IpAddress a = e.first;
        uint16_t port = ntohs(a.family() == AF_INET ? a.ipv4_address().sin_port : a.ipv6_address().sin6_port);
        got.emplace(host, port);
        auto u = in_use(host);
        bool member = false;
        if (u) for (auto x : *u) { x.set_port(port); member = member || x == a; }
        VF_CHECK(member, "address", "%s is not an address of %s", ToString(a).c_str(), host.c_str());
        auto& turns_of = addrs[{host, port}];
        turns_of.resize(static_cast<size_t>(k) + 1);
        turns_of.back().push_back(ToString(a));
        h = vf::hash(ToString(a), h) ^ port;
      }
      want.insert(alive.begin(), alive.end());
      // after each whole turn every endpoint has had exactly one more attempt
      VF_CHECK(got == want, "turns", "after %d turns over %zu endpoints the attempts are uneven or for other endpoints", k + 1, alive.size());
      vf::eval(alive.size());
    }
    for (auto& a : addrs) {  // any k successive turns use each of the k addresses of an endpoint equally often
      size_t k = in_use(a.first.first)->size(), times = alive.count(a.first);
      for (size_t i = 0; i + k <= a.second.size(); ++i) {
        std::map<std::string, size_t> s;
        for (size_t t = i; t < i + k; ++t) for (auto& x : a.second[t]) ++s[x];
        bool even = s.size() == k;
        for (auto& x : s) even = even && x.second == times;
        VF_CHECK(even, "rotation", "in %zu turns, %s:%d was tried at %zu of its %zu addresses, or unevenly", k, a.first.first.c_str(), a.first.second, s.size(), k);
      }
    }
  }
  static void tick(FileDescriptor, short, void* c) {
    auto d = static_cast<Driver*>(c);
    VF_CHECK((d->ready == 1) == d->any() && d->ready <= 1, "ready", "told ready %d times, %s", d->ready, d->any() ? "something is resolved" : "nothing is resolved");
    if (d->ready) d->probe();
    if (++d->turns < d->max_turns) d->base->OnTimeout(std::chrono::milliseconds{1 + d->r->below(40000)}, tick, c);
    else d->base->LoopBreak();
  }
};
static void rotation(Rng& r, int64_t) {
  auto& v = vf::vt();
  v.on = true;
  {
    Config c = config(r);
    Script s;
    s.r = &r;
    s.sync = r.chance(1, 3);
    static const int goods[] = {100, 60, 60, 15};
    s.good = goods[r.below(4)];
    script = &s;
    LightStepTracerOptions o;
    o.satellite_endpoints = c;
    StreamRecorderOptions so;
    so.min_dns_resolution_refresh_period = std::chrono::seconds{60};
    so.max_dns_resolution_refresh_period = std::chrono::seconds{120};
    so.dns_failure_retry_period = std::chrono::seconds{5};
    Logger l{[](LogLevel, opentracing::string_view) {}};
    EventBase base;
    s.base = &base;
    Driver d{nullptr, &base, &c, &r};
    std::unique_ptr<SatelliteEndpointManager> m;
    m.reset(new SatelliteEndpointManager{l, base, o, so, [&] {
      ++d.ready;
      // the endpoint may be asked for at once
      if (d.m) { auto e = d.m->RequestEndpoint(); std::string host = low(e.second); VF_CHECK(d.in_use(host) != nullptr, "ready", "endpoint of unresolved host %s", host.c_str()); }
    }});
    d.m = m.get();
    d.max_turns = 3 + static_cast<int>(r.below(15));
    m->Start();
    std::set<std::string> names;
    for (auto& e : c) names.insert(low(e.first));
    for (auto& n : names)
      for (int f : {AF_INET, AF_INET6}) VF_CHECK(s.asked[std::make_pair(n, f)] == 1, "asked", "%s resolved %d times for family %d at the start", n.c_str(), s.asked[std::make_pair(n, f)], f);
    VF_CHECK(s.asked.size() == 2 * names.size(), "asked", "%zu resolutions for %zu names", s.asked.size(), names.size());
    base.OnTimeout(std::chrono::milliseconds{1 + r.below(2000)}, Driver::tick, &d);
    base.Dispatch();
    vf::distinct(d.h ^ static_cast<uint64_t>(d.turns));
    vf::count("resolved_runs", d.ready > 0);
  }
  v.on = false;
}
static void none(Rng&, int64_t) {
  LightStepTracerOptions o;
  o.satellite_endpoints.clear();
  StreamRecorderOptions so;
  Logger l{[](LogLevel, opentracing::string_view) {}};
  EventBase base;
  try { SatelliteEndpointManager m{l, base, o, so, [] {}}; vf::fail("none", "an empty list of satellites was accepted"); } catch (const std::exception& e) { VF_CHECK(e.what()[0], "none", "no text"); }
  vf::eval();
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("grouping", vf::n(6000, 200000), grouping);
  vf::cases("rotation", vf::n(3000, 80000), rotation);
  vf::cases("none", 1, none);
  return vf::finish();
}
