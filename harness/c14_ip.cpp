// C14: addresses from text, from system structures, and back.
#include "vf.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sstream>
#include "network/ip_address.h"
using namespace lightstep;
using vf::Rng;

struct Model { int family; std::string addr; uint16_t port; };  // addr: 4 or 16 raw bytes
static Model any(Rng& r) {
  Model m;
  m.family = r.chance(1, 2) ? AF_INET : AF_INET6;
  m.addr = r.bytes(m.family == AF_INET ? 4 : 16);
  if (r.chance(1, 3)) for (auto& c : m.addr) if (r.chance(2, 3)) c = 0;
  if (m.family == AF_INET6 && r.chance(1, 6)) { m.addr = std::string(10, 0) + "\xff\xff" + r.bytes(4); }
  if (r.chance(1, 10)) m.addr.assign(m.addr.size(), static_cast<char>(r.chance(1, 2) ? 0 : 255));
  static const uint16_t ports[] = {0, 1, 53, 80, 255, 256, 443, 8080, 32767, 32768, 65535};
  m.port = r.chance(1, 2) ? ports[r.below(11)] : static_cast<uint16_t>(r());
  return m;
}
static bool same(const Model& a, const Model& b) { return a.family == b.family && a.addr == b.addr && a.port == b.port; }
static Model read(const IpAddress& a) {
  Model m;
  m.family = a.family();
  if (m.family == AF_INET) {
    m.addr.assign(reinterpret_cast<const char*>(&a.ipv4_address().sin_addr), 4);
    m.port = ntohs(a.ipv4_address().sin_port);
    VF_CHECK(a.ipv4_address().sin_family == AF_INET, "sockaddr", "family of the sockaddr_in differs");
  } else {
    m.addr.assign(reinterpret_cast<const char*>(&a.ipv6_address().sin6_addr), 16);
    m.port = ntohs(a.ipv6_address().sin6_port);
    VF_CHECK(a.ipv6_address().sin6_family == AF_INET6, "sockaddr", "family of the sockaddr_in6 differs");
  }
  VF_CHECK(a.addr().sa_family == m.family, "sockaddr", "addr() has family %d, family() %d", a.addr().sa_family, m.family);
  return m;
}
static std::string show(const Model& m) { return vf::fmt("family %d port %u ", m.family, m.port) + vf::hex(m.addr); }
static std::string canon(const Model& m) {
  char b[INET6_ADDRSTRLEN];
  return inet_ntop(m.family, m.addr.data(), b, sizeof b);
}
// link-local addresses reach nothing without their scope
static void scoped(Rng& r, int64_t) {
  std::unique_ptr<sockaddr_in6> s{new sockaddr_in6{}};
  s->sin6_family = AF_INET6;
  std::string a = r.bytes(16);
  memcpy(&s->sin6_addr, a.data(), 16);
  s->sin6_port = htons(static_cast<uint16_t>(r()));
  s->sin6_scope_id = static_cast<uint32_t>(r.chance(1, 2) ? r.below(10) : r());
  IpAddress x{reinterpret_cast<const sockaddr&>(*s)};
  IpAddress y{x}, z;
  z = y;
  for (auto* p : {&x, &y, &z})
    VF_CHECK(reinterpret_cast<const sockaddr_in6&>(p->addr()).sin6_scope_id == s->sin6_scope_id && memcmp(&p->ipv6_address().sin6_addr, a.data(), 16) == 0 && p->ipv6_address().sin6_port == s->sin6_port,
             "scope", "scope %u became %u", s->sin6_scope_id, p->ipv6_address().sin6_scope_id);
  VF_CHECK(x == z, "equality", "a copy of an address differs from it");
  vf::eval();
  vf::distinct(vf::hash(a));
}
static IpAddress make(Rng& r, const Model& m, int* how) {
  switch (*how = static_cast<int>(r.below(5))) {
    case 0: {  // raw address
      IpAddress a = m.family == AF_INET ? [&] { in_addr x; memcpy(&x, m.addr.data(), 4); return IpAddress{x}; }() : [&] { in6_addr x; memcpy(&x, m.addr.data(), 16); return IpAddress{x}; }();
      VF_CHECK(read(a).port == 0, "port", "an address without port has port %u", read(a).port);
      a.set_port(m.port);
      return a;
    }
    case 1: {  // exactly the bytes of a system structure, on the heap: ASan sees any read beyond
      if (m.family == AF_INET) {
        std::unique_ptr<sockaddr_in> s{new sockaddr_in{}};
        s->sin_family = AF_INET;
        memcpy(&s->sin_addr, m.addr.data(), 4);
        s->sin_port = htons(m.port);
        return IpAddress{reinterpret_cast<const sockaddr&>(*s)};
      }
      std::unique_ptr<sockaddr_in6> s{new sockaddr_in6{}};
      s->sin6_family = AF_INET6;
      memcpy(&s->sin6_addr, m.addr.data(), 16);
      s->sin6_port = htons(m.port);
      return IpAddress{reinterpret_cast<const sockaddr&>(*s)};
    }
    case 2: {
      std::string t = canon(m);
      std::unique_ptr<char[]> p{new char[t.size() + 1]};
      memcpy(p.get(), t.c_str(), t.size() + 1);
      return IpAddress{p.get(), m.port};
    }
    case 3: {
      IpAddress a{canon(m).c_str()};
      VF_CHECK(read(a).port == 0, "port", "an address without port has port %u", read(a).port);
      a.set_port(static_cast<uint16_t>(r()));
      a.set_port(m.port);
      return a;
    }
    default: {
      IpAddress a{canon(m).c_str(), m.port}, b;
      VF_CHECK(b.family() == AF_INET && read(b).addr == std::string(4, 0) && read(b).port == 0, "default", "the default address is not 0.0.0.0:0");
      b = a;
      IpAddress c{b.addr()};
      return c;
    }
  }
}
static void roundtrip(Rng& r, int64_t) {
  Model m = any(r), k = any(r);
  switch (r.below(5)) {  // near misses
    case 0: k = m; break;
    case 1: k = m; k.port = static_cast<uint16_t>(k.port ^ (1u << r.below(16))); break;
    case 2: k = m; k.addr[r.below(k.addr.size())] ^= static_cast<char>(1u << r.below(8)); break;
    case 3: if (m.family == AF_INET) { k.family = AF_INET6; k.addr = std::string(10, 0) + "\xff\xff" + m.addr; k.port = m.port; } break;
    default: break;
  }
  int h1, h2;
  IpAddress a = make(r, m, &h1), b = make(r, k, &h2);
  VF_CHECK(same(read(a), m), "address", "made %s from %s (way %d)", show(read(a)).c_str(), show(m).c_str(), h1);
  VF_CHECK(same(read(b), k), "address", "made %s from %s (way %d)", show(read(b)).c_str(), show(k).c_str(), h2);
  VF_CHECK((a == b) == same(m, k) && (b == a) == same(m, k) && (a != b) != same(m, k), "equality", "%s vs %s: == says %d", show(m).c_str(), show(k).c_str(), a == b);
  VF_CHECK(a == a && !(a != a), "equality", "an address differs from itself");
  std::string t = ToString(a);
  std::ostringstream oss;
  oss << a;
  VF_CHECK(oss.str() == t && t == canon(m), "print", "%s printed as %s / %s", show(m).c_str(), t.c_str(), oss.str().c_str());
  IpAddress back{t.c_str(), m.port};
  VF_CHECK(back == a, "print", "%s does not parse back", t.c_str());
  vf::eval();
  vf::distinct(vf::hash(m.addr, vf::hash(k.addr, m.port * 65536u + k.port)));
}
static void text(Rng& r, int64_t) {
  // a valid address damaged a little, or noise over the alphabet of addresses
  std::string s;
  if (r.chance(2, 3)) {
    s = canon(any(r));
    for (size_t k = r.below(3); k > 0; --k) {
      size_t i = r.below(s.size() + 1);
      static const char ab[] = "0123456789abcdefF.:%/ x-";
      switch (r.below(3)) {
        case 0: s.insert(i, 1, ab[r.below(sizeof ab - 1)]); break;
        case 1: if (i < s.size()) s.erase(i, 1); break;
        default: if (i < s.size()) s[i] = ab[r.below(sizeof ab - 1)];
      }
    }
  } else {
    s = r.chance(1, 2) ? r.alnum(r.skewed(60)) : r.bytes(r.skewed(40));
  }
  s = s.c_str();
  unsigned char b[16];
  Model want{0, "", 0};
  if (inet_pton(AF_INET, s.c_str(), b) == 1) want = {AF_INET, std::string(reinterpret_cast<char*>(b), 4), 0};
  else if (inet_pton(AF_INET6, s.c_str(), b) == 1) want = {AF_INET6, std::string(reinterpret_cast<char*>(b), 16), 0};
  std::unique_ptr<char[]> p{new char[s.size() + 1]};
  memcpy(p.get(), s.c_str(), s.size() + 1);
  try {
    IpAddress a{p.get()};
    VF_CHECK(want.family != 0, "accepted", "\"%s\" accepted as %s", vf::hex(s).c_str(), show(read(a)).c_str());
    if (want.family) VF_CHECK(same(read(a), want), "address", "\"%s\" gave %s", vf::hex(s).c_str(), show(read(a)).c_str());
    vf::count("texts_accepted");
  } catch (const std::exception& e) {
    VF_CHECK(want.family == 0, "refused", "\"%s\" refused: %s", vf::hex(s).c_str(), e.what());
    VF_CHECK(e.what()[0] != 0, "refused", "an error without text");
    vf::count("texts_refused");
  }
  vf::eval();
  vf::distinct(vf::hash(s));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("roundtrip", vf::n(60000, 1500000), roundtrip);
  vf::cases("text", vf::n(60000, 1500000), text);
  vf::cases("scoped", vf::n(3000, 100000), scoped);
  return vf::finish();
}
