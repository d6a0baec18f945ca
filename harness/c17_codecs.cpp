// C17: hexadecimal and base64 codecs against direct definitions, on exact heap blocks.
#include "vf.h"
#include <lightstep/base64/base64.h>
#include "common/hex_conversion.h"
using namespace lightstep;
using vf::Rng;

struct Exact {  // the bytes and nothing after them
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  opentracing::string_view view() const { return {p.get(), n}; }
};
static int digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// the number a text stands for, if it is one of at most n digits
static bool number(std::string s, size_t n, uint64_t* hi, uint64_t* lo) {
  while (!s.empty() && blank(s[0])) s.erase(0, 1);
  while (!s.empty() && blank(s.back())) s.pop_back();
  if (s.empty()) return false;
  size_t z = s.find_first_not_of('0');
  s = z == std::string::npos ? "" : s.substr(z);
  if (s.size() > n) return false;
  *hi = *lo = 0;
  for (char c : s) {
    int d = digit(c);
    if (d < 0) return false;
    *hi = *hi << 4 | *lo >> 60;
    *lo = *lo << 4 | static_cast<uint64_t>(d);
  }
  return true;
}
static std::string pad(uint64_t x, int w) { return vf::fmt("%0*llx", w, (unsigned long long)x); }
static std::string strip(const std::string& s) { size_t z = s.find_first_not_of('0'); return z == std::string::npos ? "0" : s.substr(z); }

static void writing(Rng& r, int64_t i) {
  uint64_t x = r.magnitude(), y = r.chance(1, 4) ? 0 : r.magnitude();
  char b[18];
  memset(b, '#', sizeof b);
  auto v = Uint64ToHex(x, b + 1);
  VF_CHECK(std::string(v.data(), v.size()) == pad(x, 16) && b[0] == '#' && b[17] == '#', "hex64", "%llx written as %s", (unsigned long long)x, vf::hex(std::string(b, 18)).c_str());
  memset(b, '#', sizeof b);
  uint32_t w = static_cast<uint32_t>(x);
  v = Uint32ToHex(w, b + 1);
  VF_CHECK(std::string(v.data(), v.size()) == pad(w, 8) && b[0] == '#' && b[9] == '#', "hex32", "%x written as %s", w, vf::hex(std::string(b, 18)).c_str());
  memset(b, '#', sizeof b);
  uint8_t u = static_cast<uint8_t>(i);
  v = Uint8ToHex(u, b + 1);
  VF_CHECK(std::string(v.data(), v.size()) == pad(u, 2) && b[0] == '#' && b[3] == '#', "hex8", "%x written as %s", u, vf::hex(std::string(b, 18)).c_str());
  std::unique_ptr<HexSerializer> h{new HexSerializer};
  v = h->Uint64ToHex(x);
  VF_CHECK(std::string(v.data(), v.size()) == pad(x, 16), "serializer", "%llx", (unsigned long long)x);
  v = h->Uint128ToHex(y, x);
  std::string t(v.data(), v.size());
  VF_CHECK(t == (y ? pad(y, 16) : "") + pad(x, 16), "serializer128", "%llx,%llx written as %s", (unsigned long long)y, (unsigned long long)x, t.c_str());
  // and back, in both widths and cases
  std::string full = pad(y, 16) + pad(x, 16), low = pad(x, 16);
  for (int k = 0; k < 4; ++k) {
    std::string f = full, l = low;
    if (k & 1) { f = strip(f); l = strip(l); }
    if (k & 2) { for (auto& c : f) if (r.chance(1, 2)) c = static_cast<char>(toupper(c)); for (auto& c : l) if (r.chance(1, 2)) c = static_cast<char>(toupper(c)); }
    if (r.chance(1, 3)) { l = std::string(r.below(4), ' ') + std::string(r.below(30), '0') + l + std::string(r.below(3), '\t'); f = "\n" + std::string(r.below(30), '0') + f + std::string(r.below(3), ' '); }
    Exact el(l), ef(f);
    auto m = HexToUint64(el.view());
    VF_CHECK(m && *m == x, "read64", "\"%s\" read as %s", vf::hex(l).c_str(), m ? pad(*m, 16).c_str() : "an error");
    uint64_t hi = 7, lo = 7;
    bool ok = static_cast<bool>(HexToUint128(ef.view(), hi, lo));
    VF_CHECK(ok && hi == y && lo == x, "read128", "\"%s\" read as %llx,%llx", vf::hex(f).c_str(), (unsigned long long)hi, (unsigned long long)lo);
  }
  {
    Exact el(low), ef(full), e8(pad(u, 2));
    auto m = NormalizedHexToUint64(el.view());
    VF_CHECK(m && *m == x, "normalized64", "%s", low.c_str());
    uint64_t hi = 7, lo = 7;
    bool ok = static_cast<bool>(NormalizedHexToUint128(ef.view(), hi, lo));
    VF_CHECK(ok && hi == y && lo == x, "normalized128", "%s", full.c_str());
    auto b8 = NormalizedHexToUint8(e8.view());
    VF_CHECK(b8 && *b8 == u, "normalized8", "%02x", u);
  }
  vf::eval(9);
  vf::distinct(vf::mix(x) ^ y);
}
static void reading(Rng& r, int64_t i) {
  std::string s;
  switch (r.below(5)) {
    case 0: s = r.bytes(r.skewed(40)); break;
    case 1: { static const char ab[] = "0000123456789abcdefABCDEFgGxX /:@`\t\n"; for (size_t n = r.skewed(40); n > 0; --n) s += ab[r.below(sizeof ab - 1)]; break; }
    case 2: s = pad(r.magnitude(), static_cast<int>(1 + r.below(40))); break;
    case 3: s = std::string(1, static_cast<char>(i)); break;  // every byte alone
    default: s = std::string(r.below(3), '0') + pad(r(), 16) + pad(r(), 16); s.resize(r.below(36), 'f');
  }
  if (r.chance(1, 3) && !s.empty()) s[r.below(s.size())] = static_cast<char>(r());
  if (r.chance(1, 4)) s.insert(0, r.below(3), ' ');
  if (r.chance(1, 4)) s.append(r.below(3), '\v');
  uint64_t hi = 0, lo = 0;
  Exact e(s);
  bool good = number(s, 16, &hi, &lo);
  auto m = HexToUint64(e.view());
  VF_CHECK(static_cast<bool>(m) == good && (!good || *m == lo), "text64", "\"%s\" read as %s", vf::hex(s).c_str(), m ? pad(*m, 16).c_str() : "an error");
  good = number(s, 32, &hi, &lo);
  uint64_t a = 1, b = 1;
  bool ok = static_cast<bool>(HexToUint128(e.view(), a, b));
  VF_CHECK(ok == good && (!good || (a == hi && b == lo)), "text128", "\"%s\" read as %s %llx,%llx", vf::hex(s).c_str(), ok ? "a number" : "an error", (unsigned long long)a, (unsigned long long)b);
  vf::count(good ? "numbers" : "not_numbers");
  // fixed-width readers: exactly their length, digits only
  for (size_t n : {2, 16, 32}) {
    std::string t = s;
    t.resize(n, '0');
    Exact et(t);
    bool digits = true;
    for (char c : t) digits = digits && digit(c) >= 0;
    bool res = n == 2 ? static_cast<bool>(NormalizedHexToUint8(et.view())) : n == 16 ? static_cast<bool>(NormalizedHexToUint64(et.view())) : static_cast<bool>(NormalizedHexToUint128(et.view(), a, b));
    VF_CHECK(res == digits, "normalized", "\"%s\" %s", vf::hex(t).c_str(), res ? "accepted" : "refused");
  }
  vf::eval(5);
  vf::distinct(vf::hash(s));
}
static const char AB[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string encode(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t v = 0;
    for (size_t k = 0; k < 3; ++k) v = v << 8 | (i + k < s.size() ? static_cast<unsigned char>(s[i + k]) : 0u);
    for (size_t k = 0; k < 4; ++k) o += i + k > s.size() ? '=' : AB[v >> (18 - 6 * k) & 63];
  }
  return o;
}
static bool decode(const std::string& s, std::string* o) {
  if (s.size() % 4) return false;
  for (size_t i = 0; i < s.size(); i += 4) {
    uint32_t v = 0;
    int n = 4;
    for (size_t k = 0; k < 4; ++k) {
      const char* p = s[i + k] ? strchr(AB, s[i + k]) : nullptr;
      if (p == nullptr) {
        if (s[i + k] != '=' || i + 4 != s.size() || k < 2) return false;
        if (k == 2 && s[i + 3] != '=') return false;
        n = static_cast<int>(k);
        break;
      }
      v = v << 6 | static_cast<uint32_t>(p - AB);
    }
    if (n == 2) { if (v & 15) return false; *o += static_cast<char>(v >> 4); }
    else if (n == 3) { if (v & 3) return false; *o += static_cast<char>(v >> 10); *o += static_cast<char>(v >> 2); }
    else { *o += static_cast<char>(v >> 16); *o += static_cast<char>(v >> 8); *o += static_cast<char>(v); }
  }
  return true;
}
static void base64(Rng& r, int64_t i) {
  std::string s = i < 260 ? r.bytes(static_cast<size_t>(i)) : r.bytes(r.skewed(300));
  Exact e(s);
  std::string t = Base64::encode(e.p.get(), e.n);
  VF_CHECK(t == encode(s), "encode", "%s encoded as %s", vf::hex(s).c_str(), t.c_str());
  Exact et(t);
  VF_CHECK(Base64::decode(et.p.get(), et.n) == s, "decode", "%s does not come back from %s", vf::hex(s).c_str(), t.c_str());
  // damaged or made-up text
  std::string d = r.chance(1, 2) ? t : "";
  if (d.empty()) for (size_t n = r.skewed(24); n > 0; --n) d += r.chance(1, 8) ? '=' : r.chance(1, 10) ? static_cast<char>(r()) : AB[r.below(64)];
  for (size_t k = r.below(3); k > 0 && !d.empty(); --k) {
    size_t p = r.chance(1, 2) ? d.size() - 1 - r.below(std::min<size_t>(d.size(), 5)) : r.below(d.size());
    switch (r.below(4)) {
      case 0: d[p] = static_cast<char>(r()); break;
      case 1: d[p] = '='; break;
      case 2: d.erase(p, 1); break;
      default: d.insert(p, 1, AB[r.below(64)]);
    }
  }
  std::string want;
  if (!decode(d, &want)) { want.clear(); vf::count("refused"); } else vf::count("accepted");
  Exact ed(d);
  std::string g = Base64::decode(ed.p.get(), ed.n);
  VF_CHECK(g == want, "text", "\"%s\" decoded as %s, expected %s", vf::hex(d).c_str(), vf::hex(g).c_str(), vf::hex(want).c_str());
  vf::eval(3);
  vf::distinct(vf::hash(d));
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("writing", vf::n(30000, 800000), writing);
  vf::cases("reading", vf::n(60000, 2000000), reading);
  vf::cases("base64", vf::n(40000, 1000000), base64);
  return vf::finish();
}
