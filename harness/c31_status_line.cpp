// C31: the response parser under every split of the bytes.
#include "vf.h"
#include "recorder/stream_recorder/status_line_parser.h"
using namespace lightstep;
using vf::Rng;

struct Result {
  bool done = false, error = false;
  int code = 0;
  std::string reason;
  bool operator==(const Result& o) const { return done == o.done && error == o.error && (!done || (code == o.code && reason == o.reason)); }
  std::string show() const { return error ? "an error" : done ? vf::fmt("%d ", code) + vf::hex(reason) : "incomplete"; }
};
static Result feed(StatusLineParser& p, const std::vector<std::string>& pieces) {
  Result x;
  for (auto& s : pieces) {
    std::unique_ptr<char[]> b{new char[s.size()]};
    memcpy(b.get(), s.data(), s.size());
    try {
      p.Parse(opentracing::string_view{b.get(), s.size()});
    } catch (const std::exception& e) {
      VF_CHECK(e.what()[0], "error", "an error without text");
      x.error = true;
      break;
    }
  }
  if (!x.error) {
    x.done = p.completed();
    if (x.done) { x.code = p.status_code(); x.reason = std::string(p.reason().data(), p.reason().size()); }
  }
  return x;
}
// what the text means: version, blank, code, blank, reason up to the carriage return
static Result meaning(const std::string& s, bool* judged) {
  Result x;
  *judged = true;
  size_t e = s.find('\r');
  if (e == std::string::npos) return x;
  std::string l = s.substr(0, e);
  size_t a = l.find(' '), b = a == std::string::npos ? a : l.find(' ', a + 1);
  if (b == std::string::npos) { x.error = true; return x; }
  x.done = true;
  std::string c = l.substr(a + 1, b - a - 1);
  if (c.empty() || c.size() > 9 || c.find_first_not_of("0123456789") != std::string::npos) { *judged = false; return x; }
  x.code = atoi(c.c_str());
  x.reason = l.substr(b + 1);
  return x;
}
static std::string response(Rng& r) {
  std::string s;
  switch (r.below(8)) {
    case 0: s = r.bytes(r.skewed(60)); break;
    case 1: s = "HTTP/1.1 " + r.alnum(r.below(5)) + (r.chance(1, 2) ? " " : "") + r.alnum(r.below(9)); break;
    case 2: { static const char ab[] = "HTTP/1. \r\n0245 "; for (size_t n = r.skewed(40); n > 0; --n) s += ab[r.below(sizeof ab - 1)]; break; }
    default: {
      static const int codes[] = {200, 200, 204, 301, 400, 404, 429, 500, 503, 100, 999};
      s = (r.chance(1, 3) ? "HTTP/1.0 " : "HTTP/1.1 ") + std::to_string(codes[r.below(11)]) + " " + (r.chance(1, 5) ? "" : r.chance(1, 2) ? "OK" : "Not Found " + r.alnum(r.skewed(300)));
    }
  }
  if (!r.chance(1, 8)) s += "\r\n";
  if (r.chance(1, 2)) s += "Content-Length: 3\r\n\r\nabc";
  if (r.chance(1, 12) && !s.empty()) s[r.below(s.size())] = static_cast<char>(r());
  return s;
}
static std::vector<std::string> split(Rng& r, const std::string& s) {
  std::vector<std::string> v;
  size_t max = 1 + r.below(r.chance(1, 2) ? 3 : 30);
  for (size_t i = 0; i < s.size();) { size_t n = r.chance(1, 6) ? 0 : 1 + r.below(max); v.push_back(s.substr(i, n)); i += v.back().size(); }
  return v;
}
static void one(Rng& r, int64_t) {
  std::string s = response(r);
  bool judged;
  Result want = meaning(s, &judged);
  StatusLineParser whole;
  Result a = feed(whole, {s});
  if (judged) VF_CHECK(a == want, "meaning", "\"%s\" parsed as %s, expected %s", vf::hex(s).c_str(), a.show().c_str(), want.show().c_str());
  else vf::count("odd_codes");
  // a parser that has seen other things and was reset
  StatusLineParser used;
  std::string seen;
  for (int k = 0; k < 5; ++k) {
    std::string other = response(r);
    feed(used, split(r, r.chance(1, 2) ? other : other.substr(0, r.below(other.size() + 1))));
    used.Reset();
    VF_CHECK(!used.completed(), "reset", "complete after a reset");
    auto pieces = split(r, s);
    Result b = feed(used, pieces);
    VF_CHECK(b == a, "split", "\"%s\" in %zu pieces parsed as %s, in one as %s", vf::hex(s).c_str(), pieces.size(), b.show().c_str(), a.show().c_str());
    if (b.done) {  // later bytes of the response change nothing
      Result c = feed(used, split(r, response(r)));
      VF_CHECK(c == b, "later", "\"%s\" became %s after more bytes", b.show().c_str(), c.show().c_str());
    }
    used.Reset();
    vf::eval();
  }
  vf::count(a.error ? "refused" : a.done ? "complete" : "incomplete");
  vf::distinct(vf::hash(s));
}
// every two-piece split and one byte at a time
static void exhaustive(Rng& r, int64_t) {
  std::string s = response(r);
  StatusLineParser whole;
  Result a = feed(whole, {s});
  for (size_t i = 0; i <= s.size(); ++i) {
    StatusLineParser p;
    Result b = feed(p, {s.substr(0, i), s.substr(i)});
    VF_CHECK(b == a, "split", "\"%s\" cut at %zu parsed as %s, in one as %s", vf::hex(s).c_str(), i, b.show().c_str(), a.show().c_str());
  }
  StatusLineParser p;
  std::vector<std::string> bytes;
  size_t end = s.find('\r');
  for (size_t i = 0; i < s.size(); ++i) {
    bytes.push_back(s.substr(i, 1));
  }
  Result b = feed(p, bytes);
  VF_CHECK(b == a, "split", "\"%s\" byte by byte parsed as %s, in one as %s", vf::hex(s).c_str(), b.show().c_str(), a.show().c_str());
  StatusLineParser q;
  for (size_t i = 0; i < s.size() && i < end; ++i) {
    q.Parse(opentracing::string_view{&s[i], 1});
    VF_CHECK(!q.completed(), "early", "complete before the end of the line");
  }
  vf::eval(s.size() + 2);
  vf::distinct(vf::hash(s) + 1);
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("one", vf::n(20000, 500000), one);
  vf::cases("exhaustive", vf::n(3000, 60000), exhaustive);
  return vf::finish();
}
