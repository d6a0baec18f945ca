// Random OpenTracing values, what they must look like on the wire, and an independent JSON reader.
#pragma once
#include "vf.h"
#include <cmath>
#include <limits>
#include <locale>
#include <opentracing/value.h>
#include "lightstep-tracer-common/collector.pb.h"
namespace vf {
using opentracing::Value;
// valid UTF-8 of about n bytes, with control characters, quotes, NULs and every length of sequence
inline std::string utf8(Rng& r, size_t n, bool nul = true) {
  std::string s;
  while (s.size() < n) {
    switch (r.below(8)) {
      case 0: { char c = static_cast<char>(r.below(32)); if (c || nul) s += c; break; }
      case 1: s += "\"\\/\b\f\n\r\t\x7f"[r.below(9)]; break;
      case 2: { unsigned c = static_cast<unsigned>(r.range(0x80, 0x7ff)); s += static_cast<char>(0xc0 | c >> 6); s += static_cast<char>(0x80 | (c & 63)); break; }
      case 3: { unsigned c = static_cast<unsigned>(r.range(0x800, 0xd7ff)); s += static_cast<char>(0xe0 | c >> 12); s += static_cast<char>(0x80 | (c >> 6 & 63)); s += static_cast<char>(0x80 | (c & 63)); break; }
      case 4: { unsigned c = static_cast<unsigned>(r.range(0x10000, 0x10ffff)); s += static_cast<char>(0xf0 | c >> 18); s += static_cast<char>(0x80 | (c >> 12 & 63)); s += static_cast<char>(0x80 | (c >> 6 & 63)); s += static_cast<char>(0x80 | (c & 63)); break; }
      default: s += static_cast<char>(r.range(32, 126));
    }
  }
  return s;
}
inline size_t text_size(Rng& r) {
  static const size_t edges[] = {0, 1, 126, 127, 128, 129, 255, 256, 257, 511, 512, 513, 16383, 16384, 16385};
  return r.chance(1, 4) ? edges[r.below(r.chance(1, 6) ? 15 : 12)] : r.skewed(60);
}
inline double any_double(Rng& r) {
  static const double d[] = {0, -0.0, 1, -1, 0.1, 1e300, -1e-300, 1.5, 1e17, 123456, 1234567, 0.5e-5,
                             std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                             std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::min(), std::numeric_limits<double>::max(),
                             std::numeric_limits<double>::denorm_min()};
  if (r.chance(1, 2)) return d[r.below(sizeof d / sizeof *d)];
  uint64_t b = r();
  double x;
  memcpy(&x, &b, 8);
  return r.chance(1, 2) ? x : static_cast<double>(r.range(-1000000, 1000000)) / 64;
}
// Values that hold C strings point into storage that lives for the whole run.
inline const char* cstr(const std::string& s) {
  static std::mutex m;
  static std::vector<std::unique_ptr<std::string>>* v = new std::vector<std::unique_ptr<std::string>>;
  std::lock_guard<std::mutex> l(m);
  if (v->size() > 20000) v->resize(v->size());
  v->emplace_back(new std::string(s));
  return v->back()->c_str();
}
inline Value any_value(Rng& r, int depth = 3) {
  switch (r.below(depth > 0 ? 11 : 8)) {
    case 0: return Value(r.chance(1, 2));
    case 1: return Value(any_double(r));
    case 2: return Value(static_cast<int64_t>(r.magnitude()));
    case 3: return Value(static_cast<uint64_t>(r.magnitude()));
    case 4: return Value(nullptr);
    case 5: return Value(cstr(utf8(r, r.skewed(40), false)));
    case 6: return Value(-static_cast<int64_t>(r.magnitude() >> 1));
    case 7: return Value(utf8(r, text_size(r)));
    case 8: case 9: {
      opentracing::Values a;
      for (size_t i = r.skewed(6); i > 0; --i) a.push_back(any_value(r, depth - 1));
      return Value(std::move(a));
    }
    default: {
      opentracing::Dictionary d;
      for (size_t i = r.skewed(6); i > 0; --i) d[utf8(r, r.skewed(12))] = any_value(r, depth - 1);
      return Value(std::move(d));
    }
  }
}
// Reads JSON strictly and compares with the value it should stand for.
class Json {
 public:
  explicit Json(const std::string& s) : s_(s) {}
  bool matches(const Value& v, std::string* why) {
    why_ = why;
    return value(v) && (i_ == s_.size() || bad("text after the end"));
  }

 private:
  const std::string& s_;
  size_t i_ = 0;
  std::string* why_;
  bool bad(const std::string& w) {
    if (why_->empty()) *why_ = w + fmt(" at %zu", i_);
    return false;
  }
  void ws() { while (i_ < s_.size() && (s_[i_] == ' ' || s_[i_] == '\t' || s_[i_] == '\n' || s_[i_] == '\r')) ++i_; }
  bool eat(char c) {
    ws();
    if (i_ < s_.size() && s_[i_] == c) { ++i_; return true; }
    return false;
  }
  bool lit(const char* t) {
    ws();
    size_t n = strlen(t);
    if (s_.compare(i_, n, t) != 0) return bad(std::string("no ") + t);
    i_ += n;
    return true;
  }
  bool hex4(unsigned& u) {
    u = 0;
    for (int k = 0; k < 4; ++k) {
      if (i_ >= s_.size() || !isxdigit(static_cast<unsigned char>(s_[i_]))) return bad("bad \\u");
      u = u * 16 + static_cast<unsigned>(std::stoi(std::string(1, s_[i_++]), nullptr, 16));
    }
    return true;
  }
  bool string(std::string& o) {
    if (!eat('"')) return bad("no string");
    while (i_ < s_.size() && s_[i_] != '"') {
      unsigned char c = static_cast<unsigned char>(s_[i_++]);
      if (c < 32) return bad("raw control character");
      if (c != '\\') { o += static_cast<char>(c); continue; }
      if (i_ >= s_.size()) return bad("cut escape");
      char e = s_[i_++];
      switch (e) {
        case '"': case '\\': case '/': o += e; break;
        case 'b': o += '\b'; break;
        case 'f': o += '\f'; break;
        case 'n': o += '\n'; break;
        case 'r': o += '\r'; break;
        case 't': o += '\t'; break;
        case 'u': {
          unsigned u, w;
          if (!hex4(u)) return false;
          if (u >= 0xd800 && u < 0xdc00) {
            if (s_.compare(i_, 2, "\\u") != 0) return bad("lone surrogate");
            i_ += 2;
            if (!hex4(w)) return false;
            u = 0x10000 + ((u - 0xd800) << 10) + (w - 0xdc00);
          }
          if (u < 0x80) o += static_cast<char>(u);
          else if (u < 0x800) { o += static_cast<char>(0xc0 | u >> 6); o += static_cast<char>(0x80 | (u & 63)); }
          else if (u < 0x10000) { o += static_cast<char>(0xe0 | u >> 12); o += static_cast<char>(0x80 | (u >> 6 & 63)); o += static_cast<char>(0x80 | (u & 63)); }
          else { o += static_cast<char>(0xf0 | u >> 18); o += static_cast<char>(0x80 | (u >> 12 & 63)); o += static_cast<char>(0x80 | (u >> 6 & 63)); o += static_cast<char>(0x80 | (u & 63)); }
          break;
        }
        default: return bad("bad escape");
      }
    }
    return eat('"') || bad("unterminated string");
  }
  bool number(std::string& t) {  // the JSON grammar of numbers
    ws();
    size_t b = i_;
    auto digits = [&] { size_t n = i_; while (i_ < s_.size() && isdigit(static_cast<unsigned char>(s_[i_]))) ++i_; return i_ - n; };
    if (i_ < s_.size() && s_[i_] == '-') ++i_;
    size_t z = i_;
    size_t n = digits();
    if (n == 0 || (n > 1 && s_[z] == '0')) return bad("bad number");
    if (i_ < s_.size() && s_[i_] == '.') { ++i_; if (!digits()) return bad("bad fraction"); }
    if (i_ < s_.size() && (s_[i_] == 'e' || s_[i_] == 'E')) {
      ++i_;
      if (i_ < s_.size() && (s_[i_] == '+' || s_[i_] == '-')) ++i_;
      if (!digits()) return bad("bad exponent");
    }
    t = s_.substr(b, i_ - b);
    return true;
  }
  bool value(const Value& v) {
    std::string t;
    switch (v.kind()) {
      case Value::Bool: return lit(v.b() ? "true" : "false");
      case Value::Null: return lit("null");
      case Value::Int: return number(t) && (t == std::to_string(v.i()) || bad("integer " + t + " for " + std::to_string(v.i())));
      case Value::Uint: return number(t) && (t == std::to_string(v.u()) || bad("integer " + t + " for " + std::to_string(v.u())));
      case Value::Double: {
        if (!std::isfinite(v.d())) {  // JSON has none: any string or null will do
          ws();
          return i_ < s_.size() && s_[i_] == '"' ? string(t) : lit("null");
        }
        if (!number(t)) return false;
        double x = strtod(t.c_str(), nullptr);
        return (std::fabs(x - v.d()) <= 1e-5 * std::fabs(v.d()) || (std::isinf(x) && std::fabs(v.d()) > 1.797e308)) ? true : bad("number " + t + fmt(" for %.17g", v.d()));
      }
      case Value::Str: return string(t) && (t == v.s() || bad("string differs"));
      case Value::CStr: return string(t) && (t == v.c() || bad("string differs"));
      case Value::Arr: {
        if (!eat('[')) return bad("no array");
        bool first = true;
        for (auto& x : v.arr()) {
          if (!first && !eat(',')) return bad("no comma");
          first = false;
          if (!value(x)) return false;
        }
        return eat(']') || bad("array not closed");
      }
      case Value::Dict: {
        if (!eat('{')) return bad("no object");
        std::unordered_set<std::string> seen;
        for (size_t k = 0; k < v.dict().size(); ++k) {
          if (k && !eat(',')) return bad("no comma");
          std::string key;
          if (!string(key)) return false;
          if (!seen.insert(key).second) return bad("repeated key");
          auto it = v.dict().find(key);
          if (it == v.dict().end()) return bad("unknown key");
          if (!eat(':')) return bad("no colon");
          if (!value(it->second)) return false;
        }
        return eat('}') || bad("object not closed");
      }
    }
    return false;
  }
};
// what a decoded key-value must hold
inline bool same(const lightstep::collector::KeyValue& kv, const std::string& key, const Value& v, std::string* why) {
  using KV = lightstep::collector::KeyValue;
  if (kv.key() != key) { *why = "key " + hex(kv.key()) + " for " + hex(key); return false; }
  auto no = [&](const char* w) { *why = std::string(w) + ", case " + std::to_string(kv.value_case()); return false; };
  switch (v.kind()) {
    case Value::Bool: return (kv.value_case() == KV::kBoolValue && kv.bool_value() == v.b()) || no("bool");
    case Value::Null: return (kv.value_case() == KV::kBoolValue && !kv.bool_value()) || no("null");
    case Value::Int: return (kv.value_case() == KV::kIntValue && kv.int_value() == v.i()) || no("int");
    case Value::Uint: return (kv.value_case() == KV::kIntValue && static_cast<uint64_t>(kv.int_value()) == v.u()) || no("uint");
    case Value::Double: {
      double d = kv.double_value(), e = v.d();
      return (kv.value_case() == KV::kDoubleValue && (memcmp(&d, &e, 8) == 0 || (std::isnan(d) && std::isnan(e)))) || no("double");
    }
    case Value::Str: return (kv.value_case() == KV::kStringValue && kv.string_value() == v.s()) || no("string");
    case Value::CStr: return (kv.value_case() == KV::kStringValue && kv.string_value() == v.c()) || no("C string");
    default: {
      if (kv.value_case() != KV::kJsonValue) return no("json");
      std::string w;
      if (Json(kv.json_value()).matches(v, &w)) return true;
      *why = "json: " + w + " in " + hex(kv.json_value(), 200);
      return false;
    }
  }
}
// a locale that groups digits and has a decimal comma, as a host program may install
struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
struct ForeignLocale {
  std::locale old;
  explicit ForeignLocale(bool on) { if (on) std::locale::global(std::locale(old, new Comma)); }
  ~ForeignLocale() { std::locale::global(old); }
};
}  // namespace vf
