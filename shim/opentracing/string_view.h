// Minimal stand-in for opentracing-cpp 1.5 (ABI v2), written for /verif: OpenTracing is not installed
// in the sandbox, and lightstep-tracer-cpp's tracer layer cannot be compiled without it.
#pragma once
#include <algorithm>
#include <cstring>
#include <ostream>
#include <string>

namespace opentracing {
class string_view {
 public:
  using value_type = char;
  static const size_t npos = static_cast<size_t>(-1);
  string_view() noexcept : data_(nullptr), size_(0) {}
  string_view(const char* s) noexcept : data_(s), size_(s ? std::strlen(s) : 0) {}
  string_view(const std::string& s) noexcept : data_(s.data()), size_(s.size()) {}
  string_view(const char* s, size_t n) noexcept : data_(s), size_(n) {}
  operator std::string() const { return std::string(data_ ? data_ : "", size_); }
  const char* data() const noexcept { return data_; }
  bool empty() const noexcept { return size_ == 0; }
  size_t length() const noexcept { return size_; }
  size_t size() const noexcept { return size_; }
  const char* begin() const noexcept { return data_; }
  const char* end() const noexcept { return data_ + size_; }
  const char& operator[](size_t i) const { return data_[i]; }

 private:
  const char* data_;
  size_t size_;
};
inline bool operator==(string_view a, string_view b) noexcept {
  return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
}
inline bool operator!=(string_view a, string_view b) noexcept { return !(a == b); }
inline std::ostream& operator<<(std::ostream& o, string_view s) {
  return o.write(s.data(), static_cast<std::streamsize>(s.size()));
}
}  // namespace opentracing
namespace std {
template <>
struct hash<opentracing::string_view> {
  size_t operator()(opentracing::string_view s) const {
    return std::hash<std::string>{}(std::string(s));
  }
};
}  // namespace std
