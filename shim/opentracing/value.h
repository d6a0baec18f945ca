#pragma once
#include <opentracing/string_view.h>
#include <cstdint>
#include <memory>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>

namespace opentracing {
class Value;
using Values = std::vector<Value>;
using Dictionary = std::unordered_map<std::string, Value>;

// A tagged value with the alternatives, in order, of opentracing-cpp's variant.
class Value {
 public:
  enum Kind { Bool, Double, Int, Uint, Str, Null, CStr, Arr, Dict };
  Value() noexcept : k_(Null) {}
  template <typename T, typename std::enable_if<std::is_same<T, bool>::value>::type* = nullptr>
  Value(T t) noexcept : k_(Bool) { b_ = t; }
  template <typename T, typename std::enable_if<std::is_floating_point<T>::value>::type* = nullptr>
  Value(T t) noexcept : k_(Double) { d_ = static_cast<double>(t); }
  template <typename T, typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value &&
                                                !std::is_same<T, bool>::value>::type* = nullptr>
  Value(T t) noexcept : k_(Int) { i_ = static_cast<int64_t>(t); }
  template <typename T, typename std::enable_if<std::is_integral<T>::value && std::is_unsigned<T>::value &&
                                                !std::is_same<T, bool>::value>::type* = nullptr>
  Value(T t) noexcept : k_(Uint) { u_ = static_cast<uint64_t>(t); }
  Value(const std::string& s) : k_(Str), s_(s) {}
  Value(std::string&& s) : k_(Str), s_(std::move(s)) {}
  Value(string_view s) : k_(Str), s_(std::string(s)) {}
  Value(std::nullptr_t) noexcept : k_(Null) {}
  Value(const char* s) noexcept : k_(CStr), c_(s) {}
  Value(const Values& v);
  Value(Values&& v);
  Value(const Dictionary& d);
  Value(Dictionary&& d);
  Kind kind() const noexcept { return k_; }
  bool b() const { return b_; }
  double d() const { return d_; }
  int64_t i() const { return i_; }
  uint64_t u() const { return u_; }
  const std::string& s() const { return s_; }
  const char* c() const { return c_; }
  const Values& arr() const { return *a_; }
  const Dictionary& dict() const { return *o_; }
  friend bool operator==(const Value& x, const Value& y);
  friend bool operator!=(const Value& x, const Value& y) { return !(x == y); }

 private:
  Kind k_;
  union {
    bool b_;
    double d_;
    int64_t i_;
    uint64_t u_;
    const char* c_;
  };
  std::string s_;
  std::shared_ptr<const Values> a_;
  std::shared_ptr<const Dictionary> o_;
};
inline Value::Value(const Values& v) : k_(Arr), a_(std::make_shared<const Values>(v)) {}
inline Value::Value(Values&& v) : k_(Arr), a_(std::make_shared<const Values>(std::move(v))) {}
inline Value::Value(const Dictionary& v) : k_(Dict), o_(std::make_shared<const Dictionary>(v)) {}
inline Value::Value(Dictionary&& v) : k_(Dict), o_(std::make_shared<const Dictionary>(std::move(v))) {}
inline bool operator==(const Value& x, const Value& y) {
  if (x.k_ != y.k_) return false;
  switch (x.k_) {
    case Value::Bool: return x.b_ == y.b_;
    case Value::Double: return x.d_ == y.d_;
    case Value::Int: return x.i_ == y.i_;
    case Value::Uint: return x.u_ == y.u_;
    case Value::Str: return x.s_ == y.s_;
    case Value::Null: return true;
    case Value::CStr: return x.c_ == y.c_;
    case Value::Arr: return *x.a_ == *y.a_;
    case Value::Dict: return *x.o_ == *y.o_;
  }
  return false;
}

template <class V>
auto apply_visitor(V&& f, const Value& v) -> decltype(f(true)) {
  switch (v.kind()) {
    case Value::Bool: return f(v.b());
    case Value::Double: return f(v.d());
    case Value::Int: return f(v.i());
    case Value::Uint: return f(v.u());
    case Value::Str: return f(v.s());
    case Value::Null: return f(nullptr);
    case Value::CStr: return f(v.c());
    case Value::Arr: return f(v.arr());
    default: return f(v.dict());
  }
}
}  // namespace opentracing
