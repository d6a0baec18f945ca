#pragma once
#include <cassert>
#include <new>
#include <system_error>
#include <type_traits>
#include <utility>

namespace opentracing {
template <class E = std::error_code>
struct unexpected_type {
  E error_;
  const E& value() const { return error_; }
};
template <class E>
unexpected_type<typename std::decay<E>::type> make_unexpected(E&& e) {
  return {std::forward<E>(e)};
}

template <class T, class E = std::error_code>
class expected {
 public:
  using value_type = T;
  expected() : has_(true) { new (&v_) T(); }
  expected(const T& v) : has_(true) { new (&v_) T(v); }
  expected(T&& v) : has_(true) { new (&v_) T(std::move(v)); }
  template <class U, typename std::enable_if<std::is_convertible<U, T>::value &&
                                                 !std::is_same<typename std::decay<U>::type, T>::value &&
                                                 !std::is_same<typename std::decay<U>::type, expected>::value,
                                             int>::type = 0>
  expected(U&& u) : has_(true) {
    new (&v_) T(std::forward<U>(u));
  }
  template <class G>
  expected(const unexpected_type<G>& u) : has_(false) {
    new (&e_) E(u.error_);
  }
  expected(const expected& o) : has_(o.has_) {
    if (has_) new (&v_) T(o.v_); else new (&e_) E(o.e_);
  }
  expected(expected&& o) : has_(o.has_) {
    if (has_) new (&v_) T(std::move(o.v_)); else new (&e_) E(o.e_);
  }
  expected& operator=(expected o) {
    destroy();
    has_ = o.has_;
    if (has_) new (&v_) T(std::move(o.v_)); else new (&e_) E(o.e_);
    return *this;
  }
  ~expected() { destroy(); }
  explicit operator bool() const noexcept { return has_; }
  bool has_value() const noexcept { return has_; }
  T& operator*() { assert(has_); return v_; }
  const T& operator*() const { assert(has_); return v_; }
  T* operator->() { assert(has_); return &v_; }
  const T* operator->() const { assert(has_); return &v_; }
  T& value() { assert(has_); return v_; }
  const T& value() const { assert(has_); return v_; }
  const E& error() const { assert(!has_); return e_; }

 private:
  void destroy() { if (has_) v_.~T(); else e_.~E(); }
  bool has_;
  union {
    T v_;
    E e_;
  };
};

template <class E>
class expected<void, E> {
 public:
  using value_type = void;
  expected() noexcept : has_(true) {}
  template <class G>
  expected(const unexpected_type<G>& u) : has_(false), e_(u.error_) {}
  explicit operator bool() const noexcept { return has_; }
  bool has_value() const noexcept { return has_; }
  void value() const { assert(has_); }
  const E& error() const { assert(!has_); return e_; }

 private:
  bool has_;
  E e_;
};
}  // namespace opentracing
