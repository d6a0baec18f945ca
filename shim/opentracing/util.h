#pragma once
#include <opentracing/expected.h>
#include <opentracing/string_view.h>
#include <chrono>
#include <system_error>
namespace opentracing {
using SystemClock = std::chrono::system_clock;
using SystemTime = SystemClock::time_point;
using SteadyClock = std::chrono::steady_clock;
using SteadyTime = SteadyClock::time_point;

template <class T>
class option_wrapper {
 public:
  option_wrapper(const T& option) noexcept : option_(&option) {}
  const T& get() const noexcept { return *option_; }

 private:
  const T* option_;
};
}  // namespace opentracing
