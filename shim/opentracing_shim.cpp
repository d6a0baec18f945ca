#include <opentracing/dynamic_load.h>
#include <opentracing/propagation.h>
#include <opentracing/tracer_factory.h>
namespace {
struct Cat : std::error_category {
  const char* n;
  explicit Cat(const char* s) : n(s) {}
  const char* name() const noexcept override { return n; }
  std::string message(int c) const override { return std::string(n) + " " + std::to_string(c); }
};
}  // namespace
namespace opentracing {
const std::error_category& propagation_error_category() {
  static const Cat c{"OpenTracingPropagationError"};
  return c;
}
const std::error_category& tracer_factory_error_category() {
  static const Cat c{"OpenTracingTracerFactoryError"};
  return c;
}
const std::error_category& dynamic_load_error_category() {
  static const Cat c{"OpenTracingDynamicLoadError"};
  return c;
}
}  // namespace opentracing
