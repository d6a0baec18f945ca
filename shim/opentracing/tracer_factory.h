#pragma once
#include <opentracing/tracer.h>
namespace opentracing {
const std::error_category& tracer_factory_error_category();
const std::error_code configuration_parse_error(1, tracer_factory_error_category());
const std::error_code invalid_configuration_error(2, tracer_factory_error_category());
class TracerFactory {
 public:
  virtual ~TracerFactory() = default;
  virtual expected<std::shared_ptr<Tracer>> MakeTracer(const char* configuration,
                                                       std::string& error_message) const noexcept = 0;
};
}  // namespace opentracing
