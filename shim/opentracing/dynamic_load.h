#pragma once
#include <opentracing/string_view.h>
#include <opentracing/tracer_factory.h>
#include <opentracing/util.h>
#include <opentracing/version.h>
#include <cstring>
#include <memory>
#include <system_error>
namespace opentracing {
const std::error_category& dynamic_load_error_category();
const std::error_code dynamic_load_failure_error(1, dynamic_load_error_category());
const std::error_code dynamic_loading_not_supported_error(2, dynamic_load_error_category());
const std::error_code incompatible_library_versions_error(3, dynamic_load_error_category());
}  // namespace opentracing
extern "C" {
typedef int OpenTracingMakeTracerFactoryType(const char* opentracing_version,
                                             const char* opentracing_abi_version,
                                             const void** error_category, void* error_message,
                                             void** tracer_factory);
}
#define OPENTRACING_DECLARE_IMPL_FACTORY(X)                              \
  extern "C" {                                                           \
  extern OpenTracingMakeTracerFactoryType* const OpenTracingMakeTracerFactory; \
  OpenTracingMakeTracerFactoryType* const OpenTracingMakeTracerFactory = X;    \
  }
