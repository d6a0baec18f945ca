#pragma once
#include <opentracing/tracer.h>
