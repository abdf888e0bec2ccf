#pragma once
#include <opentelemetry/trace/span.h>
