// Stand-in for the OpenTelemetry API header of the same name (not installed in this sandbox).
// Only what rhargreaves/ion uses, plus near neighbours; every operation is inert.
#pragma once
#include <memory>
namespace opentelemetry { namespace nostd {
template <class T> using shared_ptr = std::shared_ptr<T>;
template <class T> using unique_ptr = std::unique_ptr<T>;
}}
