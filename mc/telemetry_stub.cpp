// The application's exporter, without the network.
#include "mc/telemetry_stub.hpp"

#include <opentelemetry/trace/provider.h>

#include "telemetry.h"
namespace ion::app {
Telemetry::Telemetry(const std::string& name) {
    ++telemetry::alive;
    telemetry::created.push_back(name);
    if (telemetry::record) opentelemetry::trace::rec::reset(true);
}
Telemetry::~Telemetry() {
    if (--telemetry::alive == 0 && telemetry::record) opentelemetry::trace::rec::on = false;
}
}  // namespace ion::app
