// The application's exporter, without the network.
#include "telemetry.h"
namespace ion::app {
Telemetry::Telemetry(const std::string&) {}
Telemetry::~Telemetry() = default;
}  // namespace ion::app
