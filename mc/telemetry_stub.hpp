// What the application did with its trace exporter.
#pragma once
#include <string>
#include <vector>
namespace telemetry {
inline std::vector<std::string> created;  // service names
inline int alive = 0;
inline bool record = false;               // an exporter switches the recording of spans on
}  // namespace telemetry
