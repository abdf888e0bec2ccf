#pragma once
#include <opentelemetry/trace/tracer.h>
namespace opentelemetry { namespace trace {
class TracerProvider {
   public:
    virtual ~TracerProvider() = default;
    nostd::shared_ptr<Tracer> GetTracer(std::string_view, std::string_view = {}) {
        static const auto t = std::make_shared<Tracer>();
        return t;
    }
};
class NoopTracerProvider : public TracerProvider {};
class Provider {
   public:
    static nostd::shared_ptr<TracerProvider> GetTracerProvider() {
        static const auto p = std::make_shared<TracerProvider>();
        return p;
    }
    static void SetTracerProvider(const nostd::shared_ptr<TracerProvider>&) {}
};
}}
