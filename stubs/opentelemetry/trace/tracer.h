#pragma once
#include <opentelemetry/trace/span.h>
namespace opentelemetry { namespace trace {
class Tracer {
   public:
    nostd::shared_ptr<Span> StartSpan(std::string_view name, const StartSpanOptions& = {}) {
        if (!rec::on) return std::make_shared<Span>();
        auto d = std::make_shared<rec::Data>();
        d->id = rec::next_id++;
        d->name = std::string(name);
        if (!rec::active.empty()) d->parent = rec::active.back()->data->id;
        rec::spans.push_back(d);
        return std::make_shared<Span>(std::move(d));
    }
    nostd::shared_ptr<Span> StartSpan(std::string_view name, Attributes a, const StartSpanOptions& o = {}) {
        auto s = StartSpan(name, o);
        for (auto& [k, v] : a) s->SetAttribute(k, v);
        return s;
    }
    static Scope WithActiveSpan(const nostd::shared_ptr<Span>& s) { return Scope{s}; }
    static nostd::shared_ptr<Span> GetCurrentSpan() {
        return rec::active.empty() ? std::make_shared<Span>() : rec::active.back();
    }
};
}}
