// Stand-in for the OpenTelemetry API (not installed in this sandbox). Spans are inert unless a
// harness switches recording on; then every span, attribute and scope is kept for inspection.
#pragma once
#include <any>
#include <cstdint>
#include <initializer_list>
#include <map>
#include <memory>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include <opentelemetry/nostd/shared_ptr.h>
namespace opentelemetry { namespace nostd {
using std::string_view;
template <class T, size_t N = std::dynamic_extent> using span = std::span<T, N>;
}}
namespace opentelemetry { namespace trace { namespace rec {
inline bool on = false;
}}
namespace common {
class AttributeValue {
   public:
    std::string text;
    template <class V> AttributeValue(const V& v) {
        using D = std::decay_t<V>;
        if (!trace::rec::on) return;
        if constexpr (std::is_same_v<D, bool>) text = v ? "true" : "false";
        else if constexpr (std::is_integral_v<D> || std::is_floating_point_v<D>) text = std::to_string(v);
        else if constexpr (std::is_convertible_v<const V&, std::string_view>) text = std::string(std::string_view(v));
        else text = "?";
    }
};
}}
namespace opentelemetry { namespace trace {
enum class StatusCode { kUnset, kOk, kError };
enum class SpanKind { kInternal, kServer, kClient, kProducer, kConsumer };
using Attributes = std::initializer_list<std::pair<std::string_view, common::AttributeValue>>;
namespace rec {
struct Data {
    uint64_t id = 0, parent = 0;
    std::string name;
    std::map<std::string, std::string> attributes;
    std::vector<std::string> events;
    int ended = 0, scopes = 0;  // scopes: how often made current
};
inline uint64_t next_id = 1;
inline std::vector<std::shared_ptr<Data>> spans;   // in order of start
inline void reset(bool enable) {
    on = enable;
    next_id = 1;
    spans.clear();
}
inline std::string hex(uint64_t v, size_t n) {
    std::string r(n, '0');
    for (size_t i = n; i > 0 && v; --i, v >>= 4) r[i - 1] = "0123456789abcdef"[v & 15];
    return r;
}
}  // namespace rec
struct Id {
    uint64_t v = 0;
    template <class T> void ToLowerBase16(T&& out) const {
        size_t n = 0;
        for ([[maybe_unused]] auto& c : out) ++n;
        const auto s = rec::hex(v, n);
        size_t i = 0;
        for (auto& c : out) c = s[i++];
    }
    bool IsValid() const { return v != 0; }
};
struct TraceId : Id {
    static constexpr size_t kSize = 16;
};
struct SpanId : Id {
    static constexpr size_t kSize = 8;
};
struct SpanContext {
    uint64_t id = 0;
    bool IsValid() const { return id != 0; }
    bool IsSampled() const { return id != 0; }
    trace::TraceId trace_id() const { return {{id}}; }
    trace::SpanId span_id() const { return {{id}}; }
};
struct StartSpanOptions {
    SpanKind kind = SpanKind::kInternal;
    SpanContext parent;
};
class Span {
   public:
    std::shared_ptr<rec::Data> data;
    Span() = default;
    explicit Span(std::shared_ptr<rec::Data> d) : data(std::move(d)) {}
    Span(const Span&) = delete;
    Span& operator=(const Span&) = delete;
    ~Span() { finish(); }
    void SetAttribute(std::string_view key, const common::AttributeValue& v) {
        if (data && !data->ended) data->attributes[std::string(key)] = v.text;
    }
    template <class... A> void AddEvent(std::string_view name, A&&...) {
        if (data && !data->ended) data->events.emplace_back(name);
    }
    void AddEvent(std::string_view name, Attributes) {
        if (data && !data->ended) data->events.emplace_back(name);
    }
    void SetStatus(StatusCode, std::string_view = {}) {}
    void UpdateName(std::string_view n) {
        if (data && !data->ended) data->name = std::string(n);
    }
    void End() { finish(); }
    bool IsRecording() const { return data && !data->ended; }
    SpanContext GetContext() const { return {data ? data->id : 0}; }

   private:
    void finish() {
        if (data && !data->ended) data->ended = 1;
    }
};
using SpanSharedPtr = nostd::shared_ptr<Span>;
namespace rec {
inline std::vector<std::shared_ptr<Span>> active;  // stack of current spans
}
class Scope {
   public:
    explicit Scope(const nostd::shared_ptr<Span>& s) {
        if (s && s->data) {
            rec::active.push_back(s);
            ++s->data->scopes;
            pushed_ = true;
        }
    }
    Scope(const Scope&) = delete;
    Scope(Scope&& o) noexcept : pushed_(std::exchange(o.pushed_, false)) {}
    Scope& operator=(const Scope&) = delete;
    ~Scope() {
        if (pushed_ && !rec::active.empty()) rec::active.pop_back();
    }

   private:
    bool pushed_ = false;
};
}}
