// C30: trace spans and the trace ids in log lines. The stand-in tracing API (stubs/opentelemetry)
// records every span, attribute and scope.
#include <opentelemetry/trace/provider.h>
#include <spdlog/sinks/base_sink.h>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/spdlog.h>

#include "mc/scn.hpp"
#include "trace_id_flag.h"

using namespace mc;
using namespace scn;
using srv::Server;
using sim::ConnPtr;
namespace rec = opentelemetry::trace::rec;

namespace {
struct Line {
    uint64_t span;  // the span that was current when it was written, 0: none
    std::string text;
};
// The application's line format without its time, kept with the span that is current.
class Sink : public spdlog::sinks::base_sink<spdlog::details::null_mutex> {
   public:
    std::vector<Line> lines;

   protected:
    void sink_it_(const spdlog::details::log_msg& m) override {
        spdlog::memory_buf_t b;
        formatter_->format(m, b);
        lines.push_back({rec::active.empty() ? 0 : rec::active.back()->data->id, std::string(b.data(), b.size())});
    }
    void flush_() override {}
};
struct Tracing {
    std::shared_ptr<Sink> sink;
    explicit Tracing(bool logs) {
        spdlog::drop("access");
        rec::active.clear();
        rec::reset(true);
        if (logs) {
            sink = std::make_shared<Sink>();
            auto f = std::make_unique<spdlog::pattern_formatter>();
            f->add_flag<ion::app::TraceIdFlag>('J');
            f->set_pattern("[%l] %J%v");
            auto l = std::make_shared<spdlog::logger>("", sink);
            l->set_formatter(std::move(f));
            l->set_level(spdlog::level::trace);
            spdlog::set_default_logger(l);
        }
    }
    ~Tracing() {
        rec::reset(false);
        rec::active.clear();
        if (sink) {
            spdlog::set_default_logger(std::make_shared<spdlog::logger>("", std::make_shared<spdlog::sinks::null_sink_st>()));
            spdlog::set_level(spdlog::level::off);
        }
    }
};
struct Want {
    std::string ip;
    std::optional<std::string> method, path;
    int status;
};
Want want(const std::string& ip, const Fields& f, int status) {
    Want w{ip, {}, {}, status};
    std::optional<std::string> m, p;
    for (auto& [k, v] : f) {
        if (k == ":method" && !m) m = v;
        if (k == ":path" && !p) p = v;
    }
    if (m && p) w.method = m, w.path = p;
    return w;
}
// "" or what is wrong with the recorded spans; others: completed header blocks that were not answered
std::string compare(Chooser& c, const std::vector<Want>& wants, size_t others) {
    size_t n = 0, odd = 0;
    for (auto& s : rec::spans) {
        c.step();
        const std::string id = "span " + std::to_string(s->id);
        if (s->name != "http_request") return "name|" + id + " is named " + quote(s->name);
        if (!s->ended) return "open|" + id + " was never ended";
        if (s->parent) return "parent|" + id + " is part of span " + std::to_string(s->parent);
        auto has = [&](const char* k) { return s->attributes.count(k) > 0; };
        if (!has("http.status_code")) {
            ++odd;
            continue;
        }
        c.validated();
        if (n >= wants.size()) return "extra|more spans with a status (" + s->attributes["http.status_code"] + ") than answered requests (" + std::to_string(wants.size()) + ")";
        const Want& w = wants[n++];
        const std::string r = " of request " + std::to_string(n);
        if (s->attributes["http.status_code"] != std::to_string(w.status)) return "status|span" + r + " has status " + s->attributes["http.status_code"] + " instead of " + std::to_string(w.status);
        if (w.method.has_value() != has("http.method") || w.path.has_value() != has("http.target")) return "fields|span" + r + (w.method ? " lacks" : " has") + " a method or target";
        if (w.method) {
            if (s->attributes["http.method"] != *w.method) return "method|span" + r + " has method " + quote(s->attributes["http.method"], 100) + " instead of " + quote(*w.method, 100);
            if (s->attributes["http.target"] != *w.path) return "target|span" + r + " has target " + quote(s->attributes["http.target"], 100) + " instead of " + quote(*w.path, 100);
            if (s->attributes["ion.client_ip"] != w.ip) return "client|span" + r + " has client " + quote(s->attributes["ion.client_ip"], 100) + " instead of " + w.ip;
        }
        c.state(mix(hash_str(s->attributes["http.target"]), w.status));
    }
    if (n != wants.size()) return "missing|" + std::to_string(n) + " spans with a status for " + std::to_string(wants.size()) + " answered requests";
    if (odd > others) return "spurious|" + std::to_string(odd) + " spans without a status for " + std::to_string(others) + " unanswered header blocks";
    return "";
}
// Every line written under a span, and no other, has that span's trace id in its place.
std::string compare_lines(Chooser& c, const std::vector<Line>& lines) {
    for (auto& l : lines) {
        c.step();
        const auto b = l.text.find("] ");
        const std::string rest = b == std::string::npos ? "" : l.text.substr(b + 2);
        const bool id = rest.size() > 34 && rest[0] == '[' && rest[33] == ']' && rest[34] == ' ' && rest.substr(1, 32).find_first_not_of("0123456789abcdef") == std::string::npos;
        if (l.span == 0) {
            if (id) return "stray-id|a line outside all requests has a trace id: " + quote(l.text, 200);
        } else if (!id || rest.substr(1, 32) != rec::hex(l.span, 32)) {
            return "id|a line written during span " + std::to_string(l.span) + " has the wrong trace id or none: " + quote(l.text, 200);
        }
    }
    return "";
}
Bytes literal(uint32_t sid, const Fields& f, bool es = true) {
    ref::Encoder e;
    e.index = false;
    return headers(sid, e.encode(f), es);
}
// A server whose handlers look at the current span
struct Traced {
    Tracing tr;
    Server s;
    std::string bad;
    size_t handled = 0;
    explicit Traced(Chooser& c, bool logs) : tr(logs), s(c, Server::cleartext(), false) {
        s.server->router().add_middleware([this, logs](ion::RouteHandler) {
            return [this, logs](const ion::HttpRequest& q) -> ion::HttpResponse {
                ++handled;
                if (rec::active.size() != 1) fail("current|" + std::to_string(rec::active.size()) + " spans are current in a handler");
                else if (rec::active[0]->data->ended) fail("current|the current span has ended before the handler ran");
                else if (rec::spans.empty() || rec::active[0]->data != rec::spans.back()) fail("current|an old span is current in a handler");
                else {
                    size_t open = 0;
                    for (auto& x : rec::spans) open += !x->ended;
                    if (open != 1) fail("open|" + std::to_string(open) + " spans are open in a handler");
                }
                if (logs) {
                    spdlog::warn("in handler {}", handled);
                    if (tr.sink->lines.empty() || tr.sink->lines.back().span == 0) fail("line|a handler's log line belongs to no span");
                }
                if (q.path == "/throw") throw std::runtime_error("x");
                if (q.path == "/int") throw 5;
                h2::Req rq{q.method, q.path, {}};
                const auto a = h2::app(rq);
                ion::HttpResponse resp;
                resp.status_code = static_cast<uint16_t>(a.status);
                if (q.method != "HEAD") resp.body.assign(a.body.begin(), a.body.end());
                return resp;
            };
        });
        s.w.before_wait = [this] {
            if (!rec::active.empty()) fail("wait-current|a span is current while the server waits");
            for (auto& x : rec::spans)
                if (!x->ended) fail("wait-open|a span is open while the server waits");
        };
    }
    void fail(const std::string& m) {
        if (bad.empty()) bad = m;
    }
    void judge(Chooser& c, const std::vector<Want>& wants, size_t others, const std::string& ctx) {
        if (s.check_sane(c)) return;
        c.state(s.w.trace);
        if (!bad.empty()) return (void)srv::report(c, bad, ctx);
        if (auto b = compare(c, wants, others); !b.empty()) return (void)srv::report(c, b, ctx);
        if (tr.sink)
            if (auto b = compare_lines(c, tr.sink->lines); !b.empty()) return (void)srv::report(c, b, ctx);
    }
};
}  // namespace

MC_PROPERTY(C30) {
    rec::reset(false);
    const int kinds = 24, depth = thorough() ? 4 : 3;
    note("sequences: all sequences of up to " + std::to_string(depth) + " events from 24 kinds (answers of all kinds, exceptions, bad requests, HEAD, body requests, header blocks in two and three fragments, abandoned and interrupted blocks, empty fragments, repeated streams, undecodable blocks, HEADERS on even streams, bad padding, RST_STREAM, PING, SETTINGS, GOAWAY, aborts, two requests in one segment) spread over two connections, with and without logging at the most verbose level; spans, scopes and log lines checked in every handler, at every wait and at the end");
    uint64_t n_seq = 0;
    for (int n = 1; n <= depth; ++n) n_seq += scn::ipow(kinds, n);
    enumerate("sequences", n_seq * 2, [&](Chooser& c, uint64_t i) {
        const bool logs = i % 2;
        i /= 2;
        int n = 1;
        while (i >= scn::ipow(kinds, n)) i -= scn::ipow(kinds, n++);
        Traced t(c, logs);
        Server& s = t.s;
        ConnPtr k[2];
        std::vector<Want> wants;
        size_t others = 0;
        uint32_t sid[2] = {1, 1};
        const std::string ips[2] = {"10.1.2.3", "255.255.255.255"};
        bool dead[2] = {false, false};
        std::string ctx = logs ? "logging, events " : "events ";
        s.script = {[&] { k[0] = s.w.connect(0, ips[0]); }, [&] { s.w.send(k[0], hello()); }, [&] { k[1] = s.w.connect(1, ips[1]); }, [&] { s.w.send(k[1], hello()); }};
        uint64_t x = i;
        for (int p = 0; p < n; ++p) {
            const int op = x % kinds;
            x /= kinds;
            const int q = p % 2;
            if (dead[q]) continue;
            Bytes data;
            ctx += std::to_string(op) + " ";
            auto add = [&](const Fields& f, int status, bool es = true) {
                data += literal(sid[q], f, es);
                sid[q] += 2;
                wants.push_back(want(ips[q], f, status));
            };
            auto parts = [&](std::initializer_list<size_t> cuts, const Fields& f) {
                ref::Encoder e;
                e.index = false;
                const Bytes b = e.encode(f);
                size_t at = 0;
                std::vector<Bytes> v;
                for (auto cut : cuts) v.emplace_back(b.begin() + at, b.begin() + cut), at = cut;
                v.emplace_back(b.begin() + at, b.end());
                return v;
            };
            switch (op) {
                case 0: add(get("/b10"), 200); break;
                case 1: add(get("/nowhere"), 404); break;
                case 2: add(get("/throw"), 500); break;
                case 3: add(get("/int"), 500); break;
                case 4: add({{":path", "/b1"}}, 400); break;
                case 5: add({{":method", "GET"}, {"x", "y"}}, 400); break;
                case 6: add(get("/b20000", {}, "HEAD"), 200); break;
                case 7: add(get("/b200000"), 200); break;
                case 8:
                    add(get("/s201", {}, "POST"), 201, false);
                    data += frame(DATA, END_STREAM, sid[q] - 2, Bytes(100, 'x'));
                    break;
                case 9: {
                    const auto v = parts({3}, get("/b3", {{"user-agent", "split"}}));
                    data = frame(HEADERS, END_STREAM, sid[q], v[0]) + frame(CONT, END_HEADERS, sid[q], v[1]);
                    wants.push_back(want(ips[q], get("/b3"), 200));
                    sid[q] += 2;
                    break;
                }
                case 10: {
                    const auto v = parts({0, 1, 1}, get("/throw"));
                    data = frame(HEADERS, END_STREAM, sid[q], v[0]) + frame(CONT, 0, sid[q], v[1]) + frame(CONT, 0, sid[q], v[2]) + frame(CONT, END_HEADERS, sid[q], v[3]);
                    wants.push_back(want(ips[q], get("/throw"), 500));
                    sid[q] += 2;
                    break;
                }
                case 11:  // never finished
                    data = frame(HEADERS, END_STREAM, sid[q], parts({4}, get("/b1"))[0]);
                    dead[q] = true;
                    break;
                case 12:  // interrupted
                    data = frame(HEADERS, END_STREAM, sid[q], parts({4}, get("/b1"))[0]) + ping(1);
                    dead[q] = true;
                    break;
                case 13:  // a stream that has been used
                    if (sid[q] == 1) add(get("/b1"), 200);
                    data += literal(sid[q] - 2, get("/s202"));
                    ++others;
                    break;
                case 14:
                    data = headers(sid[q], {0xff});  // undecodable
                    ++others;
                    dead[q] = true;
                    break;
                case 15:
                    data = headers(2, {0x82});  // even stream
                    ++others;
                    dead[q] = true;
                    break;
                case 16:
                    data = frame(HEADERS, END_HEADERS | END_STREAM | 8, sid[q], {200, 0x82});  // bad padding
                    ++others;
                    dead[q] = true;
                    break;
                case 17:
                    add(get("/b5"), 200);
                    data += frame(RST, 0, sid[q] - 2, {0, 0, 0, 8});
                    break;
                case 18: data = ping(1) + settings() + window_update(0, 1); break;
                case 19:
                    data = goaway() + literal(sid[q], get("/b1"));
                    ++others;
                    dead[q] = true;
                    break;
                case 20:
                    add(get("/b1"), 200);
                    add(get("/s204"), 204);
                    break;
                case 21:  // duplicates: the first counts
                    add({{":method", "GET"}, {":path", "/b1"}, {":path", "/throw"}, {":method", "HEAD"}}, 200);
                    break;
                case 22:
                    add(get("/b5000"), 200);
                    dead[q] = true;
                    s.script.push_back([&, q, d = data] {
                        s.w.send(k[q], d);
                        s.w.fin(k[q]);
                    });
                    continue;
                default: data = frame(CONT, END_HEADERS, sid[q], {0x82}), dead[q] = true; break;  // without HEADERS
            }
            s.script.push_back([&, q, d = data] { s.w.send(k[q], d); });
        }
        s.run();
        t.judge(c, wants, others, ctx);
    });
    // what the spans say, whatever the client says
    note("values: every octet and all pairs from 24 hostile pieces in the method and the path, long values, every status 100-599, duplicated and missing pseudo-headers; 9 client addresses");
    const std::vector<std::string> pieces = {"", " ", "/", "//", "/b1", "?", "#", "%00", std::string(1, '\0'), "\"", "\\", "\n", "\r\n", "\t", "\x7f", "\xff", "\xc3\xa9", "..", "/../", "/b1?q=1", "GET", "get", std::string(300, 'p'), std::string(4000, 'q')};
    std::vector<Fields> values;
    for (int slot = 0; slot < 2; ++slot) {
        auto put = [&](const std::string& v) {
            Fields f = get("/b7");
            for (auto& [k, x] : f)
                if (k == (slot ? ":path" : ":method")) x = v;
            values.push_back(f);
        };
        for (int o = 0; o < 256; ++o) put(std::string(slot ? "/b1" : "G") + static_cast<char>(o));
        for (auto& a : pieces)
            for (auto& b : pieces)
                if (a.size() + b.size() <= 4096) put(a + b);
    }
    for (int st = 100; st < 600; ++st) values.push_back(get("/s" + std::to_string(st)));
    const size_t per = 40;
    const std::vector<std::string> ips = {"0.0.0.1", "127.0.0.1", "10.0.0.1", "192.168.100.200", "255.255.255.255", "1.2.3.4", "100.64.0.1", "9.9.9.9", "203.0.113.7"};
    enumerate("values", (values.size() + per - 1) / per, [&](Chooser& c, uint64_t i) {
        Traced t(c, i % 2);
        Bytes data = hello();
        std::vector<Want> wants;
        const std::string ip = ips[i % ips.size()];
        uint32_t sid = 1;
        for (size_t j = i * per; j < std::min(values.size(), (i + 1) * per); ++j, sid += 2) {
            const Fields& f = values[j];
            data += literal(sid, f);
            Want w = want(ip, f, 0);
            h2::Req rq{*w.method, *w.path, {}};
            w.status = *w.path == "/throw" || *w.path == "/int" ? 500 : h2::app(rq).status;
            wants.push_back(w);
        }
        ConnPtr k;
        t.s.script = {[&] { k = t.s.w.connect(0, ip); }, [&] { t.s.w.send(k, data); }};
        t.s.run();
        t.judge(c, wants, 0, "values " + std::to_string(i));
        // the status in each span is the one that was sent
        const auto o = h2::parse(k->tx);
        size_t n = 0;
        for (auto& s : rec::spans) {
            if (n >= o.answers.size() || o.answers[n].fields.empty()) break;
            if (s->attributes["http.status_code"] != o.answers[n].fields[0].second) c.violation("sent", "status " + s->attributes["http.status_code"] + " in the span, " + o.answers[n].fields[0].second + " sent");
            ++n;
        }
    });
    // byte by byte: a span never starts before its request is complete
    note("arrival: 6 requests (whole, in fragments, padded) arriving in every pair of cuts: no span before the last octet of the block, none open or current at any wait");
    enumerate("arrival", 6, [&](Chooser& c, uint64_t i) {
        ref::Encoder e;
        e.index = false;
        const Bytes b = e.encode(get(i % 2 ? "/throw" : "/b9"));
        Bytes one;
        if (i / 2 == 0) one = frame(HEADERS, END_STREAM | END_HEADERS, 1, b);
        else if (i / 2 == 1) one = frame(HEADERS, END_STREAM, 1, Bytes(b.begin(), b.begin() + 5)) + frame(CONT, END_HEADERS, 1, Bytes(b.begin() + 5, b.end()));
        else one = frame(HEADERS, END_STREAM | END_HEADERS | 8, 1, Bytes{4} + b + Bytes(4, 0));
        const Bytes all = one + literal(3, get("/nope"));
        for (size_t x = 0; x <= all.size(); ++x)
            for (size_t y = x; y <= all.size(); ++y) {
                if (y != x && !thorough() && (x % 3 || y % 2)) continue;
                Traced t(c, false);
                ConnPtr k;
                std::string early;
                auto feed = [&](size_t from, size_t to) {
                    return [&, from, to] {
                        const size_t complete = (from >= one.size()) + (from >= all.size());
                        if (rec::spans.size() != complete && early.empty()) early = "early|" + std::to_string(rec::spans.size()) + " spans after " + std::to_string(from) + " octets, when " + std::to_string(complete) + " requests are complete";
                        if (to > from) t.s.w.send(k, Bytes(all.begin() + from, all.begin() + to));
                    };
                };
                t.s.script = {[&] { k = t.s.w.connect(0, "10.0.0.9"); }, [&] { t.s.w.send(k, hello()); }, feed(0, x), feed(x, y), feed(y, all.size())};
                t.s.run();
                const std::string ctx = "request " + std::to_string(i) + " cut at " + std::to_string(x) + " and " + std::to_string(y);
                if (!early.empty()) return (void)srv::report(c, early, ctx);
                t.judge(c, {want("10.0.0.9", get(i % 2 ? "/throw" : "/b9"), i % 2 ? 500 : 200), want("10.0.0.9", get("/nope"), 404)}, 0, ctx);
            }
    });
    // more unfinished answers than the server keeps
    note("refused: 100-103 requests whose bodies cannot be sent, then their completion: refused ones yield no status; a client that never reads");
    enumerate("refused", 8, [&](Chooser& c, uint64_t i) {
        const size_t n = 100 + i % 4;
        const bool unread = i / 4;
        Traced t(c, i % 2);
        Bytes data = preface() + settings({{4, 0}});
        std::vector<Want> wants;
        uint32_t sid = 1;
        for (size_t j = 0; j < n; ++j, sid += 2) {
            data += literal(sid, get("/b10"));
            if (j < 100) wants.push_back(want("10.0.0.9", get("/b10"), 200));
        }
        ConnPtr k;
        t.s.script = {[&] {
                          k = t.s.w.connect(0, "10.0.0.9");
                          if (unread) t.s.w.set_room(k, 0);
                      },
                      [&] { t.s.w.send(k, data); }};
        t.s.run();
        if (unread) {  // how many were processed is the server's choice
            size_t done = 0;
            for (auto& s : rec::spans) done += s->attributes.count("http.status_code");
            wants.resize(std::min(done, wants.size()));
        }
        t.judge(c, wants, n - 100, std::to_string(n) + " requests, nothing may be sent" + (unread ? ", nothing read" : ""));
    });
}
