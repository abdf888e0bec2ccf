// C25, C26: the access log and the status page, seen through the real server.
#include <cmath>
#include <spdlog/sinks/base_sink.h>
#include <spdlog/spdlog.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <ctime>
#include <filesystem>
#include <fstream>

#include "access_log.h"
#include "mc/scn.hpp"
#include "static_file_handler.h"
#include "status_page.h"

using namespace mc;
using namespace scn;
using srv::Server;
using sim::ConnPtr;

namespace {
// The same logger the application installs, writing to memory.
class Memory : public spdlog::sinks::base_sink<spdlog::details::null_mutex> {
   public:
    std::string text;

   protected:
    void sink_it_(const spdlog::details::log_msg& m) override {
        spdlog::memory_buf_t b;
        formatter_->format(m, b);
        text.append(b.data(), b.size());
    }
    void flush_() override {}
};
struct Log {
    std::shared_ptr<Memory> sink = std::make_shared<Memory>();
    Log() {
        spdlog::drop("access");
        spdlog::set_level(spdlog::level::off);  // all other loggers
        auto l = std::make_shared<spdlog::logger>("access", sink);
        l->set_level(spdlog::level::info);
        l->set_pattern("%v");
        spdlog::register_logger(l);
        l->set_level(spdlog::level::info);
    }
    ~Log() { spdlog::drop("access"); }
    std::string take() { return std::exchange(sink->text, ""); }
};

// One line as any Combined Log Format reader understands it.
struct Line {
    std::string ip, ident, user, time, request, status, size, referrer, agent;
};
// quoted field: \x.. and backslash pairs are escapes
bool quoted(const std::string& s, size_t& i, std::string& out) {
    if (i >= s.size() || s[i] != '"') return false;
    ++i;
    out.clear();
    while (i < s.size() && s[i] != '"') {
        if (s[i] == '\\' && i + 1 < s.size()) out += s[i++];
        out += s[i++];
    }
    if (i >= s.size()) return false;
    ++i;
    return true;
}
bool word(const std::string& s, size_t& i, std::string& out) {
    const size_t b = i;
    while (i < s.size() && s[i] != ' ' && s[i] != '"') ++i;
    out = s.substr(b, i - b);
    return i > b;
}
bool sp(const std::string& s, size_t& i) { return i < s.size() && s[i++] == ' '; }
std::string parse(const std::string& s, Line& l) {
    size_t i = 0;
    if (!word(s, i, l.ip) || !sp(s, i)) return "client address";
    if (!word(s, i, l.ident) || !sp(s, i) || !word(s, i, l.user) || !sp(s, i)) return "identity fields";
    if (i >= s.size() || s[i] != '[') return "time";
    const auto e = s.find(']', i);
    if (e == std::string::npos) return "time";
    l.time = s.substr(i, e + 1 - i);
    i = e + 1;
    if (!sp(s, i) || !quoted(s, i, l.request)) return "request";
    if (!sp(s, i) || !word(s, i, l.status)) return "status";
    if (!sp(s, i) || !word(s, i, l.size)) return "size";
    if (!sp(s, i) || !quoted(s, i, l.referrer)) return "referrer";
    if (!sp(s, i) || !quoted(s, i, l.agent)) return "user agent";
    if (i != s.size()) return "end of line";
    return "";
}
// undoes \xHH and the usual backslash escapes
std::string unescape(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\\' || i + 1 >= s.size()) {
            r += s[i];
            continue;
        }
        const char c = s[++i];
        if (c == 'x' && i + 2 < s.size() && isxdigit(s[i + 1]) && isxdigit(s[i + 2])) r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)), i += 2;
        else if (c == 'n') r += '\n';
        else if (c == 'r') r += '\r';
        else if (c == 't') r += '\t';
        else if (c == 'v') r += '\v';
        else if (c == 'f') r += '\f';
        else if (c == 'b') r += '\b';
        else r += c;
    }
    return r;
}
struct Want {
    std::string ip;
    Fields fields;
    int status;
    size_t size;
};
std::string first(const Fields& f, const std::string& n, bool* there = nullptr) {
    for (auto& [k, v] : f)
        if (k == n) {
            if (there) *there = true;
            return v;
        }
    if (there) *there = false;
    return "-";
}
// "" or what is wrong
std::string compare_line(const std::string& text, const Want& w, time_t t0, time_t t1) {
    Line l;
    if (auto bad = parse(text, l); !bad.empty()) return "malformed at " + bad;
    for (unsigned char c : text)
        if (c == 0 || (c >= 0x0a && c <= 0x0d)) return "raw control octet";
    if (l.ip != (w.ip.empty() ? "-" : w.ip)) return "client address " + l.ip + " instead of " + w.ip;
    if (l.ident != "-" || l.user != "-") return "identity fields";
    // method, path and protocol are separated by exactly one space each
    const auto a = l.request.find(' '), b = l.request.rfind(' ');
    if (a == std::string::npos || a == b || std::count(l.request.begin(), l.request.end(), ' ') != 2) return "request line '" + l.request + "'";
    if (l.request.substr(b + 1) != "HTTP/2" && l.request.substr(b + 1) != "HTTP/2.0") return "protocol";
    if (unescape(l.request.substr(0, a)) != first(w.fields, ":method")) return "method " + l.request.substr(0, a);
    if (unescape(l.request.substr(a + 1, b - a - 1)) != first(w.fields, ":path")) return "path " + l.request.substr(a + 1, b - a - 1);
    if (l.status != std::to_string(w.status)) return "status " + l.status + " instead of " + std::to_string(w.status);
    if (l.size != std::to_string(w.size) && !(w.size == 0 && l.size == "-")) return "size " + l.size + " instead of " + std::to_string(w.size);
    auto one_of = [&](const std::string& name, const std::string& got) {
        bool any = false;
        for (auto& [k, v] : w.fields)
            if (k == name) {
                any = true;
                if (v == got) return true;
            }
        return !any && got == "-";
    };
    if (!one_of("referer", unescape(l.referrer))) return "referrer " + l.referrer;
    if (!one_of("user-agent", unescape(l.agent))) return "user agent " + l.agent;
    struct tm tm{};
    const char* e = strptime(l.time.c_str(), "[%d/%b/%Y:%H:%M:%S %z]", &tm);
    if (!e || *e) return "time " + l.time;
    const long off = tm.tm_gmtoff;
    const time_t t = timegm(&tm) - off;
    if (t < t0 - 1 || t > t1 + 1) return "time " + l.time + " is not the time of the request";
    return "";
}
std::vector<std::string> split_lines(const std::string& s, bool* ends) {
    std::vector<std::string> v;
    size_t b = 0;
    for (size_t e; (e = s.find('\n', b)) != std::string::npos; b = e + 1) v.push_back(s.substr(b, e - b));
    *ends = b == s.size();
    return v;
}
void compare_log(Chooser& c, const std::string& text, const std::vector<Want>& want, time_t t0, time_t t1, const std::string& ctx) {
    bool ends;
    const auto lines = split_lines(text, &ends);
    if (!ends) {
        c.violation("unfinished", "the log ends in the middle of a line: " + ctx);
        return;
    }
    for (size_t i = 0; i < std::min(lines.size(), want.size()); ++i) {
        c.validated();
        c.step();
        const auto bad = compare_line(lines[i], want[i], t0, t1);
        if (!bad.empty()) {
            c.violation("line", bad + ": " + quote(lines[i], 300) + " for " + quote(h2::show(want[i].fields), 300) + " " + ctx);
            return;
        }
    }
    if (lines.size() != want.size()) c.violation("count", std::to_string(lines.size()) + " lines for " + std::to_string(want.size()) + " answered requests: " + ctx);
}
Bytes literal(uint32_t sid, const Fields& f, bool es = true) {
    ref::Encoder e;
    e.index = false;
    return headers(sid, e.encode(f), es);
}
// Runs one connection carrying these requests; the log must have one line for each.
void batch(Chooser& c, const std::vector<Fields>& reqs, const std::string& ctx) {
    Log log;
    Server s(c);
    Bytes data = hello();
    uint32_t sid = 1;
    for (auto& f : reqs) {
        data += literal(sid, f);
        sid += 2;
    }
    ConnPtr k;
    s.script = {[&] { k = s.w.connect(0, "192.0.2.77"); }, [&] { s.w.send(k, data); }};
    const time_t t0 = time(nullptr);
    s.run();
    const time_t t1 = time(nullptr);
    if (s.check_sane(c)) return;
    const auto o = h2::parse(k->tx);
    std::vector<Want> want;
    for (auto& a : o.answers) {
        const size_t n = (a.sid - 1) / 2;
        if (n >= reqs.size()) continue;
        want.push_back({"192.0.2.77", reqs[n], a.fields.empty() ? 0 : atoi(a.fields[0].second.c_str()), a.body.size()});
    }
    if (want.size() != reqs.size()) {
        c.violation("answers", std::to_string(want.size()) + " answers to " + std::to_string(reqs.size()) + " requests: " + ctx);
        return;
    }
    const std::string text = log.take();
    c.outcome(hash_str(text.substr(0, 4000)));
    for (size_t i = 0; i < want.size(); ++i) c.state(mix(hash_str(h2::show(want[i].fields)), want[i].status));
    compare_log(c, text, want, t0, t1, ctx);
}
const char* slots[] = {":method", ":path", "user-agent", "referer"};
Fields with(int slot, const std::string& v) {
    Fields f = {{":method", "GET"}, {":scheme", "http"}, {":path", "/b5"}, {":authority", "h"}};
    if (slot == 0) f[0].second = v;
    else if (slot == 1) f[2].second = v;
    else f.push_back({slots[slot], v});
    if (slot == 2) f.push_back({"referer", "http://r/"});
    if (slot == 3) f.push_back({"user-agent", "curl/8"});
    return f;
}
}  // namespace

MC_PROPERTY(C25) {
    constexpr int PER = 64;
    // every string of up to two octets in every logged field
    note("every string of 0, 1 and 2 octets in each of :method, :path, user-agent and referer through the server, 64 requests per connection");
    enumerate("octets", 4 * (65536 + 256 + PER) / PER, [&](Chooser& c, uint64_t i) {
        const int slot = i % 4;
        i /= 4;
        std::vector<Fields> v;
        for (uint64_t n = i * PER; n < (i + 1) * PER; ++n) {
            std::string s;
            if (n < 65536) s = {static_cast<char>(n >> 8), static_cast<char>(n)};
            else if (n < 65536 + 256) s = {static_cast<char>(n)};
            else if (n == 65536 + 256) s = "";
            else break;
            v.push_back(with(slot, s));
        }
        if (!v.empty()) batch(c, v, std::string("two octets in ") + slots[slot]);
    });
    const std::vector<std::string> hostile = {"\"", "\\", " ", "\n", "\r", "x22", "\x80", "-", "a", "\t", "]", std::string(1, '\0'), "\" 200 5 \"", "\n10.0.0.1 - - [", "\xe2\x80\xa8", "\xc2\x85"};
    const int len = thorough() ? 4 : 3;
    uint64_t total = scn::ipow(hostile.size(), len);
    note("every sequence of 3 (thorough 4) pieces from 16 hostile ones (quote, backslash, space, line breaks, NUL, \\x22 lookalikes, non-ASCII line separators, whole forged fields) in each logged field");
    enumerate("hostile", total * 4 / PER, [&](Chooser& c, uint64_t i) {
        const int slot = i % 4;
        i /= 4;
        std::vector<Fields> v;
        for (uint64_t n = i * PER; n < std::min(total, (i + 1) * PER); ++n) {
            std::string s;
            uint64_t x = n;
            for (int k = 0; k < len; ++k) s += hostile[x % hostile.size()], x /= hostile.size();
            v.push_back(with(slot, s));
        }
        if (!v.empty()) batch(c, v, std::string("hostile ") + slots[slot]);
    });
    // every pair of fields hostile at once, long values, other headers hostile
    note("pairs of hostile fields, values of 0..70 and 200..4096 octets (the longest accepted) of 6 kinds, hostile names and values in headers that are not logged, all orders of headers");
    enumerate("pairs", 6 * hostile.size() * hostile.size() / 32, [&](Chooser& c, uint64_t i) {
        static const int pa[][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
        const auto& p = pa[i % 6];
        i /= 6;
        std::vector<Fields> v;
        for (uint64_t n = i * 32; n < std::min<uint64_t>(hostile.size() * hostile.size(), (i + 1) * 32); ++n) {
            Fields f = {{":method", "GET"}, {":scheme", "http"}, {":path", "/e"}, {":authority", "h"}, {"user-agent", "ua"}, {"referer", "ref"}};
            auto put = [&](int slot, const std::string& s) {
                for (auto& [k, val] : f)
                    if (k == slots[slot]) val = s;
            };
            put(p[0], hostile[n % hostile.size()]);
            put(p[1], hostile[n / hostile.size()]);
            v.push_back(f);
        }
        batch(c, v, "pairs of fields");
    });
    std::vector<std::vector<Fields>> misc;
    for (const std::string& unit : {std::string("a"), std::string("\""), std::string("\\"), std::string("\n"), std::string("\xff"), std::string("\\\"")})
        for (int slot = 0; slot < 4; ++slot) {
            std::vector<Fields> v;
            for (int n = 0; n <= 70; ++n) {
                std::string s;
                for (int k = 0; k < n; ++k) s += unit;
                v.push_back(with(slot, s));
            }
            misc.push_back(v);
            for (int n : {200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 2000, 4096}) {
                std::string s;
                for (int k = 0; k < n; ++k) s += unit;
                if (s.size() <= 4096) misc.push_back({with(slot, s), with(slot, "z")});
            }
        }
    for (auto& h : hostile) {
        std::vector<Fields> v;
        for (std::string n : {"x-a", "cookie", "accept", "x-user-agent", "user-agentx", "refererx", "user-agen", "host", "forwarded", "x-forwarded-for", "x-real-ip"}) {
            Fields f = with(2, "ua");
            f.push_back({n, h});
            v.push_back(f);
            f.insert(f.begin() + 4, {n, h + "1"});
            v.push_back(f);
        }
        misc.push_back(v);
    }
    {  // duplicates, absences and orders
        std::vector<Fields> v;
        for (int m = 0; m < 64; ++m) {
            Fields f = {{":method", "GET"}, {":path", "/b7"}};
            if (m & 1) f.push_back({":path", "/other"});
            if (m & 2) f.push_back({":method", "PUT"});
            if (m & 4) f.push_back({"user-agent", "one"});
            if (m & 8) f.push_back({"user-agent", "two"});
            if (m & 16) f.push_back({"referer", "r1"});
            if (m & 32) f.push_back({"referer", ""});
            v.push_back(f);
        }
        misc.push_back(v);
        v.clear();
        Fields f = {{":method", "GET"}, {":path", "/b9"}, {"user-agent", "u"}, {"referer", "r"}};
        std::sort(f.begin(), f.end());
        do v.push_back(f);
        while (std::next_permutation(f.begin(), f.end()));
        misc.push_back(v);
        v.clear();
        for (int m = 0; m < 16; ++m) {
            Fields g;
            for (int k = 0; k < 4; ++k)
                if (m >> k & 1) g.push_back(f[k]);
            v.push_back(g);
        }
        v.push_back({{":method", "-"}, {":path", "-"}});
        v.push_back({{":method", "GET"}, {":path", "/b8"}, {"user-agent", "-"}, {"referer", "-"}});
        misc.push_back(v);
    }
    {  // response sizes and statuses
        std::vector<Fields> v;
        for (std::string p : {"/b0", "/b1", "/b16383", "/b16384", "/b16385", "/b65535", "/b65536", "/b200000", "/s200", "/s204", "/s301", "/s404", "/s500", "/s599", "/h20000", "/m30"})
            for (std::string m : {"GET", "POST"}) v.push_back(get(p, {}, m));
        misc.push_back(v);
    }
    enumerate("values", misc.size(), [&](Chooser& c, uint64_t i) { batch(c, misc[i], "value set " + std::to_string(i)); });

    set_hang_limit(200);
    note("long: 66000 requests on one connection, one line each");
    enumerate("long", 2, [&](Chooser& c, uint64_t i) {
        std::vector<Fields> v;
        for (int k = 0; k < 66000; ++k) v.push_back(get(i ? "/b" + std::to_string(k % 7) : "/s404", {{"user-agent", "a" + std::to_string(k)}}));
        batch(c, v, "66000 requests");
    });
    set_hang_limit(0);

    // sequences of requests of every kind, over connections with different addresses
    note("all sequences of up to 4 (thorough 5) events from 15 kinds (answers of all kinds, exceptions, bad requests, HEAD, body requests, split header blocks, resets, PING, connection errors) spread over two connections");
    const int kinds = 15, depth = thorough() ? 5 : 4;
    uint64_t n_seq = 0;
    for (int n = 1; n <= depth; ++n) n_seq += scn::ipow(kinds, n);
    enumerate("sequences", n_seq, [&](Chooser& c, uint64_t i) {
        int n = 1;
        while (i >= scn::ipow(kinds, n)) i -= scn::ipow(kinds, n++);
        Log log;
        Server s(c, Server::cleartext(), false);
        auto& r = s.server->router();
        r.add_middleware([&](ion::RouteHandler) {
            return [&](const ion::HttpRequest& q) -> ion::HttpResponse {
                if (q.path == "/throw") throw std::runtime_error("x");
                if (q.path == "/int") throw 5;
                h2::Req rq{q.method, q.path, {}};
                const auto a = h2::app(rq);
                ion::HttpResponse resp;
                resp.status_code = static_cast<uint16_t>(a.status);
                if (q.method != "HEAD") resp.body.assign(a.body.begin(), a.body.end());
                return resp;
            };
        });
        ConnPtr k[2];
        std::vector<Want> want;
        Bytes data[2];
        uint32_t sid[2] = {1, 1};
        const std::string ips[2] = {"10.1.2.3", "255.255.255.255"};
        bool dead[2] = {false, false};
        std::string ctx;
        auto add = [&](int q, const Fields& f, int status, size_t size, bool es = true) {
            data[q] += literal(sid[q], f, es);
            sid[q] += 2;
            want.push_back({ips[q], f, status, size});
        };
        s.script = {[&] { k[0] = s.w.connect(0, ips[0]); }, [&] { s.w.send(k[0], hello()); }, [&] { k[1] = s.w.connect(1, ips[1]); }, [&] { s.w.send(k[1], hello()); }};
        uint64_t x = i;
        for (int p = 0; p < n; ++p) {
            const int op = x % kinds;
            x /= kinds;
            const int q = p % 2;
            if (dead[q]) continue;
            data[q].clear();
            ctx += std::to_string(op) + " ";
            switch (op) {
                case 0: add(q, get("/b10"), 200, 10); break;
                case 1: add(q, get("/nowhere", {{"user-agent", "u"}}), 404, 0); break;
                case 2: add(q, get("/throw"), 500, 0); break;
                case 3: add(q, get("/int"), 500, 0); break;
                case 4: add(q, {{":path", "/b1"}}, 400, 0); break;
                case 5: add(q, get("/b10", {}, "HEAD"), 200, 0); break;
                case 6: add(q, get("/b20000", {{"referer", "x"}}), 200, 20000); break;
                case 7:
                    add(q, get("/s201", {}, "POST"), 201, 0, false);
                    data[q] += frame(DATA, END_STREAM, sid[q] - 2, Bytes(100, 'x'));
                    break;
                case 8: {
                    ref::Encoder e;
                    const Fields f = get("/b3", {{"user-agent", "split"}});
                    const Bytes b = e.encode(f);
                    data[q] += frame(HEADERS, END_STREAM, sid[q], Bytes(b.begin(), b.begin() + 3)) + frame(CONT, END_HEADERS, sid[q], Bytes(b.begin() + 3, b.end()));
                    want.push_back({ips[q], f, 200, 3});
                    sid[q] += 2;
                    break;
                }
                case 9:
                    add(q, get("/b5"), 200, 5);
                    data[q] += frame(RST, 0, sid[q] - 2, {0, 0, 0, 8});
                    break;
                case 10: data[q] = ping(1); break;
                case 11:
                    data[q] = goaway();
                    dead[q] = true;
                    break;
                case 12:
                    data[q] = headers(sid[q], {0xff});  // undecodable
                    dead[q] = true;
                    break;
                case 13:
                    add(q, get("/b1"), 200, 1);
                    add(q, get("/b2"), 200, 2);
                    break;
                default: data[q] = settings(); break;
            }
            s.script.push_back([&, q, d = data[q]] { s.w.send(k[q], d); });
        }
        const time_t t0 = time(nullptr);
        s.run();
        const time_t t1 = time(nullptr);
        if (s.check_sane(c)) return;
        c.state(s.w.trace);
        compare_log(c, log.take(), want, t0, t1, "events " + ctx);
    });
    // addresses
    note("8 client addresses and an unknown one; 6 time zones");
    const std::vector<std::string> ips = {"0.0.0.1", "127.0.0.1", "10.0.0.1", "192.168.100.200", "255.255.255.255", "1.2.3.4", "100.64.0.1", "9.9.9.9", ""};
    const std::vector<std::string> zones = {"UTC0", "XXX-5:45", "XXX+3:30", "XXX-14", "XXX+12", "CET-1CEST"};
    enumerate("addresses", ips.size() * zones.size(), [&](Chooser& c, uint64_t i) {
        const char* old = getenv("TZ");
        const std::string keep = old ? old : "";
        setenv("TZ", zones[i / ips.size()].c_str(), 1);
        tzset();
        {
            Log log;
            Server s(c);
            const std::string ip = ips[i % ips.size()];
            ConnPtr k;
            if (ip.empty()) s.w.fault = [](const sim::Call& call) -> long { return call.sys == sim::Sys::Getpeername ? -ENOTCONN : sim::DEFAULT; };
            s.script = {[&] { k = s.w.connect(0, ip.empty() ? "10.0.0.9" : ip); }, [&] { s.w.send(k, hello() + req(1, "/b4")); }};
            const time_t t0 = time(nullptr);
            s.run();
            const time_t t1 = time(nullptr);
            if (!s.check_sane(c)) compare_log(c, log.take(), {{ip, get("/b4"), 200, 4}}, t0, t1, "client " + ip);
        }
        if (old) setenv("TZ", keep.c_str(), 1);
        else unsetenv("TZ");
        tzset();
    });
}

namespace {
struct Page {
    bool ok = false;
    uint64_t requests = 0;
    std::map<int, uint64_t> codes;
    std::string uptime, latency;
};
// "1d 2h 3m 4s" in seconds; -1 for anything else
int64_t seconds(const std::string& text) {
    static const std::pair<char, int64_t> units[] = {{'d', 86400}, {'h', 3600}, {'m', 60}, {'s', 1}};
    int64_t sum = 0;
    size_t u = 0;
    std::istringstream in(text);
    for (std::string w; in >> w;) {
        if (w.size() < 2 || w.find_first_not_of("0123456789") != w.size() - 1) return -1;
        const int64_t v = atoll(w.c_str());
        while (u < 4 && units[u].first != w.back()) ++u;
        if (u == 4 || (u && v * units[u].second >= units[u - 1].second)) return -1;
        sum += v * units[u++].second;
    }
    return u ? sum : -1;
}
// the visible text of the page, tag by tag
Page read_page(const std::string& html) {
    std::vector<std::string> words;
    std::string cur;
    bool tag = false;
    size_t start = html.find("<body");
    if (start == std::string::npos) start = 0;
    for (size_t i = start; i < html.size(); ++i) {
        const char ch = html[i];
        if (ch == '<' || ch == '>') {
            if (ch == '<' && cur.find_first_not_of(" \n\t") != std::string::npos) words.push_back(cur);
            cur.clear();
            tag = ch == '<';
        } else if (!tag) cur += ch;
    }
    Page p;
    auto trim = [](std::string s) {
        while (!s.empty() && isspace(static_cast<unsigned char>(s.front()))) s.erase(0, 1);
        while (!s.empty() && isspace(static_cast<unsigned char>(s.back()))) s.pop_back();
        return s;
    };
    for (auto& w : words) w = trim(w);
    auto num = [](const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos; };
    for (size_t i = 0; i + 1 < words.size(); ++i) {
        if (words[i] == "Requests" && num(words[i + 1])) p.requests = strtoull(words[i + 1].c_str(), nullptr, 10), p.ok = true;
        if (words[i] == "Uptime") p.uptime = words[i + 1];
        if (words[i] == "Avg Latency") p.latency = words[i + 1];
        if (words[i] == "HTTP Status Codes")
            for (size_t j = i + 1; j + 1 < words.size() && num(words[j]) && num(words[j + 1]); j += 2) p.codes[atoi(words[j].c_str())] += strtoull(words[j + 1].c_str(), nullptr, 10);
    }
    return p;
}
}  // namespace

MC_PROPERTY(C26) {
    char t[] = "/tmp/ion-mc-stats-XXXXXX";
    if (!mkdtemp(t)) abort();
    const std::string dir = t;
    std::ofstream(dir + "/f.txt") << "static file";
    note("all sequences of up to 4 (thorough 5) requests from 13 kinds (routes, exceptions of three kinds, unknown, static found/missing/forbidden, HEAD, other methods of the page itself, the page) on one and on two connections, sent together or one by one, with the page's middleware registered before or after the application's; then the page");
    struct Kind {
        const char* path;
        const char* method;
        int status;
    };
    static const Kind kinds[] = {{"/ok", "GET", 200}, {"/made", "POST", 201}, {"/throw", "GET", 500}, {"/int", "GET", 500}, {"/odd", "GET", 500}, {"/none", "GET", 404}, {"/s/f.txt", "GET", 200},
                                 {"/s/no", "GET", 404}, {"/s/../x", "GET", 403}, {"/s/f.txt", "HEAD", 200}, {"/_ion/status", "HEAD", 404}, {"/_ion/status", "GET", 200}, {"/teapot", "GET", 418}};
    const int K = 13, depth = thorough() ? 5 : 4;
    uint64_t total = 0;
    for (int n = 0; n <= depth; ++n) total += scn::ipow(K, n);
    enumerate("sequences", total * 2, [&](Chooser& c, uint64_t i) {
        const int variant = i % 2;  // 0: one connection, all at once; 1: two connections, one by one, page last to register
        i /= 2;
        int n = 0;
        while (i >= scn::ipow(K, n)) i -= scn::ipow(K, n++);
        Server s(c, Server::cleartext(), false);
        auto& r = s.server->router();
        auto pass = [](ion::RouteHandler next) { return [next](const ion::HttpRequest& q) { return next(q); }; };
        if (variant) r.add_middleware(pass);
        if (!variant) StatusPage::add_status_page(r);
        r.add_route("/ok", "GET", [](auto&) { return ion::HttpResponse{.status_code = 200, .body = {'o', 'k'}}; });
        r.add_route("/made", "POST", [](auto&) { return ion::HttpResponse{.status_code = 201}; });
        r.add_route("/teapot", "GET", [](auto&) { return ion::HttpResponse{.status_code = 418}; });
        r.add_route("/throw", "GET", [](auto&) -> ion::HttpResponse { throw std::runtime_error("x"); });
        r.add_route("/int", "GET", [](auto&) -> ion::HttpResponse { throw 5; });
        r.add_route("/odd", "GET", [](auto&) -> ion::HttpResponse { throw std::string("x"); });
        r.add_static_handler(std::make_unique<ion::StaticFileHandler>("/s", dir));
        if (variant) StatusPage::add_status_page(r);
        else r.add_middleware(pass);
        ConnPtr k[2];
        Bytes all = hello() + req(1, "/_ion/status");
        uint32_t sid[2] = {1, 1};
        std::vector<std::pair<int, uint32_t>> where;  // connection and stream of each request
        where.push_back({0, 1});
        std::vector<int> sent;
        std::string ctx;
        s.script = {[&] { k[0] = s.w.connect(0); }};
        if (variant) {
            s.script.push_back([&] { s.w.send(k[0], hello() + req(1, "/_ion/status")); });
            s.script.push_back([&] { k[1] = s.w.connect(1); });
            s.script.push_back([&] { s.w.send(k[1], hello()); });
        }
        sid[0] = 3;
        uint64_t x = i;
        for (int p = 0; p <= n; ++p) {
            const int op = p < n ? static_cast<int>(x % K) : 11;
            x /= K;
            const int q = variant ? p % 2 : 0;
            const Bytes b = req(sid[q], kinds[op].path, {}, true, kinds[op].method);
            where.push_back({q, sid[q]});
            sid[q] += 2;
            sent.push_back(op);
            ctx += std::string(kinds[op].method) + " " + kinds[op].path + " ";
            if (variant) s.script.push_back([&, q, b] { s.w.send(k[q], b); });
            else all += b;
        }
        if (!variant) s.script.push_back([&] { s.w.send(k[0], all); });
        s.run();
        if (s.check_sane(c)) return;
        h2::Output o[2];
        for (int q = 0; q < 1 + variant; ++q) {
            o[q] = h2::parse(k[q]->tx);
            if (!o[q].errors.empty()) {
                c.violation("protocol", o[q].errors[0]);
                return;
            }
        }
        auto answer = [&](size_t n) -> const h2::Seen* {
            for (auto& a : o[where[n].first].answers)
                if (a.sid == where[n].second) return &a;
            return nullptr;
        };
        // The counters live as long as the process: all requests of earlier executions are in them too
        static Page sofar;
        static bool exact = true;
        const bool known = exact;
        exact = false;  // until this execution's requests have been added
        Page base;
        std::map<int, uint64_t> counts;
        for (size_t p = 0; p < where.size(); ++p) {
            const auto* a = answer(p);
            const int op = p ? sent[p - 1] : 11;
            if (!a) {
                c.violation("answer", "no answer to request " + std::to_string(p) + " of " + ctx);
                return;
            }
            c.step();
            c.validated();
            const int status = a->fields.empty() ? 0 : atoi(a->fields[0].second.c_str());
            if (status != kinds[op].status) {
                c.violation("status", std::to_string(status) + " for " + kinds[op].method + " " + kinds[op].path);
                return;
            }
            if (op == 11) {
                std::string ct, cc;
                int n_ct = 0, n_cc = 0;
                for (auto& [nm, v] : a->fields) {
                    if (nm == "content-type") ct = v, ++n_ct;
                    if (nm == "cache-control") cc = v, ++n_cc;
                }
                if (n_ct != 1 || ct.rfind("text/html", 0) != 0 || n_cc != 1 || cc.find("no-store") == std::string::npos) {
                    c.violation("headers", "status page with content-type '" + ct + "', cache-control '" + cc + "'");
                    return;
                }
                const Page g = read_page(std::string(a->body.begin(), a->body.end()));
                if (!g.ok) {
                    c.violation("page", "the page shows no request count: " + ctx);
                    return;
                }
                if (p == 0) {
                    base = g;
                    if (known && g.requests != sofar.requests + 1) {
                        c.violation("own", "the page shows " + std::to_string(g.requests) + " requests as the answer to request " + std::to_string(sofar.requests + 1));
                        return;
                    }
                    if (known && g.codes != sofar.codes) {
                        c.violation("codes", "status codes of earlier servers in this process miscounted");
                        return;
                    }
                } else {
                    if (g.requests != base.requests + p) {
                        c.violation("requests", std::to_string(g.requests - base.requests + 1) + " requests counted instead of " + std::to_string(p + 1) + ": " + ctx);
                        return;
                    }
                    std::map<int, uint64_t> want = base.codes;
                    for (auto& [code, m] : counts) want[code] += m;
                    if (g.codes != want) {
                        std::string d;
                        for (auto& [code, m] : g.codes)
                            if (want[code] != m) d += std::to_string(code) + ": " + std::to_string(m) + " instead of " + std::to_string(want[code]) + " ";
                        for (auto& [code, m] : want)
                            if (!g.codes.count(code)) d += std::to_string(code) + " missing ";
                        c.violation("codes", d + "after " + ctx);
                        return;
                    }
                }
            }
            counts[status]++;
        }
        if (known) {
            sofar.requests += where.size();
            for (auto& [code, m] : counts) sofar.codes[code] += m;
            exact = true;
        }
        c.state(hash_str(ctx));
        c.outcome(hash_str(ctx));
    });
    // any status code, and counts beyond 16 bits
    set_hang_limit(200);
    note("codes: each status from 100 to 999 once and in growing numbers; long: 70000 requests of one status or of all");
    enumerate("codes", 5, [&](Chooser& c, uint64_t i) {
        const int kind = static_cast<int>(i);
        const int N = kind < 2 ? 900 : kind == 2 ? 4005 : 70000;
        const auto status = [&](int n) {
            if (kind == 0) return 100 + n;
            if (kind == 1) return 999 - n;
            if (kind == 2) return 100 + static_cast<int>((std::sqrt(8.0 * n + 1) - 1) / 2) * 10;  // 1, 2, 3... times
            return kind == 3 ? 204 : n % 3 ? 404 : 503;
        };
        Server s(c, Server::cleartext(), false);
        auto& r = s.server->router();
        int n = 0;
        StatusPage::add_status_page(r);
        r.add_route("/n", "GET", [&](auto&) { return ion::HttpResponse{.status_code = static_cast<uint16_t>(status(n++))}; });
        const auto page = [&](const Bytes& tx, uint32_t sid) {
            for (auto& a : h2::parse(tx).answers)
                if (a.sid == sid) return read_page(std::string(a.body.begin(), a.body.end()));
            return Page{};
        };
        Bytes data = hello() + req(1, "/_ion/status");
        for (int k = 0; k < N; ++k) {
            const Bytes b = req(3 + 2 * k, "/n");
            data.insert(data.end(), b.begin(), b.end());
        }
        data += req(3 + 2 * N, "/_ion/status");
        ConnPtr k;
        s.script = {[&] { k = s.w.connect(0); }, [&] { s.w.send(k, data); }};
        s.run();
        if (s.check_sane(c)) return;
        const Page a = page(k->tx, 1), b = page(k->tx, 3 + 2 * N);
        c.validated(N);
        c.state(mix(88, i));
        std::map<int, uint64_t> want = a.codes;
        want[200]++;
        for (int q = 0; q < N; ++q) want[status(q)]++;
        if (!a.ok || !b.ok) return c.violation("page", "the page shows no request count after " + std::to_string(N) + " requests");
        if (b.requests != a.requests + N + 1) return c.violation("requests", std::to_string(b.requests - a.requests) + " requests counted instead of " + std::to_string(N + 1));
        for (auto& [code, m] : want)
            if (!b.codes.count(code) || b.codes.at(code) != m) return c.violation("codes", "status " + std::to_string(code) + " counted " + std::to_string(b.codes.count(code) ? b.codes.at(code) : 0) + " times instead of " + std::to_string(m));
        if (b.codes != want) return c.violation("codes", "a status is shown that no request was answered with");
    });
    // how long the server has run and how long it takes to answer
    note("times: for each pair of 20 lengths of time from 0 to 30 years, with the wall clock stepped or not: twenty requests that take the first, then the second passes; the page before and after");
    static const int64_t lengths[] = {0, 1, 999, 1000, 1001, 59000, 59999, 60000, 61000, 3599000, 3600000, 3601000, 3660000, 86399000, 86400000, 86401000, 90061000, 604800000, 31536000000, 946080000000};
    enumerate("times", 20 * 20 * 3, [&](Chooser& c, uint64_t i) {
        const int64_t slow = lengths[i % 20] / 20, rest = lengths[i / 20 % 20];
        const int step = static_cast<int>(i / 400) - 1;
        static int64_t boot = 2'000'000'000'000LL;  // one machine: its clock goes on from execution to execution
        Server s(c, Server::cleartext(), false);
        if (boot > 4'000'000'000'000'000'000LL) boot = 2'000'000'000'000LL;  // the counter is 64 bits of nanoseconds: 292 years
        s.w.boot_ns = boot;
        auto& r = s.server->router();
        StatusPage::add_status_page(r);
        r.add_route("/slow", "GET", [&](auto&) {
            s.w.advance_ms(slow);
            return ion::HttpResponse{.status_code = 200};
        });
        ConnPtr k, k2;  // the first is idle for too long
        int64_t t[2][2] = {};
        const auto now = [&] { return (s.w.boot_ns + s.w.now_ns) / 1000000; };
        s.script = {[&] { k = s.w.connect(0); },
                    [&] { t[0][0] = now(), s.w.send(k, hello() + req(1, "/_ion/status")); },
                    [&] {
                        t[0][1] = now();
                        s.w.wall_ns += step * 86400'000'000'000LL;
                        Bytes all;
                        for (int n = 0; n < 20; ++n) all += req(3 + 2 * n, "/slow");
                        s.w.send(k, all);
                    },
                    [&] { s.w.advance_ms(rest); },
                    [&] { k2 = s.w.connect(1); },
                    [&] { t[1][0] = now(), s.w.send(k2, hello() + req(1, "/_ion/status")); },
                    [&] { t[1][1] = now(); }};
        s.run();
        boot = s.w.boot_ns + s.w.now_ns;
        if (s.check_sane(c)) return;
        Page pg[2];
        for (int q = 0; q < 2; ++q)
            for (auto& a : h2::parse((q ? k2 : k)->tx).answers)
                if (a.sid == 1) pg[q] = read_page(std::string(a.body.begin(), a.body.end()));
        const std::string ctx = " [20 requests of " + std::to_string(slow) + " ms, then " + std::to_string(rest) + " ms]";
        if (!pg[0].ok || !pg[1].ok) return c.violation("page", "the page shows no request count" + ctx);
        if (pg[1].requests != pg[0].requests + 21) return c.violation("requests", std::to_string(pg[1].requests - pg[0].requests) + " requests counted instead of 21" + ctx);
        c.step(22);
        c.validated();
        c.state(mix(i, 77));
        const int64_t up0 = seconds(pg[0].uptime), up1 = seconds(pg[1].uptime);
        if (up0 < 0 || up1 < 0) return c.violation("uptime", "the page shows the uptime as '" + pg[up0 < 0 ? 0 : 1].uptime + "'" + ctx);
        const int64_t least = (t[1][0] - t[0][1]) / 1000, most = (t[1][1] - t[0][0]) / 1000 + 1;
        if (up1 - up0 < least || up1 - up0 > most) return c.violation("uptime", "the uptime went from " + pg[0].uptime + " to " + pg[1].uptime + " in " + std::to_string(t[1][0] - t[0][1]) + " ms" + ctx);
        double mean[2];
        for (int q = 0; q < 2; ++q) {
            char* end = nullptr;
            mean[q] = strtod(pg[q].latency.c_str(), &end);
            if (end == pg[q].latency.c_str() || std::string(end) != "ms" || !(mean[q] >= 0)) return c.violation("latency", "the page shows the mean time as '" + pg[q].latency + "'" + ctx);
        }
        // the sum of all times, as far as the page shows it; whether its own request counts is its choice
        const double n0 = static_cast<double>(pg[0].requests), n1 = static_cast<double>(pg[1].requests);
        const double spent = 20.0 * static_cast<double>(slow), tol = 0.006 * (n0 + n1) + mean[0] + mean[1] + 1;
        const double grown = mean[1] * n1 - mean[0] * n0;
        if (grown < spent - tol || grown > spent + tol)
            return c.violation("latency", "the mean time went from " + pg[0].latency + " over " + std::to_string(pg[0].requests) + " requests to " + pg[1].latency + " over " + std::to_string(pg[1].requests) + ctx);
    });
    note("uptime: the page for every second of the first 100000 (thorough 2000000) since the process started");
    enumerate("uptime", thorough() ? 2000 : 100, [&](Chooser& c, uint64_t i) {
        static int64_t start_s = -1;  // when this process's counters began, as its pages say
        const auto pages = [&](int64_t boot_s, int N) {
            Server s(c, Server::cleartext(), false);
            s.w.boot_ns = boot_s * 1'000'000'000LL;
            auto& r = s.server->router();
            r.add_middleware([&](ion::RouteHandler next) {
                return [&s, next](const ion::HttpRequest& q) {
                    s.w.advance_ms(1000);
                    return next(q);
                };
            });
            StatusPage::add_status_page(r);
            Bytes all = hello();
            for (int n = 0; n < N; ++n) all += req(1 + 2 * n, "/_ion/status");
            ConnPtr k;
            s.script = {[&] { k = s.w.connect(0); }, [&] { s.w.send(k, all); }};
            s.run();
            std::vector<std::string> out;
            if (!s.check_sane(c))
                for (auto& a : h2::parse(k->tx).answers) out.push_back(read_page(std::string(a.body.begin(), a.body.end())).uptime);
            return out;
        };
        if (start_s < 0) {
            const auto first = pages(1'000'000'000, 1);
            if (first.size() != 1 || seconds(first[0]) < 0) return c.violation("uptime", "no uptime on the page");
            start_s = 1'000'000'000 - seconds(first[0]);
        }
        const int64_t from = start_s + static_cast<int64_t>(i) * 1000;
        const auto shown = pages(from, 1001);
        c.step(shown.size());
        c.validated(shown.size());
        c.state(mix(i, 78));
        if (shown.size() != 1001) return c.violation("answer", std::to_string(shown.size()) + " of 1001 pages answered");
        for (size_t n = 0; n < shown.size(); ++n) {
            const int64_t v = seconds(shown[n]);
            if (v < 0) return c.violation("uptime", "the page shows the uptime as '" + shown[n] + "'");
            if (n ? v != seconds(shown[n - 1]) + 1 : std::abs(v - static_cast<int64_t>(i) * 1000 - 1) > 2)
                return c.violation("uptime", "the page shows '" + shown[n] + "' " + (n ? "a second after '" + shown[n - 1] + "'" : std::to_string(i * 1000) + " seconds after the start"));
        }
    });
    set_hang_limit(0);
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
}
