// C23, C24: routing and middleware, on the real Router and through the real server.
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>
#include <fstream>

#include "mc/scn.hpp"
#include "router.h"
#include "static_file_handler.h"

using namespace mc;
using ion::HttpRequest;
using ion::HttpResponse;
using ion::Router;

namespace {
struct Dirs {
    std::string dir;
    Dirs() {
        char t[] = "/tmp/ion-mc-routes-XXXXXX";
        if (!mkdtemp(t)) abort();
        dir = t;
        for (int i = 0; i < 3; ++i) {
            const std::string d = dir + "/" + std::to_string(i);
            mkdir(d.c_str(), 0755);
            mkdir((d + "/b").c_str(), 0755);
            for (std::string f : {"index.html", "b/index.html", "b/c", "c"}) std::ofstream(d + "/" + f) << "static" << i << ":" << f << std::string(i, '!');
        }
    }
    ~Dirs() {
        std::error_code ec;
        std::filesystem::remove_all(dir, ec);
    }
};

struct Entry {
    bool is_static;
    std::string path, method;  // static: path = prefix
};
std::string show(const std::vector<Entry>& v) {
    std::string s;
    for (auto& e : v) s += e.is_static ? "static(" + e.path + ") " : "route(" + e.method + " '" + e.path + "') ";
    return s;
}
// index of the route that must run, or -1
int first_route(const std::vector<Entry>& v, const std::string& path, const std::string& method) {
    for (size_t i = 0; i < v.size(); ++i)
        if (!v[i].is_static && v[i].path == path && v[i].method == method) return static_cast<int>(i);
    return -1;
}
std::set<int> mappings(const std::vector<Entry>& v, const std::string& path, const std::string& method) {
    std::set<int> s;
    if (method == "GET" || method == "HEAD")
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i].is_static && path.compare(0, v[i].path.size(), v[i].path) == 0) s.insert(static_cast<int>(i));
    return s;
}
struct Ran {
    std::vector<int> ids;
    std::vector<HttpRequest> reqs;
};
// registers v; routes answer 2xx with their number; static mapping i serves root(i)
void install(Router& r, const std::vector<Entry>& v, Ran& ran, const std::function<std::string(int)>& root) {
    for (size_t i = 0; i < v.size(); ++i) {
        if (v[i].is_static) r.add_static_handler(std::make_unique<ion::StaticFileHandler>(v[i].path, root(static_cast<int>(i))));
        else r.add_route(v[i].path, v[i].method, [i, &ran](const HttpRequest& q) {
            ran.ids.push_back(static_cast<int>(i));
            ran.reqs.push_back(q);
            return HttpResponse{.status_code = static_cast<uint16_t>(210 + i), .headers = {{"x-route", std::to_string(i)}}};
        });
    }
}
const std::vector<std::string>& probe_paths() {
    static const std::vector<std::string> p = {"/", "", "/a", "/a/", "/ab", "/a/b", "/a?x", "/A", "/b", "a", "/a/b/c", "//a", "/a#"};
    return p;
}
const std::vector<std::string>& probe_methods() {
    static const std::vector<std::string> m = {"GET", "HEAD", "POST", "get", "", "OPTIONS", "GETX", "GE"};
    return m;
}
std::vector<Entry> alphabet(bool statics) {
    std::vector<Entry> a;
    for (std::string p : {"/", "/a", "/a/b", "/a/", ""})
        for (std::string m : {"GET", "HEAD", "POST"}) a.push_back({false, p, m});
    if (statics)
        for (std::string p : {"/a", "/", "/a/b", ""}) a.push_back({true, p, ""});
    return a;
}
void check_one(Chooser& c, const std::vector<Entry>& v, const Router& r, Ran& ran, const std::string& path, const std::string& method) {
    ran.ids.clear();
    ran.reqs.clear();
    const std::string ctx = method + " '" + path + "' with " + show(v);
    // a handler may be kept and called after the strings it was looked up with are gone, and again
    ion::RouteHandler h;
    {
        const std::string p2 = path, m2 = method;
        h = r.get_handler(p2, m2);
    }
    if (!ran.ids.empty()) {
        c.violation("early", "a handler ran during lookup: " + ctx);
        return;
    }
    HttpRequest q{method, path, {{"x-probe", "1"}}};
    for (int again = 0; again < 2; ++again) {
        ran.ids.clear();
        ran.reqs.clear();
        const HttpResponse resp = h(q);
        c.validated();
        const int want = first_route(v, path, method);
        const auto st = mappings(v, path, method);
        c.outcome(mix(resp.status_code, again));
        if (want >= 0) {
            if (ran.ids != std::vector<int>{want} || resp.status_code != 210 + want) {
                c.violation("route", "route " + std::to_string(want) + " expected; ran " + (ran.ids.empty() ? "none" : std::to_string(ran.ids[0])) + ", status " + std::to_string(resp.status_code) + ": " + ctx);
                return;
            }
            if (ran.reqs[0].path != path || ran.reqs[0].method != method || ran.reqs[0].headers.size() != 1 || ran.reqs[0].headers[0].name != "x-probe") {
                c.violation("request", "the handler got a different request: " + ctx);
                return;
            }
        } else {
            if (!ran.ids.empty()) {
                c.violation("other", "route " + std::to_string(ran.ids[0]) + " ran: " + ctx);
                return;
            }
            // the mapped directories do not exist here, so a mapping answers 403
            const int s = st.empty() ? 404 : 403;
            if (resp.status_code != s) {
                c.violation(st.empty() ? "unknown" : "static", "status " + std::to_string(resp.status_code) + " instead of " + std::to_string(s) + ": " + ctx);
                return;
            }
        }
    }
}
}  // namespace

MC_PROPERTY(C23) {
    Dirs d;
    const auto al = alphabet(true);
    const int depth = thorough() ? 4 : 3;
    note("all registration sequences of up to 3 (thorough 4) entries from 15 routes (5 paths x 3 methods) and 4 static prefixes, each probed with 13 paths x 8 methods; handlers are looked up with strings that are gone when they are called, and called twice");
    uint64_t total = 0;
    for (int n = 0; n <= depth; ++n) total += scn::ipow(al.size(), n);
    enumerate("registrations", total, [&](Chooser& c, uint64_t i) {
        int n = 0;
        while (i >= scn::ipow(al.size(), n)) i -= scn::ipow(al.size(), n++);
        std::vector<Entry> v;
        for (int k = 0; k < n; ++k) v.push_back(al[i % al.size()]), i /= al.size();
        Router r;
        Ran ran;
        // a file is not a directory: the mapping answers 403 without touching anything
        install(r, v, ran, [&](int) { return d.dir + "/nowhere"; });
        c.state(hash_str(show(v)));
        for (auto& p : probe_paths())
            for (auto& m : probe_methods()) {
                if (c.violated()) return;
                c.step();
                check_one(c, v, r, ran, p, m);
            }
    });
    // registrations interleaved with requests on the same router
    note("all interleavings of up to 5 (thorough 6) registrations and lookups over a small alphabet; a handler looked up before later registrations still works");
    std::vector<Entry> sa = {{false, "/a", "GET"}, {false, "/a", "HEAD"}, {false, "/a/b", "GET"}, {true, "/a", ""}, {true, "/", ""}};
    std::vector<std::pair<std::string, std::string>> pr = {{"/a", "GET"}, {"/a/b", "HEAD"}, {"/b", "GET"}};
    const int ops = static_cast<int>(sa.size() + pr.size()), len = thorough() ? 6 : 5;
    enumerate("interleaved", scn::ipow(ops, len), [&](Chooser& c, uint64_t i) {
        Router r;
        Ran ran;
        std::vector<Entry> v;
        std::vector<std::pair<ion::RouteHandler, int>> held;
        for (int k = 0; k < len && !c.violated(); ++k) {
            const int op = i % ops;
            i /= ops;
            c.step();
            if (op < static_cast<int>(sa.size())) {
                const int id = static_cast<int>(v.size());
                v.push_back(sa[op]);
                if (sa[op].is_static) r.add_static_handler(std::make_unique<ion::StaticFileHandler>(sa[op].path, d.dir + "/nowhere"));
                else r.add_route(sa[op].path, sa[op].method, [id, &ran](const HttpRequest& q) {
                    ran.ids.push_back(id);
                    ran.reqs.push_back(q);
                    return HttpResponse{.status_code = static_cast<uint16_t>(210 + id)};
                });
            } else {
                auto& [p, m] = pr[op - sa.size()];
                check_one(c, v, r, ran, p, m);
                const int w = first_route(v, p, m);
                held.push_back({r.get_handler(p, m), w >= 0 ? 210 + w : mappings(v, p, m).empty() ? 404 : 403});
            }
        }
        for (auto& [h, st] : held)
            if (!c.violated() && h(HttpRequest{}).status_code != st) c.violation("held", "a handler looked up earlier answers differently after later registrations: " + show(v));
        c.state(hash_str(show(v)));
    });
    // static mappings with real files
    note("all sequences of 3 entries of {4 prefixes x 3 directories, 2 routes} with real files: the content comes from a matching mapping");
    std::vector<Entry> fa = {{true, "/a", "0"}, {true, "/a", "1"}, {true, "/a/b", "1"}, {true, "/", "2"}, {true, "/a/", "2"}, {true, "/c", "0"}, {false, "/a/b", "GET"}, {false, "/a", "HEAD"}};
    enumerate("files", scn::ipow(fa.size(), 3), [&](Chooser& c, uint64_t i) {
        std::vector<Entry> v;
        for (int k = 0; k < 3; ++k) v.push_back(fa[i % fa.size()]), i /= fa.size();
        Router r;
        Ran ran;
        install(r, v, ran, [&](int k) { return d.dir + "/" + v[k].method; });
        for (std::string p : {"/a", "/a/", "/a/b", "/a/b/", "/a/b/c", "/a/c", "/b/c", "/c", "/c/c", "/", "/x", "/a/b?q", "/ab"})
            for (std::string m : {"GET", "HEAD", "POST"}) {
                ran.ids.clear();
                const auto resp = r.get_handler(p, m)(HttpRequest{m, p, {}});
                c.step();
                c.validated();
                const std::string ctx = m + " " + p + " with " + show(v);
                const int w = first_route(v, p, m);
                const auto st = mappings(v, p, m);
                if (w >= 0 ? resp.status_code != 210 + w || ran.ids != std::vector<int>{w} : !ran.ids.empty()) {
                    c.violation("route", "wrong handler: " + ctx);
                    return;
                }
                if (w >= 0) continue;
                // what each matching mapping would answer on its own
                bool ok = st.empty() && resp.status_code == 404 && resp.body.empty();
                for (int k : st) {
                    const auto alone = ion::StaticFileHandler(v[k].path, d.dir + "/" + v[k].method).handle(p, m == "HEAD");
                    ok |= alone.status_code == resp.status_code && alone.body == resp.body && alone.headers.size() == resp.headers.size();
                }
                c.outcome(mix(resp.status_code, hash_str(std::string(resp.body.begin(), resp.body.end()))));
                if (!ok) {
                    c.violation("static", "status " + std::to_string(resp.status_code) + " is not what a matching mapping answers: " + ctx);
                    return;
                }
            }
    });
    // path and method are compared as a pair, octet by octet
    {
        std::vector<std::pair<std::string, std::string>> ks;  // (path, method)
        for (const std::string& whole : {std::string("/aGET"), std::string("GET/a"), std::string("/a/aGETGET")})
            for (size_t k = 0; k <= whole.size(); ++k) {
                const std::string l = whole.substr(0, k), r = whole.substr(k);
                ks.push_back({l, r}), ks.push_back({r, l});
                for (char sep : {' ', ':', '|', '\0', '\n', '#', ',', '\t', '/', '\x01', '\xff'}) {
                    if (k % 3 == 0) ks.push_back({l + sep, r}), ks.push_back({l, sep + r}), ks.push_back({l + sep + r, ""}), ks.push_back({"", l + sep + r});
                }
            }
        for (const std::string& x : {std::string("/a"), std::string("/A"), std::string("/a "), std::string(" /a"), std::string("/a\0", 3), std::string("/a\0b", 4), std::string("/a%00"), std::string("/%61"), std::string("/a;x"), std::string("/a."), std::string("/./a"), std::string("/a/.."), std::string("/a\xc3\xa9"), std::string("/a\xe9")})
            for (const std::string& m : {std::string("GET"), std::string("Get"), std::string("GET "), std::string("GET\0", 4), std::string("POST"), std::string("*"), std::string("ANY")}) ks.push_back({x, m});
        std::sort(ks.begin(), ks.end());
        ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
        note("keys: each of " + std::to_string(ks.size()) + " (path, method) pairs that join to the same text or differ in one octet, case or separator, registered alone and with a neighbour, against all others");
        enumerate("keys", ks.size() * 2, [&](Chooser& c, uint64_t i) {
            std::vector<Entry> v{{false, ks[i / 2].first, ks[i / 2].second}};
            if (i % 2) v.push_back({false, ks[(i / 2 + 1) % ks.size()].first, ks[(i / 2 + 1) % ks.size()].second});
            Router r;
            Ran ran;
            install(r, v, ran, [&](int) { return d.dir + "/nowhere"; });
            for (auto& [p, m] : ks) {
                if (c.violated()) return;
                c.step();
                check_one(c, v, r, ran, p, m);
            }
            c.state(hash_str(show(v)));
        });
    }
    note("long-paths: routes that differ in one octet of a path of up to 5000 octets; many: up to 700 routes with every one probed");
    const std::vector<size_t> lens = {7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 1023, 1024, 4095, 4096, 5000};
    enumerate("long-paths", lens.size() * 4, [&](Chooser& c, uint64_t i) {
        const size_t n = lens[i / 4];
        const std::string base = "/" + std::string(n, 'p');
        std::vector<std::string> ps = {base, base + "p", base.substr(0, n), base + "/", base + "?q"};
        for (size_t at : {size_t(1), n / 2, n - 1, n}) {
            std::string x = base;
            x[at] = 'q';
            ps.push_back(x);
        }
        std::vector<Entry> v;
        if (i % 4 == 0) v = {{false, base, "GET"}};
        if (i % 4 == 1) v = {{false, ps[5], "GET"}, {false, base, "GET"}, {false, ps.back(), "GET"}};
        if (i % 4 == 2) v = {{true, base, ""}, {false, base + "p", "GET"}};
        if (i % 4 == 3) v = {{false, base, std::string(n, 'M')}, {false, base, std::string(n, 'M') + "x"}};
        Router r;
        Ran ran;
        install(r, v, ran, [&](int) { return d.dir + "/nowhere"; });
        for (auto& p : ps)
            for (const std::string& m : {std::string("GET"), std::string("HEAD"), std::string(n, 'M'), std::string(n, 'M') + "x", std::string(n - 1, 'M')})
                if (!c.violated()) c.step(), check_one(c, v, r, ran, p, m);
        c.state(i);
    });
    enumerate("many", 6, [&](Chooser& c, uint64_t i) {
        const int n = std::array{10, 100, 129, 257, 500, 700}[i];
        std::vector<Entry> v;
        for (int k = 0; k < n; ++k) v.push_back(k % 50 == 49 ? Entry{true, "/s" + std::to_string(k), ""} : Entry{false, "/r" + std::to_string(k % (n / 2)), k % 3 ? "GET" : "PUT"});
        Router r;
        Ran ran;
        install(r, v, ran, [&](int) { return d.dir + "/nowhere"; });
        for (int k = 0; k < n; ++k)
            for (const char* m : {"GET", "PUT"})
                if (!c.violated()) {
                    c.step();
                    check_one(c, v, r, ran, "/r" + std::to_string(k), m);
                    if (k % 50 == 49) check_one(c, v, r, ran, "/s" + std::to_string(k), m);
                }
        c.state(n);
    });
    // through the server
    note("all registration pairs of the same alphabet through the server, 24 requests each on one connection");
    enumerate("served", al.size() * al.size(), [&](Chooser& c, uint64_t i) {
        const std::vector<Entry> v = {al[i % al.size()], al[i / al.size()]};
        srv::Server s(c, srv::Server::cleartext(), false);
        Ran ran;
        install(s.server->router(), v, ran, [&](int) { return d.dir + "/nowhere"; });
        std::vector<std::pair<std::string, std::string>> probes;
        h2::Bytes data = scn::hello();
        uint32_t sid = 1;
        using h2::operator+=;
        for (std::string p : {"/", "/a", "/a/", "/a/b", "/ab", "/a?x", "/b", "//"})
            for (std::string m : {"GET", "HEAD", "POST"}) {
                probes.push_back({p, m});
                data += scn::req(sid, p, {}, true, m);
                sid += 2;
            }
        sim::ConnPtr k;
        s.script = {[&] { k = s.w.connect(0); }, [&] { s.w.send(k, data); }};
        s.run();
        if (s.check_sane(c)) return;
        const auto o = h2::parse(k->tx);
        if (o.answers.size() != probes.size()) {
            c.violation("answers", std::to_string(o.answers.size()) + " answers to " + std::to_string(probes.size()) + " requests");
            return;
        }
        size_t ri = 0;
        for (size_t n = 0; n < probes.size(); ++n) {
            auto& [p, m] = probes[n];
            const int w = first_route(v, p, m);
            const int want = w >= 0 ? 210 + w : mappings(v, p, m).empty() ? 404 : 403;
            c.validated();
            const std::string st = o.answers[n].fields.empty() ? "" : o.answers[n].fields[0].second;
            if (st != std::to_string(want)) {
                c.violation("served", "status " + st + " instead of " + std::to_string(want) + ": " + m + " " + p + " with " + show(v));
                return;
            }
            if (w >= 0 && (ri >= ran.ids.size() || ran.ids[ri++] != w)) {
                c.violation("served-order", "another handler ran: " + m + " " + p + " with " + show(v));
                return;
            }
        }
        if (ri != ran.ids.size()) c.violation("served-extra", "more handlers ran than requests were routed: " + show(v));
    });
}

namespace {
enum Kind { Pass, Rewrite, Replace, Short, ThrowBefore, ThrowAfter, Catch, Ask, KINDS };
const char* kind_name[] = {"pass", "rewrite", "replace", "short-circuit", "throw-before", "throw-after", "catch", "add-request-header"};
struct Boom {
    int id;
};
using Trace = std::vector<std::string>;

ion::Middleware middleware(int id, Kind k, Trace& t) {
    const std::string n = std::to_string(id);
    return [=, &t](ion::RouteHandler next) -> ion::RouteHandler {
        return [=, &t](const HttpRequest& q) -> HttpResponse {
            t.push_back("in" + n + ":" + std::to_string(q.headers.size()));
            if (k == ThrowBefore) throw Boom{id};
            if (k == Short) {
                t.push_back("out" + n);
                return HttpResponse{.status_code = static_cast<uint16_t>(250 + id), .headers = {{"x-short", n}}};
            }
            HttpResponse r;
            if (k == Catch) {
                try {
                    r = next(q);
                } catch (const Boom& b) {
                    t.push_back("caught" + n + ":" + std::to_string(b.id));
                    r = HttpResponse{.status_code = static_cast<uint16_t>(270 + id)};
                }
            } else if (k == Ask) {
                HttpRequest q2 = q;
                q2.headers.push_back({"x-mw", n});
                r = next(q2);
            } else {
                r = next(q);
            }
            t.push_back("out" + n + ":" + std::to_string(r.status_code) + ":" + std::to_string(r.headers.size()));
            if (k == ThrowAfter) throw Boom{100 + id};
            if (k == Rewrite) r.headers.push_back({"x-rw", n});
            if (k == Replace) return HttpResponse{.status_code = static_cast<uint16_t>(260 + id), .body = {'r'}};
            return r;
        };
    };
}
// the same, by definition: middleware 0 is outermost
HttpResponse reference(const std::vector<Kind>& mws, size_t at, HttpRequest q, const std::function<HttpResponse(const HttpRequest&)>& target, Trace& t) {
    if (at == mws.size()) return target(q);
    return middleware(static_cast<int>(at), mws[at], t)([&](const HttpRequest& q2) { return reference(mws, at + 1, q2, target, t); })(q);
}
struct Got {
    bool threw = false;
    int boom = 0;
    HttpResponse r{};
    bool operator==(const Got& o) const {
        if (threw != o.threw) return false;
        if (threw) return boom == o.boom;
        if (r.status_code != o.r.status_code || r.body != o.r.body || r.headers.size() != o.r.headers.size()) return false;
        for (size_t i = 0; i < r.headers.size(); ++i)
            if (r.headers[i].name != o.r.headers[i].name || r.headers[i].value != o.r.headers[i].value) return false;
        return true;
    }
};
std::string join(const Trace& t) {
    std::string s;
    for (auto& x : t) s += x + " ";
    return s;
}
template <class F>
Got attempt(F f) {
    Got g;
    try {
        g.r = f();
    } catch (const Boom& b) {
        g.threw = true;
        g.boom = b.id;
    }
    return g;
}
struct Probe {
    std::string path, method;
};
const std::vector<Probe> probes = {{"/r", "GET"}, {"/r", "POST"}, {"/s/c", "GET"}, {"/s/c", "HEAD"}, {"/none", "GET"}, {"/t", "GET"}};
HttpResponse route_target(const HttpRequest& q) { return HttpResponse{.status_code = 222, .body = {'x'}, .headers = {{"x-n", std::to_string(q.headers.size())}}}; }
}  // namespace

MC_PROPERTY(C24) {
    Dirs d;
    const std::string root = d.dir + "/1";
    note("all sequences of up to 5 (thorough 6) registrations from {8 kinds of middleware, a route, a static mapping}, each with 6 requests (route, other method, static GET/HEAD, unknown, throwing route), twice; the trace of entries and exits and the response are compared with the definition");
    const int ops = KINDS + 2, depth = thorough() ? 6 : 5;
    uint64_t total = 0;
    for (int n = 0; n <= depth; ++n) total += scn::ipow(ops, n);
    enumerate("registrations", total, [&](Chooser& c, uint64_t i) {
        int n = 0;
        while (i >= scn::ipow(ops, n)) i -= scn::ipow(ops, n++);
        Router r;
        Trace got_t, want_t;
        std::vector<Kind> mws;
        bool route = false, stat = false;
        std::string ctx;
        for (int k = 0; k < n; ++k) {
            const int op = i % ops;
            i /= ops;
            if (op < KINDS) {
                r.add_middleware(middleware(static_cast<int>(mws.size()), Kind(op), got_t));
                mws.push_back(Kind(op));
                ctx += std::string(kind_name[op]) + " ";
            } else if (op == KINDS) {
                route = true;
                r.add_route("/r", "GET", [&](const HttpRequest& q) {
                    got_t.push_back("route");
                    return route_target(q);
                });
                r.add_route("/t", "GET", [&](const HttpRequest&) -> HttpResponse {
                    got_t.push_back("throwing");
                    throw Boom{999};
                });
                ctx += "route ";
            } else {
                if (stat && !thorough()) return;  // one mapping is enough
                stat = true;
                r.add_static_handler(std::make_unique<ion::StaticFileHandler>("/s", root));
                ctx += "static ";
            }
        }
        c.state(hash_str(ctx));
        const ion::StaticFileHandler alone("/s", root);
        for (auto& p : probes) {
            const auto target = [&](const HttpRequest& q) -> HttpResponse {
                if (route && p.path == "/r" && p.method == "GET") {
                    want_t.push_back("route");
                    return route_target(q);
                }
                if (route && p.path == "/t") {
                    want_t.push_back("throwing");
                    throw Boom{999};
                }
                if (stat && p.path == "/s/c") return alone.handle(p.path, p.method == "HEAD");
                return HttpResponse{404};
            };
            for (int again = 0; again < 2; ++again) {
                got_t.clear();
                want_t.clear();
                const HttpRequest q{p.method, p.path, {{"a", "b"}}};
                const Got got = attempt([&] { return r.get_handler(std::string(p.path), std::string(p.method))(q); });
                const Got want = attempt([&] { return reference(mws, 0, q, target, want_t); });
                c.step(got_t.size() + 1);
                c.validated();
                c.outcome(mix(got.threw ? 1 : got.r.status_code, hash_str(join(got_t))));
                if (got_t != want_t) {
                    c.violation("trace", p.method + " " + p.path + " with [" + ctx + "]: " + join(got_t) + "instead of " + join(want_t));
                    return;
                }
                if (!(got == want)) {
                    c.violation("response", p.method + " " + p.path + " with [" + ctx + "]: status " + std::to_string(got.r.status_code) + " instead of " + std::to_string(want.r.status_code));
                    return;
                }
            }
        }
    });
    // requests and registrations interleaved
    note("all interleavings of up to 5 (thorough 6) middleware registrations, route registrations and requests on one router; a lookup made before a registration keeps its meaning");
    const int o2 = 6, len = thorough() ? 7 : 5;
    enumerate("interleaved", scn::ipow(o2, len), [&](Chooser& c, uint64_t i) {
        Router r;
        Trace got_t, want_t;
        std::vector<Kind> mws;
        bool route = false;
        std::string ctx;
        for (int k = 0; k < len; ++k) {
            const int op = i % o2;
            i /= o2;
            if (op < 3) {
                const Kind kd[] = {Pass, Rewrite, Catch};
                r.add_middleware(middleware(static_cast<int>(mws.size()), kd[op], got_t));
                mws.push_back(kd[op]);
                ctx += std::string(kind_name[kd[op]]) + " ";
            } else if (op == 3) {
                route = true;
                r.add_route("/r", "GET", [&](const HttpRequest& q) {
                    got_t.push_back("route");
                    return route_target(q);
                });
                ctx += "route ";
            } else {
                const std::string p = op == 4 ? "/r" : "/none";
                ctx += "request(" + p + ") ";
                got_t.clear();
                want_t.clear();
                const HttpRequest q{"GET", p, {}};
                const Got got = attempt([&] { return r.get_handler(p, "GET")(q); });
                const Got want = attempt([&] {
                    return reference(mws, 0, q, [&](const HttpRequest& q2) -> HttpResponse {
                        if (route && p == "/r") {
                            want_t.push_back("route");
                            return route_target(q2);
                        }
                        return HttpResponse{404};
                    }, want_t);
                });
                c.validated();
                c.step(got_t.size() + 1);
                c.outcome(hash_str(join(got_t)));
                if (got_t != want_t || !(got == want)) {
                    c.violation("trace", ctx + ": " + join(got_t) + "instead of " + join(want_t));
                    return;
                }
            }
        }
        c.state(hash_str(ctx));
    });
    note("many: 10 to 200 middlewares of one kind or all kinds in turn, registered before and after the route");
    enumerate("many", 6 * (KINDS + 1) * 2, [&](Chooser& c, uint64_t i) {
        const int n = std::array{10, 16, 17, 64, 129, 200}[i % 6];
        i /= 6;
        const int kind = i % (KINDS + 1);
        const bool after = i / (KINDS + 1);
        Router r;
        Trace got_t, want_t;
        std::vector<Kind> mws;
        const auto route = [&] {
            r.add_route("/r", "GET", [&](const HttpRequest& q) {
                got_t.push_back("route");
                return route_target(q);
            });
        };
        if (!after) route();
        for (int k = 0; k < n; ++k) {
            const Kind kd = Kind(kind < KINDS ? kind : k % KINDS);
            r.add_middleware(middleware(k, kd, got_t));
            mws.push_back(kd);
        }
        if (after) route();
        for (const char* p : {"/r", "/none"}) {
            got_t.clear();
            want_t.clear();
            const HttpRequest q{"GET", p, {{"a", "b"}}};
            const Got got = attempt([&] { return r.get_handler(p, "GET")(q); });
            const Got want = attempt([&] {
                return reference(mws, 0, q, [&](const HttpRequest& q2) -> HttpResponse {
                    if (p[1] != 'r') return HttpResponse{404};
                    want_t.push_back("route");
                    return route_target(q2);
                }, want_t);
            });
            c.step(got_t.size() + 1);
            c.validated();
            if (got_t != want_t || !(got == want)) {
                c.violation("many", std::to_string(n) + " middlewares of kind " + std::to_string(kind) + ", " + p + ": different trace or response");
                return;
            }
        }
        c.state(mix(n, kind));
    });
    // through the server, several requests on two connections
    note("all sequences of up to 3 (thorough 4) middlewares through the server: 6 requests each on two connections, exceptions answered with 500");
    uint64_t t3 = 0;
    const int d3 = thorough() ? 4 : 3;
    for (int n = 0; n <= d3; ++n) t3 += scn::ipow(KINDS, n);
    enumerate("served", t3, [&](Chooser& c, uint64_t i) {
        int n = 0;
        while (i >= scn::ipow(KINDS, n)) i -= scn::ipow(KINDS, n++);
        srv::Server s(c, srv::Server::cleartext(), false);
        Trace got_t, want_t;
        std::vector<Kind> mws;
        std::string ctx;
        for (int k = 0; k < n; ++k) {
            mws.push_back(Kind(i % KINDS));
            i /= KINDS;
            s.server->router().add_middleware(middleware(k, mws.back(), got_t));
            ctx += std::string(kind_name[mws.back()]) + " ";
        }
        s.server->router().add_route("/r", "GET", [&](const HttpRequest& q) {
            got_t.push_back("route");
            return route_target(q);
        });
        s.server->router().add_route("/t", "GET", [&](const HttpRequest&) -> HttpResponse {
            got_t.push_back("throwing");
            throw Boom{999};
        });
        s.server->router().add_static_handler(std::make_unique<ion::StaticFileHandler>("/s", root));
        h2::Bytes data = scn::hello();
        uint32_t sid = 1;
        std::vector<Got> wants;
        const ion::StaticFileHandler alone("/s", root);
        using h2::operator+=;
        for (auto& p : probes) {
            data += scn::req(sid, p.path, {}, true, p.method);
            sid += 2;
            HttpRequest q{p.method, p.path, {}};
            for (auto& f : h2::get(p.path, {}, p.method)) q.headers.push_back({f.first, f.second});
            wants.push_back(attempt([&] {
                return reference(mws, 0, q, [&](const HttpRequest& q2) -> HttpResponse {
                    if (p.path == "/r" && p.method == "GET") {
                        want_t.push_back("route");
                        return route_target(q2);
                    }
                    if (p.path == "/t") {
                        want_t.push_back("throwing");
                        throw Boom{999};
                    }
                    if (p.path == "/s/c") return alone.handle(p.path, p.method == "HEAD");
                    return HttpResponse{404};
                }, want_t);
            }));
        }
        sim::ConnPtr k[2];
        s.script = {[&] { k[0] = s.w.connect(0); }, [&] { s.w.send(k[0], data); }, [&] { k[1] = s.w.connect(1); }, [&] { s.w.send(k[1], data); }};
        s.run();
        if (s.check_sane(c)) return;
        Trace twice = want_t;
        twice.insert(twice.end(), want_t.begin(), want_t.end());
        c.state(hash_str(ctx));
        c.outcome(hash_str(join(got_t)));
        if (got_t != twice) {
            c.violation("served-trace", "[" + ctx + "]: " + join(got_t) + "instead of twice " + join(want_t));
            return;
        }
        for (auto& kk : k) {
            const auto o = h2::parse(kk->tx);
            if (!o.errors.empty() || o.answers.size() != wants.size()) {
                c.violation("served", "answers missing with [" + ctx + "]");
                return;
            }
            for (size_t n = 0; n < wants.size(); ++n) {
                c.validated();
                const std::string want = std::to_string(wants[n].threw ? 500 : wants[n].r.status_code);
                auto& a = o.answers[n];
                bool ok = !a.fields.empty() && a.fields[0].second == want;
                if (!wants[n].threw) {
                    ok &= Bytes(wants[n].r.body.begin(), wants[n].r.body.end()) == a.body;
                    for (auto& h : wants[n].r.headers) ok &= std::any_of(a.fields.begin(), a.fields.end(), [&](auto& f) { return f.first == h.name && f.second == h.value; });
                }
                if (!ok) {
                    c.violation("served-response", probes[n].method + " " + probes[n].path + " with [" + ctx + "]: status " + (a.fields.empty() ? "" : a.fields[0].second) + " instead of " + want + " (or other headers or body)");
                    return;
                }
            }
        }
    });
}
