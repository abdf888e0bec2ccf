// C29: how much memory a client can make the server hold, and what is left when it has gone.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>

#include "mc/mem.hpp"
#include "mc/scn.hpp"
#include "mc/tlsc.hpp"
#include "static_file_handler.h"

using namespace mc;
using namespace scn;
using srv::Server;
using sim::ConnPtr;

namespace {
int open_files() {
    int n = 0;
    if (DIR* d = opendir("/proc/self/fd")) {
        while (readdir(d)) ++n;
        closedir(d);
    }
    return n;
}
struct Tree {
    std::string dir;
    Tree() {
        char t[] = "/tmp/ion-mc-mem-XXXXXX";
        if (!mkdtemp(t)) abort();
        dir = t;
        std::ofstream(dir + "/f.bin") << std::string(70000, 'f');
        std::filesystem::create_directory(dir + "/d");
        std::filesystem::create_symlink("/nowhere", dir + "/dangling");
    }
    ~Tree() {
        std::error_code ec;
        std::filesystem::remove_all(dir, ec);
    }
};
ion::ServerConfiguration tls_config() {
    ion::ServerConfiguration c{};
    c.cert_path = tlsc::files().cert;
    c.key_path = tlsc::files().key;
    return c;
}
void routes(Server& s, const std::string& dir) {
    auto& r = s.server->router();
    r.add_static_handler(std::make_unique<ion::StaticFileHandler>("/static", dir));
    r.add_middleware([](ion::RouteHandler next) {
        return [next](const ion::HttpRequest& q) -> ion::HttpResponse {
            if (q.path.rfind("/static", 0) == 0) return next(q);
            if (q.path == "/throw") throw std::runtime_error("x");
            if (q.path == "/int") throw 5;
            h2::Req rq{q.method, q.path, {}};
            if (q.path == "/e")
                for (auto& h : q.headers) rq.headers.emplace_back(h.name, h.value);
            const auto a = h2::app(rq);
            ion::HttpResponse resp{.status_code = static_cast<uint16_t>(a.status), .body = a.body};
            for (auto& [n, v] : a.headers) resp.headers.push_back({n, v});
            return resp;
        };
    });
}
Bytes many(uint32_t& sid, int n, const std::string& path, const Fields& more = {}) {
    Bytes b;
    for (int k = 0; k < n; ++k, sid += 2) b += req(sid, path, more);
    return b;
}
// What a client has done when it ends.
struct Phase {
    const char* name;
    std::function<std::vector<Bytes>(int cycle)> data;  // segments
    size_t room = ~size_t(0);
};
const std::vector<Phase>& phases() {
    static const std::vector<Phase> v = {
        {"nothing", [](int) { return std::vector<Bytes>{}; }},
        {"half a preface", [](int) { return std::vector<Bytes>{bytes("PRI * HTTP")}; }},
        {"preface", [](int) { return std::vector<Bytes>{hello()}; }},
        {"half a frame", [](int) { auto b = req(1, "/b10"); b.resize(b.size() - 3); return std::vector<Bytes>{hello(), b}; }},
        {"pings", [](int) { return std::vector<Bytes>{hello(), ping(1) + ping(2), settings() + settings()}; }},
        {"requests", [](int k) { uint32_t s = 1; return std::vector<Bytes>{hello(), many(s, 3, "/b10"), many(s, 2, "/e", {{"x-" + std::to_string(k), "v" + std::to_string(k)}})}; }},
        {"failures", [](int) { uint32_t s = 1; return std::vector<Bytes>{hello(), many(s, 1, "/throw") + many(s, 1, "/int") + many(s, 1, "/none")}; }},
        {"files", [](int) { uint32_t s = 1; Bytes b; for (const char* p : {"/static/f.bin", "/static/none", "/static/d", "/static/dangling", "/static/../x", "/static/"}) b += many(s, 1, p); return std::vector<Bytes>{hello(), b + req(s, "/static/f.bin", {}, true, "HEAD")}; }},
        {"large answers", [](int) { uint32_t s = 1; return std::vector<Bytes>{hello(), many(s, 2, "/b200000") + many(s, 2, "/h20000") + many(s, 1, "/m100")}; }},
        {"half a header block", [](int) { return std::vector<Bytes>{hello(), frame(HEADERS, END_STREAM, 1, Bytes(100, 0x82)), frame(CONT, 0, 1, Bytes(16000, 0x82))}; }},
        {"waiting bodies", [](int) { uint32_t s = 1; return std::vector<Bytes>{preface() + settings({{4, 10}}), many(s, 12, "/b5000")}; }},
        {"100 waiting bodies", [](int) { uint32_t s = 1; return std::vector<Bytes>{preface() + settings({{4, 0}}), many(s, 103, "/b500")}; }},
        {"blocked output", [](int) { uint32_t s = 1; return std::vector<Bytes>{hello(), many(s, 3, "/b50000"), many(s, 3, "/b10")}; }, 100},
        {"nothing can be sent", [](int) { uint32_t s = 1; return std::vector<Bytes>{hello() + many(s, 3, "/b50000")}; }, 0},
        {"unread input", [](int) { uint32_t s = 1; return std::vector<Bytes>{hello() + many(s, 1, "/b50000"), Bytes(120000, 0)}; }, 50},
    };
    return v;
}
const char* const ends[] = {"closes its sending side", "closes", "resets", "sends GOAWAY", "sends a malformed frame", "sends an undecodable block", "is idle", "fails to be read", "fails to be written"};
constexpr int ENDS = 9;
}  // namespace

MC_PROPERTY(C29) {
    const Tree tree;
    // --- nothing is left behind -----------------------------------------------------------------------------
    const size_t P = phases().size();
    const int M1 = 25, M2 = thorough() ? 200 : 65;
    note("cycles: a client in each of 15 phases ends in each of 9 ways, again and again (quick 65 times, thorough 200, and all pairs of two such clients); memory and descriptors held after the last time as after the 25th");
    const uint64_t single = P * ENDS, n_cycles = thorough() ? single * single : single * 4;
    enumerate("cycles", n_cycles, [&](Chooser& c, uint64_t i) {
        const uint64_t kind[2] = {i % single, thorough() ? i / single : (i % single + (i / single) * 37 * (i / single)) % single};
        Server s(c, Server::cleartext(), false);
        routes(s, tree.dir);
        int cycle = 0;
        size_t step = 0;
        ConnPtr k;
        std::vector<Bytes> data;
        size_t mark[2] = {0, 0};
        int fds[2] = {0, 0}, stuck = 0;
        bool fail_read = false, fail_write = false;
        s.w.fault = [&](const sim::Call& call) -> long {
            if (fail_read && call.sys == sim::Sys::Read && k && call.conn == k.get()) return -ETIMEDOUT;
            if (fail_write && call.sys == sim::Sys::Write && k && call.conn == k.get()) return -EPIPE;
            return sim::DEFAULT;
        };
        s.w.env = [&]() -> bool {
            const Phase& ph = phases()[kind[cycle % 2] % P];
            const int end = static_cast<int>(kind[cycle % 2] / P);
            if (step == 0) {
                if (cycle == M1) mark[0] = mem::live(), fds[0] = open_files();
                if (cycle == M2) {
                    mark[1] = mem::live(), fds[1] = open_files();
                    return false;
                }
                s.w.conns.clear();
                k = s.w.connect(0);
                k->room = ph.room;
                data = ph.data(cycle);
                fail_read = fail_write = false;
            } else if (step <= data.size()) {
                s.w.send(k, data[step - 1]);
            } else if (step == data.size() + 1) {
                switch (end) {
                    case 0: s.w.fin(k); break;
                    case 1: s.w.close_client(k); break;
                    case 2: s.w.rst(k); break;
                    case 3: s.w.send(k, goaway()); break;
                    case 4: s.w.send(k, frame(CONT, 0, 99, {})); break;
                    case 5: s.w.send(k, headers(77777, {0xff, 0xff})); break;
                    case 6: s.w.advance_ms(6000); break;
                    case 7: fail_read = true; s.w.send(k, ping(9)); break;
                    default: fail_write = true; s.w.send(k, ping(9)); break;
                }
            } else if (!k->closes) {
                // some ends only take effect once the output can go out; all others by inactivity
                if (++stuck > 6) return false;
                if (stuck == 1) s.w.set_room(k, 1 << 24);
                else s.w.advance_ms(6000);
            } else {
                stuck = 0;
                step = 0;
                ++cycle;
                c.step();
                return true;
            }
            ++step;
            return true;
        };
        const std::string ctx = std::string(phases()[kind[0] % P].name) + ", then the client " + ends[kind[0] / P] + (kind[1] != kind[0] ? std::string("; ") + phases()[kind[1] % P].name + ", then the client " + ends[kind[1] / P] : "");
        mem::start();
        s.run();
        mem::stop();
        c.state(mix(i, mark[1]));
        c.validated();
        if (s.check_sane(c)) return;
        if (cycle != M2) return c.violation("stuck", "a connection is not closed: " + ctx);
        if (mark[1] > mark[0] + 256)
            return c.violation("left-behind", std::to_string(mark[1] - mark[0]) + " octets more are held after " + std::to_string(M2) + " connections than after " + std::to_string(M1) + ": " + ctx);
        if (fds[1] > fds[0]) return c.violation("descriptors", std::to_string(fds[1] - fds[0]) + " more open descriptors after " + std::to_string(M2 - M1) + " connections: " + ctx);
    });
    // --- crowds -------------------------------------------------------------------------------------------
    note("crowds: up to 140 clients at once in every phase, all ended in the same way, 4 (thorough 10) times");
    enumerate("crowds", single, [&](Chooser& c, uint64_t i) {
        const Phase& ph = phases()[i % P];
        const int end = static_cast<int>(i / P);
        if (end >= 7) return;
        Server s(c, Server::cleartext(), false);
        routes(s, tree.dir);
        s.w.patience = 2;
        const int N = 140, ROUNDS = thorough() ? 10 : 4;
        int round = 0;
        size_t step = 0;
        size_t mark[2] = {0, 0};
        std::vector<ConnPtr> ks;
        s.w.env = [&]() -> bool {
            if (step == 0) {
                if (round == 2) mark[0] = mem::live();
                if (round == ROUNDS) {
                    mark[1] = mem::live();
                    return false;
                }
                s.w.conns.clear();
                ks.clear();
                for (int n = 0; n < N; ++n) {
                    auto k = s.w.connect(n);
                    k->room = ph.room;
                    ks.push_back(k);
                }
            } else if (step == 1) {
                for (auto& k : ks)
                    if (!k->closes)
                        for (auto& d : ph.data(round)) s.w.send(k, d);
            } else if (step == 2) {
                for (auto& k : ks) {
                    if (k->closes) continue;
                    switch (end) {
                        case 0: s.w.fin(k); break;
                        case 1: s.w.close_client(k); break;
                        case 2: s.w.rst(k); break;
                        case 3: s.w.send(k, goaway()); break;
                        case 4: s.w.send(k, frame(CONT, 0, 99, {})); break;
                        case 5: s.w.send(k, headers(77777, {0xff, 0xff})); break;
                        default: break;
                    }
                }
                if (end == 6) s.w.advance_ms(6000);
            } else {
                bool open = false;
                for (auto& k : ks) open |= !k->closes;
                if (open) {
                    if (step > 8) return false;
                    s.w.advance_ms(6000);
                } else {
                    step = 0;
                    ++round;
                    return true;
                }
            }
            ++step;
            return true;
        };
        const std::string ctx = std::string(ph.name) + ", then the clients all do: " + ends[end];
        mem::start();
        s.run();
        mem::stop();
        c.state(mix(i + 1000, mark[1]));
        c.validated();
        if (s.check_sane(c)) return;
        if (round != ROUNDS) return c.violation("stuck", "connections are not closed: " + ctx);
        if (mark[1] > mark[0] + 1024)
            return c.violation("left-behind", std::to_string(mark[1] - mark[0]) + " octets more are held after " + std::to_string(ROUNDS - 2) + " more rounds of 140 connections: " + ctx);
    });
    // --- floods -------------------------------------------------------------------------------------------
    struct Unit {
        const char* name;
        std::function<Bytes(uint32_t& sid, int n)> make;
    };
    const std::vector<Unit> units = {
        {"PING", [](uint32_t&, int n) { return ping(n); }},
        {"SETTINGS", [](uint32_t&, int) { return settings(); }},
        {"SETTINGS with values", [](uint32_t&, int n) { return settings({{1, uint32_t(n * 37 % 5000)}, {4, 65535}, {5, 16384}, {99, 1}}); }},
        {"empty answers", [](uint32_t& sid, int) { sid += 2; return req(sid, "/s204"); }},
        {"answers of 60000 octets", [](uint32_t& sid, int) { sid += 2; return req(sid, "/b60000"); }},
        {"answers with large headers", [](uint32_t& sid, int) { sid += 2; return req(sid, "/h20000"); }},
        {"unique headers", [](uint32_t& sid, int n) { sid += 2; ref::Encoder e; return headers(sid, e.encode(get("/e", {{"x-" + std::to_string(n), std::string(100, 'a' + n % 26)}}))); }},
        {"unknown paths", [](uint32_t& sid, int n) { sid += 2; return req(sid, "/nowhere" + std::to_string(n)); }},
        {"unknown methods", [](uint32_t& sid, int n) { sid += 2; return req(sid, "/b1", {}, true, "M" + std::to_string(n)); }},
        {"failing handlers", [](uint32_t& sid, int) { sid += 2; return req(sid, "/throw"); }},
        {"rapid resets", [](uint32_t& sid, int) { sid += 2; return req(sid, "/b3000") + frame(RST, 0, sid, {0, 0, 0, 8}); }},
        {"requests without an end", [](uint32_t& sid, int) { sid += 2; return req(sid, "/b10", {}, false, "POST"); }},
        {"uploads", [](uint32_t& sid, int) { sid += 2; return req(sid, "/b10", {}, false, "POST") + frame(DATA, 0, sid, Bytes(16384, 'u')) + frame(DATA, END_STREAM, sid, Bytes(100, 'u')); }},
        {"DATA on one stream", [](uint32_t& sid, int n) { return n ? frame(DATA, 0, sid, Bytes(5000, 'u')) : req(sid += 2, "/b10", {}, false, "POST"); }},
        {"WINDOW_UPDATE of the connection", [](uint32_t&, int) { return window_update(0, 1); }},
        {"WINDOW_UPDATE of streams", [](uint32_t&, int n) { return window_update(2 * n + 1, 1); }},
        {"PRIORITY", [](uint32_t&, int n) { return frame(PRIORITY, 0, 2 * n + 1, {0, 0, 0, 0, 9}); }},
        {"RST_STREAM", [](uint32_t&, int n) { return frame(RST, 0, 2 * n + 1, {0, 0, 0, 8}); }},
        {"unknown frames", [](uint32_t&, int n) { return frame(static_cast<uint8_t>(100 + n % 100), 0, n, Bytes(3000, 'x')); }},
        {"repeated stream", [](uint32_t&, int) { return req(1, "/b100"); }},
        {"empty CONTINUATIONs", [](uint32_t& sid, int n) { return n ? frame(CONT, 0, sid, {}) : frame(HEADERS, END_STREAM, sid += 2, {0x82}); }},
        {"small CONTINUATIONs", [](uint32_t& sid, int n) { return n ? frame(CONT, 0, sid, {0x82}) : frame(HEADERS, END_STREAM, sid += 2, {0x82}); }},
        {"full CONTINUATIONs", [](uint32_t& sid, int n) { return n ? frame(CONT, 0, sid, Bytes(16384, 0x82)) : frame(HEADERS, END_STREAM, sid += 2, {0x82}); }},
        {"table size updates", [](uint32_t& sid, int n) { sid += 2; ref::Encoder e; Bytes b = {0x3f, 0xe1, 0x1f, 0x20, 0x3f, 0xe1, 0x1f}; const Bytes r = e.encode(get("/b5", {{"y-" + std::to_string(n), "z"}})); return headers(sid, b + r); }},
        {"one octet of garbage", [](uint32_t&, int) { return Bytes{0}; }},
        {"files", [](uint32_t& sid, int n) { sid += 2; return req(sid, n % 3 ? "/static/f.bin" : "/static/none" + std::to_string(n)); }},
        {"requests after GOAWAY", [](uint32_t& sid, int n) { sid += 2; return n ? req(sid, "/b5000") : req(sid, "/b5000") + goaway(); }},
    };
    const size_t rooms[] = {~size_t(0), 0, 16000};
    const uint32_t windows[] = {0x7ff00000, 65535, 0};
    note("floods: 27 kinds of frames and requests repeated without end x output read at once, never, or 16000 octets at a time x three flow-control windows, and with every segment ending inside a frame; the highest memory held at most 96 KiB more after 3 MiB of traffic or 16000 units (thorough 12 MiB or 80000) than after 1 MiB or 4000 (20000)");
    enumerate("floods", units.size() * 11, [&](Chooser& c, uint64_t i) {
        const Unit& u = units[i % units.size()];
        const size_t variant = i / units.size();
        const bool straddle = variant >= 9;  // no segment ends where a frame ends
        const size_t room = straddle ? rooms[variant == 9 ? 0 : 2] : rooms[variant % 3];
        const uint32_t window = straddle ? windows[0] : windows[variant / 3];
        Bytes carry;
        Server s(c, Server::cleartext(), false);
        routes(s, tree.dir);
        s.w.patience = 2;
        ConnPtr k;
        uint32_t sid = 1;
        int n = 0;
        size_t sent = 0, base = 0, peak = 0, held = 0;
        int phase = 0, quiet = 0;
        const size_t first = 1 << 20, last = thorough() ? 12 << 20 : 3 << 20;
        const int least[2] = {150, 450}, many_units = thorough() ? 20000 : 4000;
        s.w.env = [&]() -> bool {
            if (!k) {
                base = mem::live();
                mem::reset_peak();
                k = s.w.connect(0);
                k->room = room;
                s.w.send(k, window == 0x7ff00000 ? hello() : preface() + settings({{4, window}}));
                return true;
            }
            sent += k->tx.size();
            k->tx.clear();
            if (k->closes) return false;
            if (phase == 0 && (sent >= first || (n >= many_units && sent >= first / 3)) && n >= least[0]) {
                phase = 1;
                peak = mem::peak();
                held = mem::live();
            }
            if (phase == 1 && (sent >= last || n >= 4 * many_units) && n >= least[1]) return false;
            // the client's kernel takes no more than its peer's receive buffer holds
            size_t unread = 0;
            for (auto& seg : k->rx) unread += seg.size();
            if (unread < 200000) {
                Bytes d;
                while (d.size() < 20000) {
                    const Bytes one = u.make(sid, n++);
                    d.insert(d.end(), one.begin(), one.end());
                    if (one.size() < 16 && d.size() >= 4000) break;
                }
                sent += d.size();
                if (straddle) {
                    d = carry + d;
                    const size_t keep = 1 + n % 8;
                    carry.assign(d.end() - keep, d.end());
                    d.resize(d.size() - keep);
                }
                if (room == 16000) s.w.set_room(k, 16000);
                s.w.send(k, d);
                quiet = 0;
                return true;
            }
            if (room == 16000) {
                if (++quiet > 20000) return false;
                s.w.set_room(k, 16000);
                return true;
            }
            return false;  // blocked for good: the server takes nothing more
        };
        mem::start();
        s.run();
        const size_t top = mem::peak(), now = mem::live();
        mem::stop();
        c.state(mix(i + 5000, top));
        c.step(n);
        c.validated();
        if (s.check_sane(c)) return;
        const std::string ctx = std::string(u.name) + ", " + (room == 0 ? "output never read" : room == 16000 ? "output read slowly" : "output read") + ", window " + std::to_string(window) + (straddle ? ", segments ending inside a frame" : "");
        if (top - base > 16u << 20) return c.violation("bound", std::to_string(top - base) + " octets are held for one connection: " + ctx);
        if (phase == 1 && top > peak + (96 << 10)) return c.violation("growth", "memory grows with the length of the connection: " + std::to_string(peak - base) + " octets after 1 MiB, " + std::to_string(top - base) + " after " + std::to_string(sent >> 20) + " MiB: " + ctx);
        if (phase == 1 && k->closes == 0 && now > held + (96 << 10)) return c.violation("growth", "memory held grows from " + std::to_string(held - base) + " to " + std::to_string(now - base) + " octets: " + ctx);
    });
    // --- header blocks that unfold ----------------------------------------------------------------------------
    note("bombs: header blocks of up to 256 KiB of references to an entry of 10 to 4050 octets, in the static or the dynamic table, with names and values of each size, against the 16 MiB bound");
    const size_t entry[] = {10, 100, 1000, 2000, 4000, 4050};
    const size_t refs[] = {100, 1000, 10000, 16000, 60000, 120000, 250000, 262000};
    enumerate("bombs", std::size(entry) * std::size(refs) * 4, [&](Chooser& c, uint64_t i) {
        const int kind = i % 4;  // 0 value large, 1 name large, 2 static reference, 3 large literal strings, Huffman coded
        const size_t size = entry[i / 4 % std::size(entry)], count = refs[i / 4 / std::size(entry)];
        Server s(c, Server::cleartext(), false);
        routes(s, tree.dir);
        Bytes block = {0x82, 0x84, 0x86};
        ref::Encoder e;
        if (kind < 2) {
            block += Bytes(count, 0xbe);
        } else if (kind == 2) block += Bytes(count, 0x90 + i / 4 % 8);
        else {
            const std::string big(size, 'a');
            e.index = false;
            e.huff = true;
            const Bytes one = e.encode({{"k", big}});
            while (block.size() + one.size() <= count) block += one;
        }
        Bytes data = hello();
        if (kind < 2) {
            ref::Encoder e2;
            data += headers(1, e2.encode(get("/b1"))) ;
            const std::string big(size, 'q');
            data += headers(3, kind == 0 ? e2.encode({{":method", "GET"}, {":path", "/b2"}, {"n", big}}) : e2.encode({{":method", "GET"}, {":path", "/b2"}, {big, "v"}}));
        }
        for (size_t p = 0; p < block.size(); p += 16384) {
            const size_t m = std::min<size_t>(16384, block.size() - p);
            data += frame(p ? CONT : HEADERS, (p ? 0 : END_STREAM) | (p + m == block.size() ? END_HEADERS : 0), 5, Bytes(block.begin() + p, block.begin() + p + m));
        }
        data += req(7, "/b3");
        ConnPtr k;
        size_t base = 0;
        s.script = {[&] {
                        base = mem::live();
                        k = s.w.connect(0);
                    },
                    [&] { s.w.send(k, data); }};
        mem::start();
        s.run();
        const size_t top = mem::peak();
        mem::stop();
        c.state(mix(i + 9000, top));
        c.validated();
        if (s.check_sane(c)) return;
        if (top - base > 16u << 20) return c.violation("bound", std::to_string((top - base) >> 10) + " KiB are held for a header block of " + std::to_string(block.size()) + " octets (kind " + std::to_string(kind) + ", entry of " + std::to_string(size) + " octets)");
    });
    // --- whole servers ----------------------------------------------------------------------------------------
    note("servers: a server constructed, run with 1 to 3 clients in each phase, stopped and destroyed, 30 times, cleartext and TLS");
    enumerate("servers", P * 2, [&](Chooser& c, uint64_t i) {
        const Phase& ph = phases()[i % P];
        const bool tls = i / P;
        size_t mark = 0;
        mem::start();
        for (int round = 0; round < (tls ? 16 : 30); ++round) {
            if (round == 8) mark = mem::live();
            ++mem::paused;
            auto s = [&] {
                mem::paused--;
                struct Back { ~Back() { mem::paused++; } } back;
                return std::make_unique<Server>(c, tls ? tls_config() : Server::cleartext(), false);
            }();
            --mem::paused;
            routes(*s, tree.dir);
            ++mem::paused;
            std::vector<ConnPtr> ks;
            for (int n = 0; n < 1 + round % 3; ++n) {
                s->script.push_back([&, n] {
                    ks.push_back(s->w.connect(n));
                    ks.back()->room = ph.room;
                });
                for (auto& d : ph.data(0)) s->script.push_back([&, n, d] { s->w.send(ks[n], d); });
            }
            --mem::paused;
            s->run();
            if (s->check_sane(c)) return mem::stop();
            s.reset();
        }
        const size_t now = mem::live();
        mem::stop();
        c.state(mix(i + 12000, now));
        c.validated();
        if (now > mark + 1024) c.violation("left-behind", std::to_string(now - mark) + " octets more after more servers were run: " + ph.name);
    });
    // --- TLS --------------------------------------------------------------------------------------------------
    const int TE = 8, TP = 5;
    static const char* const tls_ends[] = {"closes its sending side", "closes", "resets", "sends close_notify and closes", "sends GOAWAY", "sends garbage", "is idle", "sends a malformed frame"};
    static const char* const tls_phases[] = {"nothing", "half a ClientHello", "unfinished handshake", "handshake", "requests"};
    note("tls: clients of TLS 1.2 and 1.3 in 5 phases, ended in 8 ways, with the output read or not, again and again");
    set_hang_limit(200);
    enumerate("tls", TE * TP * 4, [&](Chooser& c, uint64_t i) {
        const int end = i % TE, ph = i / TE % TP, version = i / TE / TP % 2 ? 12 : 13;
        const size_t room = i / TE / TP / 2 ? 3000 : ~size_t(0);
        const int N1 = 15, N2 = thorough() ? 120 : 40;
        tlsc::reset_random();
        Server s(c, tls_config(), false);
        routes(s, tree.dir);
        int cycle = 0, step = 0, stuck = 0;
        size_t mark[2] = {0, 0};
        ConnPtr k;
        std::unique_ptr<tlsc::Client> t;
        const auto flush = [&] {
            const Bytes b = t->step();
            if (b.empty()) return false;
            s.w.send(k, b);
            return true;
        };
        s.w.env = [&]() -> bool {
            switch (step) {
                case 0:
                    if (cycle == N1) mark[0] = mem::live();
                    if (cycle == N2) {
                        mark[1] = mem::live();
                        return false;
                    }
                    s.w.conns.clear();
                    t = std::make_unique<tlsc::Client>(version);
                    k = s.w.connect(0);
                    k->room = room;
                    t->conn = k;
                    step = 1;
                    return true;
                case 1: {
                    step = 2;
                    if (ph == 0) return true;
                    Bytes b = t->step();
                    if (ph == 1) b.resize(b.size() / 2);
                    s.w.send(k, b);
                    return true;
                }
                case 2:
                    if (ph >= 3 && flush()) return true;
                    step = 3;
                    if (ph == 4 && t->handshaken) {
                        uint32_t sid = 1;
                        t->write(hello() + many(sid, 2, "/b100") + many(sid, 1, "/b30000"));
                        flush();
                    }
                    return true;
                case 3:
                    if (ph == 4 && flush()) return true;
                    step = 4;
                    switch (end) {
                        case 0: s.w.fin(k); break;
                        case 1: s.w.close_client(k); break;
                        case 2: s.w.rst(k); break;
                        case 3:
                            if (t->handshaken) t->close_notify(), flush();
                            s.w.close_client(k);
                            break;
                        case 4:
                            if (t->handshaken) t->write(hello() + goaway()), flush();
                            break;
                        case 5: s.w.send(k, Bytes(500, 0x5a)); break;
                        case 6: s.w.advance_ms(6000); break;
                        default:
                            if (t->handshaken) t->write(hello() + frame(CONT, 0, 9, {})), flush();
                            break;
                    }
                    return true;
                default:
                    if (!k->closes) {
                        if (++stuck > 6) return false;
                        s.w.set_room(k, 1 << 24);
                        s.w.advance_ms(6000);
                        return true;
                    }
                    stuck = 0;
                    step = 0;
                    ++cycle;
                    c.step();
                    return true;
            }
        };
        const std::string ctx = std::string("TLS 1.") + (version == 12 ? "2" : "3") + ", " + tls_phases[ph] + ", then the client " + tls_ends[end];
        mem::start();
        s.run();
        mem::stop();
        c.state(mix(i + 20000, mark[1]));
        c.validated();
        if (s.check_sane(c)) return;
        if (cycle != N2) return c.violation("stuck", "a connection is not closed: " + ctx);
        if (mark[1] > mark[0] + 512)
            return c.violation("left-behind", std::to_string(mark[1] - mark[0]) + " octets more are held after " + std::to_string(N2) + " connections than after " + std::to_string(N1) + ": " + ctx);
    });
    set_hang_limit(0);
}
