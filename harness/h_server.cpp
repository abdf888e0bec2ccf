// C14-C17: the accept/event loop of a real Http2Server inside the simulated kernel, with several
// clients, virtual time, failing system calls and stop requests.
#include <errno.h>
#include <sys/epoll.h>

#include <algorithm>

#include "mc/scn.hpp"

using namespace mc;
using namespace scn;
using sim::ConnPtr;
using sim::Sys;
using srv::Server;

namespace {

struct Peer {
    ConnPtr k;
    Bytes sent;
    bool abrupt = false;  // reset or closed: may miss part of its answers
    bool fin = false;
    bool tainted = false;  // a system call made for it failed
    bool rejected_ok = false;
};
struct Fleet {
    Server s;
    std::vector<Peer> p;
    Chooser& c;
    bool strict_watch = true;
    std::string bad;  // first violation seen while running: key|message
    explicit Fleet(Chooser& ch) : s(ch), c(ch) {
        s.on_request = [this](const Req& r) {
            const size_t i = owner(r.path);
            if (i < p.size() && p[i].k->closes && bad.empty()) bad = "served-closed|request " + r.path + " handled after its connection was closed";
        };
        s.w.before_wait = [this] {
            if (!strict_watch) return;
            for (auto& q : p)
                if (q.k->accepted && !q.k->closes && !s.w.watched.count(q.k->fd) && bad.empty())
                    bad = "unwatched|an open connection is not registered with the poller";
        };
    }
    // paths are /e<peer>-<n> or /b<n>?..
    size_t owner(const std::string& path) { return path.starts_with("/e") ? strtoul(path.c_str() + 2, nullptr, 10) : ~size_t(0); }
    int connect(size_t room = ~size_t(0)) {
        Peer q;
        q.k = s.w.connect(static_cast<int>(p.size()));
        q.k->room = room;
        p.push_back(q);
        return static_cast<int>(p.size()) - 1;
    }
    void send(int i, const Bytes& b) {
        if (p[i].fin || p[i].abrupt) return;
        if (p[i].k->closes) p[i].abrupt = true;
        p[i].sent += b;
        s.w.send(p[i].k, b);
    }
    void fin(int i) {
        p[i].fin = true;
        s.w.fin(p[i].k);
    }
    void close(int i) {
        p[i].abrupt = true;
        s.w.close_client(p[i].k);
    }
    void rst(int i) {
        p[i].abrupt = true;
        s.w.rst(p[i].k);
    }
    bool must_close(const Peer& q) { return q.abrupt || q.fin || model(q.sent).end != Expect::Open; }
    // everything said and done; closed = which peers' connections were closed at the end of the scenario
    bool check(const std::vector<bool>& closed) {
        if (!bad.empty()) return srv::report(c, bad, "");
        std::map<std::string, int> want, got;
        for (auto& r : s.seen) got[r.path]++;
        for (size_t i = 0; i < p.size(); ++i) {
            Peer& q = p[i];
            const auto e = model(q.sent);
            for (auto& r : expected_requests(e)) want[r.path]++;
            const std::string ctx = "client " + std::to_string(i);
            const bool ok_partial = q.abrupt || q.tainted;
            if (!ok_partial || q.k->tx.size()) {
                const auto o = parse(q.k->tx, e.table_sizes);
                c.validated();
                const auto km = compare(e, o, !ok_partial);
                if (!km.empty() && !(q.tainted && closed[i] && o.rest && km.starts_with("rest|"))) return srv::report(c, km, ctx);
                if (q.tainted && !q.abrupt && !closed[i]) {
                    const auto km2 = compare(e, o, true);
                    if (!km2.empty()) {
                        c.violation("leaked", ctx + ": after a failed system call the connection is neither closed nor served: " + km2);
                        return true;
                    }
                }
            }
            if (closed[i] != must_close(q) && !q.tainted) {
                c.violation("close", ctx + (closed[i] ? ": connection closed" : ": connection not closed"));
                return true;
            }
            if (!ok_partial)
                for (auto& r : expected_requests(e))
                    if (!got.count(r.path)) {
                        c.violation("requests", ctx + ": request " + r.path + " not handled");
                        return true;
                    }
        }
        for (auto& [path, n] : got)
            if (n > want[path]) {
                c.violation("requests", "request " + path + " handled " + std::to_string(n) + " times instead of " + std::to_string(want[path]));
                return true;
            }
        return false;
    }
    std::vector<bool> closed_now() {
        std::vector<bool> v;
        for (auto& q : p) v.push_back(q.k->closes > 0);
        return v;
    }
};
Bytes rq(int peer, int n) { return req(static_cast<uint32_t>(2 * n + 1), "/e" + std::to_string(peer) + "-" + std::to_string(n)); }
Bytes big(int n, size_t size) { return req(static_cast<uint32_t>(2 * n + 1), "/b" + std::to_string(size)); }

void set_order(Server& s, int mode) {
    if (mode == 0) return;
    s.w.order = [mode, &s](std::vector<int>& v) {
        if (mode == 1) std::reverse(v.begin(), v.end());
        if (mode >= 2) {  // listener first / last, the rest by descriptor
            std::sort(v.begin(), v.end());
            if (mode == 3) std::reverse(v.begin(), v.end());
        }
    };
}

// ---- C14 ------------------------------------------------------------------------------------------
constexpr int PROFILES = 8, STEPS = 3;
struct Actor {
    int me = -1;
    void act(Fleet& f, int profile, int step) {
        auto go = [&](size_t room = ~size_t(0)) { me = f.connect(room); };
        switch (profile * STEPS + step) {
            case 0: go(); f.send(me, hello() + rq(me, 0)); break;
            case 1: f.send(me, rq(me, 1)); break;
            case 2: f.fin(me); break;
            case 3: go(); break;
            case 4: f.send(me, hello() + rq(me, 0)); break;
            case 5: f.rst(me); break;
            case 6: go(100); f.send(me, hello() + big(0, 3000)); break;
            case 7: f.s.w.set_room(f.p[me].k, ~size_t(0)); break;
            case 8: f.close(me); break;
            case 9: go(60); f.send(me, hello() + big(0, 3000)); break;
            case 10: f.send(me, rq(me, 1)); break;
            case 11: f.rst(me); break;
            case 12: go(); f.send(me, hello()); break;
            case 13: f.send(me, rq(me, 0) + goaway() + rq(me, 1)); break;
            case 14: go(); f.send(me, hello() + rq(me, 0)); break;
            case 15: go(); f.send(me, hello() + big(0, 3000)); f.close(me); break;
            case 16: go(); f.send(me, hello() + rq(me, 0)); break;
            case 17: f.fin(me); break;
            case 18: go(); f.send(me, bytes("GET / HTTP/1.1\r\nHost: x\r\n\r\n")); break;
            case 19: go(); f.rst(me); break;
            case 20: go(); f.send(me, hello() + rq(me, 0)); f.fin(me); break;
            case 21: go(); f.send(me, hello() + rq(me, 0) + frame(SETTINGS, 0, 0, Bytes(5, 0))); break;
            case 22: f.close(me); go(); f.close(me); break;
            case 23: go(); f.send(me, hello() + rq(me, 0)); break;
        }
    }
};
// all interleavings of n actors with STEPS steps each
const std::vector<std::vector<int>>& interleavings(int n) {
    static std::map<int, std::vector<std::vector<int>>> cache;
    auto& v = cache[n];
    if (v.empty()) {
        std::vector<int> a;
        for (int i = 0; i < n; ++i) a.insert(a.end(), STEPS, i);
        do v.push_back(a);
        while (std::next_permutation(a.begin(), a.end()));
    }
    return v;
}
void fleet_run(Chooser& c, const std::vector<int>& profiles, const std::vector<int>& seq, uint32_t mask, int order) {
    Fleet f(c);
    set_order(f.s, order);
    std::vector<Actor> actors(profiles.size());
    std::vector<int> at(profiles.size(), 0);
    size_t pos = 0;
    f.s.w.env = [&] {
        if (pos >= seq.size()) return false;
        do {
            const int a = seq[pos];
            actors[a].act(f, profiles[a], at[a]++);
            ++pos;
        } while (pos < seq.size() && (mask >> (pos - 1) & 1));
        return true;
    };
    int idle = 0, probe = -1;
    std::vector<bool> closed;
    f.s.w.quiescent = [&] {
        if (idle++ == 0) {
            closed = f.closed_now();
            probe = f.connect();
            f.send(probe, hello() + rq(probe, 0));
        } else {
            closed.push_back(f.p[probe].k->closes > 0);
            f.s.stop();
        }
    };
    f.s.run();
    if (!f.check(closed)) f.s.check_sane(c);
    c.state(f.s.w.trace);
}
}  // namespace

MC_PROPERTY(C14) {
    note("2 clients: all pairs of 8 behaviours x all interleavings of their 3 steps x all groupings of adjacent steps into one batch x 2 (thorough: 4) report orders; "
         "3 clients: all triples of 4 (thorough: 8) behaviours x all interleavings, ungrouped and fully grouped; a fresh client is served at the end of every run");
    const int orders = thorough() ? 4 : 2;
    const auto& i2 = interleavings(2);
    enumerate("pairs", uint64_t(PROFILES) * PROFILES * i2.size() * 32 * orders, [&](Chooser& c, uint64_t i) {
        const int order = i % orders;
        i /= orders;
        const uint32_t mask = i % 32;
        i /= 32;
        const auto& seq = i2[i % i2.size()];
        i /= i2.size();
        fleet_run(c, {static_cast<int>(i % PROFILES), static_cast<int>(i / PROFILES)}, seq, mask, order);
    });
    const auto& i3 = interleavings(3);
    std::vector<std::vector<int>> triples;
    const std::vector<int> tp = thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{0, 3, 5, 6};
    for (size_t a = 0; a < tp.size(); ++a)
        for (size_t b = a; b < tp.size(); ++b)
            for (size_t d = b; d < tp.size(); ++d) triples.push_back({tp[a], tp[b], tp[d]});
    const int masks = thorough() ? 8 : 1;
    static const uint32_t M[8] = {0xff, 0, 0x55, 0xaa, 0x33, 0xcc, 0x0f, 0xf0};
    // quick: one report order and one grouping per interleaving (alternating), thorough: all of them
    enumerate("triples", triples.size() * i3.size() * masks * (thorough() ? 4 : 1), [&](Chooser& c, uint64_t i) {
        const int order = thorough() ? i % 4 : 0;
        if (thorough()) i /= 4;
        uint32_t mask = M[i % masks];
        i /= masks;
        const size_t s = i % i3.size();
        if (!thorough()) mask = s % 2 ? 0 : 0xff;
        fleet_run(c, triples[i / i3.size()], i3[s], mask, order);
    });
    // slots: whatever way connections end, all 128 slots come back
    note("slots: 128 clients ended in each of 11 ways (idle timeout in four phases, half close, close, reset, GOAWAY, protocol error before and after the preface, reset while blocked), "
         "all at once, one by one or in two halves, 1 to 2 rounds; then 128 new clients are served and the 129th is rejected");
    constexpr int WAYS = 11;
    enumerate("slots", WAYS * 3 * 2, [&](Chooser& c, uint64_t i) {
        const int way = static_cast<int>(i % WAYS);
        const int group = std::vector<int>{128, 1, 64}[i / WAYS % 3];
        const int rounds = 1 + static_cast<int>(i / WAYS / 3);
        Fleet f(c);
        f.strict_watch = false;
        std::vector<std::function<void()>> acts;
        const auto end = [&](int v) {
            f.p[v].tainted = true;
            switch (way) {
                case 4: f.fin(v); break;
                case 5: f.close(v); break;
                case 6: case 10: f.rst(v); break;
                case 7: f.send(v, goaway()); break;
                case 8: f.send(v, bytes("nonsense that is no preface at all")); break;
                case 9: f.send(v, frame(PING, 0, 0, Bytes(3, 0))); break;
                default: break;  // 0-3: idle
            }
        };
        for (int r = 0; r < rounds; ++r)
            for (int g = 0; g < 128 / group; ++g) {
                acts.push_back([&, g, r] {
                    for (int j = 0; j < group; ++j) {
                        const int v = f.connect(way == 10 || way == 3 ? 40 : ~size_t(0));
                        if (way == 1) f.send(v, Bytes{'P', 'R', 'I'});
                        else if (way == 2) f.send(v, hello());
                        else if (way == 3 || way == 10) f.send(v, hello() + big(0, 600));
                        else if (way == 0 || way == 8) continue;
                        else f.send(v, hello() + rq(v, 0));
                    }
                });
                acts.push_back([&, g, r] {
                    for (int j = 0; j < group; ++j) end(r * 128 + g * group + j);
                    if (way <= 3) f.s.w.advance_ms(5100);
                });
                if (way <= 3) acts.push_back([&] { f.s.w.advance_ms(300); });
            }
        int first = 0;
        std::string still;
        acts.push_back([&] {
            for (size_t j = 0; j < f.p.size(); ++j)
                if (!f.p[j].k->closes && still.empty()) still = "client " + std::to_string(j) + " not closed";
            first = static_cast<int>(f.p.size());
            for (int j = 0; j < 128; ++j) {
                const int v = f.connect();
                f.send(v, hello() + rq(v, 0));
            }
        });
        int extra = -1;
        bool rejected = false;
        acts.push_back([&] { extra = f.connect(); });
        acts.push_back([&] { rejected = f.p[extra].k->closes > 0; });
        size_t pos = 0;
        std::vector<bool> snapshot;
        f.s.w.env = [&] {
            if (pos == acts.size()) return false;
            acts[pos++]();
            return true;
        };
        f.s.w.quiescent = [&] {
            snapshot = f.closed_now();
            f.s.stop();
        };
        f.s.run();
        c.state(f.s.w.trace);
        const std::string ctx = "way " + std::to_string(way) + ", groups of " + std::to_string(group) + ", " + std::to_string(rounds) + " rounds";
        if (!still.empty()) {
            c.violation("close", ctx + ": " + still);
            return;
        }
        for (int j = 0; j < 128; ++j) {
            const auto& q = f.p[first + j];
            const auto o = parse(q.k->tx);
            c.validated();
            if (!q.k->accepted || o.answers.size() != 1 || !o.answers[0].ended || snapshot[first + j]) {
                c.violation("slot", ctx + ": new client " + std::to_string(j) + " of 128 is not served");
                return;
            }
        }
        if (!rejected) {
            c.violation("capacity", ctx + ": a 129th connection is not closed");
            return;
        }
        f.s.check_sane(c);
    });
    // a server that has seen very many connections
    set_hang_limit(200);
    note("long: 20000 (thorough 200000) connections one after the other or 100 at a time, ended in 6 ways, each served; then 128 at once and one too many");
    enumerate("long", 6 * 2, [&](Chooser& c, uint64_t i) {
        const int way = static_cast<int>(i % 6);
        const size_t group = i / 6 ? 100 : 1, N = thorough() ? 200000 : 20000;
        Server s(c);
        std::vector<ConnPtr> now;
        std::string bad;
        size_t done = 0;
        int phase = 0;
        const Bytes one = hello() + req(1, "/e");
        s.w.env = [&] {
            if (!bad.empty()) return false;
            if (phase == 0) {
                if (done >= N) {
                    phase = 3;
                    now.clear();
                    for (int j = 0; j < 128; ++j) now.push_back(s.w.connect(j)), s.w.send(now.back(), one);
                    return true;
                }
                now.clear();
                s.w.conns.clear();  // what is closed is only kept here
                s.seen.clear();
                for (size_t j = 0; j < group; ++j) {
                    now.push_back(s.w.connect(static_cast<int>(j)));
                    if (way != 5) s.w.send(now.back(), way == 3 ? one + goaway() : way == 4 ? one + frame(PING, 0, 0, Bytes(3, 0)) : one);
                }
                phase = 1;
                return true;
            }
            const auto served = [&] {
                for (auto& k : now)
                    if (bad.empty() && (!k->accepted || (way != 5 || phase >= 3) == k->tx.empty())) bad = "served|connection " + std::to_string(done) + " is not served";
            };
            const auto closed = [&] {
                for (auto& k : now)
                    if (bad.empty() && k->closes != 1) bad = "close|connection " + std::to_string(done) + " is not closed once";
            };
            if (phase == 1) {
                if (way != 5) served();
                for (auto& k : now) {
                    if (way == 0 || way == 5) s.w.fin(k);
                    if (way == 1) s.w.close_client(k);
                    if (way == 2) s.w.rst(k);
                }
                phase = 2;
                return true;
            }
            if (phase == 2) {
                closed();
                done += group;
                phase = 0;
                return true;
            }
            if (phase == 3) {
                served();
                for (auto& k : now)
                    if (bad.empty() && k->closes) bad = "close|one of 128 connections closed after " + std::to_string(done) + " earlier ones";
                now = {s.w.connect(200)};
                phase = 4;
                return true;
            }
            if (phase == 4) {
                if (!now[0]->closes) bad = "capacity|a 129th connection is not closed after " + std::to_string(done) + " earlier ones";
                phase = 5;
                return true;
            }
            return false;
        };
        s.run();
        c.validated(N);
        c.state(s.w.trace);
        if (srv::report(c, bad, "connections ended in way " + std::to_string(way) + ", " + std::to_string(group) + " at a time")) return;
        s.check_sane(c);
    });
    set_hang_limit(0);
    // capacity
    note("capacity: 126-131 clients connected one by one or in one burst, 1-3 clients too many, one of the served connections (first, middle, last) ended in 6 ways, "
         "before or together with the next connect, 4 report orders");
    enumerate("capacity", 6ull * 3 * 3 * 2 * 2 * 4, [&](Chooser& c, uint64_t i) {
        const int order = i % 4;
        i /= 4;
        const bool burst = i % 2;
        i /= 2;
        const bool together = i % 2;
        i /= 2;
        const int extra = 1 + i % 3;
        i /= 3;
        const int victim = std::vector<int>{0, 64, 127}[i % 3];
        const int way = i / 3;
        Fleet f(c);
        set_order(f.s, order);
        int over = 0;      // connections accepted while 128 were open
        std::vector<int> fate(200, -1);  // 1 served, 0 to be closed at once
        f.s.w.on_call = [&](const sim::Call& call) {
            if (call.sys == Sys::Accept && !f.s.w.backlog.empty()) {
                int open = 0;
                for (auto& q : f.p) open += q.k->accepted && !q.k->closes;
                fate[f.s.w.backlog.front()->client] = open < 128;
                over = std::max(over, open);
            }
            if (call.sys == Sys::EpollWait || call.sys == Sys::Poll)
                for (auto& q : f.p)
                    if (fate[q.k->client] == 0 && !q.k->closes && f.bad.empty()) f.bad = "capacity|connection beyond 128 not closed at once";
        };
        size_t n = 0;
        const size_t fill = 128 + extra;
        int step = 0;
        std::vector<bool> snapshot;
        f.s.w.env = [&] {
            if (n < fill) {
                do {
                    const int me = f.connect();
                    // few of them talk already, so that both kinds of connection exist
                    if (n % 16 == 0 || n >= 127) f.send(me, hello() + rq(me, 0));
                    ++n;
                } while (burst && n < fill);
                return true;
            }
            const auto end = [&] {
                if (way == 0) f.fin(victim);
                else if (way == 1) f.rst(victim);
                else if (way == 2) f.close(victim);
                else if (way == 3) f.send(victim, f.p[victim].sent.empty() ? hello() + goaway() : goaway());
                else if (way == 4) f.send(victim, f.p[victim].sent.empty() ? bytes("nonsense that is no preface at all") : frame(PING, 0, 0, Bytes(3, 0)));
                else if (f.p[victim].sent.empty()) f.send(victim, hello() + rq(victim, 0) + goaway());
                else f.send(victim, rq(victim, 1) + goaway());
            };
            switch (step++) {
                case 0:
                    end();
                    if (!together) return true;
                    [[fallthrough]];
                case 1:
                    if (step == 1) ++step;
                    f.send(f.connect(), hello() + rq(static_cast<int>(f.p.size()) - 1, 0));
                    return true;
                case 2: f.send(f.connect(), hello() + rq(static_cast<int>(f.p.size()) - 1, 0)); return true;
                case 3:  // everyone alive is still served
                    for (size_t j = 0; j < 128; j += 9)
                        if (!f.must_close(f.p[j])) f.send(static_cast<int>(j), f.p[j].sent.empty() ? hello() + rq(j, 5) : rq(j, 5));
                    return true;
                default: return false;
            }
        };
        f.s.w.quiescent = [&] {
            snapshot = f.closed_now();
            f.s.stop();
        };
        f.s.run();
        if (over > 128) f.bad = "capacity|more than 128 connections served at a time";
        for (size_t j = 0; j < f.p.size(); ++j)
            if (fate[j] == 0) {
                if (!f.p[j].k->tx.empty() && f.bad.empty()) f.bad = "capacity|connection beyond 128 was served";
                f.p[j].abrupt = true;
            } else if (fate[j] < 0 && f.bad.empty())
                f.bad = "accept|a connection was never accepted";
        // the last newcomer always finds a free slot unless the one before took it
        int served = 0;
        for (size_t j = fill; j < f.p.size(); ++j) served += fate[j] == 1;
        if (served != 1 && f.bad.empty() && !(together && served == 0)) f.bad = "slot|" + std::to_string(served) + " clients served in the one freed slot";
        for (int j = 0; j < 128; ++j)
            if (fate[j] != 1 && f.bad.empty()) f.bad = "capacity|client " + std::to_string(j) + " rejected below capacity";
        if (!f.check(snapshot)) f.s.check_sane(c);
        c.state(f.s.w.trace);
    });
    enumerate("boundary", 6 * 2 * 2, [&](Chooser& c, uint64_t i) {
        const size_t n = 126 + i % 6;
        const bool burst = i / 6 % 2, talk = i / 12;
        Fleet f(c);
        f.s.w.env = [&] {
            if (f.p.size() >= n) return false;
            do {
                const int me = f.connect();
                if (talk || f.p.size() == n) f.send(me, hello() + rq(me, 0));
            } while (burst && f.p.size() < n);
            return true;
        };
        std::vector<bool> snapshot;
        f.s.w.quiescent = [&] {
            snapshot = f.closed_now();
            f.s.stop();
        };
        f.s.run();
        for (size_t j = 128; j < n; ++j) {
            f.p[j].abrupt = true;
            if (!f.p[j].k->tx.empty()) f.bad = "capacity|connection beyond 128 was served";
        }
        if (!f.check(snapshot)) f.s.check_sane(c);
    });
}

// ---- C15 ------------------------------------------------------------------------------------------
namespace {
struct Timed {
    Fleet f;
    struct Ev {
        int64_t ms;
        std::function<void()> fn;
    };
    std::vector<Ev> plan;
    std::vector<int64_t> last;  // per peer: virtual ms of its last progress
    int64_t end_ms = 0;
    int busy_every = 0;
    std::function<void()> busy;
    int64_t next_busy = 0;
    explicit Timed(Chooser& c) : f(c) {}
    int64_t now() { return f.s.w.now_ns / 1000000; }
    void run() {
        std::stable_sort(plan.begin(), plan.end(), [](auto& a, auto& b) { return a.ms < b.ms; });
        size_t pos = 0;
        f.s.w.env = [&] {
            if (pos < plan.size() && plan[pos].ms <= now()) {
                plan[pos++].fn();
                return true;
            }
            if (busy_every && now() >= next_busy) {
                next_busy = now() + busy_every;
                busy();
                return true;
            }
            // let time pass up to the next event, but never past the end of the server's wait
            int64_t t = INT64_MAX;
            if (pos < plan.size()) t = plan[pos].ms;
            if (busy_every) t = std::min(t, next_busy);
            if (t != INT64_MAX && t - now() < 25) {
                f.s.w.now_ns = std::max(f.s.w.now_ns, t * 1000000);
                return true;
            }
            return false;
        };
        f.s.w.quiescent = [&] {
            if (now() >= end_ms) f.s.stop();
        };
        f.s.w.before_wait = [&] {
            if (now() >= end_ms) f.s.stop();
        };
        f.s.run();
    }
    // idle deadline of peer i respected, given its last progress; alive_until: it must not be closed before
    bool check_idle(Chooser& c, int i, int64_t last_ms, const std::string& ctx) {
        const auto& k = f.p[i].k;
        const int64_t T = f.s.w.max_wait_ms;
        if (T > 1000 || T < 0) {
            c.violation("interval", "poll interval of " + std::to_string(T) + " ms");
            return true;
        }
        const int64_t slack = T + std::max(busy_every, 1);
        if (k->closes && k->closed_at / 1000000 < last_ms + 5000) {
            c.violation("early", ctx + ": closed " + std::to_string(k->closed_at / 1000000 - last_ms) + " ms after its last progress");
            return true;
        }
        if (end_ms > last_ms + 5000 + slack && (!k->closes || k->closed_at / 1000000 > last_ms + 5000 + slack)) {
            c.violation("late", ctx + (k->closes ? ": closed only " + std::to_string(k->closed_at / 1000000 - last_ms) + " ms after its last progress" : ": idle connection never closed"));
            return true;
        }
        return false;
    }
};
}  // namespace

MC_PROPERTY(C15) {
    note("virtual time; one observed connection in 6 phases (nothing sent, inside the preface, after the preface, inside a frame, response blocked, response done) x all sequences of 3 "
         "steps (gap in {1000, 4900, 5000, 5200} ms, then one octet of progress or none) x 3 companions (none, busy every 10 ms, other idle connection)");
    const std::vector<int> gaps = thorough() ? std::vector<int>{30, 1000, 2500, 4900, 4990, 5000, 5060, 5200} : std::vector<int>{1000, 4900, 5000, 5200};
    const int G = static_cast<int>(gaps.size());
    const int depth = 3;
    enumerate("gaps", ipow(G * 2, depth) * 6 * 3, [&](Chooser& c, uint64_t i) {
        const int companion = i % 3;
        i /= 3;
        const int phase = i % 6;
        i /= 6;
        Timed t(c);
        int64_t at = 100, last = 0;
        int me = -1;
        Bytes supply;
        Bytes drip = hello() + rq(0, 0) + ping(1) + ping(2);
        size_t fed = 0;
        t.plan.push_back({at, [&] {
                              me = t.f.connect(phase == 4 ? 50 : ~size_t(0));
                              fed = phase == 0 ? 0 : phase == 1 ? 10 : phase == 2 ? 24 : phase == 3 ? drip.size() - 20 : phase == 5 ? drip.size() - 34 : 0;
                              if (phase == 4) t.f.send(me, hello() + big(0, 300));
                              else if (fed) t.f.send(me, Bytes(drip.begin(), drip.begin() + fed));
                          }});
        last = at;
        bool dead = false;
        int64_t final_last = last;
        for (int d = 0; d < depth; ++d) {
            const int g = gaps[i % (G * 2) / 2];
            const bool progress = i % 2;
            i /= G * 2;
            at += g;
            if (at > final_last + 5000) dead = true;
            if (dead) break;
            if (!progress) continue;
            final_last = at;
            t.plan.push_back({at, [&] {
                                  if (phase == 4) t.f.s.w.set_room(t.f.p[me].k, 1);
                                  else t.f.send(me, Bytes(drip.begin() + fed, drip.begin() + fed + 1)), ++fed;
                              }});
        }
        t.end_ms = final_last + 5300;
        int other = -1;
        if (companion == 1) {
            t.plan.push_back({50, [&] {
                                  other = t.f.connect();
                                  t.f.send(other, hello());
                                  t.busy = [&] { t.f.send(other, ping(77)); };
                              }});
            t.busy = [] {};
            t.busy_every = 10;
            t.next_busy = 60;
        } else if (companion == 2) {
            t.plan.push_back({3000, [&] {
                                  other = t.f.connect();
                                  t.f.send(other, hello());
                              }});
        }
        t.run();
        if (srv::report(c, t.f.bad, "")) return;
        c.validated();
        c.state(t.f.s.w.trace);
        const std::string ctx = "phase " + std::to_string(phase) + ", companion " + std::to_string(companion);
        if (t.check_idle(c, me, final_last, ctx)) return;
        if (companion == 1 && t.f.p[other].k->closes) {
            c.violation("early", ctx + ": the busy connection was closed");
            return;
        }
        if (companion == 2 && t.check_idle(c, other, 3000, ctx + " (other)")) return;
        t.f.s.check_sane(c);
    });
    // The clocks: the machine has been up for any time, and its wall clock may be set while connections are open.
    const std::vector<int64_t> wraps = {0, 2147483648000LL, 4294967296000LL, 2147483648000000LL, 4294967296000000LL, 65536000000000LL, 1ll << 53, 2147483648000000000LL, 4294967296000000000LL};
    const std::vector<int64_t> steps = {0, 3600, -3600, 86400LL * 400, -86400LL * 400, 6, -6};
    enumerate("clocks", wraps.size() * 14 * 3 + steps.size() * 10 * 3, [&](Chooser& c, uint64_t i) {
        Timed t(c);
        std::string ctx;
        const int kind = i % 3;  // idle from the start, one request, pings every 4.9 s and then idle
        i /= 3;
        if (i < wraps.size() * 14) {
            const int64_t before = static_cast<int64_t>(i % 14);
            const int64_t w = wraps[i / 14];
            t.f.s.w.boot_ns = std::max<int64_t>(0, w - before * 1000000000);
            ctx = "monotonic clock " + std::to_string(before) + " s before " + std::to_string(w) + " ns";
        } else {
            i -= wraps.size() * 14;
            const int64_t at = 300 + static_cast<int64_t>(i % 10) * 1250, step = steps[i / 10];
            t.plan.push_back({at, [&t, step] { t.f.s.w.wall_ns += step * 1000000000; }});
            ctx = "wall clock set by " + std::to_string(step) + " s after " + std::to_string(at) + " ms";
        }
        int64_t last = 200;
        t.plan.push_back({100, [&] { t.f.connect(); }});
        t.plan.push_back({200, [&] { t.f.send(0, hello() + (kind == 1 ? rq(0, 0) : Bytes{})); }});
        if (kind == 2)
            for (int k = 0; k < 3; ++k) last += 4900, t.plan.push_back({last, [&t, k] { t.f.send(0, ping(k)); }});
        t.end_ms = last + 5300;
        t.run();
        if (srv::report(c, t.f.bad, ctx)) return;
        c.validated();
        c.state(t.f.s.w.trace);
        if (t.check_idle(c, 0, last, ctx)) return;
        t.f.s.check_sane(c);
    });
    note("clocks: the monotonic clock passes each of 9 values at which a narrow type would wrap, 0-13 s after the start; the wall clock is set by +-6 s, 1 h, 400 days at 10 times");
    enumerate("endurance", 3 * 2, [&](Chooser& c, uint64_t i) {  // hours of activity, one event just within each 5 s
        const int kind = i % 3;
        const bool late = i / 3;
        const int N = thorough() ? 60000 : 8000;
        Timed t(c);
        t.plan.push_back({100, [&] {
                              t.f.connect(kind == 2 ? 50 : ~size_t(0));
                              if (late) t.f.connect();
                              t.f.send(0, hello() + (kind == 2 ? big(0, static_cast<size_t>(N) + 300) : Bytes{}));
                              if (late) t.f.send(1, hello());
                          }});
        int64_t at = 100;
        const Bytes drip = frame(0x42, 0, 0, Bytes(16384, 1)), drips = drip + drip;
        for (int k = 0; k < N; ++k) {
            at += 4990;
            t.plan.push_back({at, [&, k] {
                                  if (kind == 0) t.f.send(0, ping(k));
                                  else if (kind == 1) t.f.send(0, Bytes(drips.begin() + k % drip.size(), drips.begin() + k % drip.size() + 1));
                                  else t.f.s.w.set_room(t.f.p[0].k, 1);
                              }});
        }
        t.end_ms = at + 5300;
        t.run();
        if (srv::report(c, t.f.bad, "")) return;
        c.validated();
        c.state(t.f.s.w.trace);
        const std::string ctx = "active for " + std::to_string(N) + " times 4.99 s (kind " + std::to_string(kind) + ")";
        if (t.check_idle(c, 0, at, ctx)) return;
        if (late && t.check_idle(c, 1, 100, ctx + ", its idle neighbour")) return;
        t.f.s.check_sane(c);
    });
    note("endurance: thousands of 5 s periods with one octet in each");
    note("2-6 connections idle together, every subset kept alive by one PING 100 ms before the limit, in both orders of accept");
    const int maxn = thorough() ? 8 : 6;
    enumerate("subsets", 1ull << (maxn + 1), [&](Chooser& c, uint64_t i) {
        const bool busy = i & 1;
        const uint32_t mask = i >> 1;
        Timed t(c);
        t.plan.push_back({10, [&] {
                              for (int j = 0; j < maxn; ++j) t.f.send(t.f.connect(), hello());
                          }});
        t.plan.push_back({4910, [&] {
                              for (int j = 0; j < maxn; ++j)
                                  if (mask >> j & 1) t.f.send(j, ping(j));
                          }});
        int other = -1;
        if (busy) {
            t.plan.push_back({5, [&] {
                                  other = t.f.connect();
                                  t.f.p.back().k->client = 99;
                                  t.f.send(other, hello());
                              }});
        }
        t.end_ms = 5200;
        if (busy) {
            t.busy_every = 10;
            t.next_busy = 100;
            t.busy = [&] { t.f.send(0, ping(5)); };
        }
        t.run();
        c.validated();
        for (int j = 0; j < maxn + busy; ++j) {
            const bool keep = busy ? j == 0 || (j >= 1 && j <= maxn - 1 && (mask >> j & 1)) : mask >> j & 1;
            const int64_t last = busy && j == 0 ? t.end_ms : keep ? 4910 : busy && j == 0 ? 5 : 10;
            if (t.check_idle(c, j, last, "connection " + std::to_string(j))) return;
        }
        t.f.s.check_sane(c);
        c.state(t.f.s.w.trace);
    });
}

// ---- C16 ------------------------------------------------------------------------------------------
namespace {
struct Alt {
    long result;
    bool dead;  // the connection is gone afterwards
};
const std::vector<Alt>& rarer(Sys s) {
    static const std::vector<Alt> none, acc{{-ENOPROTOOPT, false}, {-EHOSTDOWN, false}, {-ENONET, false}, {-EHOSTUNREACH, false}, {-EOPNOTSUPP, false}, {-ENETUNREACH, false}, {-ETIMEDOUT, false}, {-EIO, false}, {-EINVAL, false}},
        rd{{-EHOSTUNREACH, true}, {-ENETUNREACH, true}, {-ENETDOWN, false}, {-EIO, false}, {-ENOBUFS, false}, {-ECONNREFUSED, true}, {-ECONNABORTED, true}, {-EPIPE, true}, {-ENOTCONN, true}, {-EBADMSG, false}, {-EPROTO, true}, {2, false}, {9, false}},
        wr{{-EHOSTUNREACH, true}, {-ENETUNREACH, true}, {-ENETDOWN, false}, {-EIO, false}, {-EACCES, false}, {-EPERM, false}, {-ECONNABORTED, true}, {-EMSGSIZE, false}, {-ENOTCONN, true}, {-EDQUOT, false}, {-ENOSPC, false}, {2, false}, {9, false}},
        fc{{-EACCES, false}, {-EINTR, false}, {-ENOMEM, false}, {-EAGAIN, false}}, so{{-ENOMEM, false}, {-EPERM, false}, {-ENOPROTOOPT, false}, {-EDOM, false}}, gp{{-EINVAL, true}, {-ENOMEM, false}, {-EFAULT, false}}, ec{{-EPERM, false}, {-EEXIST, false}, {-ELOOP, false}},
        ew{{-EAGAIN, false}, {-EIO, false}}, sh{{-EINVAL, false}, {-ENOBUFS, false}}, cl{{-ENOSPC, false}, {-EDQUOT, false}};
    switch (s) {
        case Sys::Accept: return acc;
        case Sys::Read: return rd;
        case Sys::Write: return wr;
        case Sys::Fcntl: return fc;
        case Sys::Setsockopt: case Sys::Getsockopt: return so;
        case Sys::Getpeername: return gp;
        case Sys::EpollCtl: return ec;
        case Sys::EpollWait: case Sys::Poll: return ew;
        case Sys::Shutdown: return sh;
        case Sys::Close: return cl;
        default: return none;
    }
}
const std::vector<Alt>& alternatives(Sys s) {
    static const std::vector<Alt> none, acc{{-EAGAIN, false}, {-EINTR, false}, {-ECONNABORTED, false}, {-EMFILE, false}, {-ENFILE, false}, {-ENOBUFS, false}, {-ENOMEM, false}, {-EPROTO, false}, {-EPERM, false}, {-ENETDOWN, false}},
        rd{{-EAGAIN, false}, {-EINTR, false}, {-ECONNRESET, true}, {-ETIMEDOUT, true}, {-ENOMEM, false}, {1, false}},
        wr{{-EAGAIN, false}, {-EINTR, false}, {-EPIPE, true}, {-ECONNRESET, true}, {-ETIMEDOUT, true}, {-ENOBUFS, false}, {-ENOMEM, false}, {1, false}},
        fc{{-EPERM, false}, {-EINVAL, false}}, so{{-ENOBUFS, false}, {-EINVAL, false}}, gp{{-ENOTCONN, true}, {-ENOBUFS, false}}, ec{{-ENOMEM, false}, {-ENOSPC, false}},
        ew{{-EINTR, false}, {-ENOMEM, false}}, sh{{-ENOTCONN, true}}, cl{{-EINTR, false}, {-EIO, false}};
    switch (s) {
        case Sys::Accept: return acc;
        case Sys::Read: return rd;
        case Sys::Write: return wr;
        case Sys::Fcntl: return fc;
        case Sys::Setsockopt: case Sys::Getsockopt: return so;
        case Sys::Getpeername: return gp;
        case Sys::EpollCtl: return ec;
        case Sys::EpollWait: case Sys::Poll: return ew;
        case Sys::Shutdown: return sh;
        case Sys::Close: return cl;
        default: return none;
    }
}
void scenario(Fleet& f, int which, std::vector<std::function<void()>>& acts) {
    switch (which) {
        case 0:  // one client, answered, half-close
            acts.push_back([&] { f.connect(); f.send(0, hello() + rq(0, 0)); });
            acts.push_back([&] { f.fin(0); });
            break;
        case 1:  // two clients, one blocked on writing, protocol error
            acts.push_back([&] { f.connect(80); f.send(0, hello() + big(0, 600)); f.connect(); f.send(1, hello() + rq(1, 0)); });
            acts.push_back([&] { f.s.w.set_room(f.p[0].k, ~size_t(0)); });
            acts.push_back([&] { f.send(1, frame(PING, 0, 0, Bytes(3, 1))); });
            break;
        case 2:  // a reset while another client arrives
            acts.push_back([&] { f.connect(); f.send(0, hello() + rq(0, 0)); f.connect(); });
            acts.push_back([&] { f.rst(1); f.connect(); f.send(2, hello() + rq(2, 0)); });
            acts.push_back([&] { f.send(0, rq(0, 1)); f.close(2); });
            break;
        case 3:  // the client vanishes while its response is written
            acts.push_back([&] { f.connect(40); f.send(0, hello() + big(0, 20000) + rq(0, 1)); });
            acts.push_back([&] { f.close(0); f.s.w.set_room(f.p[0].k, 100); });
            acts.push_back([&] { f.connect(); f.send(1, hello() + rq(1, 0) + goaway()); });
            break;
        default: {  // more clients than fit
            acts.push_back([&] { for (int j = 0; j < 128; ++j) f.connect(); f.send(127, hello() + rq(127, 0)); });
            acts.push_back([&] { f.p[f.connect()].tainted = true; });  // rejected, or served if a slot is free by then
            acts.push_back([&] { f.rst(0); f.fin(1); });
        }
    }
}
// wide: the rarer errors too; repeat: how many calls of the same kind (on the same connection) fail in a row
void faulty(Chooser& c, int which, bool short_tail = false, bool wide = false, int repeat = 1) {
    Fleet f(c);
    int again = 0;
    Sys again_sys{};
    sim::Conn* again_conn = nullptr;
    Alt again_alt{};
    f.strict_watch = false;
    std::vector<std::function<void()>> acts;
    scenario(f, which, acts);
    size_t pos = 0;
    int idle = 0;
    std::vector<bool> snapshot, ever;
    std::vector<std::string> what;
    int probe = -1, probe2 = -1;
    f.s.w.env = [&] {
        if (pos < acts.size()) {
            acts[pos++]();
            return true;
        }
        return false;
    };
    f.s.w.fault = [&](const sim::Call& call) -> long {
        if (call.sys == Sys::Close && which == 4 && call.conn && call.conn->client > 1 && call.conn->client < 127) return sim::DEFAULT;
        if (again > 0 && call.sys == again_sys && (!again_conn || call.conn == again_conn) && !f.s.stopped && probe2 < 0 && !(call.sys == Sys::Accept && f.s.w.backlog.empty())) {
            --again;
            if (call.conn && call.conn->client >= 0) f.p[call.conn->client].tainted = true;
            return again_alt.result;
        }
        if (f.s.w.waits == 0 || f.s.stopped || probe2 >= 0 || c.cost() >= c.bound()) return sim::DEFAULT;  // only calls made to accept or serve clients
        if (which == 4 && pos < 2 && !(call.conn && call.conn->client >= 127)) return sim::DEFAULT;
        if (idle > 1 && call.sys == Sys::EpollWait) return sim::DEFAULT;
        if (call.conn && f.s.w.listening == false) return sim::DEFAULT;
        std::vector<Alt> alt = wide ? rarer(call.sys) : alternatives(call.sys);
        if (repeat > 1) {
            std::vector<Alt> both = alternatives(call.sys);
            both.insert(both.end(), rarer(call.sys).begin(), rarer(call.sys).end());
            alt.clear();
            for (auto& x : both)
                if (x.result < 0 && !x.dead && x.result != -ECONNABORTED && x.result != -EPROTO) alt.push_back(x);
        }
        if (alt.empty()) return sim::DEFAULT;
        if (call.sys == Sys::Accept && f.s.w.backlog.empty()) return sim::DEFAULT;
        const int a = c.dev(static_cast<int>(alt.size()) + 1, sim::sys_name(call.sys));
        if (!a) return sim::DEFAULT;
        const Alt& x = alt[a - 1];
        again = repeat - 1, again_sys = call.sys, again_conn = call.conn, again_alt = x;
        what.push_back((repeat > 1 ? std::to_string(repeat) + " times " : "") + std::string(sim::sys_name(call.sys)) + "->" + (x.result < 0 ? strerror(static_cast<int>(-x.result)) : std::to_string(x.result)));
        sim::Conn* k = call.conn;
        if (call.sys == Sys::Accept && (x.result == -ECONNABORTED || x.result == -EPROTO)) {
            k = f.s.w.backlog.front().get();
            f.p[k->client].abrupt = true;
        }
        if (k && k->client >= 0) {
            if (x.result != 1) f.p[k->client].tainted = true;
            if (x.dead) {
                k->reset = true;
                k->client_gone = true;
                k->rx.clear();
                k->so_error = 0;
                f.p[k->client].abrupt = true;
                f.s.w.notify(k);
            }
        }
        return x.result;
    };
    int lasting = 0;
    f.s.w.quiescent = [&] {
        if (again > 0 && (again_sys == Sys::Accept || again_sys == Sys::EpollWait || again_sys == Sys::Poll) && ++lasting < 60) return;  // the failure lasts: wait for its end
        ++idle;
        if (idle == 1) {
            snapshot = f.closed_now();
            probe = f.connect();
            f.send(probe, hello() + rq(probe, 0));
        } else if (idle == 2) {
            snapshot.push_back(f.p[probe].k->closes > 0);
            if (short_tail && std::none_of(f.p.begin(), f.p.end(), [](auto& q) { return q.tainted; })) idle = 300;
        } else if (idle == 240) {  // six seconds later whatever was stuck has been closed as idle
            ever = f.closed_now();
            probe2 = f.connect();
            f.send(probe2, hello() + rq(probe2, 0));
        } else if (idle > 240) {
            f.s.stop();
        }
    };
    f.s.run();
    std::string ctx;
    for (auto& w : what) ctx += (ctx.empty() ? "" : ", ") + w;
    c.outcome(ctx);
    c.state(f.s.w.trace);
    if (f.s.threw || f.s.w.killed_by_sigpipe) {
        c.violation("terminated", "the server ends after " + ctx + (f.s.threw ? ": " + f.s.what : ": SIGPIPE"));
        return;
    }
    if (f.s.returned && !f.s.stopped) {
        c.violation("terminated", "start() returned after " + ctx);
        return;
    }
    // connections a failed call concerns may be closed or served; the others are as if nothing had happened
    std::vector<bool> closed = snapshot;
    if (probe2 >= 0) closed.push_back(f.p[probe2].k->closes > 0);
    for (size_t i = 0; i < closed.size() && i < ever.size(); ++i)
        if (f.p[i].tainted) closed[i] = ever[i];
    if (closed.size() != f.p.size()) closed.resize(f.p.size());
    if (f.check(closed)) return;
    for (size_t i = 0; i < f.p.size(); ++i)
        if (!f.p[i].tainted && !f.p[i].k->accepted) {
            c.violation("accept", "client " + std::to_string(i) + " never accepted after " + ctx);
            return;
        }
    f.s.check_sane(c);
}
}  // namespace

MC_PROPERTY(C16) {
    note("5 scenarios (1-3 clients answered, blocked, reset, vanished; 129 clients) x every system call made after the first wait x every error of accept, read, write, fcntl, setsockopt, getpeername, epoll_ctl, "
         "epoll_wait, shutdown and close, singly and in pairs (thorough: triples); a probe client before and one six virtual seconds after must be served");
    const int b = thorough() ? 3 : 2;
    explore("faults-simple", b, [&](Chooser& c) { faulty(c, 0, true); });
    explore("faults-blocked", b - 1, [&](Chooser& c) { faulty(c, 1, true); });
    explore("faults-reset", b - 1, [&](Chooser& c) { faulty(c, 2, true); });
    explore("faults-vanished", b - 1, [&](Chooser& c) { faulty(c, 3, true); });
    explore("faults-capacity", 1, [&](Chooser& c) { faulty(c, 4, true); });
    note("rare: the same with every other error these calls can return, singly (thorough: pairs); lasting: every error that does not end the connection, 2, 5 and 40 times in a row");
    for (int which = 0; which < 4; ++which) {
        explore("rare" + std::to_string(which), which == 0 ? b - 1 : 1, [&](Chooser& c) { faulty(c, which, true, true); });
        for (int times : {2, 5, 40})
            explore("lasting" + std::to_string(which) + "-" + std::to_string(times), 1, [&](Chooser& c) { faulty(c, which, true, false, times); });
    }
}

// ---- C17 ------------------------------------------------------------------------------------------
namespace {
struct Flood {};  // thrown out of the server when it does not come back
uint64_t stop_run(Chooser& c, int which, int64_t at, bool eintr, int where) {
    // where 0: at kernel call number `at`; 1: inside the handler of request number `at`
    Fleet f(c);
    std::vector<std::function<void()>> acts;
    scenario(f, which, acts);
    acts.push_back([&] { const int q = f.connect(); f.send(q, hello() + rq(q, 0)); });
    size_t pos = 0;
    f.s.w.env = [&] {
        if (pos < acts.size()) {
            acts[pos++]();
            return true;
        }
        return false;
    };
    int64_t stopped_at = -1;
    uint64_t waits_at = 0;
    bool in_wait = false;
    const auto stop = [&] {
        f.s.stop();
        stopped_at = f.s.w.now_ns;
        waits_at = f.s.w.waits;
    };
    int idle = 0;
    bool late = false;
    f.s.w.on_call = [&](const sim::Call& call) {
        if (where == 0 && stopped_at < 0 && static_cast<int64_t>(call.serial) == at) {
            in_wait = call.sys == Sys::EpollWait || call.sys == Sys::Poll;
            stop();
        } else if (stopped_at >= 0 && (call.sys == Sys::EpollWait || call.sys == Sys::Poll) && call.op != 0 && f.s.w.waits > waits_at + 1)
            late = true;
        if (late && f.s.w.waits > waits_at + 50) throw Flood{};
    };
    f.s.w.fault = [&](const sim::Call& call) -> long {
        if (in_wait && eintr && static_cast<int64_t>(call.serial) == at) return -EINTR;
        return sim::DEFAULT;
    };
    int handled = 0;
    f.s.on_request = [&](const Req&) {
        if (where == 1 && handled++ == at) {
            stop();
            if (eintr) throw std::runtime_error("handler failed");
        }
    };
    bool returned_without = false;
    f.s.w.quiescent = [&] {
        if (++idle > 300 && stopped_at < 0) stop();  // 7.5 virtual seconds without a stop request
    };
    f.s.run();
    c.validated();
    c.state(f.s.w.trace);
    (void)returned_without;
    const uint64_t calls = f.s.w.calls;
    if (late) {
        c.violation("late", "the server goes on waiting for events after a stop request");
        return calls;
    }
    if (f.s.returned && stopped_at >= 0 && f.s.w.now_ns - stopped_at > 1000 * 1000000LL) {
        c.violation("late", "start() returned only " + std::to_string((f.s.w.now_ns - stopped_at) / 1000000) + " ms after the stop request");
        return calls;
    }
    f.s.check_sane(c);
    return calls;
}
}  // namespace

MC_PROPERTY(C17) {
    note("5 scenarios x a stop request at every kernel call of the run, in a wait with and without interruption, (the 128-client scenario: quick looks at the last 200 calls) inside every handler call (returning and throwing), and before start(); "
         "without a stop request the server still runs after 300 idle poll intervals");
    for (int which = 0; which < 5; ++which) {
        uint64_t calls = 1;
        {
            Chooser dry;
            dry.bound_ = 0;
            calls = stop_run(dry, which, -1, false, 0);
        }
        // the 128-client scenario is long: quick looks at its last 200 calls only
        const uint64_t first = which == 4 && !thorough() && calls > 200 ? calls - 200 : 0;
        const std::string sec = "scenario" + std::to_string(which);
        enumerate(sec, (calls - first + 1) * 2, [&](Chooser& c, uint64_t i) { stop_run(c, which, static_cast<int64_t>(first + i / 2), i % 2, 0); });
        enumerate(sec + "-handler", 8, [&](Chooser& c, uint64_t i) { stop_run(c, which, static_cast<int64_t>(i / 2), i % 2, 1); });
    }
    enumerate("before-start", 2, [&](Chooser& c, uint64_t i) {
        Fleet f(c);
        if (i) {
            f.s.w.env = [&, n = 0]() mutable {
                if (n++) return false;
                f.connect();
                f.send(0, hello() + rq(0, 0));
                return true;
            };
        }
        f.s.stop();
        f.s.w.quiescent = nullptr;
        f.s.w.on_call = [&](const sim::Call&) {
            if (f.s.w.waits > 3) throw Flood{};
        };
        f.s.run();
        if (f.s.w.waits > 1) c.violation("late", "the server waits for events although it was stopped before start()");
        else f.s.check_sane(c);
    });
    // clients that always have more to send
    note("clients that refill the socket whenever the server reads (tiny frames, requests, header fragments), stop at the n-th read or handler call");
    enumerate("flood", 4 * 2 * 24, [&](Chooser& c, uint64_t i) {
        const int kind = i % 4;
        i /= 4;
        const bool two = i % 2;
        const uint64_t at = i / 2;
        Fleet f(c);
        f.strict_watch = false;
        uint64_t reads = 0, after = 0;
        uint32_t sid = 1;
        bool stopped = false, flooded = false;
        const auto unit = [&]() -> Bytes {
            Bytes b;
            for (int k = 0; k < 30; ++k) {
                if (kind == 0) b += ping(k);
                if (kind == 1) b += window_update(0, 1);
                if (kind == 2) b += req(sid, "/e0-1"), sid += 2;
                if (kind == 3) b += frame(0x55, 0, 0, Bytes(200, 1));
            }
            return b;
        };
        int n = 0;
        f.s.w.env = [&] {
            if (n++) return false;
            f.connect();
            f.s.w.send(f.p[0].k, hello());
            if (two) {
                f.connect();
                f.s.w.send(f.p[1].k, hello() + rq(1, 0));
            }
            return true;
        };
        f.s.w.on_call = [&](const sim::Call& call) {
            if (call.sys == Sys::Read && call.conn && call.conn->client == 0) {
                ++reads;
                size_t have = 0;
                for (auto& s : call.conn->rx) have += s.size();
                if (have < 500 && !flooded) f.s.w.send(f.p[0].k, unit());
                if (reads == at * at + 1 && !stopped) {
                    stopped = true;
                    f.s.stop();
                }
            }
            if (stopped && !flooded && ++after > 4000 && call.sys != Sys::Close) {
                flooded = true;
                throw Flood{};
            }
        };
        f.s.w.quiescent = [&] {
            if (!stopped) f.s.stop(), stopped = true;
        };
        f.s.run();
        c.state(f.s.w.trace);
        if (flooded) c.violation("flood", "a client that keeps sending keeps the server from stopping");
        else f.s.check_sane(c);
    });
}

