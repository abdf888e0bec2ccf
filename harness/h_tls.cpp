// C19, C20 and the TLS parts of C15 and C16: a real TLS server inside the simulated kernel, talking to
// real OpenSSL clients whose ciphertext is cut, delayed, damaged and blocked in every way in the bounds.
#include <errno.h>
#include <openssl/err.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>

#include "mc/scn.hpp"
#include "mc/tlsc.hpp"

using namespace mc;
using namespace scn;
using sim::ConnPtr;
using sim::Sys;
using srv::Server;

namespace {
ion::ServerConfiguration tls_config() {
    ion::ServerConfiguration c{};
    c.cleartext = false;
    c.cert_path = tlsc::files().cert;
    c.key_path = tlsc::files().key;
    return c;
}
// One TLS client and how its octets travel.
Bytes joined(const std::vector<Bytes>& v) {
    Bytes r;
    for (auto& b : v) r += b;
    return r;
}
struct Link {
    std::unique_ptr<tlsc::Client> t;
    ConnPtr k;
    std::vector<Bytes> data;    // application data, one flight each
    bool notify = false, fin = false;  // how it ends
    Bytes queue;                // ciphertext not delivered yet
    size_t sent = 0;            // ciphertext delivered so far
    size_t next = 0;
    std::vector<size_t> cuts;   // ciphertext offsets at which delivery pauses
    size_t uniform = 0;         // or pause every n octets
    std::set<size_t> record_cuts;  // plaintext offsets at which a new TLS record begins
    size_t record_size = 0;     // or a new one every n octets
    bool apart = false;         // each record is a segment of its own
    size_t written = 0;
    std::vector<Bytes> records; // waiting to be sent, one by one
    std::map<size_t, int> updates;  // flight before which the client changes its keys (2: and has the server change its own)
    bool done = false;
    size_t drain = 0;           // room granted whenever everything else is quiet
    Link(int version, std::vector<Bytes> d) : t(std::make_unique<tlsc::Client>(version)), data(std::move(d)) {}
    void connect(Server& s, size_t room = ~size_t(0)) {
        k = s.w.connect(0);
        k->room = room;
        t->conn = k;
    }
    // next thing this client does; false if nothing
    bool act(Server& s) {
        if (!k) return false;
        if (queue.empty()) queue = t->step();
        if (queue.empty() && !records.empty()) {
            queue = records.front();
            records.erase(records.begin());
        }
        if (queue.empty() && t->handshaken && next < data.size()) {
            if (const auto u = updates.find(next); u != updates.end()) t->key_update(u->second == 2);
            const Bytes& d = data[next++];
            for (size_t p = 0; p < d.size();) {
                size_t n = record_size ? std::min(record_size, d.size() - p) : d.size() - p;
                for (size_t cut : record_cuts)
                    if (cut > written && cut < written + n) n = cut - written;
                t->write(Bytes(d.begin() + p, d.begin() + p + n));
                records.push_back(t->step());
                p += n;
                written += n;
            }
            if (apart) {
                queue = records.front();
                records.erase(records.begin());
            } else {
                queue = joined(records);
                records.clear();
            }
        }
        if (queue.empty() && t->handshaken && next >= data.size() && notify) {
            notify = false;
            t->close_notify();
            queue = t->step();
        }
        if (!queue.empty()) {
            size_t n = queue.size();
            if (uniform) n = std::min(n, uniform);
            for (size_t c : cuts)
                if (c > sent && c < sent + n) n = c - sent;
            s.w.send(k, Bytes(queue.begin(), queue.begin() + n));
            queue.erase(queue.begin(), queue.begin() + n);
            sent += n;
            return true;
        }
        if (drain && k->room == 0 && !k->closes) {
            s.w.set_room(k, drain);
            return true;
        }
        if (fin && next >= data.size() && t->handshaken && !done) {
            done = true;
            s.w.fin(k);
            return true;
        }
        return false;
    }
};
struct Out {
    Bytes plain;
    std::vector<Req> seen;
    size_t cipher = 0;  // client's ciphertext octets
    size_t tx = 0;
    bool closed = false, handshaken = false, failed = false;
    std::string error;
};
std::vector<Bytes> flights(int kind) {
    if (kind == 0) return {hello() + req(1, "/e1") + ping(1), req(3, "/b300") + ping(2), req(5, "/e5")};
    if (kind == 1) return {hello() + req(1, "/b70000") + ping(9), req(3, "/e3")};
    if (kind == 2) return {hello() + req(1, "/e1") + frame(0x55, 0, 0, Bytes(16384, 7)) + req(3, "/e3") + frame(0x55, 0, 0, Bytes(16000, 8)) + frame(0x55, 0, 0, Bytes(16384, 9)) + frame(0x55, 0, 0, Bytes(16384, 3)) + req(5, "/e5")};
    return {hello() + req(1, "/e1"), ping(3) + goaway() + req(3, "/e3")};
}
// the same exchange in cleartext
const Out& cleartext(const std::vector<Bytes>& fl) {
    static std::map<std::vector<Bytes>, Out> cache;
    auto it = cache.find(fl);
    if (it != cache.end()) return it->second;
    Chooser c;
    struct Outer {  // may be needed while another simulated kernel is in use
        sim::World* w = sim::world;
        ~Outer() { sim::world = w; }
    } outer;
    Server s(c);
    ConnPtr k;
    s.script.push_back([&] { k = s.w.connect(0); });
    for (auto& b : fl) s.script.push_back([&, b] { s.w.send(k, b); });
    Out o;
    s.w.quiescent = [&] {
        o.closed = k->closes > 0;
        s.stop();
    };
    s.run();
    o.plain = k->tx;
    o.seen = s.seen;
    return cache[fl] = o;
}
Out run(Chooser& c, Link& l, size_t room, bool coalesce, const std::function<void(Server&)>& prepare, bool* bad) {
    tlsc::reset_random();
    Server s(c, tls_config());
    if (prepare) prepare(s);
    Out o;
    bool begun = false;
    s.w.env = [&] {
        if (!begun) {
            begun = true;
            l.connect(s, room);
            l.k->coalesce = coalesce;
            return true;
        }
        return l.act(s);
    };
    s.w.quiescent = [&] {
        o.closed = l.k->closes > 0;
        s.stop();
    };
    s.run();
    l.t->step();
    o.plain = l.t->plain;
    o.seen = s.seen;
    o.cipher = l.sent;
    o.tx = l.k->tx.size();
    o.handshaken = l.t->handshaken;
    o.failed = l.t->failed;
    o.error = l.t->error;
    *bad = s.check_sane(c);
    c.state(s.w.trace);
    return o;
}
void judge(Chooser& c, const Out& o, const std::vector<Bytes>& fl, const std::string& how, bool ends = false) {
    const Out& base = cleartext(fl);
    c.validated();
    if (!o.handshaken) c.violation("handshake", how + ": handshake not completed " + o.error);
    else if (o.failed) c.violation("tls", how + ": " + o.error);
    else if (o.plain != base.plain) {
        size_t i = 0;
        while (i < o.plain.size() && i < base.plain.size() && o.plain[i] == base.plain[i]) ++i;
        c.violation("bytes", how + ": " + std::to_string(o.plain.size()) + " octets instead of the " + std::to_string(base.plain.size()) + " of the cleartext exchange, first difference at " + std::to_string(i));
    } else if (o.seen != base.seen)
        c.violation("requests", how + ": handlers saw " + std::to_string(o.seen.size()) + " requests instead of " + std::to_string(base.seen.size()));
    else if (o.closed != (base.closed || ends))
        c.violation("close", how + (o.closed ? ": connection closed" : ": connection not closed"));
}
Out plain_run(int version, int kind) {
    static std::map<int, Out> cache;
    auto& o = cache[version * 100 + kind];
    if (!o.cipher) {
        Chooser c;
        bool bad;
        Link l(version, flights(kind));
        o = run(c, l, ~size_t(0), true, nullptr, &bad);
    }
    return o;
}
const int versions[2] = {13, 12};
}  // namespace

MC_PROPERTY(C19) {
    note("TLS 1.2 and 1.3 clients; every single cut of the client's ciphertext, every uniform segment size up to 600, thorough: all pairs of cuts in the handshake; compared with the same exchange in cleartext");
    for (int kind : {0, 3}) {
        const auto fl = flights(kind);
        uint64_t n = 0;
        for (int v : versions) n = std::max<uint64_t>(n, plain_run(v, kind).cipher);
        const std::string sec = kind ? "cuts-goaway" : "cuts";
        enumerate(sec, (n + 1) * 4, [&](Chooser& c, uint64_t i) {
            const int v = versions[i % 2];
            const bool co = i / 2 % 2;
            Link l(v, fl);
            l.cuts = {i / 4};
            bool bad;
            auto o = run(c, l, ~size_t(0), co, nullptr, &bad);
            if (!bad) judge(c, o, fl, "cut at " + std::to_string(i / 4));
        });
    }
    const auto f0 = flights(0);
    enumerate("uniform", 600 * 4, [&](Chooser& c, uint64_t i) {
        Link l(versions[i % 2], f0);
        l.uniform = 1 + i / 4;
        bool bad;
        auto o = run(c, l, ~size_t(0), i / 2 % 2, nullptr, &bad);
        if (!bad) judge(c, o, f0, "segments of " + std::to_string(1 + i / 4));
    });
    if (thorough()) {
        const uint64_t n = std::max(plain_run(13, 0).cipher, plain_run(12, 0).cipher);
        enumerate("cuts2", n * n * 2, [&](Chooser& c, uint64_t i) {
            const size_t a = i / 2 % n, b = i / 2 / n;
            if (a >= b || (a % 4 && b % 4)) return;  // every cut with every fourth other
            Link l(versions[i % 2], f0);
            l.cuts = {a, b};
            bool bad;
            auto o = run(c, l, ~size_t(0), true, nullptr, &bad);
            if (!bad) judge(c, o, f0, "cuts at " + std::to_string(a) + " and " + std::to_string(b));
        });
    }
    // records: the client cuts its octets into TLS records at will; all records of a step arrive in one segment
    note("records: every single cut of the client's octets into two TLS records, uniform record sizes up to 64 and some larger ones, with all records of a step in one segment or one segment each, per step or all in one step");
    const Bytes all0 = joined(f0);
    enumerate("records", (all0.size() + 64 + 4) * 2 * 2 * 2, [&](Chooser& c, uint64_t i) {
        const int v = versions[i % 2];
        const bool apart = i / 2 % 2;
        const bool whole = i / 4 % 2;
        const size_t how = i / 8;
        const auto fl = whole ? std::vector<Bytes>{all0} : f0;
        Link l(v, fl);
        if (how < all0.size()) l.record_cuts = {how};
        else l.record_size = how < all0.size() + 64 ? 1 + how - all0.size() : std::vector<size_t>{100, 127, 200, 300}[how - all0.size() - 64];
        l.apart = apart;
        bool bad;
        auto o = run(c, l, ~size_t(0), !apart, nullptr, &bad);
        if (!bad) judge(c, o, fl, how < all0.size() ? "records cut at " + std::to_string(how) : "records of " + std::to_string(l.record_size));
    });
    note("bursts of several maximal records (64 KiB and more) in one read burst and cut in 4096-octet segments");
    const auto f2 = flights(2);
    enumerate("burst", 2 * 2 * 40, [&](Chooser& c, uint64_t i) {
        Link l(versions[i % 2], f2);
        l.uniform = i / 4 == 0 ? 0 : 500 * (i / 4);
        bool bad;
        auto o = run(c, l, ~size_t(0), i / 2 % 2, nullptr, &bad);
        if (!bad) judge(c, o, f2, "burst, segments of " + std::to_string(l.uniform));
    });
    note("long: 12000 requests in 12000 flights, 33000 octets of response each way and a connection of several MiB");
    set_hang_limit(200);
    enumerate("long", 2 * 3, [&](Chooser& c, uint64_t i) {
        const int kind = static_cast<int>(i / 2);
        std::vector<Bytes> fl{hello()};
        const int N = kind == 0 ? 12000 : kind == 1 ? 12 : 300;
        for (int k = 0; k < N; ++k) fl.push_back(kind == 0 ? req(2 * k + 1, "/e" + std::to_string(k)) : kind == 1 ? [&] {
            Bytes b;
            for (int j = 0; j < 1000; ++j) b += req(2 * (k * 1000 + j) + 1, "/e");
            return b;
        }() : req(2 * k + 1, "/b33000"));
        Link l(versions[i % 2], fl);
        bool bad;
        auto o = run(c, l, ~size_t(0), true, nullptr, &bad);
        if (!bad) judge(c, o, fl, "long connection, kind " + std::to_string(kind));
    });
    set_hang_limit(0);
    note("key-update: TLS 1.3 clients that change keys (with and without asking the server to) before any set of 4 flights, in segments of 3 sizes, with send buffers of 5 sizes");
    enumerate("key-update", 81 * 3 * 5, [&](Chooser& c, uint64_t i) {
        auto fl = f0;
        fl.push_back(req(7, "/b40000"));
        Link l(13, fl);
        uint64_t x = i % 81;
        for (size_t k = 0; k < 4; ++k, x /= 3)
            if (x % 3) l.updates[k] = static_cast<int>(x % 3);
        l.uniform = std::array<size_t, 3>{0, 5, 22}[i / 81 % 3];
        const size_t room = std::array{~size_t(0), size_t(0), size_t(30), size_t(1200), size_t(16400)}[i / 81 / 3];
        l.drain = room == ~size_t(0) ? 0 : 700;
        bool bad;
        auto o = run(c, l, room, true, nullptr, &bad);
        if (!bad) judge(c, o, fl, "key updates " + std::to_string(i % 81) + ", segments of " + std::to_string(l.uniform) + ", send buffer " + std::to_string(room));
    });
    // back-pressure, in the handshake and after it
    uint64_t tx0 = 0;
    for (int v : versions) tx0 = std::max<uint64_t>(tx0, plain_run(v, 0).tx);
    note("send buffer of every size r in 0.." + std::to_string(tx0) + " (all the server sends), refilled by 1, 5, 64, 1000 octets or without limit whenever full; large responses with 40 pairs of sizes; "
         "partial and refused writes at every write, up to 2 (thorough 3) per run");
    const std::vector<size_t> drains = {5, 64, 1000, ~size_t(0)};
    const uint64_t step = thorough() ? 1 : 3;
    enumerate("room", (tx0 + 1) / step * drains.size() * 2, [&](Chooser& c, uint64_t i) {
        const int v = versions[i % 2];
        i /= 2;
        const size_t d = drains[i % drains.size()];
        const size_t r = i / drains.size() * step;
        if (d == 5 && r % 16) return;  // the slow drains for every sixteenth size
        Link l(v, f0);
        l.drain = d;
        bool bad;
        auto o = run(c, l, r, true, nullptr, &bad);
        if (!bad) judge(c, o, f0, "send buffer " + std::to_string(r) + ", refilled by " + std::to_string(d));
    });
    const auto f1 = flights(1);
    const std::vector<size_t> rooms = {0, 1, 100, 900, 1500, 16384, 16500, 50000}, big_drains = {700, 16384, 16406, 40000, ~size_t(0)};
    enumerate("room-large", rooms.size() * big_drains.size() * 2, [&](Chooser& c, uint64_t i) {
        Link l(versions[i % 2], f1);
        l.drain = big_drains[i / 2 % big_drains.size()];
        bool bad;
        auto o = run(c, l, rooms[i / 2 / big_drains.size()], true, nullptr, &bad);
        if (!bad) judge(c, o, f1, "large response");
    });
    explore("write-answers", thorough() ? 3 : 2, [&](Chooser& c) {
        const int v = versions[c.pick(2, "version")];
        if (!c.commit()) return;
        Link l(v, f0);
        bool bad;
        auto o = run(c, l, ~size_t(0), true,
                     [&](Server& s) {
                         s.w.fault = [&c, &s](const sim::Call& call) -> long {
                             if (!call.conn) return sim::DEFAULT;
                             if (call.sys == Sys::Write) {
                                 const int n = static_cast<int>(call.len);
                                 const int alts[] = {0, -EAGAIN, 1, n / 2};
                                 const int a = c.dev(4, "write");
                                 return a == 0 || alts[a] == 0 || alts[a] >= n ? sim::DEFAULT : alts[a];
                             }
                             if (call.sys == Sys::Read) {
                                 const int alts[] = {0, -EAGAIN, 1};
                                 const int a = c.dev(3, "read");
                                 return a ? alts[a] : sim::DEFAULT;
                             }
                             return sim::DEFAULT;
                         };
                     },
                     &bad);
        if (!bad) judge(c, o, f0, "partial or refused transfers");
    });
    enumerate("ends", 2 * 4 * 2 * 2, [&](Chooser& c, uint64_t i) {  // close_notify and end of stream together with the last request
        const int v = versions[i % 2];
        const int how = i / 2 % 4;
        const bool burst = i / 8 % 2;
        Link l(v, f0);
        l.notify = how != 0;
        l.fin = how >= 2;
        bool bad;
        auto o = run(c, l, i / 16 ? 200 : ~size_t(0), !burst, [&](Server&) { l.drain = i / 16 ? 100 : 0; }, &bad);
        if (!bad) judge(c, o, f0, "end " + std::to_string(how), how != 0);
    });

    // isolation
    note("isolation: a victim TLS connection in 6 phases fails in 10 ways while another TLS connection is before connect, in its handshake, idle, or blocked on writing; in one batch or apart, 4 report orders; "
         "the other connection is compared with the undisturbed exchange");
    enumerate("isolation", 6ull * 10 * 4 * 2 * 4 * 2, [&](Chooser& c, uint64_t i) {
        const int v = versions[i % 2];
        i /= 2;
        const int order = i % 4;
        i /= 4;
        const bool together = i % 2;
        i /= 2;
        const int other_phase = i % 4;
        i /= 4;
        const int kind = i % 10, phase = static_cast<int>(i / 10);
        tlsc::reset_random();
        Server s(c, tls_config());
        if (order)
            s.w.order = [order](std::vector<int>& q) {
                if (order == 1) std::reverse(q.begin(), q.end());
                else std::sort(q.begin(), q.end());
                if (order == 3) std::reverse(q.begin(), q.end());
            };
        Link good(v, f0), victim(v, {hello() + req(1, "/e900"), ping(4)});
        int stage = 0;
        ConnPtr vk;
        const auto other_to = [&](int ph) {  // advance the good connection to a phase; true if something was done
            if (ph >= 1 && !good.k) {
                good.connect(s, ph == 3 ? 1500 : ~size_t(0));
                return true;
            }
            if (ph == 0) return false;
            if (ph == 1) {
                if (good.sent) return false;
                return good.act(s);
            }
            if (ph == 2 && good.next >= 1 && good.queue.empty()) return false;
            return good.act(s);
        };
        Bytes rec;
        const auto misbehave = [&] {
            // a record as the victim would send it next, to be damaged
            rec = victim.queue;
            if (rec.empty()) {
                victim.t->write(req(7, "/e907"));
                rec = victim.t->step();
            }
            if (rec.empty()) rec = Bytes{22, 3, 1, 0, 5, 1, 0, 0, 1, 3};
            switch (kind) {
                case 0: s.w.send(vk, bytes("this is certainly no TLS record, is it?")); break;
                case 1: s.w.fin(vk); break;
                case 2: s.w.rst(vk); break;
                case 3: s.w.close_client(vk); break;
                case 4: rec.back() ^= 1; s.w.send(vk, rec); break;                    // bad MAC or bad handshake
                case 5: s.w.send(vk, Bytes{21, 3, 3, 0, 2, 2, 40}); break;            // fatal alert in the clear
                case 6: s.w.send(vk, Bytes{23, 3, 3, 0xff, 0xff} + Bytes(100, 1)); break;
                case 7: s.w.send(vk, hello() + req(1, "/e901")); break;                // cleartext HTTP/2
                case 8: rec.resize(rec.size() / 2); s.w.send(vk, rec); s.w.fin(vk); break;  // truncated record
                case 9: s.w.send(vk, Bytes{22, 3, 3, 0, 4, 1, 0xff, 0xff, 0xff}); s.w.close_client(vk); break;
            }
        };
        s.w.env = [&] {
            for (;;) switch (stage) {
                    case 0:  // victim first
                        if (!vk) {
                            victim.connect(s);
                            vk = victim.k;
                            return true;
                        }
                        if (phase == 0) { ++stage; continue; }
                        if (phase == 1) {
                            victim.cuts = {100};
                            ++stage;
                            if (victim.act(s)) return true;
                            continue;
                        }
                        if (phase == 2) {  // ClientHello only
                            ++stage;
                            if (victim.act(s)) return true;
                            continue;
                        }
                        if (phase == 3 && victim.t->handshaken && victim.next == 0) { ++stage; continue; }
                        if (phase == 3) {
                            victim.data.clear();
                            if (victim.act(s)) return true;
                            ++stage;
                            continue;
                        }
                        if (victim.act(s)) return true;
                        if (phase == 5) {  // half a record
                            victim.t->write(ping(5));
                            victim.queue = victim.t->step();
                            if (victim.queue.size() > 4) {
                                s.w.send(vk, Bytes(victim.queue.begin(), victim.queue.begin() + 4));
                                victim.queue.erase(victim.queue.begin(), victim.queue.begin() + 4);
                            }
                            ++stage;
                            return true;
                        }
                        ++stage;
                        continue;
                    case 1:
                        if (other_to(other_phase)) return true;
                        ++stage;
                        continue;
                    case 2:
                        misbehave();
                        ++stage;
                        if (!together) return true;
                        if (good.k) (void)good.act(s);
                        return true;
                    default:
                        if (!good.k) {
                            good.connect(s);
                            return true;
                        }
                        good.drain = ~size_t(0);
                        return good.act(s);
                }
        };
        bool good_closed = false;
        s.w.quiescent = [&] {
            good_closed = good.k && good.k->closes;
            s.stop();
        };
        s.run();
        good.t->step();
        Out o;
        o.plain = good.t->plain;
        o.handshaken = good.t->handshaken;
        o.failed = good.t->failed;
        o.error = good.t->error;
        o.closed = good_closed;
        for (auto& q : s.seen)
            if (!q.path.starts_with("/e9")) o.seen.push_back(q);
        c.state(s.w.trace);
        judge(c, o, f0, "victim phase " + std::to_string(phase) + " failure " + std::to_string(kind) + ", other connection in phase " + std::to_string(other_phase));
        for (auto& q : s.seen)
            if ((q.path == "/e901") && !c.violated()) c.violation("cleartext", "a cleartext request was served by the TLS server");
        if (!c.violated()) s.check_sane(c);
    });
}

MC_PROPERTY(C20) {
    const auto& f = tlsc::files();
    // what a certificate or key path can be
    struct P {
        std::string name;
        std::optional<std::string> path;
        int pair;  // 1, 2: belongs to that pair; 0: unusable; -1: not set
    };
    const std::vector<P> certs = {{"unset", std::nullopt, -1}, {"empty string", "", 0}, {"missing file", f.missing, 0}, {"garbage", f.garbage, 0}, {"empty file", f.empty, 0}, {"directory", f.dir, 0}, {"certificate 1", f.cert, 1}, {"certificate 2", f.cert2, 2}, {"a key", f.key, 0}};
    const std::vector<P> keys = {{"unset", std::nullopt, -1}, {"empty string", "", 0}, {"missing file", f.missing, 0}, {"garbage", f.garbage, 0}, {"empty file", f.empty, 0}, {"directory", f.dir, 0}, {"key 1", f.key, 1}, {"key 2", f.key2, 2}, {"a certificate", f.cert, 0}};
    note("all combinations of 9 certificate states, 9 key states and cleartext on/off: constructed without error exactly when it should be");
    enumerate("configurations", certs.size() * keys.size() * 2, [&](Chooser& c, uint64_t i) {
        const bool clear = i % 2;
        const P& ce = certs[i / 2 % certs.size()];
        const P& ke = keys[i / 2 / certs.size()];
        ion::ServerConfiguration cfg{};
        cfg.cleartext = clear;
        if (ce.path) cfg.cert_path = *ce.path;
        if (ke.path) cfg.key_path = *ke.path;
        const bool want = clear || (ce.pair > 0 && ce.pair == ke.pair);
        bool ok = true;
        try {
            Server s(c, cfg);
            if (want) {  // and it is the kind of server that was asked for
                ConnPtr k;
                s.script.push_back([&] { k = s.w.connect(0); s.w.send(k, hello() + req(1, "/e1")); });
                s.run();
                const auto o = parse(k->tx);
                if (clear && o.answers.size() != 1) c.violation("cleartext", "a cleartext server does not answer in cleartext");
                if (!clear && (!s.seen.empty() || o.settings_first)) c.violation("silent", "a server configured for TLS answers in cleartext");
            }
        } catch (const std::exception&) {
            ok = false;
        }
        ERR_clear_error();
        c.validated();
        c.outcome(std::to_string(ok));
        if (ok != want && !c.violated())
            c.violation("construction", std::string(clear ? "cleartext" : "TLS") + ", certificate " + ce.name + ", key " + ke.name + (ok ? ": accepted" : ": refused"));
    });
    note("all ALPN offers of up to 3 (thorough 4) protocols out of 5, in both TLS versions: h2 is selected");
    const std::vector<std::string> protos = {"h2", "http/1.1", "h3", "x", "h2c"};
    for (int len = 1; len <= (thorough() ? 4 : 3); ++len) {
        enumerate("alpn" + std::to_string(len), ipow(protos.size(), len) * 2, [&, len](Chooser& c, uint64_t i) {
            const int v = versions[i % 2];
            i /= 2;
            std::string list, show;
            for (int k = 0; k < len; ++k) {
                const auto& p = protos[i % protos.size()];
                i /= protos.size();
                list += static_cast<char>(p.size()) + p;
                show += p + " ";
            }
            Link l(v, {hello() + req(1, "/e1")});
            l.t = std::make_unique<tlsc::Client>(v, list);
            bool bad;
            auto o = run(c, l, ~size_t(0), true, nullptr, &bad);
            if (bad) return;
            if (l.t->alpn != "h2") c.violation("alpn", "offer " + show + ": selected '" + l.t->alpn + "' " + o.error);
            else judge(c, o, l.data, "offer " + show);
        });
    }
    enumerate("no-alpn", 2, [&](Chooser& c, uint64_t i) {
        Link l(versions[i], {hello() + req(1, "/e1")});
        l.t = std::make_unique<tlsc::Client>(versions[i], "");
        bool bad;
        auto o = run(c, l, ~size_t(0), true, nullptr, &bad);
        if (!bad) judge(c, o, l.data, "no ALPN");
    });
    note("what a TLS server sends to non-TLS clients is nothing or TLS alerts, for all first octets and all prefixes of an HTTP/2 preface; a cleartext server sends nothing to a TLS client");
    enumerate("outside-tls", 256 + 150, [&](Chooser& c, uint64_t i) {
        tlsc::reset_random();
        Server s(c, tls_config());
        ConnPtr k;
        const Bytes h = hello() + req(1, "/e1") + req(3, "/e3");
        const Bytes d = i < 256 ? Bytes{static_cast<uint8_t>(i)} + h : Bytes(h.begin(), h.begin() + std::min<size_t>(i - 256, h.size()));
        s.script.push_back([&] { k = s.w.connect(0); s.w.send(k, d); });
        s.script.push_back([&] { s.w.send(k, h); });
        s.run();
        // every octet sent must belong to an alert record
        size_t p = 0;
        while (p + 5 <= k->tx.size() && k->tx[p] == 21 && k->tx[p + 1] == 3) p += 5 + k->tx[p + 3] * 256u + k->tx[p + 4];
        if (p != k->tx.size()) c.violation("outside", "the TLS server sent " + hex(k->tx) + " to a client that does not speak TLS");
        else if (!s.seen.empty()) c.violation("outside", "the TLS server handled a cleartext request");
        else s.check_sane(c);
        ERR_clear_error();
    });
    enumerate("tls-to-cleartext", 2, [&](Chooser& c, uint64_t i) {
        tlsc::reset_random();
        Server s(c);
        Link l(versions[i], {});
        bool begun = false;
        s.w.env = [&] {
            if (!begun) {
                begun = true;
                l.connect(s);
                return true;
            }
            return l.act(s);
        };
        s.run();
        if (!l.k->tx.empty()) c.violation("speaks", "the cleartext server answered a TLS client with " + hex(l.k->tx));
        else s.check_sane(c);
    });
}

// ---- TLS parts of C15 and C16 ---------------------------------------------------------------------
MC_PROPERTY(C15) {
    note("TLS: connections that stall in every phase of the handshake (nothing sent, every 16th octet of the client's flights, handshake done) are closed 5 seconds after their last octet, with idle and busy companions");
    const uint64_t n = std::max(plain_run(13, 0).cipher, plain_run(12, 0).cipher);
    enumerate("tls-stall", (n / 16 + 2) * 2 * 2 * 2, [&](Chooser& c, uint64_t i) {
        const int v = versions[i % 2];
        i /= 2;
        const bool busy = i % 2;
        i /= 2;
        const bool late = i % 2;
        const size_t stall = i / 2 * 16;
        tlsc::reset_random();
        Server s(c, tls_config());
        Link l(v, flights(0)), o(v, {hello()});
        l.cuts = {stall};
        int64_t start = late ? 3000 : 100, last = -1, next_busy = 0;
        const auto now = [&] { return s.w.now_ns / 1000000; };
        bool stalled = false;
        uint64_t before = 0;
        s.w.env = [&] {
            if (busy) {
                if (!o.k) {
                    o.connect(s);
                    return true;
                }
                if (o.act(s)) return true;
                if (now() >= next_busy) {
                    next_busy = now() + 20;
                    o.t->write(ping(1));
                    return o.act(s);
                }
            }
            if (now() >= start && !l.k) {
                l.connect(s);
                last = now();
                if (stall == 0) stalled = true;
                return true;
            }
            if (l.k && !stalled) {
                if (l.sent < stall && l.act(s)) {
                    last = now();
                    return true;
                }
                stalled = true;
            }
            (void)before;
            if (busy && now() < next_busy) {
                s.w.now_ns = std::min<int64_t>(next_busy * 1000000, s.w.now_ns + 20000000);
                return true;
            }
            return false;
        };
        const int64_t end = start + 5200;
        s.w.before_wait = s.w.quiescent = [&] {
            if (now() >= end) s.stop();
        };
        s.run();
        c.state(s.w.trace);
        c.validated();
        const int64_t T = s.w.max_wait_ms + 25;
        if (!l.k->closes || l.k->closed_at / 1000000 > last + 5000 + T || T > 1100) c.violation("late", "connection stalled after " + std::to_string(stall) + " octets not closed in time");
        else if (l.k->closed_at / 1000000 < last + 5000) c.violation("early", "connection stalled after " + std::to_string(stall) + " octets closed too early");
        else if (busy && o.k->closes) c.violation("early", "the busy connection was closed");
        else s.check_sane(c);
    });
}
MC_PROPERTY(C16) {
    note("TLS: two clients, every system call after the first wait x every error of read, write, epoll_ctl, fcntl, shutdown, close, one per run; the other client and a later one are served");
    explore("faults-tls", thorough() ? 2 : 1, [&](Chooser& c) {
        const int v = versions[c.pick(2, "version")];
        const int ord = c.pick(2, "order");
        if (!c.commit()) return;
        tlsc::reset_random();
        Server s(c, tls_config());
        const auto fl = flights(0);
        Link a(v, fl), b(v, fl), p(v, fl);
        a.notify = a.fin = true;
        if (ord) s.w.order = [](std::vector<int>& q) { std::reverse(q.begin(), q.end()); };
        std::set<sim::Conn*> hit;
        int idle = 0;
        s.w.env = [&] {
            if (!a.k) {
                a.connect(s);
                b.connect(s, 900);
                b.drain = 300;
                return true;
            }
            bool any = a.act(s);
            any |= b.act(s);
            if (any) return true;
            if (idle >= 1) {
                if (!p.k) {
                    p.connect(s);
                    return true;
                }
                return p.act(s);
            }
            return false;
        };
        std::string what;
        s.w.fault = [&](const sim::Call& call) -> long {
            if (s.w.waits == 0 || s.stopped || p.k || c.cost() >= c.bound()) return sim::DEFAULT;
            static const std::map<Sys, std::vector<long>> alts = {{Sys::Read, {-EAGAIN, -EINTR, -ECONNRESET, -ENOMEM, 1}}, {Sys::Write, {-EAGAIN, -EINTR, -EPIPE, -ECONNRESET, -ENOBUFS, 1}}, {Sys::EpollCtl, {-ENOMEM}},
                                                               {Sys::Fcntl, {-EINVAL}}, {Sys::Setsockopt, {-ENOBUFS}}, {Sys::Getpeername, {-ENOTCONN}}, {Sys::Accept, {-EMFILE, -ECONNABORTED, -EINTR}}, {Sys::EpollWait, {-EINTR}}, {Sys::Close, {-EIO}}, {Sys::Shutdown, {-ENOTCONN}}};
            auto it = alts.find(call.sys);
            if (it == alts.end() || (call.sys == Sys::Accept && s.w.backlog.empty())) return sim::DEFAULT;
            const int x = c.dev(static_cast<int>(it->second.size()) + 1, sim::sys_name(call.sys));
            if (!x) return sim::DEFAULT;
            const long r = it->second[x - 1];
            what += std::string(sim::sys_name(call.sys)) + "->" + std::to_string(r) + " ";
            sim::Conn* k = call.conn;
            if (call.sys == Sys::Accept && r == -ECONNABORTED) k = s.w.backlog.front().get();
            if (k) {
                hit.insert(k);
                if (r == -EPIPE || r == -ECONNRESET) {
                    k->reset = k->client_gone = true;
                    k->rx.clear();
                    s.w.notify(k);
                }
            }
            return r;
        };
        s.w.quiescent = [&] {
            if (++idle == 1) return;
            if (idle > 2 && p.t->handshaken) s.stop();
            if (idle > 300) s.stop();
        };
        s.run();
        c.outcome(what);
        c.state(s.w.trace);
        for (Link* l : {&a, &b, &p}) {
            l->t->step();
            if (!l->k) {
                c.violation("accept", "a client was never accepted after " + what);
                return;
            }
            if (hit.count(l->k.get())) continue;
            Out o;
            o.plain = l->t->plain;
            o.handshaken = l->t->handshaken;
            o.failed = l->t->failed;
            o.error = l->t->error;
            o.seen = cleartext(fl).seen;
            o.closed = cleartext(fl).closed;
            judge(c, o, fl, "after " + what + "another connection");
            if (c.violated()) return;
        }
        s.check_sane(c);
    });
}
