// C06-C12 and the connection half of C01: one (or two) connections of a real Http2Server inside the
// simulated kernel, every history within the bounds, against the reference model of h2.cpp.
#include "mc/srv.hpp"

using namespace mc;
using namespace h2;
using sim::ConnPtr;
using srv::Server;

namespace {

Bytes req(uint32_t sid, const std::string& path, const Fields& more = {}, bool es = true) {
    ref::Encoder e;
    e.index = false;
    return headers(sid, e.encode(get(path, more)), es);
}
// Windows so large that flow control never matters, with room for further grants
Bytes hello_frames() { return settings({{4, 0x7ff00000}}) + window_update(0, 0x7ff00000 - 65535); }
Bytes hello() { return preface() + hello_frames(); }

std::string show_seen(const std::vector<Req>& v) {
    std::string r;
    for (auto& q : v) r += h2::show(q) + "; ";
    return r;
}
// Requests the model says reach the application, in order
std::vector<Req> expected_requests(const Expect& e) {
    std::vector<Req> v;
    for (auto& a : e.answers)
        if (!a.bad) v.push_back(a.req);
    return v;
}

enum Fin { None, WithLast, Later };
struct One {
    Bytes tx;
    std::vector<Req> seen;
    int closes = 0;
    bool closed_before_stop = false;
};
// Runs one connection; segs are delivered either all at once or one per idle period.
One run_one(Chooser& c, const std::vector<Bytes>& segs, bool coalesce, bool stepwise, Fin fin, bool* bad) {
    Server s(c);
    ConnPtr k;
    One r;
    const auto deliver = [&](size_t i) {
        s.w.send(k, segs[i]);
        if (fin == WithLast && i + 1 == segs.size()) s.w.fin(k);
    };
    s.script.push_back([&] {
        k = s.w.connect(0);
        k->coalesce = coalesce;
        if (segs.empty() && fin == WithLast) s.w.fin(k);
        for (size_t i = 0; i < (stepwise ? std::min<size_t>(1, segs.size()) : segs.size()); ++i) deliver(i);
    });
    if (stepwise)
        for (size_t i = 1; i < segs.size(); ++i) s.script.push_back([&, i] { deliver(i); });
    if (fin == Later) s.script.push_back([&] { s.w.fin(k); });
    s.script.push_back([&] { r.closed_before_stop = k->closes > 0; });
    s.run();
    *bad = s.check_sane(c);
    r.tx = k->tx;
    r.seen = s.seen;
    r.closes = k->closes;
    return r;
}
std::vector<Bytes> cut(const Bytes& d, std::vector<size_t> at) {
    std::vector<Bytes> v;
    size_t p = 0;
    at.push_back(d.size());
    for (size_t a : at) {
        if (a > p) v.emplace_back(d.begin() + p, d.begin() + a);
        p = std::max(p, a);
    }
    return v;
}
bool same(Chooser& c, const One& a, const One& base, const std::string& how) {
    c.validated();
    if (a.seen != base.seen) {
        c.violation("requests", how + ": handlers saw " + show_seen(a.seen) + " instead of " + show_seen(base.seen));
        return false;
    }
    if (a.tx != base.tx) {
        size_t i = 0;
        while (i < a.tx.size() && i < base.tx.size() && a.tx[i] == base.tx[i]) ++i;
        c.violation("bytes", how + ": " + std::to_string(a.tx.size()) + " octets sent instead of " + std::to_string(base.tx.size()) + ", first difference at " + std::to_string(i));
        return false;
    }
    if (a.closed_before_stop != base.closed_before_stop) {
        c.violation("close", how + (base.closed_before_stop ? ": connection not closed" : ": connection closed"));
        return false;
    }
    return true;
}

struct Stream {
    std::string name;
    Bytes data;
};
Bytes mixed_stream() {
    ref::Encoder e;  // indexes: later blocks depend on earlier ones
    const Bytes b1 = e.encode(get("/e1", {{"x-a", "1"}})), b2 = e.encode(get("/e2", {{"x-a", "1"}, {"cookie", "k"}})), b3 = e.encode(get("/e3", {{"cookie", "k"}}));
    Bytes d = hello() + headers(1, b1) + ping(0x0102030405060708) + settings_ack();
    d += frame(HEADERS, PADDED | END_STREAM | PRIO | END_HEADERS, 3, Bytes{3, 0, 0, 0, 1, 16} + b2 + Bytes{0, 0, 0});
    d += frame(HEADERS, END_STREAM, 5, Bytes(b3.begin(), b3.begin() + 1)) + frame(CONT, END_HEADERS, 5, Bytes(b3.begin() + 1, b3.end()));
    d += window_update(0, 9) + frame(0x42, 0xff, 5, bytes("??")) + ping(7);
    return d;
}
std::vector<Stream> streams() {
    std::vector<Stream> v;
    v.push_back({"mixed", mixed_stream()});
    v.push_back({"goaway", hello() + req(1, "/e1") + goaway() + req(3, "/e2")});
    v.push_back({"error", hello() + req(1, "/e1") + frame(PING, 0, 0, Bytes{1, 2, 3}) + req(3, "/e2")});
    v.push_back({"post", hello() + req(1, "/e1", {}, false) + frame(DATA, 0, 1, bytes("abc")) + frame(DATA, END_STREAM, 1) + req(3, "/s204")});
    v.push_back({"bad-preface", bytes("PRI * HTTP/2.0\r\n\r\nSM\r\n\rX") + settings()});
    v.push_back({"too-long", hello() + req(1, "/e1") + frame_len(16385, 0x42, 0, 0, Bytes(40, 0))});
    return v;
}
Bytes big_burst(int variant) {
    Bytes d = hello() + req(1, "/e1");
    uint32_t sid = 3;
    if (variant == 0)  // maximal frames
        for (int i = 0; i < 7; ++i) d += frame(0x42, 0, 0, Bytes(16384, static_cast<uint8_t>(i))) + req(sid, "/e" + std::to_string(sid)), sid += 2;
    else if (variant == 1) {  // thousands of small ones
        for (int i = 0; i < 4500; ++i) d += ping(static_cast<uint64_t>(i) << 20 | 0xabc);
        d += req(sid, "/e3");
    } else {  // requests only
        for (int i = 0; i < 500; ++i) d += req(sid, "/e" + std::to_string(sid), {{"x-pad", std::string(100, 'p')}}), sid += 2;
    }
    return d;
}

void against_model(Chooser& c, const One& r, const Bytes& data, const std::string& name) {
    const auto e = model(data);
    const auto o = parse(r.tx, e.table_sizes);
    if (srv::report(c, compare(e, o), name)) return;
    if (r.seen != expected_requests(e)) c.violation("requests", name + ": handlers saw " + show_seen(r.seen) + " instead of " + show_seen(expected_requests(e)));
    if (e.end != Expect::Open && !r.closed_before_stop) c.violation("close", name + ": connection not closed");
}
// One connection with a very long history; part(i) is what the client sends i-th, delivered 500 parts at a time or in one piece.
void long_run(Chooser& c, const std::string& ctx, size_t n, bool burst, const std::function<Bytes(size_t)>& part) {
    std::vector<Bytes> segs(1, hello());
    Bytes data = hello();
    for (size_t i = 0; i < n; ++i) {
        if (i % 500 == 0 && i && !burst) segs.emplace_back();
        const Bytes b = part(i);
        segs.back().insert(segs.back().end(), b.begin(), b.end());
        data.insert(data.end(), b.begin(), b.end());
    }
    bool bad = false;
    auto r = run_one(c, segs, true, !burst, None, &bad);
    if (bad) return;
    c.validated();
    c.state(fnv(11, r.tx.data(), r.tx.size()));
    against_model(c, r, data, ctx);
}
constexpr size_t LONG = 66000;  // beyond every 16-bit count
}  // namespace

// ---------------------------------------------------------------- C06
MC_PROPERTY(C06) {
    auto all = streams();
    const int kmax = 2;
    for (auto& st : all) {
        for (Fin fin : {None, WithLast, Later}) {
            static const char* fn[] = {"", "+fin", "+late-fin"};
            const std::string sec = "cuts-" + st.name + fn[fin];
            const bool full = st.name == "mixed" || thorough();
            One base;
            bool base_ok = false;
            // all sets of up to kmax cut positions, in both delivery modes
            const uint64_t n = st.data.size();
            const uint64_t pairs = (full ? n * n : n) * 2;
            enumerate(sec, pairs, [&](Chooser& c, uint64_t i) {
                bool bad = false;
                if (!base_ok) {
                    base = run_one(c, {st.data}, true, false, fin, &bad);
                    if (bad) return;
                    against_model(c, base, st.data, st.name);
                    if (fin != None && !base.closed_before_stop) c.violation("close", "connection stays open after the client closed its side");
                    if (c.violated()) return;
                    base_ok = true;
                }
                const bool stepwise = i & 1;
                const uint64_t x = i >> 1;
                const size_t a = x % n, b = full ? x / n : 0;
                if (b && b <= a) return;
                auto r = run_one(c, cut(st.data, b ? std::vector<size_t>{a, b} : std::vector<size_t>{a}), false, stepwise, fin, &bad);
                if (bad) return;
                c.state(mix(mix(hash_str(sec), a), mix(b, stepwise)));
                if (i == 0) sample(std::to_string(n) + " octets, cut after " + std::to_string(a) + (stepwise ? ", piece by piece" : ", short reads"));
                same(c, r, base, st.name + " cut after " + std::to_string(a) + " and " + std::to_string(b) + (stepwise ? " (one piece per wakeup)" : " (short reads)"));
            });
            // uniform pieces of every size
            enumerate(sec + "-uniform", n * 2, [&](Chooser& c, uint64_t i) {
                bool bad = false;
                auto b0 = run_one(c, {st.data}, true, false, fin, &bad);
                if (bad) return;
                std::vector<size_t> at;
                for (size_t p = i / 2 + 1; p < n; p += i / 2 + 1) at.push_back(p);
                auto r = run_one(c, cut(st.data, at), false, i & 1, fin, &bad);
                if (bad) return;
                c.state(mix(hash_str(sec + "u"), i));
                same(c, r, b0, st.name + " in pieces of " + std::to_string(i / 2 + 1));
            });
        }
    }
    note("cuts: every set of up to 2 cut positions of stream 'mixed' (1 of the others; thorough: 2 of all), times short reads / one piece per wakeup, times no end of stream / with the last octets / later; plus uniform pieces of every size");
    if (thorough()) {
        const Bytes d = mixed_stream();
        const Bytes tail(d.begin() + 60, d.begin() + 160);
        enumerate("cuts3-mixed", 100 * 100 * 100, [&](Chooser& c, uint64_t i) {
            const size_t a = 60 + i % 100, b = 60 + i / 100 % 100, e = 60 + i / 10000;
            if (!(a < b && b < e)) return;
            static One base;
            static bool ok = false;
            bool bad = false;
            if (!ok) base = run_one(c, {d}, true, false, None, &bad), ok = !bad;
            auto r = run_one(c, cut(d, {a, b, e}), false, false, None, &bad);
            if (!bad) same(c, r, base, "mixed cut three times");
        });
        note("cuts3-mixed: every set of 3 cut positions within 100 octets of the stream");
    }
    // bursts larger than every internal buffer
    for (int variant = 0; variant < 3; ++variant) {
        const Bytes d = big_burst(variant);
        const std::string sec = "burst" + std::to_string(variant);
        std::vector<size_t> ends;  // frame boundaries
        for (auto& f : split(d, 24)) ends.push_back(f.offset);
        std::set<size_t> pos;
        for (size_t m : {size_t(0), size_t(1), size_t(9), size_t(16383), size_t(16384), size_t(16385), size_t(32768), size_t(49151), size_t(49152), size_t(49153), size_t(65535), size_t(65536), size_t(65537), d.size() - 1, d.size()})
            if (m <= d.size()) pos.insert(m);
        for (size_t i = 0; i < ends.size(); i += variant == 0 ? 1 : 37)
            for (int dlt : {-9, -1, 0, 1, 8, 9}) {
                const long p = static_cast<long>(ends[i]) + dlt;
                if (p > 0 && p < static_cast<long>(d.size())) pos.insert(p);
            }
        const std::vector<size_t> ps(pos.begin(), pos.end());
        One base;
        bool ok = false;
        enumerate(sec, ps.size() * 6, [&](Chooser& c, uint64_t i) {
            bool bad = false;
            if (!ok) {
                base = run_one(c, {d}, true, false, None, &bad);
                if (bad) return;
                against_model(c, base, d, sec);
                if (c.violated()) return;
                ok = true;
            }
            const int mode = i % 6;
            const size_t p = ps[i / 6];
            const Fin fin = static_cast<Fin>(mode / 2);
            auto r = run_one(c, cut(d, {p}), mode & 1, !(mode & 1), fin, &bad);
            if (bad) return;
            if (fin != None) {
                if (!r.closed_before_stop) c.violation("close", sec + ": connection stays open after the client closed its side");
                r.closed_before_stop = false;
            }
            c.state(mix(hash_str(sec), i));
            same(c, r, base, sec + " of " + std::to_string(d.size()) + " octets cut at " + std::to_string(p) + " mode " + std::to_string(mode));
        });
    }
    note("bursts of 115, 77 and 90 KiB in one piece and cut around frame boundaries and buffer sizes");
}

// ---------------------------------------------------------------- C07
namespace {
struct BpRun {
    Bytes tx;
    std::vector<Req> seen;
    bool closed_early = false;
};
// room0: initial send buffer; drain: octets freed each time the server is idle
BpRun run_bp(Chooser& c, const Bytes& data, size_t room0, size_t drain, bool faults, bool* bad, size_t more_at = 0, const Bytes& more = {}) {
    Server s(c);
    ConnPtr k;
    BpRun r;
    s.script.push_back([&] {
        k = s.w.connect(0);
        k->room = room0;
        s.w.send(k, data);
    });
    size_t drains = 0;
    s.w.env = [&] {
        if (s.script_pos < s.script.size()) {
            s.script[s.script_pos++]();
            return true;
        }
        if (!more.empty() && drains == more_at) {
            drains++;
            s.w.send(k, more);
            return true;
        }
        if (k->room != ~size_t(0) && k->room == 0 && drains < 100000 && !k->closes) {
            drains++;
            s.w.set_room(k, drain);
            return true;
        }
        if (!more.empty() && drains < more_at) {
            drains = more_at;
            return s.w.env();
        }
        return false;
    };
    if (faults)
        s.w.fault = [&](const sim::Call& call) -> long {
            if (call.sys != sim::Sys::Write || !call.conn || call.len == 0) return sim::DEFAULT;
            const int n = static_cast<int>(call.len);
            const int alts[] = {0, -EAGAIN, 1, n - 1, n / 2, 9};
            const int a = c.dev(6, "write");
            if (a == 0 || alts[a] == 0 || alts[a] >= n) return sim::DEFAULT;
            return alts[a];
        };
    s.w.quiescent = [&] {
        r.closed_early = k->closes > 0;
        s.stop();
    };
    s.run();
    *bad = s.check_sane(c);
    r.tx = k->tx;
    r.seen = s.seen;
    return r;
}
}  // namespace
MC_PROPERTY(C07) {
    const Bytes small = hello() + req(1, "/b40") + ping(5) + req(3, "/h30");
    const Bytes large = hello() + req(1, "/b70000") + req(3, "/b5") + ping(5);
    auto judge = [](Chooser& c, const BpRun& r, const Bytes& all, const std::string& how) {
        bool bad = false;
        static std::map<Bytes, BpRun> cache;
        if (!cache.count(all)) {
            auto b = run_bp(c, all, ~size_t(0), 0, false, &bad);
            if (bad) return;
            srv::report(c, compare(model(all), parse(b.tx)), "unlimited");
            cache[all] = b;
        }
        const auto& base = cache[all];
        c.validated();
        if (r.closed_early) c.violation("closed", how + ": connection closed");
        else if (r.tx != base.tx) {
            size_t i = 0;
            while (i < r.tx.size() && i < base.tx.size() && r.tx[i] == base.tx[i]) ++i;
            c.violation("bytes", how + ": client received " + std::to_string(r.tx.size()) + " octets instead of " + std::to_string(base.tx.size()) + ", first difference at " + std::to_string(i));
        } else if (r.seen != base.seen)
            c.violation("requests", how + ": handlers saw " + show_seen(r.seen));
    };
    // every (initial room, drain size) pair for a small exchange
    const uint64_t M = 140;
    enumerate("room-drain", M * M, [&](Chooser& c, uint64_t i) {
        const size_t room = i % M, drain = 1 + i / M;
        bool bad = false;
        auto r = run_bp(c, small, room, drain, false, &bad);
        if (bad) return;
        c.state(mix(room, drain));
        judge(c, r, small, "room " + std::to_string(room) + " then " + std::to_string(drain) + " octets at a time");
    });
    note("room-drain: every initial send-buffer room 0..139 times every drain size 1..140 for a 200-octet output");
    const std::vector<size_t> sizes = {0, 1, 8, 9, 10, 100, 4096, 16255, 16256, 16257, 16265, 16266, 16384, 32768, 65535, 65536, 70000};
    enumerate("room-drain-large", sizes.size() * sizes.size(), [&](Chooser& c, uint64_t i) {
        const size_t room = sizes[i % sizes.size()], drain = sizes[i / sizes.size()];
        if (drain < 8) return;
        bool bad = false;
        auto r = run_bp(c, large, room, drain, false, &bad);
        if (!bad) judge(c, r, large, "large: room " + std::to_string(room) + " then " + std::to_string(drain) + " octets at a time");
        c.state(mix(mix(7, room), drain));
    });
    // more requests arriving while blocked
    const Bytes more = req(5, "/b20") + ping(9) + req(7, "/e");
    enumerate("more-while-blocked", 60 * 40, [&](Chooser& c, uint64_t i) {
        const size_t room = (i % 60) * 5, at = i / 60;
        bool bad = false;
        auto r = run_bp(c, small, room, 13, false, &bad, at, more);
        if (bad) return;
        c.state(mix(mix(8, room), at));
        judge(c, r, small + more, "further requests after drain " + std::to_string(at) + ", room " + std::to_string(room));
    });
    // arbitrary answers of each write
    const int bound = thorough() ? 4 : 3;
    explore("write-answers", bound, [&](Chooser& c) {
        if (!c.commit()) return;
        bool bad = false;
        auto r = run_bp(c, small, ~size_t(0), 0, true, &bad);
        if (bad) return;
        c.state(c.out_);
        judge(c, r, small, "write answers");
    });
    note("write-answers: at every write the answers all / would-block / 1 / 9 / half / all but one octet, up to " + std::to_string(bound) + " deviations");
    explore("write-answers-large", bound - 1, [&](Chooser& c) {
        if (!c.commit()) return;
        bool bad = false;
        auto r = run_bp(c, large, ~size_t(0), 0, true, &bad);
        if (bad) return;
        c.state(c.out_);
        judge(c, r, large, "write answers (large)");
    });
}

// ---------------------------------------------------------------- C08
MC_PROPERTY(C08) {
    auto run_seq = [](Chooser& c, const std::vector<Bytes>& reqs, const std::string& ctx, bool one_burst) {
        Server s(c);
        ConnPtr k;
        Bytes data = hello();
        for (auto& r : reqs) data += r;
        s.script.push_back([&] {
            k = s.w.connect(0);
            s.w.send(k, one_burst ? data : hello());
        });
        if (!one_burst)
            for (auto& r : reqs) s.script.push_back([&k, &s, r] { s.w.send(k, r); });
        s.run();
        if (s.check_sane(c)) return;
        if (srv::check_conn(c, k, data, ctx)) return;
        const auto e = model(data);
        if (s.seen != expected_requests(e)) c.violation("requests", ctx + ": handlers saw " + show_seen(s.seen));
        c.state(fnv(1, k->tx.data(), k->tx.size()));
    };
    const std::vector<std::string> paths = {"/b0", "/b1", "/b100", "/b16255", "/b16256", "/b16257", "/b16384", "/b16385", "/b32512", "/b32513", "/h0", "/h5", "/h3000", "/m0", "/m1", "/m70", "/s200", "/s204", "/s404", "/s500", "/s999", "/u1", "/e", "/none"};
    const int P = static_cast<int>(paths.size());
    const int L = thorough() ? 3 : 2;
    for (int len = 1; len <= L; ++len) {
        uint64_t n = 1;
        for (int i = 0; i < len; ++i) n *= P;
        enumerate("responses" + std::to_string(len), n * 2, [&, len](Chooser& c, uint64_t i) {
            uint64_t x = i >> 1;
            std::vector<Bytes> r;
            std::string ctx;
            for (int k = 0; k < len; ++k, x /= P) {
                r.push_back(req(1 + 2 * k, paths[x % P]));
                ctx += paths[x % P] + " ";
            }
            if (i == 3) sample("requests " + ctx);
            run_seq(c, r, ctx, i & 1);
        });
    }
    note("responses: all sequences up to length " + std::to_string(L) + " over " + std::to_string(P) + " kinds of response (body sizes around the frame size, header sizes, statuses), in one burst and one by one");
    // response header blocks around and above one frame; body size sweep
    enumerate("long-headers", 60, [&](Chooser& c, uint64_t i) {
        const int n[] = {5000, 10000, 16000, 16250, 16300, 20000, 24000, 26000, 26100, 26150, 26200, 26214, 26220, 26300, 28000, 30000, 40000, 52000, 60000, 70000};
        const std::string p = "/h" + std::to_string(n[i % 20]);
        run_seq(c, i < 20 ? std::vector<Bytes>{req(1, p)} : i < 40 ? std::vector<Bytes>{req(1, "/u1"), req(3, p), req(5, "/u1")} : std::vector<Bytes>{req(1, p), req(3, p), req(5, "/b5")}, p, true);
    });
    const int sweep = thorough() ? 3000 : 600;
    enumerate("long-headers-sweep", sweep, [&](Chooser& c, uint64_t i) {
        const std::string p = "/h" + std::to_string((thorough() ? 24500 : 26000) + i);
        run_seq(c, {req(1, p), req(3, "/b3")}, p, true);
    });
    enumerate("body-sweep", 64 + (thorough() ? 2000 : 300), [&](Chooser& c, uint64_t i) {
        const std::string p = "/b" + std::to_string(i < 64 ? i : 16256 - (thorough() ? 1000 : 150) + i - 64);
        run_seq(c, {req(1, p), req(3, "/b1")}, p, true);
    });
    note("long-headers, body-sweep: header values up to 70000 octets (block sizes across 16384 one by one), body sizes across the frame size one by one");
    // incomplete requests and repeated / reordered / huge stream ids
    ref::Encoder e;
    e.index = false;
    const std::vector<Fields> odd = {get("/e1"), {{":method", "GET"}}, {{":path", "/e2"}}, {}, {{"x", "y"}}, {{":method", "POST"}, {":path", "/b3"}}, {{":method", ""}, {":path", ""}},
                                     {{":method", "HEAD"}, {":path", "/s200"}}, {{":path", "/e3"}, {":path", "/e4"}, {":method", "GET"}, {":method", "PUT"}}, {{":status", "200"}, {":method", "GET"}, {":path", "/b1"}},
                                     get("/e", {{"content-length", "5"}, {"server", "x"}})};
    const uint32_t sids[] = {1, 3, 5, 0x7fffffff, 0x7ffffffd};
    const uint64_t O = odd.size() * 5;
    const int K = thorough() ? 3 : 2;
    for (int len = 1; len <= K; ++len) {
        uint64_t n = 1;
        for (int k = 0; k < len; ++k) n *= O;
        enumerate("odd-requests" + std::to_string(len), n, [&, len](Chooser& c, uint64_t i) {
            std::vector<Bytes> r;
            std::string ctx;
            for (int k = 0; k < len; ++k, i /= O) {
                const auto& f = odd[i % O / 5];
                r.push_back(headers(sids[i % 5], e.encode(f)));
                ctx += std::to_string(sids[i % 5]) + ":" + h2::show(f) + " ";
            }
            r.push_back(req(0x7fffffff, "/e9"));
            run_seq(c, r, ctx, true);
        });
    }
    set_hang_limit(200);
    enumerate("long", 5 * 2, [&](Chooser& c, uint64_t i) {
        const int kind = i / 2;
        ref::Encoder churn;
        long_run(c, std::to_string(LONG) + " requests, kind " + std::to_string(kind), LONG, i & 1, [&](size_t n) -> Bytes {
            const auto sid = static_cast<uint32_t>(2 * n + 1);
            switch (kind) {
                case 0: return req(sid, "/e" + std::to_string(n));
                case 1: return req(static_cast<uint32_t>(n * 30678 + 1), n % 500 ? "/e" : paths[n / 500 % P]);
                case 2: return req(sid, "/e", {}, false) + frame(DATA, 0, sid, bytes("ab")) + frame(DATA, END_STREAM, sid, bytes("c"));
                case 3: return headers(sid, churn.encode(get("/e" + std::to_string(n % 7), {{"x-a", std::to_string(n)}})));
                default: return req(sid, n % 3 ? "/s404" : "/b10") + (n % 5 ? Bytes{} : frame(RST, 0, sid, Bytes{0, 0, 0, 8})) + (n % 7 ? Bytes{} : window_update(sid, 1)) + (n % 11 ? Bytes{} : frame(PRIORITY, 0, sid, Bytes{0, 0, 0, 0, 1}));
            }
        });
    });
    set_hang_limit(0);
    note("long: 66000 requests of 5 kinds on one connection, in one burst or 500 at a time; stream ids up to 2^31-1");
    note("odd-requests: all sequences up to length " + std::to_string(K) + " of 11 kinds of request (incomplete, duplicated pseudo headers, ...) on 5 stream ids");
}

// ---------------------------------------------------------------- C09
MC_PROPERTY(C09) {
    const std::vector<std::pair<std::string, Bytes>> alpha = {
        {"SETTINGS", settings()},
        {"SETTINGS(all)", settings({{1, 4096}, {2, 0}, {3, 10}, {4, 0x7ff00000}, {5, 16384}, {6, 1000}})},
        {"SETTINGS(unknown)", settings({{0x99, 1}, {0xffff, 0xffffffff}})},
        {"SETTINGS ACK", settings_ack()},
        {"PING", ping(0x1122334455667788)},
        {"PING2", ping(0xff00ff0000000001)},
        {"PING ACK", ping(3, true)},
        {"PING flags", frame(PING, 0xfe, 0, Bytes{9, 8, 7, 6, 5, 4, 3, 2})},
        {"WINDOW_UPDATE", window_update(0, 1)},
        {"WINDOW_UPDATE(1)", window_update(1, 1000)},
        {"PRIORITY", frame(PRIORITY, 0, 7, Bytes{0, 0, 0, 1, 5})},
        {"RST_STREAM(1)", frame(RST, 0, 1, Bytes{0, 0, 0, 8})},
        {"DATA(1)", frame(DATA, 0, 1, bytes("body"))},
        {"DATA(1) end", frame(DATA, END_STREAM, 1)},
        {"unknown", frame(0x42, 0xff, 3, bytes("xyz"))},
        {"request", {}},
        {"GOAWAY", goaway(0, 0)},
    };
    const int A = static_cast<int>(alpha.size());
    const int L = thorough() ? 4 : 3;
    for (int len = 1; len <= L; ++len) {
        uint64_t n = 1;
        for (int i = 0; i < len; ++i) n *= A;
        enumerate("frames" + std::to_string(len), n * 2, [&, len](Chooser& c, uint64_t i) {
            const bool burst = i & 1;
            uint64_t x = i >> 1;
            std::vector<Bytes> parts;
            std::string ctx;
            uint32_t sid = 1;
            parts.push_back(hello() + req(sid, "/b10"));
            sid += 2;
            for (int k = 0; k < len; ++k, x /= A) {
                auto& [name, b] = alpha[x % A];
                ctx += name + ", ";
                if (b.empty()) parts.push_back(req(sid, "/e" + std::to_string(sid))), sid += 2;
                else parts.push_back(b);
            }
            parts.push_back(req(sid, "/b3") + ping(99));
            Bytes data;
            for (auto& p : parts) data += p;
            if (burst) parts = {data};
            bool bad = false;
            auto r = run_one(c, parts, true, true, None, &bad);
            if (bad) return;
            if (i == 5) sample(ctx);
            against_model(c, r, data, ctx);
            c.validated();
            c.state(fnv(2, r.tx.data(), r.tx.size()));
        });
    }
    note("frames: all sequences up to length " + std::to_string(L) + " over 17 control/other frames after one request and followed by a request and a PING, in one burst and one by one");
    set_hang_limit(200);
    enumerate("long", 4 * 2, [&](Chooser& c, uint64_t i) {
        const int kind = i / 2;
        uint32_t sid = 1;
        long_run(c, std::to_string(LONG) + " frames, kind " + std::to_string(kind), LONG, i & 1, [&](size_t n) -> Bytes {
            const auto r = [&] { return n % 1000 == 999 ? (sid += 2, req(sid, "/e" + std::to_string(n))) : Bytes{}; };
            switch (kind) {
                case 0: return ping(n * 0x9e3779b97f4a7c15ULL) + r();
                case 1: return settings({{static_cast<uint16_t>(n % 9), static_cast<uint32_t>(n % 9 == 4 ? 0x7ff00000 : n % 9 == 5 ? 16384 : n % 9 == 2 ? 0 : 4096)}}) + r();
                case 2: return frame(PRIORITY, 0, static_cast<uint32_t>(2 * n + 1) & 0x7fffffff, Bytes{0, 0, 0, 0, 9}) + frame(RST, 0, sid, Bytes{0, 0, 0, 8}) + r();
                default: return alpha[n % (A - 2)].second + r();
            }
        });
    });
    set_hang_limit(0);
    note("long: 66000 PINGs, SETTINGS or other frames on one connection, a request after every 1000");
    // every flags octet: undefined bits mean nothing
    const Bytes eight{1, 2, 3, 4, 5, 6, 7, 8};
    enumerate("flags", 10 * 256 * 2, [&](Chooser& c, uint64_t i) {
        const bool burst = i & 1;
        const auto flags = static_cast<uint8_t>(i / 2 % 256);
        Bytes f;
        switch (i / 512) {
            case 0: f = frame(SETTINGS, flags, 0); break;
            case 1: f = flags & ACK ? frame(SETTINGS, flags, 0) + frame(SETTINGS, flags & ~ACK, 0, Bytes{0, 3, 0, 0, 0, 9}) : frame(SETTINGS, flags, 0, Bytes{0, 3, 0, 0, 0, 9}); break;
            case 2: f = frame(PING, flags, 0, eight); break;
            case 3: f = frame(WU, flags, 0, Bytes{0, 0, 0, 1}); break;
            case 4: f = frame(WU, flags, 1, Bytes{0, 0, 0, 1}); break;
            case 5: f = frame(PRIORITY, flags, 9, Bytes{0, 0, 0, 0, 1}); break;
            case 6: f = frame(RST, flags, 1, Bytes{0, 0, 0, 8}); break;
            case 7: f = frame(0x42, flags, 1, eight); break;
            case 8: f = frame(GOAWAY, flags, 0, Bytes(8, 0)); break;
            case 9: {  // HEADERS: the undefined flags only
                ref::Encoder e;
                e.index = false;
                f = frame(HEADERS, static_cast<uint8_t>((flags & ~(PADDED | PRIO)) | END_HEADERS), 3, e.encode(get("/e3")));
            }
        }
        std::vector<Bytes> parts{hello() + req(1, "/b10"), f, req(5, "/b3") + ping(99)};
        Bytes data;
        for (auto& p : parts) data += p;
        if (burst) parts = {data};
        bool bad = false;
        const auto r = run_one(c, parts, true, true, None, &bad);
        if (bad) return;
        against_model(c, r, data, "frame type " + std::to_string(f[3]) + " with flags " + std::to_string(flags));
        c.validated();
        c.state(fnv(3, r.tx.data(), r.tx.size()));
    });
    note("flags: 10 frames x all 256 flags octets");
    // order of SETTINGS and PING acknowledgements under a blocked socket is covered by C07
    enumerate("preface", 24 * 256 + 6, [&](Chooser& c, uint64_t i) {
        Bytes d = preface();
        std::string what;
        if (i < 24 * 256) {
            d[i / 256] = static_cast<uint8_t>(i % 256);
            what = "octet " + std::to_string(i / 256) + " = " + std::to_string(i % 256);
        } else {
            const Bytes odd[] = {bytes("GET / HTTP/1.1\r\nHost: a\r\n\r\n"), bytes("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03 0123456789abcdef"), Bytes(24, 0), Bytes(100, 255), bytes("PRI * HTTP/2.0\r\n\r\n"), {}};
            d = odd[i - 24 * 256];
            what = "odd preface " + std::to_string(i - 24 * 256);
        }
        const bool valid = d == preface();
        const Bytes data = d + settings() + req(1, "/b1");
        bool bad = false;
        auto r = run_one(c, {data}, true, false, None, &bad);
        if (bad) return;
        c.state(mix(5, i));
        if (valid) return against_model(c, r, data, what);
        c.validated();
        if (!r.tx.empty()) c.violation("preface", what + ": HTTP/2 bytes sent without a valid preface: " + hex(r.tx));
        if (!r.seen.empty()) c.violation("preface", what + ": a handler ran without a valid preface");
        if (data.size() >= 24 && !r.closed_before_stop) c.violation("preface-close", what + ": connection not closed");
    });
    note("preface: every single-octet change of the preface, plus HTTP/1.1, TLS, zeros");
    enumerate("preface-truncated", 25 * 2, [&](Chooser& c, uint64_t i) {
        const Bytes p = preface();
        bool bad = false;
        auto r = run_one(c, cut(Bytes(p.begin(), p.begin() + i / 2), {}), true, false, i & 1 ? WithLast : None, &bad);
        if (bad) return;
        if (i / 2 < 24 && !r.tx.empty()) c.violation("preface", "answer to a partial preface");
        if (i / 2 == 24 && (r.tx.size() < 9 || r.tx[3] != SETTINGS)) c.violation("settings", "no SETTINGS after the preface");
        if ((i & 1) && !r.closed_before_stop) c.violation("close", "connection stays open after the client closed its side");
        if (!(i & 1) && r.closed_before_stop) c.violation("close", "connection closed before the preface was complete");
    });
}

// ---------------------------------------------------------------- C10
namespace {
// RFC errors that properties.jsonl leaves open: only safety and isolation are checked
bool unspecified(const Bytes& d) {
    bool partial = false;
    for (auto& f : split(d, 24)) {
        if (f.len > MAX_FRAME) return false;
        if (partial && f.type != CONT) return false;
        switch (f.type) {
            case DATA:
                if (f.sid == 0 || f.flags & PADDED) return true;
                break;
            case HEADERS: partial = !(f.flags & END_HEADERS); break;
            case CONT: partial = partial && !(f.flags & END_HEADERS); break;
            case PRIORITY:
                if (f.len != 5 || f.sid == 0) return true;
                break;
            case RST:
                if (f.len != 4 || f.sid == 0) return true;
                break;
            case SETTINGS:
                if (f.sid || ((f.flags & ACK) && f.len)) return true;
                if (!(f.flags & ACK) && f.len % 6 == 0)
                    for (size_t k = 0; k + 6 <= f.len; k += 6) {
                        const uint32_t id = f.payload[k] << 8 | f.payload[k + 1];
                        const uint32_t v = uint32_t(f.payload[k + 2]) << 24 | f.payload[k + 3] << 16 | f.payload[k + 4] << 8 | f.payload[k + 5];
                        if ((id == 2 && v > 1) || (id == 4 && v > 0x7fffffff) || (id == 5 && (v < 16384 || v > 0xffffff))) return true;
                    }
                break;
            case PUSH: return true;
            case PING:
                if (f.sid) return true;
                break;
            case GOAWAY:
                if (f.sid || f.len < 8) return true;
                break;
            case WU:
                if (f.len == 4 && (f.payload[0] & 0x7f) == 0 && !f.payload[1] && !f.payload[2] && !f.payload[3]) return true;
                if (f.len == 4 && (f.payload[0] & 0x7f)) return true;  // may overflow the window
                break;
            default: break;
        }
    }
    return false;
}
// A malformed exchange next to a well-behaved connection
void run_malformed(Chooser& c, const Bytes& data, const std::string& what, Fin fin = None, bool rst = false, bool bystander = true) {
    Server s(c);
    ConnPtr k, by;
    bool closed = false;
    const Bytes by1 = hello() + req(1, "/b20"), by2 = req(3, "/e") + ping(4);
    if (bystander)
        s.script.push_back([&] {
            by = s.w.connect(1);
            s.w.send(by, by1);
        });
    s.script.push_back([&] {
        k = s.w.connect(0);
        s.w.send(k, data);
        if (fin == WithLast) s.w.fin(k);
        if (rst) s.w.rst(k);
    });
    if (bystander) s.script.push_back([&] { s.w.send(by, by2); });
    s.script.push_back([&] { closed = k->closes > 0; });
    s.run();
    if (s.check_sane(c)) return;
    const std::string ctx = what + ": " + hex(data.data() + std::min<size_t>(24, data.size()), data.size() - std::min<size_t>(24, data.size()), 80);
    if (bystander) {
        auto by_e = model(by1 + by2);
        auto m = compare(by_e, parse(by->tx));
        if (!m.empty()) {
            c.violation("bystander", "another connection is disturbed: " + m.substr(m.find('|') + 1) + " [" + ctx + "]");
            return;
        }
    }
    c.validated();
    c.state(fnv(3, k->tx.data(), k->tx.size()));
    const auto o = parse(k->tx);
    if (rst) return;
    if (unspecified(data)) {
        if (!o.errors.empty()) c.violation("output", o.errors[0] + " [" + ctx + "]");
        return;
    }
    const auto e = model(data);
    if (srv::report(c, compare(e, parse(k->tx, e.table_sizes)), ctx)) return;
    std::vector<Req> want = expected_requests(e), got = s.seen;
    if (bystander) {
        auto a = expected_requests(model(by1 + by2));
        // the bystander's first request comes first and its second last
        if (got.size() >= 2) {
            got.erase(got.begin());
            got.pop_back();
        }
    }
    if (got != want) c.violation("requests", "handlers saw " + show_seen(got) + " instead of " + show_seen(want) + " [" + ctx + "]");
    if ((e.end != Expect::Open || fin != None) && !closed) c.violation("close", "connection not closed [" + ctx + "]");
    if (e.end == Expect::Open && fin == None && closed) c.violation("close", "connection closed for valid input [" + ctx + "]");
}
}  // namespace
MC_PROPERTY(C10) {
    // every frame type, many lengths, flags, streams, in four connection states
    const std::vector<uint8_t> types = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255};
    const std::vector<uint32_t> lens = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16384, 16385, 65535, 65536, 0xffffff};
    const std::vector<uint8_t> flags = {0, 1, 4, 5, 8, 0x20, 0x28, 0x2c, 0x2d, 0x0c, 0xff, 0xfe};
    const std::vector<uint32_t> sids = {0, 1, 2, 3, 0x7fffffff, 0x80000001, 0xffffffff};
    const int fills = 4, states = 4;
    const uint64_t N = uint64_t(types.size()) * lens.size() * flags.size() * sids.size() * fills * states;
    const Bytes nice = [] {
        ref::Encoder e;
        e.index = false;
        return e.encode(get("/e"));
    }();
    enumerate("frames", N, [&](Chooser& c, uint64_t i) {
        const int st = i % states; i /= states;
        const int fill = i % fills; i /= fills;
        const uint32_t sid = sids[i % sids.size()]; i /= sids.size();
        const uint8_t fl = flags[i % flags.size()]; i /= flags.size();
        const uint32_t len = lens[i % lens.size()]; i /= lens.size();
        const uint8_t ty = types[i];
        if (len > 20 && fill) return;                       // long ones once
        if (!thorough() && len > 20 && fl != 0 && fl != 5) return;
        if (!thorough() && st >= 2 && fill >= 2) return;
        Bytes p(std::min<uint32_t>(len, 16385));
        for (size_t k = 0; k < p.size(); ++k) p[k] = fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? 0x82 : nice[k % nice.size()];
        Bytes d = hello();
        if (st == 1) d += req(1, "/e1");
        if (st == 2) d += frame(HEADERS, END_STREAM, 1, nice);
        if (st == 3) d += req(1, "/e1", {}, false);
        d += frame_len(len, ty, fl, sid, p);
        d += st == 2 ? frame(CONT, END_HEADERS, 1) : req(0x7ffffffd, "/b4");
        run_malformed(c, d, "frame type " + std::to_string(ty) + " length " + std::to_string(len) + " flags " + std::to_string(fl) + " stream " + std::to_string(sid) + " state " + std::to_string(st), None, false, false);
    });
    note("frames: 12 types x 18 lengths x 12 flag sets x 7 streams x 4 payloads x 4 connection states");
    // the listed malformations next to a bystander, each at several points
    ref::Encoder enc;
    enc.index = false;
    const std::vector<std::pair<std::string, Bytes>> bad = {
        {"oversized", frame_len(16385, DATA, 0, 1, Bytes(50, 1))}, {"settings-5", frame(SETTINGS, 0, 0, Bytes(5, 0))}, {"settings-7", frame(SETTINGS, 0, 0, Bytes(7, 0))},
        {"wu-0", frame(WU, 0, 0)}, {"wu-3", frame(WU, 0, 0, Bytes(3, 1))}, {"wu-5", frame(WU, 0, 1, Bytes(5, 1))}, {"ping-0", frame(PING, 0, 0)}, {"ping-7", frame(PING, 0, 0, Bytes(7, 1))}, {"ping-9", frame(PING, ACK, 0, Bytes(9, 1))},
        {"headers-pad-0", frame(HEADERS, END_HEADERS | PADDED, 3)}, {"headers-pad", frame(HEADERS, END_HEADERS | PADDED, 3, Bytes{5, 0x82})}, {"headers-prio", frame(HEADERS, END_HEADERS | PRIO, 3, Bytes(4, 0))},
        {"headers-prio-pad", frame(HEADERS, END_HEADERS | PRIO | PADDED, 3, Bytes(5, 0))}, {"headers-pad-all", frame(HEADERS, END_HEADERS | PADDED, 3, Bytes(4, 4))}, {"headers-0", headers(0, nice)}, {"headers-even", headers(4, nice)},
        {"continuation", frame(CONT, END_HEADERS, 3, nice)}, {"continuation-0", frame(CONT, 0, 0)}, {"index-0", headers(3, Bytes{0x80})}, {"index-big", headers(3, Bytes{0xff, 0x80, 0x01})}, {"truncated-block", headers(3, Bytes{0x40, 0x05, 'a'})},
        {"int-overflow", headers(3, Bytes{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f})}, {"huffman-eos", headers(3, Bytes{0x40, 0x84, 0xff, 0xff, 0xff, 0xff, 0x00})}, {"size-update", headers(3, ref::size_update(65537))},
        {"interrupted", frame(HEADERS, 0, 3, nice) + ping(1)}, {"interrupted-other", frame(HEADERS, 0, 3, nice) + frame(CONT, END_HEADERS, 5)}, {"headers-headers", frame(HEADERS, 0, 3, nice) + headers(3, nice)}};
    enumerate("listed", bad.size() * 5 * 3, [&](Chooser& c, uint64_t i) {
        auto& [name, b] = bad[i % bad.size()];
        const int pos = i / bad.size() % 5, fin = static_cast<int>(i / bad.size() / 5);
        Bytes d = hello();
        if (pos == 1) d += req(1, "/e1");
        if (pos == 2) d += settings() + ping(3) + req(1, "/b3000");
        if (pos == 3) d += req(1, "/e1") + frame(DATA, 0, 1, bytes("x"));
        if (pos == 4) d += req(1, "/u1") + frame(PRIORITY, 0, 9, Bytes(5, 0));
        d += b + (name.starts_with("interrupted") || name == "oversized" ? Bytes{} : req(5, "/e5"));
        run_malformed(c, d, name, fin == 1 ? WithLast : None, fin == 2);
        c.state(mix(mix(77, i % bad.size()), pos));
    });
    note("listed: 27 malformations named by the property x 5 preceding histories x (stays open / end of stream / reset), next to a well-behaved connection");
    // pairs: malformed then malformed never answers twice, and truncation at every octet
    const Bytes whole = mixed_stream();
    enumerate("truncated", whole.size() * 3, [&](Chooser& c, uint64_t i) {
        const Bytes d(whole.begin(), whole.begin() + i / 3);
        run_malformed(c, d, "truncated after " + std::to_string(i / 3), i % 3 == 1 ? WithLast : None, i % 3 == 2);
    });
    // single-octet changes of a mixed stream
    const std::vector<uint8_t> vals = {0, 1, 2, 4, 5, 7, 8, 9, 0x20, 0x3f, 0x40, 0x7f, 0x80, 0x82, 0xbe, 0xc0, 0xe1, 0xfe, 0xff};
    const bool all_vals = thorough();
    const uint64_t V = all_vals ? 256 : vals.size();
    enumerate("mutations", (whole.size() - 24) * V, [&](Chooser& c, uint64_t i) {
        Bytes d = whole;
        const size_t at = 24 + i / V;
        d[at] = all_vals ? static_cast<uint8_t>(i % V) : vals[i % V];
        run_malformed(c, d, "octet " + std::to_string(at) + " = " + std::to_string(d[at]), None, false, false);
    });
    note("mutations: every octet of a mixed stream set to " + std::to_string(V) + " values; truncated: the stream cut at every octet and left open, ended or reset");
    // all header blocks of up to 2 octets
    enumerate("blocks", 256 + 65536, [&](Chooser& c, uint64_t i) {
        if (!thorough() && i >= 256 && (i % 7)) return;
        Bytes b = i < 256 ? Bytes{static_cast<uint8_t>(i)} : Bytes{static_cast<uint8_t>((i - 256) >> 8), static_cast<uint8_t>(i - 256)};
        run_malformed(c, hello() + headers(1, b) + req(3, "/e"), "block", None, false, false);
    });
    note(std::string("blocks: all header blocks of 1 octet and ") + (thorough() ? "all" : "every 7th") + " of 2 octets");
}

// ---------------------------------------------------------------- C11
MC_PROPERTY(C11) {
    ref::Encoder e0;
    const Bytes b1 = e0.encode(get("/e1", {{"x-long", std::string(20, 'q')}, {"cookie", "c"}}));
    const Bytes b2 = e0.encode(get("/e2", {{"x-long", std::string(20, 'q')}, {"cookie", "d"}}));
    const size_t n = b1.size();
    const Bytes plain = hello() + headers(1, b1) + headers(3, b2);
    struct Base {
        One r;
        bool ok = false;
    } base;
    auto get_base = [&](Chooser& c) {
        if (base.ok) return true;
        bool bad = false;
        base.r = run_one(c, {plain}, true, false, None, &bad);
        if (bad) return false;
        against_model(c, base.r, plain, "plain framing");
        base.ok = !c.violated();
        return base.ok;
    };
    const int pads[] = {-1, 0, 1, 7, 255};
    auto framed = [&](uint32_t sid, const Bytes& b, std::vector<size_t> cuts, int pad, bool prio, bool es = true) {
        std::vector<Bytes> frag;
        size_t p = 0;
        cuts.push_back(b.size());
        for (size_t x : cuts) {
            frag.emplace_back(b.begin() + p, b.begin() + x);
            p = x;
        }
        Bytes d;
        for (size_t k = 0; k < frag.size(); ++k) {
            const uint8_t eh = k + 1 == frag.size() ? END_HEADERS : 0;
            if (k) {
                d += frame(CONT, eh, sid, frag[k]);
                continue;
            }
            Bytes pl;
            uint8_t fl = eh | (es ? END_STREAM : 0);
            if (pad >= 0) pl.push_back(static_cast<uint8_t>(pad)), fl |= PADDED;
            if (prio) pl += Bytes{0x80, 0, 0, 5, 200}, fl |= PRIO;
            pl += frag[k];
            if (pad > 0) pl += Bytes(pad, 0);
            d += frame(HEADERS, fl, sid, pl);
        }
        return d;
    };
    // up to two cuts (including empty fragments) x padding x priority, pieces delivered together or frame by frame
    enumerate("framings", (n + 1) * (n + 2) * 5 * 2 * 2, [&](Chooser& c, uint64_t i) {
        const bool stepwise = i & 1; i >>= 1;
        const bool prio = i & 1; i >>= 1;
        const int pad = pads[i % 5]; i /= 5;
        const size_t a = i % (n + 1), b = i / (n + 1);  // b == n+1: only one cut
        if (b <= n && b < a) return;
        if (!thorough() && stepwise && pad > 0) return;
        if (!get_base(c)) return;
        std::vector<size_t> cuts{a};
        if (b <= n) cuts.push_back(b);
        const Bytes d = framed(1, b1, cuts, pad, prio);
        bool bad = false;
        std::vector<Bytes> segs{hello()};
        if (stepwise) {
            size_t p = 0;
            for (auto& f : split(d, 0)) segs.emplace_back(d.begin() + p, d.begin() + f.offset), p = f.offset;
        } else
            segs.push_back(d);
        segs.push_back(headers(3, b2));
        auto r = run_one(c, segs, true, stepwise, None, &bad);
        if (bad) return;
        c.state(mix(mix(a, b), mix(pad + 1, prio)));
        same(c, r, base.r, "block cut at " + std::to_string(a) + (b <= n ? " and " + std::to_string(b) : "") + " pad " + std::to_string(pad) + (prio ? " with priority" : ""));
    });
    note("framings: every cut of a " + std::to_string(n) + "-octet block into 2 or 3 fragments (empty ones included) x padding {none,0,1,7,255} x priority, delivered at once and frame by frame; the next request depends on the dynamic table");
    enumerate("uncut", 5 * 2 * 2, [&](Chooser& c, uint64_t i) {
        if (!get_base(c)) return;
        bool bad = false;
        const Bytes second = framed(3, b2, {}, pads[i % 5], i / 5 % 2);
        auto r = run_one(c, {hello() + framed(1, b1, {}, pads[i % 5], i / 5 % 2, i / 10 == 0) + second}, true, false, None, &bad);
        if (!bad) same(c, r, base.r, "padding / priority / END_STREAM variants");
    });
    enumerate("octet-by-octet", 2, [&](Chooser& c, uint64_t i) {
        if (!get_base(c)) return;
        bool bad = false;
        std::vector<size_t> all;
        for (size_t k = 1; k < n; ++k) all.push_back(k);
        auto r = run_one(c, {hello() + framed(1, b1, all, i ? 3 : -1, i) + headers(3, b2)}, true, false, None, &bad);
        if (!bad) same(c, r, base.r, "one octet per CONTINUATION frame");
    });
    // large blocks in many frames
    enumerate("large-blocks", 12, [&](Chooser& c, uint64_t i) {
        ref::Encoder e;
        Fields more;
        for (uint64_t k = 0; k < 2 + i * 2; ++k) more.emplace_back("x-" + std::to_string(k), std::string(3500, 'a' + k % 26));
        e.index = false;
        const Bytes b = e.encode(get("/e1", more));
        std::vector<size_t> at;
        const size_t step = i % 3 == 0 ? 16384 : i % 3 == 1 ? 1000 : 16000;
        for (size_t p = step; p < b.size(); p += step) at.push_back(p);
        const Bytes d = hello() + framed(1, b, at, -1, false) + req(3, "/b3");
        bool bad = false;
        auto r = run_one(c, {d}, true, false, None, &bad);
        if (!bad) against_model(c, r, d, "header block of " + std::to_string(b.size()) + " octets");
    });
    // something else between HEADERS and the end of the block
    const std::vector<Bytes> intr = {ping(1), settings(), settings_ack(), window_update(0, 1), window_update(1, 1), frame(PRIORITY, 0, 1, Bytes(5, 0)), frame(RST, 0, 1, Bytes(4, 0)), frame(DATA, 0, 1, bytes("x")), frame(0x42, 0, 1), goaway(),
                                     frame(HEADERS, END_HEADERS, 1, b2), frame(HEADERS, END_HEADERS, 3, b2), frame(HEADERS, 0, 3, b2), frame(CONT, END_HEADERS, 3, b2), frame(CONT, 0, 0), frame(CONT, END_HEADERS, 5), frame(PUSH, END_HEADERS, 1, Bytes(4, 0)), ping(1, true)};
    enumerate("interruptions", intr.size() * 3 * 2 * 2, [&](Chooser& c, uint64_t i) {
        auto& x = intr[i % intr.size()];
        i /= intr.size();
        const int where = i % 3;
        const bool before = i / 3 % 2, step = i / 6;
        Bytes d = hello();
        if (before) d += req(1, "/e0");
        const uint32_t sid = before ? 3 : 1;
        Bytes xx = x;
        if (before && (xx[8] == 1 || xx[8] == 3)) xx[8] += 2;
        d += frame(HEADERS, END_STREAM, sid, Bytes(b1.begin(), b1.begin() + n / 3));
        if (where == 1) d += frame(CONT, 0, sid, Bytes(b1.begin() + n / 3, b1.begin() + 2 * n / 3));
        if (where == 2) d += frame(CONT, 0, sid, Bytes(b1.begin() + n / 3, b1.end()));
        const size_t at = d.size();
        d += xx + frame(CONT, END_HEADERS, sid) + req(7, "/e7");
        bool bad = false;
        auto r = run_one(c, step ? cut(d, {at}) : std::vector<Bytes>{d}, true, step, None, &bad);
        if (bad) return;
        c.state(mix(mix(99, i), hash_str(hex(x))));
        against_model(c, r, d, "interrupting frame " + hex(xx));
    });
    note("interruptions: 18 frames at 3 places inside a header block");
}

// ---------------------------------------------------------------- C12
namespace {
struct Odd {
    int x;
};
void fail(int kind) {
    switch (kind) {
        case 0: throw std::runtime_error("boom");
        case 1: throw std::exception();
        case 2: throw 42;
        case 3: throw "text";
        case 4: throw Odd{1};
        case 5: throw std::bad_alloc();
        case 6: throw std::string("s");
        case 7: std::vector<int>().at(1); break;
        case 8: throw std::make_shared<int>(1);
        case 9: throw std::system_error(EIO, std::generic_category());
        case 10: throw static_cast<Odd*>(nullptr);
        case 11: throw std::runtime_error("{} {0} %s%n {:>99999} }{");
        case 12: throw std::runtime_error(std::string(100000, 'x') + "\xff\xfe\n\r\n");
        case 13: throw std::invalid_argument("");
        default: std::throw_with_nested(std::logic_error("n"));
    }
}
constexpr int KINDS = 15;
enum Where { InRoute, InMiddlewareBefore, InMiddlewareAfter, InWrap, Places };
}  // namespace
MC_PROPERTY(C12) {
    // per request: 0 = fine, else fails
    const int len = thorough() ? 5 : 4;
    enumerate("failures", uint64_t(KINDS) * Places * (1 << len) * 2 * 3, [&](Chooser& c, uint64_t i) {
        const int style = i % 3; i /= 3;  // GET, POST with a body, POST in fragments
        const int kind = i % KINDS; i /= KINDS;
        const int where = i % Places; i /= Places;
        const int mask = i % (1 << len); i /= 1 << len;
        const bool burst = i;
        Server s(c, Server::cleartext(), false);
        int ran = 0;
        const std::string marker = "/x";
        auto& router = s.server->router();
        if (where != InRoute)
            router.add_middleware([&](ion::RouteHandler next) -> ion::RouteHandler {
                if (where == InWrap) {
                    static thread_local int seen = 0;
                    (void)seen;
                }
                return [&, next](const ion::HttpRequest& r) {
                    if (r.path == "/x" && where == InMiddlewareBefore) fail(kind);
                    auto res = next(r);
                    if (r.path == "/x" && where == InMiddlewareAfter) fail(kind);
                    return res;
                };
            });
        bool armed = false;
        if (where == InWrap)
            router.add_middleware([&](ion::RouteHandler next) -> ion::RouteHandler {
                if (armed) fail(kind);
                return next;
            });
        for (const char* method : {"GET", "POST"}) {
        router.add_route("/ok", method, [&](const ion::HttpRequest&) {
            ran++;
            return ion::HttpResponse{.status_code = 200, .body = bytes("fine"), .headers = {{"x-ok", "1"}}};
        });
        router.add_route("/x", method, [&](const ion::HttpRequest&) -> ion::HttpResponse {
            if (where == InRoute) fail(kind);
            return {.status_code = 200};
        });
        }
        auto want = [&](const Req& r) {
            Resp a;
            if (r.path == "/x") a.status = 500;
            else a.headers = {{"x-ok", "1"}}, a.body = bytes("fine");
            return a;
        };
        ConnPtr k, by;
        std::vector<Bytes> parts{hello()};
        for (int j = 0; j < len; ++j) {
            const uint32_t sid = 1 + 2 * j;
            const std::string path = mask >> j & 1 ? "/x" : "/ok";
            if (style == 0) {
                parts.push_back(req(sid, path));
                continue;
            }
            ref::Encoder e;
            e.index = false;
            const Bytes b = e.encode(get(path, {{"content-length", "3"}}, "POST"));
            if (style == 1) parts.push_back(headers(sid, b, false) + frame(DATA, 0, sid, bytes("ab")) + frame(DATA, END_STREAM, sid, bytes("c")));
            else parts.push_back(frame(HEADERS, PADDED, sid, Bytes{2} + Bytes(b.begin(), b.begin() + 5) + Bytes{0, 0}) + frame(CONT, END_HEADERS, sid, Bytes(b.begin() + 5, b.end())) + frame(DATA, END_STREAM, sid, bytes("abc")));
        }
        Bytes data;
        for (auto& p : parts) data += p;
        const Bytes by1 = hello() + req(1, "/ok"), by2 = req(3, "/ok");
        s.script.push_back([&] { by = s.w.connect(1), s.w.send(by, by1); });
        if (where == InWrap) {
            // wrapping happens per request, before the handler: arm it for the failing ones
            s.script.push_back([&] { k = s.w.connect(0), s.w.send(k, parts[0]); });
            for (int j = 0; j < len; ++j) s.script.push_back([&, j] { armed = mask >> j & 1, s.w.send(k, parts[j + 1]); });
            s.script.push_back([&] { armed = false; });
        } else if (burst)
            s.script.push_back([&] { k = s.w.connect(0), s.w.send(k, data); });
        else {
            s.script.push_back([&] { k = s.w.connect(0), s.w.send(k, parts[0]); });
            for (int j = 0; j < len; ++j) s.script.push_back([&, j] { s.w.send(k, parts[j + 1]); });
        }
        s.script.push_back([&] { s.w.send(by, by2); });
        bool open = false;
        s.script.push_back([&] { open = k->closes == 0 && by->closes == 0; });
        s.run();
        const std::string ctx = "exception kind " + std::to_string(kind) + " place " + std::to_string(where) + " mask " + std::to_string(mask);
        if (s.check_sane(c)) return;
        c.validated();
        c.state(mix(mix(kind, where), mix(mask, burst)));
        if (srv::report(c, compare(model(data, want), parse(k->tx)), ctx)) return;
        if (srv::report(c, compare(model(by1 + by2, want), parse(by->tx)), ctx + " (other connection)")) return;
        if (!open) c.violation("closed", "connection closed after a failing handler [" + ctx + "]");
    });
    note("failures: 15 kinds of exception x thrown by route / middleware before or after the inner handler / while wrapping x every subset of " + std::to_string(len) + " requests (GET, POST with body, fragmented POST) failing, next to another connection");
    set_hang_limit(200);
    enumerate("long", KINDS * 2, [&](Chooser& c, uint64_t i) {  // a server that fails all day
        const int kind = static_cast<int>(i) % KINDS;
        const bool runs = i >= KINDS;  // a thousand in a row, instead of three of every four
        const int N = kind == 12 ? 2000 : 20000;
        Server s(c);
        s.on_request = [&](const Req& r) {
            if (r.path == "/x") fail(kind);
        };
        auto want = [&](const Req& r) {
            Resp a = app(r);
            if (r.path == "/x") a = Resp{}, a.status = 500;
            return a;
        };
        Bytes data = hello();
        for (int j = 0; j < N; ++j) {
            const Bytes b = req(2 * j + 1, (runs ? j / 1000 % 2 == 0 : j % 4 != 0) ? "/x" : "/e");
            data.insert(data.end(), b.begin(), b.end());
        }
        ConnPtr k;
        bool open = false;
        s.script = {[&] { k = s.w.connect(0), s.w.send(k, data); }, [&] { open = k->closes == 0; }};
        s.run();
        const std::string ctx = std::to_string(N) + " requests, " + (runs ? "alternate thousands" : "three of four") + " failing with exception kind " + std::to_string(kind);
        if (s.check_sane(c)) return;
        c.validated();
        c.state(static_cast<uint64_t>(i));
        if (srv::report(c, compare(model(data, want), parse(k->tx)), ctx)) return;
        if (!open) c.violation("closed", "connection closed [" + ctx + "]");
    });
    set_hang_limit(0);
    note("long: 15000 failing requests among 20000 on one connection, scattered, or 10000 in runs of a thousand, for each kind of exception");
}

// ---------------------------------------------------------------- C13
namespace {
// The client's books of what it has granted and what it has received.
struct Books {
    struct St {
        int64_t granted = 0, got = 0;
        size_t body = 0;
        bool ended = false, headers = false, reset = false, refused = false;
        bool dead = false;  // the server has seen the client's reset
        Bytes data;
    };
    int64_t conn = 65535, conn_got = 0;
    std::vector<int64_t> init{65535};  // in force after the n-th SETTINGS frame sent
    size_t acked = 0, off = 0;
    std::map<uint32_t, St> st;
    bool goaway = false;

    Bytes set(int64_t w) {
        init.push_back(w);
        return settings({{4, static_cast<uint32_t>(w)}});
    }
    Bytes set_other() {
        init.push_back(init.back());
        return settings({{1, 4096}, {3, 7}});
    }
    Bytes open(uint32_t sid, size_t body) {
        st[sid].body = body;
        return req(sid, "/b" + std::to_string(body));
    }
    Bytes wu(uint32_t sid, uint32_t inc) {
        if (sid) {
            if (auto it = st.find(sid); it != st.end()) it->second.granted += inc;
        } else conn += inc;
        return window_update(sid, inc);
    }
    Bytes rst(uint32_t sid) {
        st[sid].reset = true;
        return frame(RST, 0, sid, Bytes{0, 0, 0, 8});
    }
    int64_t allowed(const St& s) const { return std::min(init.back() + s.granted - s.got, conn - conn_got); }

    // New output; "key|message" if it breaks what has been granted.
    std::string read(const Bytes& tx) {
        size_t rest = 0;
        for (auto& f : split(tx, off, &rest)) {
            off = f.offset;
            if (f.type == SETTINGS && (f.flags & ACK)) {
                if (++acked >= init.size()) return "acks|more SETTINGS acknowledged than sent";
                continue;
            }
            if (f.type == GOAWAY) goaway = true;
            if (f.type == RST) {
                st[f.sid].refused = true;
                continue;
            }
            if (f.type == HEADERS) {
                auto& s = st[f.sid];
                s.headers = true;
                if (f.flags & END_STREAM) s.ended = true;
            }
            if (f.type != DATA) continue;
            auto it = st.find(f.sid);
            if (it == st.end() || !it->second.headers) return "stream|DATA on stream " + std::to_string(f.sid) + " before its HEADERS";
            auto& s = it->second;
            if (s.ended) return "after-end|DATA after END_STREAM on stream " + std::to_string(f.sid);
            if (s.dead) return "reset|DATA on stream " + std::to_string(f.sid) + " after the client reset it";
            s.got += f.len;
            conn_got += f.len;
            s.data.insert(s.data.end(), f.payload.begin(), f.payload.end());
            if (f.flags & END_STREAM) s.ended = true;
            const int64_t in_force = std::max(init[acked], init[std::min(acked + 1, init.size() - 1)]);
            // an empty DATA frame needs no window; a lowered window may be below what was sent before
            if (f.len && s.got > in_force + s.granted)
                return "stream-window|" + std::to_string(s.got) + " octets of DATA on stream " + std::to_string(f.sid) + ", the client allowed " + std::to_string(in_force + s.granted);
            if (f.len && conn_got > conn) return "connection-window|" + std::to_string(conn_got) + " octets of DATA on the connection, the client allowed " + std::to_string(conn);
        }
        return "";
    }
    // The server waits and its socket is writable: everything allowed must have been sent.
    std::string idle() {
        for (auto& [sid, s] : st) s.dead |= s.reset;
        if (goaway) return "goaway|GOAWAY during a legal exchange";
        if (acked + 1 != init.size()) return "acks|" + std::to_string(acked) + " SETTINGS frames of " + std::to_string(init.size() - 1) + " acknowledged";
        for (auto& [sid, s] : st) {
            if (s.reset || s.refused) continue;
            const std::string n = "stream " + std::to_string(sid);
            if (!s.headers) return "headers|no response on " + n;
            if (s.got > static_cast<int64_t>(s.body)) return "excess|" + n + " got " + std::to_string(s.got) + " octets of a body of " + std::to_string(s.body);
            if (s.ended && s.got != static_cast<int64_t>(s.body)) return "early-end|END_STREAM on " + n + " after " + std::to_string(s.got) + " of " + std::to_string(s.body) + " octets";
            if (!s.ended && s.got == static_cast<int64_t>(s.body)) return "no-end|whole body but no END_STREAM on " + n;
            if (!s.ended && allowed(s) > 0)
                return "stalled|" + n + " has " + std::to_string(s.got) + " of " + std::to_string(s.body) + " octets although its windows allow " + std::to_string(allowed(s)) + " more";
            if (s.got) {
                const Bytes want = app({"GET", "/b" + std::to_string(s.body), {}}).body;
                if (!std::equal(s.data.begin(), s.data.end(), want.begin())) return "content|body octets of " + n + " differ";
            }
        }
        return "";
    }
    uint64_t hash() const {
        uint64_t h = mix(conn - conn_got, init.back());
        for (auto& [sid, s] : st) h = mix(h, mix(mix(sid, s.got), mix(s.granted, s.ended | s.reset << 1)));
        return h;
    }
};
// Runs a client whose n-th step is made when the server has nothing left to do; the books are
// checked after every step (idle) and, for what was sent, at every write.
struct FlowRun {
    Chooser& c;
    Books b;
    Server s;
    ConnPtr k;
    std::string bad, log;
    bool closed_early = false;
    bool expect_open = true;
    explicit FlowRun(Chooser& ch) : c(ch), s(ch) {}
    void step(const std::string& name, std::function<Bytes()> f, bool check_idle = true) {
        s.script.push_back([this, name, f, check_idle] {
            check(check_idle);
            log += name + ", ";
            if (!k) k = s.w.connect(0);
            const Bytes d = f();
            if (!d.empty()) s.w.send(k, d);
        });
    }
    void check(bool idle) {
        if (!k || !bad.empty()) return;
        bad = b.read(k->tx);
        if (bad.empty() && idle && k->closes == 0) bad = b.idle();
        if (!bad.empty()) bad += " [" + log + "]";
        if (k->closes && expect_open) closed_early = true;
        c.state(b.hash());
    }
    bool run(bool finish = true) {
        // finally grant everything: each body must arrive whole
        if (finish) {
            step("grant the connection", [this] { return b.wu(0, static_cast<uint32_t>(0x7fffffff - (b.conn - b.conn_got))); });
            step("grant the streams", [this] {
                Bytes d;
                for (auto& [sid, st] : b.st)
                    if (!st.ended && !st.reset && !st.refused) d += b.wu(sid, static_cast<uint32_t>(0x7fffffff - std::max<int64_t>(0, b.init.back() + st.granted - st.got)));
                return d;
            });
            // a window that SETTINGS had made negative may need a second grant
            step("grant the streams again", [this] {
                Bytes d;
                for (auto& [sid, st] : b.st)
                    if (!st.ended && !st.reset && !st.refused) d += b.wu(sid, 100000);
                return d;
            });
            step("look", [this] {
                for (auto& [sid, st] : b.st)
                    if (!st.ended && !st.reset && !st.refused && bad.empty()) bad = "incomplete|stream " + std::to_string(sid) + " not finished when everything was granted [" + log + "]";
                return Bytes{};
            });
        } else
            step("look", [] { return Bytes{}; });
        s.run();
        if (s.check_sane(c)) return false;
        c.validated();
        c.outcome(fnv(1, k->tx.data(), k->tx.size()));
        if (srv::report(c, bad, "")) return false;
        if (closed_early) {
            c.violation("closed", "connection closed during a legal exchange [" + log + "]");
            return false;
        }
        return true;
    }
};
struct FlowOp {
    std::string name;
    std::function<Bytes(Books&)> f;
};
}  // namespace
MC_PROPERTY(C13) {
    // 1. one response: announced window x body size x grants
    const std::vector<int64_t> inits = {-1, 0, 1, 9, 100, 16255, 16256, 16257, 16384, 65534, 65535, 65536, 70000, 0x7fffffff};
    const std::vector<size_t> bodies = {0, 1, 2, 9, 10, 100, 101, 16256, 16257, 16384, 16385, 65534, 65535, 65536, 65537, 70001, 131071, 140000};
    struct Grant {
        bool conn, stream;
        uint32_t n;
    };
    const std::vector<Grant> grants = {{true, false, 1}, {true, true, 1}, {false, true, 1}, {true, true, 16256}, {true, true, 65535}, {false, true, 100000}, {true, false, 100000}};
    const int G = thorough() ? 3 : 2;
    explore("one-response", 0, [&](Chooser& c) {
        const auto init = inits[c.pick(static_cast<int>(inits.size()), "initial window")];
        const auto body = bodies[c.pick(static_cast<int>(bodies.size()), "body")];
        std::vector<int> g;
        for (int i = 0; i < G; ++i) g.push_back(c.pick(static_cast<int>(grants.size()), "grant"));
        const bool burst = c.pick(2, "burst");
        if (!c.commit()) return;
        FlowRun r(c);
        auto hello = [&r, init] { return preface() + (init < 0 ? r.b.set_other() : r.b.set(init)); };
        auto grant = [&r, &grants](int i) {
            Bytes d;
            if (grants[i].conn) d += r.b.wu(0, grants[i].n);
            if (grants[i].stream && r.b.init.back() + r.b.st[1].granted + grants[i].n <= 0x7fffffff && !r.b.st[1].ended) d += r.b.wu(1, grants[i].n);
            return d;
        };
        if (burst) {
            r.step("everything at once", [&] {
                Bytes d = hello() + r.b.open(1, body);
                for (int i : g) d += grant(i);
                return d;
            });
        } else {
            r.step("init " + std::to_string(init), hello);
            r.step("GET /b" + std::to_string(body), [&] { return r.b.open(1, body); });
            for (int i : g) r.step(std::string(grants[i].conn ? "C" : "") + (grants[i].stream ? "S" : "") + "+" + std::to_string(grants[i].n), [&, i] { return grant(i); });
        }
        r.run();
    });
    note("one-response: 14 announced initial windows x 18 body sizes x all sequences of " + std::to_string(G) + " grants out of 7, step by step and in one burst");

    // 2. histories of several streams with small windows
    auto histories = [&](const std::string& name, int depth, bool tight) {
        explore(name, 0, [&, depth, tight](Chooser& c) {
            static const std::vector<FlowOp> ops = {
                {"open 3 octets", [](Books& b) { return b.open(b.st.empty() ? 1 : b.st.rbegin()->first + 2, 3); }},
                {"open 9 octets", [](Books& b) { return b.open(b.st.empty() ? 1 : b.st.rbegin()->first + 2, 9); }},
                {"open 0 octets", [](Books& b) { return b.open(b.st.empty() ? 1 : b.st.rbegin()->first + 2, 0); }},
                {"init 0", [](Books& b) { return b.set(0); }},
                {"init 2", [](Books& b) { return b.set(2); }},
                {"init 7", [](Books& b) { return b.set(7); }},
                {"init 5 then 4 in one frame", [](Books& b) { b.init.push_back(4); return settings({{4, 5}, {4, 4}}); }},
                {"connection +2", [](Books& b) { return b.wu(0, 2); }},
                {"first +4", [](Books& b) { return b.st.empty() ? Bytes{} : b.wu(b.st.begin()->first, 4); }},
                {"last +1", [](Books& b) { return b.st.empty() ? Bytes{} : b.wu(b.st.rbegin()->first, 1); }},
                {"reset first", [](Books& b) { return b.st.empty() ? Bytes{} : b.rst(b.st.begin()->first); }},
                {"reset last", [](Books& b) { return b.st.empty() ? Bytes{} : b.rst(b.st.rbegin()->first); }},
                {"two opens and a grant at once", [](Books& b) {
                     const uint32_t n = b.st.empty() ? 1 : b.st.rbegin()->first + 2;
                     return b.open(n, 4) + b.open(n + 2, 2) + b.wu(n, 2);
                 }},
            };
            std::vector<int> seq;
            for (int i = 0; i < depth; ++i) seq.push_back(c.pick(static_cast<int>(ops.size()), "op"));
            if (!c.commit()) return;
            FlowRun r(c);
            r.step("hello", [&] { return preface() + r.b.set(5); });
            if (tight) {  // leaves 6 octets of the connection window
                r.step("use up the connection window", [&] { return r.b.open(1, 65529) + r.b.wu(1, 65524); });
            }
            for (int i : seq) r.step(ops[i].name, [&, i] { return ops[i].f(r.b); });
            r.run();
        });
    };
    histories("histories", thorough() ? 5 : 4, false);
    histories("histories-tight", thorough() ? 4 : 3, true);
    note("histories: all sequences of 13 client actions (open streams with bodies of 0, 3, 9 octets, SETTINGS raising and lowering the window, grants on streams and the connection, resets) up to depth " + std::to_string(thorough() ? 5 : 4) +
         ", with the connection window wide open and (one less deep) with 6 octets left of it");

    // 3. the same under back-pressure: the grants arrive while the socket takes nothing or little
    const std::vector<size_t> rooms = {0, 1, 9, 13, 30, 16384, 65000};
    explore("back-pressure", 0, [&](Chooser& c) {
        const auto room = rooms[c.pick(static_cast<int>(rooms.size()), "room")];
        const int at = c.pick(4, "blocked at step");
        const auto body = std::vector<size_t>{3, 9, 30000, 80000}[c.pick(4, "body")];
        const auto init = std::vector<int64_t>{0, 5, 65535, 70000}[c.pick(4, "initial window")];
        const int order = c.pick(3, "order of grants");
        const bool lower = c.pick(2, "lowered meanwhile");
        if (!c.commit()) return;
        FlowRun r(c);
        int n = 0;
        auto step = [&](const std::string& name, std::function<Bytes()> f) {
            const int i = n++;
            r.step(name, [&, f, i] {
                if (i == at) r.s.w.set_room(r.k, room);
                return f();
            }, i <= at);
        };
        step("init " + std::to_string(init), [&] { return preface() + r.b.set(init); });
        step("open", [&] { return r.b.open(1, body) + r.b.open(3, 4); });
        step("grant", [&] { return order == 0 ? r.b.wu(1, 40000) + r.b.wu(0, 10000) : order == 1 ? r.b.wu(0, 30000) : r.b.wu(3, 2) + r.b.wu(1, 70000); });
        step("settings", [&] { return lower ? r.b.set(init / 2) : Bytes{}; });
        step("unblock", [&] { r.s.w.set_room(r.k, ~size_t(0)); return Bytes{}; });
        r.run();
    });
    note("back-pressure: a socket that takes 0 to 65000 octets from one of four steps on, two streams, four windows, three orders of grants, a window lowered meanwhile");

    // 4. GOAWAY from the client and the client's end of stream while bodies wait
    explore("goaway", 0, [&](Chooser& c) {
        const auto init = std::vector<int64_t>{0, 1, 5, 100}[c.pick(4, "initial window")];
        const int n = 1 + c.pick(3, "streams");
        const int first = c.pick(4, "grants before");
        const int split_grants = c.pick(2, "grants in pieces");
        const int more = c.pick(2, "ping after");
        if (!c.commit()) return;
        FlowRun r(c);
        r.expect_open = false;
        r.step("hello", [&] { return preface() + r.b.set(init); });
        r.step("open", [&] {
            Bytes d;
            for (int i = 0; i < n; ++i) d += r.b.open(1 + 2 * i, 7 + i);
            return d;
        });
        if (first) r.step("grant", [&] { return first == 1 ? r.b.wu(1, 3) : first == 2 ? r.b.wu(1, 90) : r.b.set(4); });
        r.step("goaway", [&] { return goaway(); });
        if (more) r.step("ping", [&] { return ping(9); });
        for (int i = 0; i < n; ++i) {
            if (split_grants) r.step("grant 2", [&, i] { return r.b.st[1 + 2 * i].ended ? Bytes{} : r.b.wu(1 + 2 * i, 2); });
            r.step("grant the rest", [&, i] { return r.b.st[1 + 2 * i].ended ? Bytes{} : r.b.wu(1 + 2 * i, 1000); });
        }
        bool closed = false;
        r.step("look", [&] {
            closed = r.k->closes > 0;
            for (auto& [sid, st] : r.b.st)
                if (!st.ended && r.bad.empty()) r.bad = "incomplete|stream " + std::to_string(sid) + " not finished after the client's GOAWAY although everything was granted [" + r.log + "]";
            return Bytes{};
        });
        if (!r.run(false)) return;
        if (!closed) c.violation("not-closed", "connection open after the client's GOAWAY and the last response [" + r.log + "]");
    });
    note("goaway: the client's GOAWAY while 1 to 3 bodies wait for their windows; they are completed, then the connection is closed");

    // 5. many responses waiting at once: each is completed or its stream refused, none is lost
    enumerate("many", 12 * 2, [&](Chooser& c, uint64_t i) {
        const int n[] = {1, 2, 50, 98, 99, 100, 101, 102, 128, 200, 300, 500};
        const int count = n[i / 2];
        const bool reverse = i & 1;
        FlowRun r(c);
        r.step("hello", [&] { return preface() + r.b.set(0) + r.b.wu(0, 1000000); });
        r.step("open " + std::to_string(count), [&] {
            Bytes d;
            for (int j = 0; j < count; ++j) d += r.b.open(1 + 2 * j, 5 + j % 7);
            return d;
        });
        size_t refused = 0;
        r.step("grant one by one", [&] {
            for (auto& [sid, st] : r.b.st) refused += st.refused;
            return Bytes{};
        });
        for (int j = 0; j < count; j += 1) {
            const uint32_t sid = 1 + 2 * (reverse ? count - 1 - j : j);
            r.step("", [&, sid] { return r.b.st[sid].refused ? Bytes{} : r.b.wu(sid, 100); });
        }
        r.step("open one more", [&] { return r.b.open(1 + 2 * count, 6) + r.b.wu(1 + 2 * count, 6); });
        r.step("look", [&] {
            if (r.b.st[1 + 2 * count].refused && r.bad.empty()) r.bad = "refused|a stream is refused when no other is open";
            return Bytes{};
        });
        if (!r.run()) return;
        if (count <= 100 && refused) c.violation("refused", std::to_string(refused) + " of " + std::to_string(count) + " streams refused although 100 are announced as allowed");
    });
    note("many: up to 500 responses waiting for their windows at once, granted in opening and in reverse order");
}

// ---------------------------------------------------------------- C01, end to end
MC_PROPERTY(C01) {
    const std::vector<std::string> alpha = {"S0", "S100", "S4096", "S65536", "/u1", "/u2", "/m5", "/m70", "/h3900", "/h5000", "/e"};
    const int A = static_cast<int>(alpha.size());
    const int L = thorough() ? 5 : 4;
    for (int len = 1; len <= L; ++len) {
        uint64_t n = 1;
        for (int i = 0; i < len; ++i) n *= A;
        enumerate("connection" + std::to_string(len), n, [&, len](Chooser& c, uint64_t i) {
            Bytes data = hello();
            uint32_t sid = 1;
            std::string ctx;
            for (int k = 0; k < len; ++k, i /= A) {
                auto& a = alpha[i % A];
                ctx += a + " ";
                if (a[0] == 'S') data += settings({{1, static_cast<uint32_t>(atoi(a.c_str() + 1))}});
                else data += req(sid, a), sid += 2;
            }
            data += req(sid, "/u1") + req(sid + 2, "/m70") + req(sid + 4, "/u1");
            bool bad = false;
            auto r = run_one(c, {data}, true, false, None, &bad);
            if (bad) return;
            c.validated();
            c.state(fnv(4, r.tx.data(), r.tx.size()));
            against_model(c, r, data, ctx);
        });
    }
    note("connection: all sequences up to length " + std::to_string(L) + " of responses (unique, repeated, table-filling and oversized headers) and SETTINGS_HEADER_TABLE_SIZE 0/100/4096/65536, decoded by a client that holds the announced table");
    set_hang_limit(200);
    enumerate("long", 4 * 2, [&](Chooser& c, uint64_t i) {
        const int kind = i / 2;
        long_run(c, std::to_string(LONG) + " responses, kind " + std::to_string(kind), LONG, i & 1, [&](size_t n) -> Bytes {
            const auto sid = static_cast<uint32_t>(2 * n + 1);
            switch (kind) {
                case 0: return req(sid, "/u" + std::to_string(n));
                case 1: return req(sid, "/u" + std::to_string(n % 50 == 0 ? n : n / 100 * 100 - n % 100 / 10));
                case 2: return (n % 100 ? Bytes{} : settings({{1, static_cast<uint32_t>(n / 100 * 37 % 4500)}})) + req(sid, "/u" + std::to_string(n % 90));
                default: return req(sid, n % 3 ? "/m" + std::to_string(n % 23) : "/u" + std::to_string(n % 61));
            }
        });
    });
    set_hang_limit(0);
    note("long: 66000 responses with ever new, returning and mixed headers, and 660 changes of the table size, on one connection");
    // many distinct headers: every index of the table gets used
    enumerate("distinct", thorough() ? 400 : 60, [&](Chooser& c, uint64_t i) {
        Bytes data = hello();
        uint32_t sid = 1;
        for (uint64_t k = 0; k < i + 2; ++k, sid += 2) data += req(sid, "/u" + std::to_string(k));
        for (uint64_t k = 0; k < i + 2; ++k, sid += 2) data += req(sid, "/u" + std::to_string(k));
        bool bad = false;
        auto r = run_one(c, {data}, true, false, None, &bad);
        if (!bad) against_model(c, r, data, std::to_string(i + 2) + " distinct headers, twice");
    });
}
