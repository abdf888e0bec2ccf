#include "h2.hpp"

#include <algorithm>
#include <cstring>

namespace h2 {

Bytes bytes(std::string_view s) { return Bytes(s.begin(), s.end()); }
Bytes operator+(Bytes a, const Bytes& b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
Bytes& operator+=(Bytes& a, const Bytes& b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
Bytes preface() { return bytes("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"); }
static void be(Bytes& b, uint64_t v, int n) {
    for (int i = n - 1; i >= 0; --i) b.push_back(static_cast<uint8_t>(v >> (8 * i)));
}
Bytes frame_len(uint32_t len, uint8_t type, uint8_t flags, uint32_t sid, const Bytes& p) {
    Bytes b;
    be(b, len, 3);
    b.push_back(type);
    b.push_back(flags);
    be(b, sid, 4);
    return b + p;
}
Bytes frame(uint8_t type, uint8_t flags, uint32_t sid, const Bytes& p) { return frame_len(static_cast<uint32_t>(p.size()), type, flags, sid, p); }
Bytes settings(const std::vector<std::pair<uint16_t, uint32_t>>& v) {
    Bytes p;
    for (auto& [id, val] : v) {
        be(p, id, 2);
        be(p, val, 4);
    }
    return frame(SETTINGS, 0, 0, p);
}
Bytes settings_ack() { return frame(SETTINGS, ACK, 0); }
Bytes ping(uint64_t v, bool ack) {
    Bytes p;
    be(p, v, 8);
    return frame(PING, ack ? ACK : 0, 0, p);
}
Bytes goaway(uint32_t last, uint32_t code) {
    Bytes p;
    be(p, last, 4);
    be(p, code, 4);
    return frame(GOAWAY, 0, 0, p);
}
Bytes window_update(uint32_t sid, uint32_t inc) {
    Bytes p;
    be(p, inc, 4);
    return frame(WU, 0, sid, p);
}
Bytes headers(uint32_t sid, const Bytes& block, bool es) { return frame(HEADERS, END_HEADERS | (es ? END_STREAM : 0), sid, block); }

std::vector<Frame> split(const Bytes& s, size_t from, size_t* rest) {
    std::vector<Frame> v;
    size_t i = from;
    while (i + 9 <= s.size()) {
        const uint32_t len = s[i] << 16 | s[i + 1] << 8 | s[i + 2];
        if (i + 9 + len > s.size()) break;
        Frame f{len, s[i + 3], s[i + 4], (uint32_t(s[i + 5] & 0x7f) << 24) | s[i + 6] << 16 | s[i + 7] << 8 | s[i + 8], {}, i + 9 + len};
        f.payload.assign(s.begin() + i + 9, s.begin() + i + 9 + len);
        v.push_back(std::move(f));
        i += 9 + len;
    }
    if (rest) *rest = s.size() - i;
    return v;
}
std::string show(const Fields& f) {
    std::string r = "[";
    for (auto& [n, v] : f) r += mc::quote(n, 40) + ":" + mc::quote(v, 40) + " ";
    return r + "]";
}
std::string show(const Req& r) { return r.method + " " + mc::quote(r.path, 60) + " " + show(r.headers); }
Fields get(const std::string& path, const Fields& more, const std::string& method) {
    Fields f{{":method", method}, {":scheme", "https"}, {":path", path}, {":authority", "a"}};
    f.insert(f.end(), more.begin(), more.end());
    return f;
}

Resp app(const Req& r) {
    const std::string& p = r.path;
    Resp a;
    auto num = [&](size_t at) { return static_cast<size_t>(strtoul(p.c_str() + at, nullptr, 10)); };
    if (p.starts_with("/b")) {  // body of n octets
        const size_t n = num(2);
        a.body.resize(n);
        for (size_t i = 0; i < n; ++i) a.body[i] = static_cast<uint8_t>(i * 7 + (i >> 8) + n);
        a.headers = {{"content-type", "application/octet-stream"}};
    } else if (p.starts_with("/h")) {  // one header with a value of n octets
        const size_t n = num(2);
        std::string v(n, 'x');
        for (size_t i = 0; i < n; ++i) v[i] = static_cast<char>('a' + (i * 5 + n) % 26);
        a.headers = {{"x-long", v}, {"x-after", "1"}};
    } else if (p.starts_with("/s")) {  // status n, no body
        a.status = static_cast<int>(num(2));
    } else if (p.starts_with("/m")) {  // n headers
        const size_t n = num(2);
        for (size_t i = 0; i < n; ++i) a.headers.emplace_back("x-" + std::to_string(i), std::to_string(i * i));
        a.body = bytes("many");
    } else if (p.starts_with("/e")) {  // echo of the request
        std::string s = r.method + "\n" + r.path + "\n";
        for (auto& [n, v] : r.headers) s += n + ": " + v + "\n";
        a.body = bytes(s);
        a.headers = {{"x-echo", "yes"}};
    } else if (p.starts_with("/u")) {  // a header never seen before
        a.headers = {{"x-unique-" + p, p + p}, {"content-type", "text/plain"}};
        a.body = bytes(p);
    } else {
        a.status = 404;
    }
    return a;
}

Expect model(const Bytes& s, const std::function<Resp(const Req&)>& app_fn) {
    Expect e;
    const Bytes pre = preface();
    if (s.size() < pre.size()) return e;
    if (!std::equal(pre.begin(), pre.end(), s.begin())) {
        e.end = Expect::BadPreface;
        e.end_at = pre.size();
        return e;
    }
    e.settings = true;
    ref::Decoder dec(65536, 65536);  // what the server accepts, see C02
    dec.string_limit = 4096;
    dec.list_limit = 1 << 20;
    bool partial = false;
    Frame ph{};
    Bytes block;
    size_t i = pre.size();
    auto fail = [&](const std::string& why, size_t at) {
        e.end = Expect::Error;
        e.why = why;
        e.end_at = at;
    };
    while (e.end == Expect::Open && i + 9 <= s.size()) {
        const uint32_t len = s[i] << 16 | s[i + 1] << 8 | s[i + 2];
        if (len > MAX_FRAME) {
            fail("frame too long", i + 9);
            break;
        }
        if (i + 9 + len > s.size()) break;
        Frame f{len, s[i + 3], s[i + 4], (uint32_t(s[i + 5] & 0x7f) << 24) | s[i + 6] << 16 | s[i + 7] << 8 | s[i + 8], {}, i + 9 + len};
        f.payload.assign(s.begin() + i + 9, s.begin() + i + 9 + len);
        i += 9 + len;
        bool whole = false;
        if (partial) {
            if (f.type != CONT || f.sid != ph.sid) {
                fail("header block interrupted", i);
                break;
            }
            block += f.payload;
            if (!(f.flags & END_HEADERS)) continue;
            whole = true;
            partial = false;
        } else
            switch (f.type) {
                case SETTINGS:
                    if (f.flags & ACK) break;
                    if (len % 6) {
                        fail("SETTINGS length", i);
                        break;
                    }
                    e.settings_acks++;
                    {
                        uint32_t ts = ~0u;
                        // only the smallest and the last matter; the model client announces at most one per frame
                        for (size_t k = 0; k + 6 <= len; k += 6)
                            if (f.payload[k] == 0 && f.payload[k + 1] == 1)
                                ts = uint32_t(f.payload[k + 2]) << 24 | f.payload[k + 3] << 16 | f.payload[k + 4] << 8 | f.payload[k + 5];
                        e.table_sizes.push_back(ts);
                    }
                    break;
                case PING:
                    if (len != 8) {
                        fail("PING length", i);
                        break;
                    }
                    if (!(f.flags & ACK)) e.pings.push_back(f.payload);
                    break;
                case WU:
                    if (len != 4) fail("WINDOW_UPDATE length", i);
                    break;
                case GOAWAY:
                    e.end = Expect::Bye;
                    e.end_at = i;
                    break;
                case CONT:
                    fail("CONTINUATION without HEADERS", i);
                    break;
                case HEADERS: {
                    if (f.sid % 2 == 0) {
                        fail("HEADERS on stream " + std::to_string(f.sid), i);
                        break;
                    }
                    size_t skip = 0, pad = 0;
                    if (f.flags & PADDED) skip += 1;
                    if (f.flags & PRIO) skip += 5;
                    if (f.payload.size() < skip) {
                        fail("HEADERS too short", i);
                        break;
                    }
                    if (f.flags & PADDED) pad = f.payload[0];
                    if (f.payload.size() - skip < pad) {
                        fail("HEADERS padding too long", i);
                        break;
                    }
                    block.assign(f.payload.begin() + skip, f.payload.end() - pad);
                    ph = f;
                    if (f.flags & END_HEADERS) whole = true;
                    else partial = true;
                    break;
                }
                default: break;
            }
        if (!whole) continue;
        auto fields = dec.decode(block);
        block.clear();
        if (!fields) {
            fail("undecodable header block", i);
            break;
        }
        if (ph.sid <= e.last) continue;  // trailers or a closed stream
        e.last = ph.sid;
        Answer a;
        a.sid = ph.sid;
        a.at = i;
        a.req.headers = *fields;
        bool has_m = false, has_p = false;
        for (auto& [n, v] : *fields) {
            if (n == ":method" && !has_m) a.req.method = v, has_m = true;
            if (n == ":path" && !has_p) a.req.path = v, has_p = true;
        }
        if (has_m && has_p) a.resp = app_fn(a.req);
        else {
            a.bad = true;
            a.resp.status = 400;
        }
        e.answers.push_back(std::move(a));
    }
    return e;
}

Output parse(const Bytes& tx, const std::vector<uint32_t>& table_sizes) {
    Output o;
    o.frames = split(tx, 0, &o.rest);
    ref::Decoder dec(4096, 4096);
    std::map<uint32_t, size_t> idx;
    auto err = [&](const std::string& m) {
        if (o.errors.size() < 5) o.errors.push_back(m);
    };
    bool partial = false, first = true;
    Frame ph{};
    Bytes block;
    for (auto& f : o.frames) {
        if (first) {
            o.settings_first = f.type == SETTINGS && !(f.flags & ACK);
            if (!o.settings_first) err("first frame is not SETTINGS but type " + std::to_string(f.type));
        }
        if (o.goaway) err("frame after GOAWAY");
        if (f.len > MAX_FRAME) err("frame payload of " + std::to_string(f.len) + " octets");
        bool whole = false;
        if (partial) {
            if (f.type != CONT || f.sid != ph.sid) {
                err("header block of stream " + std::to_string(ph.sid) + " interrupted by frame type " + std::to_string(f.type));
                return o;
            }
            block += f.payload;
            if (f.flags & END_HEADERS) whole = true;
        } else
            switch (f.type) {
                case SETTINGS:
                    if (f.sid) err("SETTINGS on a stream");
                    if (f.flags & ACK) {
                        if (f.len) err("SETTINGS ACK with payload");
                        if (o.settings_acks < static_cast<int>(table_sizes.size()) && table_sizes[o.settings_acks] != ~0u)
                            dec.set_limit(table_sizes[o.settings_acks]);
                        o.settings_acks++;
                    } else {
                        if (!first) err("unsolicited SETTINGS");
                        if (f.len % 6) err("SETTINGS length");
                    }
                    break;
                case PING:
                    if (f.sid || f.len != 8 || !(f.flags & ACK)) err("malformed or unsolicited PING");
                    o.pings.push_back(f.payload);
                    break;
                case GOAWAY:
                    if (f.sid || f.len < 8) err("malformed GOAWAY");
                    else {
                        o.goaway = true;
                        o.goaway_last = (uint32_t(f.payload[0] & 0x7f) << 24) | f.payload[1] << 16 | f.payload[2] << 8 | f.payload[3];
                        o.goaway_code = uint32_t(f.payload[4]) << 24 | f.payload[5] << 16 | f.payload[6] << 8 | f.payload[7];
                    }
                    break;
                case HEADERS: {
                    if (!(f.sid & 1)) err("HEADERS on stream " + std::to_string(f.sid));
                    size_t skip = 0, pad = 0;
                    if (f.flags & PADDED) skip += 1;
                    if (f.flags & PRIO) skip += 5;
                    if (f.payload.size() < skip) {
                        err("malformed HEADERS");
                        break;
                    }
                    if (f.flags & PADDED) pad = f.payload[0];
                    if (f.payload.size() - skip < pad) {
                        err("malformed HEADERS");
                        break;
                    }
                    block.assign(f.payload.begin() + skip, f.payload.end() - pad);
                    ph = f;
                    if (f.flags & END_HEADERS) whole = true;
                    else partial = true;
                    break;
                }
                case DATA: {
                    auto it = idx.find(f.sid);
                    if (it == idx.end()) {
                        err("DATA on stream " + std::to_string(f.sid) + " before its header block");
                        break;
                    }
                    Seen& s = o.answers[it->second];
                    if (s.ended) err("DATA after END_STREAM on stream " + std::to_string(f.sid));
                    size_t skip = 0, pad = 0;
                    if (f.flags & PADDED) {
                        if (f.payload.empty() || f.payload[0] >= f.payload.size()) {
                            err("malformed DATA");
                            break;
                        }
                        skip = 1;
                        pad = f.payload[0];
                    }
                    s.body.insert(s.body.end(), f.payload.begin() + skip, f.payload.end() - pad);
                    if (f.flags & END_STREAM) s.ended = true;
                    break;
                }
                case WU: break;
                case CONT: err("CONTINUATION without HEADERS"); break;
                default: err("frame of type " + std::to_string(f.type) + " from the server"); break;
            }
        if (whole) {
            partial = false;
            std::string why;
            auto fields = dec.decode(block, &why);
            block.clear();
            if (!fields) {
                err("client cannot decode the header block of stream " + std::to_string(ph.sid) + ": " + why);
                return o;
            }
            auto it = idx.find(ph.sid);
            if (it != idx.end()) {
                err("second header block on stream " + std::to_string(ph.sid));
                o.answers[it->second].blocks++;
            } else {
                idx[ph.sid] = o.answers.size();
                Seen s;
                s.sid = ph.sid;
                s.fields = *fields;
                s.blocks = 1;
                s.ended = ph.flags & END_STREAM;
                o.answers.push_back(std::move(s));
            }
        }
        first = false;
    }
    if (partial) o.rest += 1;
    return o;
}

std::string check_response(const Seen& s, const Resp& want) {
    const std::string on = "stream " + std::to_string(s.sid) + ": ";
    if (s.fields.empty() || s.fields[0].first != ":status") return "status-first|" + on + "header block does not start with :status: " + show(s.fields);
    if (s.fields[0].second != std::to_string(want.status)) return "status|" + on + "status " + s.fields[0].second + " instead of " + std::to_string(want.status);
    int server = 0, powered = 0, cl = 0, statuses = 0;
    Fields rest;
    size_t skip_cl = 0;
    for (auto& f : want.headers) skip_cl += f.first == "content-length";
    for (auto& [n, v] : s.fields) {
        if (n == ":status") statuses++;
        else if (n == "server") server += !v.empty();
        else if (n == "x-powered-by") powered += !v.empty();
        else if (n == "content-length" && !skip_cl) {
            cl++;
            if (v != std::to_string(want.body.size())) return "content-length|" + on + "content-length " + v + " for a body of " + std::to_string(want.body.size());
        } else
            rest.emplace_back(n, v);
    }
    if (statuses != 1) return "status-first|" + on + "more than one :status";
    if (server != 1 || powered != 1) return "server-headers|" + on + "server / x-powered-by missing or repeated: " + show(s.fields);
    if (!want.body.empty() && !skip_cl && cl != 1) return "content-length|" + on + "content-length missing or repeated";
    if (want.body.empty() && cl > 1) return "content-length|" + on + "content-length repeated";
    if (rest != want.headers) return "headers|" + on + "headers " + show(rest) + " instead of " + show(want.headers);
    if (s.body != want.body) {
        size_t k = 0;
        while (k < s.body.size() && k < want.body.size() && s.body[k] == want.body[k]) ++k;
        return "body|" + on + "body of " + std::to_string(s.body.size()) + " octets instead of " + std::to_string(want.body.size()) + ", first difference at " + std::to_string(k);
    }
    if (!s.ended) return "end-stream|" + on + "END_STREAM missing";
    return "";
}

std::string compare(const Expect& e, const Output& o, bool complete) {
    if (!o.errors.empty()) return "output|" + o.errors[0];
    if (!e.settings) {
        if (!o.frames.empty() || o.rest) return "preface|HTTP/2 bytes sent without a valid preface";
        return "";
    }
    if (o.answers.size() > e.answers.size()) return "extra-response|" + std::to_string(o.answers.size()) + " responses to " + std::to_string(e.answers.size()) + " requests";
    if (o.settings_acks > e.settings_acks) return "settings-ack|" + std::to_string(o.settings_acks) + " SETTINGS ACKs for " + std::to_string(e.settings_acks) + " SETTINGS";
    if (o.pings.size() > e.pings.size()) return "ping-ack|" + std::to_string(o.pings.size()) + " PING ACKs for " + std::to_string(e.pings.size()) + " PINGs";
    for (size_t i = 0; i < o.pings.size(); ++i)
        if (o.pings[i] != e.pings[i]) return "ping-ack|PING ACK " + std::to_string(i) + " carries " + mc::hex(o.pings[i]) + " instead of " + mc::hex(e.pings[i]);
    for (size_t i = 0; i < o.answers.size(); ++i) {
        if (o.answers[i].sid != e.answers[i].sid)
            return "order|response " + std::to_string(i) + " is on stream " + std::to_string(o.answers[i].sid) + " instead of " + std::to_string(e.answers[i].sid);
        const bool last = i + 1 == o.answers.size();
        if (!complete && last) continue;  // may be unfinished
        auto m = check_response(o.answers[i], e.answers[i].resp);
        if (!m.empty()) return m;
    }
    if (o.goaway && e.end != Expect::Error && o.goaway_code != 0) return "goaway|GOAWAY with error " + std::to_string(o.goaway_code) + " for valid input";
    if (o.goaway && e.end == Expect::Error) {
        if (o.goaway_code != 1) return "goaway|GOAWAY with error " + std::to_string(o.goaway_code) + " instead of PROTOCOL_ERROR (" + e.why + ")";
        if (o.goaway_last != e.last) return "goaway-last|GOAWAY names stream " + std::to_string(o.goaway_last) + " instead of " + std::to_string(e.last) + " (" + e.why + ")";
    }
    if (o.goaway && e.end == Expect::Open && complete) return "goaway|unexpected GOAWAY";
    if (!complete) return "";
    if (!o.settings_first) return "settings|no SETTINGS from the server";
    if (o.rest) return "output|unfinished frame at the end of the output";
    if (o.settings_acks != e.settings_acks) return "settings-ack|" + std::to_string(o.settings_acks) + " SETTINGS ACKs for " + std::to_string(e.settings_acks) + " SETTINGS";
    if (o.pings.size() != e.pings.size()) return "ping-ack|" + std::to_string(o.pings.size()) + " PING ACKs for " + std::to_string(e.pings.size()) + " PINGs";
    if (o.answers.size() != e.answers.size()) return "missing-response|" + std::to_string(o.answers.size()) + " responses to " + std::to_string(e.answers.size()) + " requests";
    if (e.end == Expect::Error && !o.goaway) return "goaway|no GOAWAY after " + e.why;
    return "";
}

}  // namespace h2
