// HTTP/2 from the client's side: frame builders, a strict parser of what the server sent, and a
// reference model of what a server has to do with a client's byte stream (RFC 9113 as narrowed by
// properties.jsonl).
#pragma once
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <vector>

#include "core.hpp"
#include "refhpack.hpp"

namespace h2 {

using mc::Bytes;
using ref::Field;
using ref::Fields;

enum Type : uint8_t { DATA = 0, HEADERS = 1, PRIORITY = 2, RST = 3, SETTINGS = 4, PUSH = 5, PING = 6, GOAWAY = 7, WU = 8, CONT = 9 };
enum Flag : uint8_t { ACK = 1, END_STREAM = 1, END_HEADERS = 4, PADDED = 8, PRIO = 0x20 };
constexpr size_t MAX_FRAME = 16384;

Bytes preface();
Bytes frame(uint8_t type, uint8_t flags, uint32_t sid, const Bytes& payload = {});
Bytes frame_len(uint32_t len, uint8_t type, uint8_t flags, uint32_t sid, const Bytes& payload = {});  // lying length
Bytes settings(const std::vector<std::pair<uint16_t, uint32_t>>& v = {});
Bytes settings_ack();
Bytes ping(uint64_t v, bool ack = false);
Bytes goaway(uint32_t last = 0, uint32_t code = 0);
Bytes window_update(uint32_t sid, uint32_t inc);
Bytes headers(uint32_t sid, const Bytes& block, bool end_stream = true);
Bytes operator+(Bytes a, const Bytes& b);
Bytes& operator+=(Bytes& a, const Bytes& b);
Bytes bytes(std::string_view s);

struct Frame {
    uint32_t len;
    uint8_t type, flags;
    uint32_t sid;
    Bytes payload;
    size_t offset;  // where it ends in the stream
};
// whole frames; rest = octets of an unfinished last frame
std::vector<Frame> split(const Bytes& s, size_t from, size_t* rest = nullptr);

struct Req {
    std::string method, path;
    Fields headers;  // all fields, pseudo headers included
    bool operator==(const Req&) const = default;
};
struct Resp {
    int status = 200;
    Fields headers;
    Bytes body;
};
std::string show(const Fields& f);
std::string show(const Req& r);
Fields get(const std::string& path, const Fields& more = {}, const std::string& method = "GET");

// The application the server under test runs: a pure function of the request.
Resp app(const Req& r);

// What the server must do with one connection's byte stream.
struct Answer {
    uint32_t sid;
    Req req;
    bool bad = false;  // answered 400 without running a handler
    Resp resp;
    size_t at = 0;     // stream offset at which the request is complete
};
struct Expect {
    bool settings = false;
    int settings_acks = 0;
    std::vector<Bytes> pings;
    std::vector<Answer> answers;
    enum End { Open, Error, Bye, BadPreface } end = Open;
    uint32_t last = 0;       // last request stream
    size_t end_at = 0;       // offset at which the end is decided
    std::string why;
    std::vector<uint32_t> table_sizes;  // SETTINGS_HEADER_TABLE_SIZE values, in order of their ACKs (-1: none in that frame)
};
Expect model(const Bytes& stream, const std::function<Resp(const Req&)>& app_fn = app);

// What the client saw.
struct Seen {
    uint32_t sid;
    Fields fields;   // first header block
    bool ended = false;
    Bytes body;
    int blocks = 0;
};
struct Output {
    std::vector<std::string> errors;  // malformed output
    bool settings_first = false;
    int settings_acks = 0;
    std::vector<Bytes> pings;
    std::vector<Seen> answers;        // in order of their header blocks
    bool goaway = false;
    uint32_t goaway_last = 0, goaway_code = 0;
    size_t rest = 0;                  // octets of an unfinished frame at the end
    std::vector<Frame> frames;
};
// table_sizes: HEADER_TABLE_SIZE values the client announced, in order; each takes effect at the
// corresponding SETTINGS ACK (absent = no change).
Output parse(const Bytes& tx, const std::vector<uint32_t>& table_sizes = {});

// Compares; returns "" or the first difference as "key|message".
// complete: everything the server has to say must be there (else a prefix is enough)
std::string compare(const Expect& e, const Output& o, bool complete = true);
std::string check_response(const Seen& s, const Resp& want);

}  // namespace h2
