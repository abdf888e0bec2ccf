// A small blocking HTTP/2 client and a server thread for the demonstrations.
#pragma once
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <spdlog/spdlog.h>
#include <sys/socket.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <thread>
#include <vector>

#include "hpack/header_block_decoder.h"
#include "http2_server.h"

using Bytes = std::string;
inline int failures = 0;
#define CHECK(c) do { if (!(c)) { ++failures; fprintf(stderr, "demo.cpp:%d: not so: %s\n", __LINE__, #c); } } while (0)
inline int verdict() { return failures ? 1 : 0; }

inline Bytes frame(int type, int flags, uint32_t sid, const Bytes& p) {
    Bytes f;
    f += char(p.size() >> 16), f += char(p.size() >> 8), f += char(p.size()), f += char(type), f += char(flags);
    for (int s = 24; s >= 0; s -= 8) f += char(sid >> s);
    return f + p;
}
inline Bytes setting(int id, uint32_t v) {
    Bytes b{char(id >> 8), char(id)};
    for (int s = 24; s >= 0; s -= 8) b += char(v >> s);
    return b;
}
inline Bytes u32(uint32_t v) {
    Bytes b;
    for (int s = 24; s >= 0; s -= 8) b += char(v >> s);
    return b;
}
inline const Bytes preface = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";
// preface with windows large enough never to matter
inline Bytes hello(const Bytes& settings = "") { return preface + frame(4, 0, 0, settings + setting(4, 0x7fffffff)) + frame(8, 0, 0, u32(0x7fff0000)); }
inline Bytes str(const Bytes& s) {
    Bytes b;
    if (s.size() < 127) b += char(s.size());
    else {
        b += char(127);
        size_t v = s.size() - 127;
        while (v >= 128) b += char(v % 128 + 128), v /= 128;
        b += char(v);
    }
    return b + s;
}
using Headers = std::vector<std::pair<std::string, std::string>>;
inline Bytes block(const std::string& path, const std::string& method = "GET", const Headers& more = {}) {
    Bytes b;
    Headers h = {{":method", method}, {":scheme", "http"}, {":path", path}, {":authority", "x"}};
    h.insert(h.end(), more.begin(), more.end());
    for (auto& [n, v] : h) b += char(0) + str(n) + str(v);
    return b;
}
inline Bytes request(uint32_t sid, const std::string& path, const std::string& method = "GET", const Headers& more = {}) { return frame(1, 5, sid, block(path, method, more)); }

struct Frame { int type, flags; uint32_t sid; Bytes payload; };
struct Answer { std::map<std::string, std::string> fields; Bytes body; bool headers = false, ended = false; int frames_after_end = 0; };
struct Client {
    int fd = -1;
    bool eof = false;
    Bytes in;
    std::vector<Frame> frames;
    std::map<uint32_t, Answer> answers;
    ion::DynamicTable table{4096};
    ion::HeaderBlockDecoder decoder{table};
    explicit Client(int port, int rcvbuf = 0) {
        for (int i = 0; i < 200; ++i) {
            fd = socket(AF_INET, SOCK_STREAM, 0);
            if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(port);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (!connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a)) break;
            ::close(fd);
            fd = -1;
            usleep(20000);
        }
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    }
    ~Client() { close(); }
    void close() { if (fd >= 0) ::close(fd), fd = -1; }
    void reset() {
        linger l{1, 0};
        setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        close();
    }
    void send(const Bytes& b) { size_t n = 0; while (n < b.size()) { ssize_t k = ::send(fd, b.data() + n, b.size() - n, MSG_NOSIGNAL); if (k <= 0) return; n += k; } }
    // reads for at most ms; false when nothing came
    bool read(int ms, size_t max = 65536) {
        pollfd p{fd, POLLIN, 0};
        if (eof || poll(&p, 1, ms) <= 0) return false;
        Bytes b(max, 0);
        const ssize_t n = ::recv(fd, b.data(), b.size(), 0);
        if (n <= 0) { eof = true; return false; }
        in.append(b, 0, n);
        parse();
        return true;
    }
    void parse() {
        while (in.size() >= 9) {
            auto o = [&](int i) { return uint32_t(uint8_t(in[i])); };
            const size_t len = o(0) << 16 | o(1) << 8 | o(2);
            if (in.size() < 9 + len) return;
            Frame f{int(o(3)), int(o(4)), (o(5) << 24 | o(6) << 16 | o(7) << 8 | o(8)) & 0x7fffffff, in.substr(9, len)};
            in.erase(0, 9 + len);
            auto& a = answers[f.sid];
            if (f.type == 1) {
                if (a.ended) ++a.frames_after_end;
                a.headers = true;
                if (auto h = decoder.decode(std::span<const uint8_t>(reinterpret_cast<const uint8_t*>(f.payload.data()), f.payload.size())))
                    for (auto& x : *h) a.fields[x.name] = x.value;
            } else if (f.type == 0) {
                if (a.ended) ++a.frames_after_end;
                a.body += f.payload;
            }
            if (f.type <= 1 && (f.flags & 1)) a.ended = true;
            frames.push_back(f);
        }
    }
    template <class F> bool until(F f, int ms = 3000) {
        const auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
        while (!f()) {
            if (std::chrono::steady_clock::now() > end || eof) return f();
            read(20);
        }
        return true;
    }
    bool answered(uint32_t sid, int ms = 3000) { return until([&] { return answers[sid].ended; }, ms); }
    int status(uint32_t sid) { return atoi(answers[sid].fields[":status"].c_str()); }
};
inline int free_port() {
    int s = socket(AF_INET, SOCK_STREAM, 0), one = 1;
    setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    bind(s, reinterpret_cast<sockaddr*>(&a), sizeof a);
    socklen_t l = sizeof a;
    getsockname(s, reinterpret_cast<sockaddr*>(&a), &l);
    close(s);
    return ntohs(a.sin_port);
}
inline ion::ServerConfiguration cleartext() {
    ion::ServerConfiguration c;
    c.cleartext = true;
    return c;
}
struct Server {
    ion::Http2Server server;
    int port = free_port();
    std::thread t;
    std::atomic<bool> ended{false};
    explicit Server(const ion::ServerConfiguration& c = cleartext()) : server(c) { spdlog::set_level(spdlog::level::off); }
    ion::Router& router() { return server.router(); }
    void start() { t = std::thread([this] { try { server.start(port); } catch (...) { } ended = true; }); }
    ~Server() { server.stop(); if (t.joinable()) t.join(); }
};
inline ion::HttpResponse text(const std::string& s, int status = 200) { return ion::HttpResponse{.status_code = uint16_t(status), .body = {s.begin(), s.end()}}; }
