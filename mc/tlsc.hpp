// A TLS client (OpenSSL, memory BIOs) whose records are carried by the simulated kernel, and
// throw-away certificates.
#pragma once
#include <memory>
#include <string>

#include "sim.hpp"

typedef struct ssl_st SSL;
typedef struct ssl_ctx_st SSL_CTX;

namespace tlsc {
using mc::Bytes;

struct Files {
    std::string dir, cert, key, cert2, key2, garbage, empty, missing;
};
// Two self-signed certificates with their keys, made once per process in a scratch directory.
const Files& files();
// All randomness of this process's OpenSSL starts again from the same point.
void reset_random();

struct Client {
    SSL* ssl = nullptr;
    sim::ConnPtr conn;
    size_t taken = 0;      // octets of conn->tx already fed to the client
    Bytes plain;           // what the server said
    bool handshaken = false, failed = false, closed = false;
    std::string alpn, error;
    long serial() const;   // of the certificate the server presented, -1 if none
    // version: 12 or 13; alpn list in wire format, empty: extension not sent
    Client(int version, const std::string& alpn_list = std::string("\x02h2", 3));
    ~Client();
    Client(const Client&) = delete;
    // Octets the client wants to send now, after looking at everything the server has sent.
    Bytes step();
    void write(const Bytes& data);  // application data; the records come out of step()
    void close_notify();
    void key_update(bool answer);   // TLS 1.3: new sending keys, and the server's too if answer
    Bytes pending;  // application data waiting for the end of the handshake
    bool want_close = false;
};
}  // namespace tlsc
