// A real ion::Http2Server running start() inside the simulated kernel.
#pragma once
#include <memory>

#include "h2.hpp"
#include "http2_server.h"
#include "sim.hpp"

namespace srv {

using h2::Bytes;

struct Server {
    sim::World w;
    std::unique_ptr<ion::Http2Server> server;
    std::vector<h2::Req> seen;                 // requests that reached the application
    std::function<void(const h2::Req&)> on_request;  // may throw
    std::function<h2::Resp(const h2::Req&)> app = h2::app;
    bool returned = false, threw = false;
    std::string what;
    int stop_after_idle = 1;                   // idle waits before stop is requested
    bool stopped = false;                      // stop() has been called

    // Actions performed one at a time whenever the server waits with nothing ready.
    std::vector<std::function<void()>> script;
    size_t script_pos = 0;

    Server(mc::Chooser& c, const ion::ServerConfiguration& config, bool install_app = true);
    explicit Server(mc::Chooser& c) : Server(c, cleartext()) {}
    void run();   // start() until it returns
    void stop() {
        stopped = true;
        server->stop();
    }
    static ion::ServerConfiguration cleartext();
    // Kernel misuse, exceptions, leaks: true if a violation was reported.
    bool check_sane(mc::Chooser& c, bool all_closed = true);
};
// "key|message" -> violation
bool report(mc::Chooser& c, const std::string& km, const std::string& context);
// Everything about one connection against the model; data = all the client sent.
bool check_conn(mc::Chooser& c, const sim::ConnPtr& conn, const Bytes& data, const std::string& context, bool complete = true);

}  // namespace srv
