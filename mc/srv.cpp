#include "srv.hpp"

#include <spdlog/spdlog.h>

namespace srv {

ion::ServerConfiguration Server::cleartext() {
    ion::ServerConfiguration c{};
    c.cleartext = true;
    return c;
}

static const bool quiet = (spdlog::set_level(spdlog::level::off), true);

Server::Server(mc::Chooser& c, const ion::ServerConfiguration& config, bool install_app) {
    w.ch = &c;
    server = std::make_unique<ion::Http2Server>(config);
    if (install_app)
        server->router().add_middleware([this](ion::RouteHandler) -> ion::RouteHandler {
            return [this](const ion::HttpRequest& r) {
                h2::Req q{r.method, r.path, {}};
                for (auto& h : r.headers) q.headers.emplace_back(h.name, h.value);
                seen.push_back(q);
                if (on_request) on_request(q);
                const auto a = app(q);
                ion::HttpResponse resp{.status_code = static_cast<uint16_t>(a.status), .body = a.body};
                for (auto& [n, v] : a.headers) resp.headers.push_back({n, v});
                return resp;
            };
        });
    w.env = [this] {
        if (script_pos >= script.size()) return false;
        script[script_pos++]();
        return true;
    };
    w.quiescent = [this] {
        if (--stop_after_idle <= 0) stop();
    };
}

void Server::run() {
    try {
        server->start(8443);
        returned = true;
    } catch (const std::exception& e) {
        threw = true;
        what = e.what();
    } catch (...) {
        threw = true;
        what = "unknown exception";
    }
    // the scenario's callbacks refer to objects that may not outlive this call's caller
    w.on_call = nullptr;
    w.fault = nullptr;
    w.env = nullptr;
    w.before_wait = nullptr;
    w.quiescent = nullptr;
    on_request = nullptr;
    if (w.ch) {
        w.ch->step(w.calls);
        w.ch->outcome(w.trace);
    }
}

bool Server::check_sane(mc::Chooser& c, bool all_closed) {
    if (threw) {
        c.violation("terminated", "start() threw: " + what);
        return true;
    }
    if (w.killed_by_sigpipe) {
        c.violation("sigpipe", "a client's disconnect kills the process with SIGPIPE");
        return true;
    }
    if (!w.errors.empty()) {
        c.violation("misuse", w.errors[0]);
        return true;
    }
    if (w.waited_forever) {
        c.violation("wait", "the server waits without a time limit");
        return true;
    }
    if (!stopped) {
        c.violation("returned", "start() returned without a stop request");
        return true;
    }
    if (!w.listener_closed) {
        c.violation("listener", "the listening socket is still open after start() returned");
        return true;
    }
    if (all_closed) {
        server.reset();
        for (auto& conn : w.conns)
            if (conn->accepted && conn->closes != 1) {
                c.violation("closed-once", "socket of client " + std::to_string(conn->client) + " closed " + std::to_string(conn->closes) + " times");
                return true;
            }
        if (!sim::open_sim_fds().empty()) {
            c.violation("leak", "descriptor leaked");
            return true;
        }
    }
    return false;
}

bool report(mc::Chooser& c, const std::string& km, const std::string& context) {
    if (km.empty()) return false;
    const auto bar = km.find('|');
    c.violation(km.substr(0, bar), km.substr(bar + 1) + (context.empty() ? "" : " [" + context + "]"));
    return true;
}

bool check_conn(mc::Chooser& c, const sim::ConnPtr& conn, const Bytes& data, const std::string& context, bool complete) {
    const auto e = h2::model(data);
    const auto o = h2::parse(conn->tx, e.table_sizes);
    c.validated();
    if (report(c, h2::compare(e, o, complete), context)) return true;
    return false;
}

}  // namespace srv
