// C27, C28: the standalone application's main(), run in the simulated kernel.
#include <fcntl.h>
#include <poll.h>
#include <opentelemetry/trace/provider.h>
#include <spdlog/sinks/base_sink.h>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/sinks/stdout_sinks.h>
#include <spdlog/spdlog.h>
#include <stdio_ext.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <csignal>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

#include "mc/scn.hpp"
#include "mc/telemetry_stub.hpp"
#include "mc/tlsc.hpp"

int ion_app_main(int argc, char* argv[]);

using namespace mc;
using namespace scn;
using sim::ConnPtr;
using sim::Sys;

namespace {
struct Runaway {};
struct Dirs {
    std::string dir, www, page, page_txt, empty;
    std::string content = "static content\n", index = "<p>index</p>", page_body = "<h1>nothing here</h1>", txt_body = "nothing";
    pid_t owner = getpid();
    Dirs() {
        char t[] = "/tmp/ion-mc-app-XXXXXX";
        if (!mkdtemp(t)) abort();
        dir = t;
        www = dir + "/www";
        empty = dir + "/none";
        page = dir + "/404.html";
        page_txt = dir + "/404.txt";
        mkdir(www.c_str(), 0755);
        std::ofstream(www + "/f.txt") << content;
        std::ofstream(www + "/index.html") << index;
        std::ofstream(page) << page_body;
        std::ofstream(page_txt) << txt_body;
    }
    ~Dirs() {
        std::error_code ec;
        if (getpid() == owner) std::filesystem::remove_all(dir, ec);
    }
};
bool handled(int sig) {
    struct sigaction sa{};
    sigaction(sig, nullptr, &sa);
    return sa.sa_handler != SIG_DFL;
}
// One run of main() in its own simulated kernel.
struct App {
    sim::World w;
    std::vector<std::string> args;
    int rc = -1;
    bool threw = false, runaway = false, would_kill = false;
    std::string what, out, err;
    int quiet = 0;          // times nothing was left to do
    bool keep_logger = false;
    explicit App(Chooser& c) { w.ch = &c; }
    // delivers a signal as the kernel would
    void signal(int sig) {
        if (!handled(sig)) {
            would_kill = true;
            throw Runaway{};
        }
        raise(sig);
    }
    void run() {
        spdlog::drop("access");
        if (!keep_logger) spdlog::set_default_logger(std::make_shared<spdlog::logger>("", std::make_shared<spdlog::sinks::null_sink_st>()));
        std::vector<std::string> a = args;
        a.insert(a.begin(), "ion-server");
        std::vector<char*> v;
        for (auto& s : a) v.push_back(s.data());
        v.push_back(nullptr);
        std::ostringstream o, e;
        auto* co = std::cout.rdbuf(o.rdbuf());
        auto* ce = std::cerr.rdbuf(e.rdbuf());
        if (!w.quiescent) w.quiescent = [&] {
            if (++quiet > 40) throw Runaway{};
            signal(SIGTERM);
        };
        try {
            rc = ion_app_main(static_cast<int>(a.size()), v.data());
        } catch (const Runaway&) {
            runaway = true;
        } catch (const std::exception& x) {
            threw = true;
            what = x.what();
        } catch (...) {
            threw = true;
            what = "not a std::exception";
        }
        std::cout.rdbuf(co);
        std::cerr.rdbuf(ce);
        out = o.str();
        err = e.str();
        w.on_call = nullptr;
        w.fault = nullptr;
        w.env = nullptr;
        w.before_wait = nullptr;
        w.quiescent = nullptr;
        for (int s : {SIGINT, SIGTERM, SIGPIPE}) std::signal(s, SIG_DFL);
        if (w.ch) {
            w.ch->step(w.calls);
            w.ch->outcome(w.trace);
            w.ch->outcome(static_cast<uint64_t>(rc) * 7 + threw);
        }
    }
    // "" or what is wrong with a run that had to end by itself
    std::string sane(int want_rc) {
        if (threw) return "uncaught|main() ends with an exception: " + what;
        if (would_kill) return "killed|a termination signal would kill the process";
        if (runaway) return "running|the server did not stop";
        if (w.killed_by_sigpipe) return "sigpipe|SIGPIPE would kill the process";
        if (!w.errors.empty()) return "misuse|" + w.errors[0];
        if (want_rc == 0 && rc != 0) return "status|exit status " + std::to_string(rc);
        if (want_rc != 0 && rc == 0) return "status|exit status 0 in spite of the error";
        if (!sim::open_sim_fds().empty()) return "leak|descriptor left open";
        return "";
    }
};
std::string join(const std::vector<std::string>& v) {
    std::string s;
    for (auto& a : v) s += (a.empty() || a.find(' ') != std::string::npos ? "'" + a + "'" : a) + " ";
    return s;
}
struct Env {
    std::map<std::string, std::string> old;
    std::vector<std::string> names;
    void set(const std::string& n, const std::string& v) {
        names.push_back(n);
        setenv(n.c_str(), v.c_str(), 1);
    }
    ~Env() {
        for (auto& n : names) unsetenv(n.c_str());
    }
};

struct Probe {
    std::string path, method;
};
const std::vector<Probe> probes = {{"/_tests/ok", "GET"}, {"/_tests/no_content", "GET"}, {"/_tests/no_new_privs", "GET"}, {"/_tests/medium_body", "GET"}, {"/_tests/ok", "POST"}, {"/_ion/status", "GET"}, {"/s/f.txt", "GET"}, {"/s/f.txt", "HEAD"},
                                   {"/s", "GET"}, {"/s/missing", "GET"}, {"/s/missing", "HEAD"}, {"/none", "GET"}, {"/none", "HEAD"}, {"/none", "POST"}, {"/", "GET"}, {"/_tests/large_body", "GET"}};
struct Config {
    int port = 8443;
    bool tls = false, stat = false, status = false, tests = false;
    int custom = 0;  // 0 none, 1 html, 2 txt, 3 missing file
    int level = spdlog::level::info;
    std::string access;
};
// what the answer to a probe has to be
std::string judge(const Dirs& d, const Config& g, const Probe& p, const h2::Seen& a) {
    int status = 0;
    std::string ct;
    for (auto& [n, v] : a.fields) {
        if (n == ":status") status = atoi(v.c_str());
        if (n == "content-type") ct = v;
    }
    const std::string body(a.body.begin(), a.body.end());
    auto expect = [&](int s, const std::string& b) -> std::string {
        if (status != s) return "status " + std::to_string(status) + " instead of " + std::to_string(s);
        if (body != b) return "a body of " + std::to_string(body.size()) + " octets instead of " + std::to_string(b.size());
        return "";
    };
    if (p.method == "GET" && g.tests) {
        if (p.path == "/_tests/ok" || p.path == "/_tests/no_new_privs") return expect(200, "");
        if (p.path == "/_tests/no_content") return expect(204, "");
        if (p.path == "/_tests/medium_body") return expect(200, std::string(128 * 1024, 'A'));
        if (p.path == "/_tests/large_body") return expect(200, std::string(2 * 1024 * 1024, 'A'));
    }
    if (p.method == "GET" && g.status && p.path == "/_ion/status") return status == 200 && body.find("</html>") != std::string::npos ? "" : "no status page (status " + std::to_string(status) + ")";
    if (g.stat && p.method != "POST") {
        const bool head = p.method == "HEAD";
        if (p.path == "/s/f.txt") return expect(200, head ? "" : d.content);
        if (p.path == "/s") return expect(200, head ? "" : d.index);
    }
    // unknown
    if (p.method == "HEAD" || g.custom == 0 || g.custom == 3) return expect(404, "");
    if (auto bad = expect(404, g.custom == 1 ? d.page_body : d.txt_body); !bad.empty()) return bad;
    if (ct.rfind(g.custom == 1 ? "text/html" : "text/plain", 0) != 0) return "content-type '" + ct + "' for the custom page";
    return "";
}
// Probes the server that args start; violation unless it is the one g describes.
void probe(Chooser& c, const Dirs& d, const std::vector<std::string>& args, const Config& g, bool large, long serial = 1) {
    App app(c);
    app.args = args;
    const std::string ctx = join(args);
    if (!g.access.empty()) unlink(g.access.c_str());
    ConnPtr k;
    std::unique_ptr<tlsc::Client> t;
    Bytes data = hello();
    uint32_t sid = 1;
    const size_t np = probes.size() - (large ? 0 : 1);
    for (size_t i = 0; i < np; ++i, sid += 2) data += req(sid, probes[i].path, {}, true, probes[i].method);
    int level = -1;
    bool sent = false;
    if (g.tls) {
        tlsc::reset_random();
        t = std::make_unique<tlsc::Client>(13);
    }
    app.w.env = [&] {
        level = spdlog::default_logger()->level();
        if (!k) {
            k = app.w.connect(0, "10.9.8.7");
            if (t) t->conn = k;
            return true;
        }
        if (t) {
            Bytes b = t->step();
            if (b.empty() && t->handshaken && !sent) {
                sent = true;
                t->write(data);
                b = t->step();
            }
            if (b.empty()) return false;
            app.w.send(k, b);
            return true;
        }
        if (sent) return false;
        sent = true;
        app.w.send(k, data);
        return true;
    };
    app.run();
    c.state(hash_str(ctx));
    if (srv::report(c, app.sane(0), ctx)) return;
    if (app.w.bound_port != g.port) {
        c.violation("port", "listens on port " + std::to_string(app.w.bound_port) + " instead of " + std::to_string(g.port) + ": " + ctx);
        return;
    }
    if (level != g.level) {
        c.violation("log-level", "log level " + std::to_string(level) + " instead of " + std::to_string(g.level) + ": " + ctx);
        return;
    }
    Bytes tx = k ? k->tx : Bytes{};
    if (t) {
        t->step();
        if (!t->handshaken || t->alpn != "h2") {
            c.violation("tls", "no TLS with h2: " + ctx);
            return;
        }
        if (t->serial() != serial) {
            c.violation("certificate", "certificate " + std::to_string(t->serial()) + " instead of " + std::to_string(serial) + ": " + ctx);
            return;
        }
        tx = t->plain;
    }
    const auto o = h2::parse(tx);
    if (!o.errors.empty() || o.answers.size() != np) {
        c.violation("answers", o.errors.empty() ? std::to_string(o.answers.size()) + " answers to " + std::to_string(np) + " probes: " + ctx : o.errors[0]);
        return;
    }
    for (size_t i = 0; i < np; ++i) {
        c.validated();
        const auto bad = judge(d, g, probes[i], o.answers[i]);
        if (!bad.empty()) {
            c.violation("probe", bad + " for " + probes[i].method + " " + probes[i].path + ": " + ctx);
            return;
        }
    }
    if (!g.access.empty()) {
        std::ifstream f(g.access);
        size_t lines = 0;
        std::string l;
        while (std::getline(f, l)) lines += l.rfind("10.9.8.7 - - [", 0) == 0;
        if (lines != np) {
            c.violation("access-log", std::to_string(lines) + " lines in the access log instead of " + std::to_string(np) + ": " + ctx);
            return;
        }
        unlink(g.access.c_str());
    }
}
void append(std::vector<std::string>& a, std::initializer_list<std::string> x) { a.insert(a.end(), x); }
}  // namespace

MC_PROPERTY(C27) {
    Dirs d;
    const auto& tf = tlsc::files();
    setenv("OTEL_SDK_DISABLED", "true", 1);
    note("the full product of: port (default, 1, 8080, 65535) x transport (cleartext, TLS) x static mapping x status page x test routes x custom 404 page (none, HTML, text, missing file) x log level (default, off, WARN, trace) x access log x spelling of the options (long, long with =, short), each server probed with 15 requests");
    const int dims[] = {4, 2, 2, 2, 2, 4, 4, 2, 3};
    uint64_t total = 1;
    for (int n : dims) total *= n;
    auto product = [&](uint64_t i, Config& g, std::vector<std::string>& a) {
        int v[9];
        for (int k = 0; k < 9; ++k) v[k] = i % dims[k], i /= dims[k];
        const int sp = v[8];
        auto opt = [&](const std::string& name, const std::string& shrt, const std::string& val) {
            if (sp == 1) a.push_back(name + "=" + val);
            else append(a, {sp == 2 && !shrt.empty() ? shrt : name, val});
        };
        if (v[2]) g.stat = true, append(a, {sp == 2 ? "-s" : "--static", "/s", d.www});
        if (v[0]) {
            const int ports[] = {0, 1, 8080, 65535};
            g.port = ports[v[0]];
            opt("--port", "-p", std::to_string(g.port));
        }
        if (v[1]) {
            g.tls = true;
            opt("--tls-cert-path", "", tf.cert);
            opt("--tls-key-path", "", tf.key);
        } else a.push_back("--cleartext");
        if (v[3]) g.status = true, a.push_back("--status-page");
        if (v[4]) g.tests = true, a.push_back("--under-test");
        if (v[5]) {
            g.custom = v[5];
            opt("--custom-404-file-path", "", v[5] == 1 ? d.page : v[5] == 2 ? d.page_txt : d.empty);
        }
        if (v[6]) {
            const char* names[] = {"", "off", "WARN", "trace"};
            const int levels[] = {2, spdlog::level::off, spdlog::level::warn, spdlog::level::trace};
            g.level = levels[v[6]];
            opt("--log-level", "-l", names[v[6]]);
        }
        if (v[7]) {
            g.access = d.dir + "/access.log";
            opt("--access-log", "", g.access);
        }
        if (sp == 1) std::reverse(a.begin(), a.end());  // order does not matter
        if (sp == 1 && v[2]) {                           // (but the mapping's two values belong to it)
            auto it = std::find(a.begin(), a.end(), "--static");
            a.erase(it - 2, it + 1);
            append(a, {"--static", "/s", d.www});
        }
    };
    enumerate("options", total, [&](Chooser& c, uint64_t i) {
        Config g;
        std::vector<std::string> a;
        product(i, g, a);
        probe(c, d, a, g, thorough() || i % 97 == 0);
    });
    // levels
    const std::vector<std::pair<std::string, int>> levels = {{"trace", 0}, {"debug", 1}, {"info", 2}, {"warn", 3}, {"error", 4}, {"critical", 5}, {"off", 6}, {"TRACE", 0}, {"Debug", 1}, {"INFO", 2}, {"Warn", 3}, {"ERROR", 4}, {"CriTical", 5}, {"OFF", 6}};
    note("every log level, in lower, upper and mixed case");
    enumerate("levels", levels.size(), [&](Chooser& c, uint64_t i) {
        Config g;
        g.level = levels[i].second;
        probe(c, d, {"--cleartext", "--log-level", levels[i].first}, g, false);
    });
    // TLS material by option and by environment
    const std::vector<std::string> certs = {"(absent)", tf.cert, tf.cert2, tf.missing, tf.garbage, tf.empty, tf.key, d.dir};
    const std::vector<std::string> keys = {"(absent)", tf.key, tf.key2, tf.missing, tf.garbage, tf.empty, tf.cert, d.dir};
    note("8 certificate states x 8 key states x given by option, environment or contradicting both (the option wins) x with and without --cleartext");
    enumerate("tls", 8 * 8 * 3 * 2, [&](Chooser& c, uint64_t i) {
        const size_t ci = i % 8, ki = i / 8 % 8;
        const int how = i / 64 % 3;
        const bool clear = i / 192;
        Env env;
        Config g;
        std::vector<std::string> a;
        if (clear) a.push_back("--cleartext");
        else g.tls = true;
        if (how == 2) {
            if (!ci || !ki) return;
            env.set("ION_TLS_CERT_PATH", ci == 1 ? tf.cert2 : tf.cert);
            env.set("ION_TLS_KEY_PATH", ci == 1 ? tf.key2 : tf.key);
        }
        if (how != 1) {
            if (ci) append(a, {"--tls-cert-path", certs[ci]});
            if (ki) append(a, {"--tls-key-path", keys[ki]});
        } else {
            if (ci) env.set("ION_TLS_CERT_PATH", certs[ci]);
            if (ki) env.set("ION_TLS_KEY_PATH", keys[ki]);
        }
        const bool good = clear || (ci == ki && (ci == 1 || ci == 2));
        if (good) {
            probe(c, d, a, g, false, ci == 2 ? 2 : 1);
            return;
        }
        App app(c);
        app.args = a;
        app.run();
        const std::string ctx = "certificate " + certs[ci] + ", key " + keys[ki] + (how == 1 ? " from the environment" : "");
        c.validated();
        if (srv::report(c, app.sane(1), ctx)) return;
        if (app.w.listener_opened) c.violation("opened", "a socket is opened in spite of unusable TLS: " + ctx);
    });
    // invalid values
    const std::vector<std::vector<std::string>> bad = {{"--port", "0"}, {"--port", "65536"}, {"--port", "-1"}, {"--port", "abc"}, {"--port", ""}, {"--port"}, {"--port", "80 80"}, {"--port", "8443", "8444"}, {"--port=0"}, {"-p", "70000"}, {"-p65536"}, {"--port", "1.5"},
        {"--port", "65535x"}, {"--port", "4294967377"}, {"--port", "18446744073709551617"}, {"--port", "99999999999999999999"}, {"--port", "131072"}, {"--port", "65616"}, {"--log-level", "loud"}, {"--log-level", ""}, {"--log-level"}, {"-l", "infos"}, {"-l", "inf"}, {"--static", "/s"}, {"--static"}, {"-s", "/s"}, {"--nonsense"}, {"-x"}, {"extra"}, {"--tls-cert-path"},
        {"--custom-404-file-path"}, {"--cleartext", "x"}, {"--Port", "80"}, {"--port", "80", "--port"}};
    note("34 invalid option values, alone, before and after a valid configuration");
    enumerate("invalid", bad.size() * 3, [&](Chooser& c, uint64_t i) {
        const auto& b = bad[i / 3];
        std::vector<std::string> a = b;
        const std::vector<std::string> base = {"--cleartext", "--status-page"};
        if (i % 3 == 1) a.insert(a.begin(), base.begin(), base.end());
        if (i % 3 == 2) a.insert(a.end(), base.begin(), base.end());
        if (i % 3 == 0) a.push_back("--cleartext");
        App app(c);
        app.args = a;
        app.run();
        c.validated();
        c.state(hash_str(join(a)));
        if (srv::report(c, app.sane(1), join(a))) return;
        if (app.w.listener_opened) c.violation("opened", "a socket is opened in spite of an invalid option: " + join(a));
    });
    // help and version
    const std::vector<std::vector<std::string>> info = {{"--help"}, {"-h"}, {"--version"}, {"-v"}, {"--cleartext", "--help"}, {"--port", "80", "-v"}};
    enumerate("info", info.size(), [&](Chooser& c, uint64_t i) {
        App app(c);
        app.args = info[i];
        app.run();
        c.validated();
        if (srv::report(c, app.sane(0), join(info[i]))) return;
        if (app.w.listener_opened || app.out.empty()) c.violation("info", "no plain answer to " + join(info[i]));
    });
}

namespace {
// Two or three clients in different phases; progress happens one action per idle wait.
struct Load {
    App& app;
    int kind;
    std::vector<ConnPtr> k;
    std::vector<std::unique_ptr<tlsc::Client>> t;
    size_t pos = 0;
    Load(App& a, int kd) : app(a), kind(kd) {}
    static constexpr int KINDS = 5;
    bool tls() const { return kind == 3; }
    std::vector<std::string> args() const {
        std::vector<std::string> a = {"--under-test", "--status-page", "-l", "off"};
        if (tls()) append(a, {"--tls-cert-path", tlsc::files().cert, "--tls-key-path", tlsc::files().key});
        else a.push_back("--cleartext");
        return a;
    }
    bool act() {
        auto& w = app.w;
        if (tls()) {
            if (!pos++) {
                tlsc::reset_random();
                for (int i = 0; i < 2; ++i) {
                    k.push_back(w.connect(i));
                    t.push_back(std::make_unique<tlsc::Client>(12 + i));
                    t[i]->conn = k[i];
                }
                t[1]->write(hello() + req(1, "/_tests/medium_body"));
                return true;
            }
            for (int i = 0; i < 2; ++i) {
                Bytes b = t[i]->step();
                if (!b.empty()) {
                    w.send(k[i], b);
                    return true;
                }
            }
            return false;
        }
        switch (kind) {
            case 0:  // nobody
                return pos++ < 3;
            case 1:  // requests one after the other
                if (pos == 0) k.push_back(w.connect(0));
                else if (pos == 1) w.send(k[0], hello());
                else if (pos < 6) w.send(k[0], req(2 * static_cast<uint32_t>(pos) + 1, pos % 2 ? "/_tests/ok" : "/none"));
                else return false;
                break;
            case 2:  // a client that does not read, one that comes and goes, one in its preface
                if (pos == 0) k.push_back(w.connect(0)), k[0]->room = 3000;
                else if (pos == 1) w.send(k[0], hello() + req(1, "/_tests/medium_body") + req(3, "/_tests/ok"));
                else if (pos == 2) k.push_back(w.connect(1)), w.send(k[1], Bytes(4, 'P'));
                else if (pos == 3) k.push_back(w.connect(2)), w.send(k[2], hello() + req(1, "/_ion/status"));
                else if (pos == 4) w.fin(k[2]);
                else if (pos == 5) w.set_room(k[0], 9000);
                else return false;
                break;
            default:  // clients that break their connections while being written to
                if (pos == 0) k.push_back(w.connect(0)), k[0]->room = 2000;
                else if (pos == 1) w.send(k[0], hello() + req(1, "/_tests/medium_body"));
                else if (pos == 2) k.push_back(w.connect(1)), w.send(k[1], hello() + req(1, "/_tests/medium_body")), w.close_client(k[1]);
                else if (pos == 3) w.rst(k[0]);
                else if (pos == 4) k.push_back(w.connect(2)), w.send(k[2], hello() + req(1, "/_tests/ok"));
                else return false;
                break;
        }
        ++pos;
        return true;
    }
};
// What a child process did: exit status, signal, or nothing within the limit; fd 1/2 as asked for.
struct Child {
    bool exited = false, signalled = false, late = false;
    int status = 0;
    std::string report;
};
}  // namespace

MC_PROPERTY(C28) {
    setenv("OTEL_SDK_DISABLED", "true", 1);
    tlsc::files();
    note("SIGINT and SIGTERM raised at every kernel call from the first socket call on, in 5 loads (no client, requests, blocked and half-open clients, TLS handshakes and data, clients that break off while being written to), waits interrupted with EINTR or not; and a second signal at every later call until the listening socket is closed (quick: the next 6)");
    explore("signals", thorough() ? 3 : 2, [&](Chooser& c) {
        const int kind = c.pick(Load::KINDS, "load");
        if (!c.commit()) return;
        App app(c);
        Load load(app, kind);
        app.args = load.args();
        app.w.env = [&] { return load.act(); };
        int sent = 0;
        bool by_end = false;
        uint64_t calls = 0, first_at = 0, since = 0;
        std::string what;
        app.w.quiescent = [&] {
            if (++app.quiet > 60) throw Runaway{};
            if (app.quiet > 1 && !sent) app.signal(SIGTERM), ++sent, by_end = true;  // the end of a run without a signal
        };
        bool eintr = false;
        app.w.on_call = [&](const sim::Call& call) {
            eintr = false;
            ++calls;
            if (sent && ++since > 4000 && (call.sys == Sys::Read || call.sys == Sys::Write || call.sys == Sys::EpollWait)) throw Runaway{};
            if (app.w.listener_closed || c.cost() >= c.bound()) return;
            if (sent && !thorough() && calls - first_at > 6) return;
            if (call.sys == Sys::Socket && sent) return;
            const int n = call.sys == Sys::EpollWait || call.sys == Sys::Poll ? 5 : 3;
            const int x = c.dev(n, sim::sys_name(call.sys));
            if (!x) return;
            if (!sent) first_at = calls;
            ++sent;
            eintr = x >= 3;
            what += std::string(x % 2 ? "SIGTERM" : "SIGINT") + " at call " + std::to_string(calls) + " (" + sim::sys_name(call.sys) + ") ";
            app.signal(x % 2 ? SIGTERM : SIGINT);
        };
        app.w.fault = [&](const sim::Call& call) -> long {
            if (eintr && (call.sys == Sys::EpollWait || call.sys == Sys::Poll)) {
                eintr = false;
                return -EINTR;
            }
            return sim::DEFAULT;
        };
        app.run();
        c.state(mix(app.w.trace, hash_str(what)));
        c.validated();
        if (srv::report(c, app.sane(0), "load " + std::to_string(kind) + ", " + what)) return;
        if (app.w.waited_forever && !by_end) c.violation("lost", "after the signal the server waits without limit for an event: " + what);
        else if (!app.w.listener_closed) c.violation("listener", "the listening socket is still open: " + what);
    });
    note("clients that break off at every point of every kind of response (every send-buffer size in steps, by FIN+RST and RST), in cleartext and TLS: the server goes on, answers the next client and ends on SIGTERM only");
    explore("client-sigpipe", 0, [&](Chooser& c) {
        const bool tls = c.pick(2, "tls"), rst = c.pick(2, "rst");
        const int room = c.pick(12, "room"), others = c.pick(2, "others");
        if (!c.commit()) return;
        App app(c);
        app.args = {"--under-test", "--status-page", "-l", "off"};
        if (tls) append(app.args, {"--tls-cert-path", tlsc::files().cert, "--tls-key-path", tlsc::files().key});
        else app.args.push_back("--cleartext");
        tlsc::reset_random();
        const size_t rooms[] = {0, 1, 9, 33, 34, 100, 1000, 1500, 2000, 4000, 16000, 140000};
        std::vector<ConnPtr> k(3);
        std::vector<std::unique_ptr<tlsc::Client>> t(3);
        std::vector<int> stage(3, 0);
        const std::vector<Bytes> data = {hello() + req(1, "/_tests/medium_body") + req(3, "/_ion/status"), hello() + req(1, "/_tests/ok"), hello() + req(1, "/_tests/ok") + req(3, "/_ion/status")};
        auto act = [&](int i) {
            auto& w = app.w;
            if (!k[i]) {
                k[i] = w.connect(i);
                if (i == 0 && !tls) k[0]->room = rooms[room];
                if (tls) {
                    t[i] = std::make_unique<tlsc::Client>(13);
                    t[i]->conn = k[i];
                }
                return true;
            }
            if (tls) {
                Bytes b = t[i]->step();
                if (b.empty() && t[i]->handshaken && !stage[i]) {
                    stage[i] = 1;
                    if (i == 0) k[0]->room = rooms[room];
                    t[i]->write(data[i]);
                    b = t[i]->step();
                }
                if (!b.empty() && !k[i]->client_gone && !k[i]->reset) {
                    w.send(k[i], b);
                    return true;
                }
            } else if (!stage[i]) {
                stage[i] = 1;
                w.send(k[i], data[i]);
                return true;
            }
            if (i == 0 && stage[0] == 1) {
                stage[0] = 2;
                if (rst) w.rst(k[0]);
                else w.close_client(k[0]), w.set_room(k[0], 100);
                return true;
            }
            if (i == 0 && stage[0] == 2 && !rst && !k[0]->reset) {
                stage[0] = 3;
                w.set_room(k[0], 1 << 20);
                return true;
            }
            return false;
        };
        app.w.env = [&] {
            if (others && act(1)) return true;
            if (act(0)) return true;
            return act(2);
        };
        app.w.quiescent = [&] {
            if (++app.quiet > 20) throw Runaway{};
            if (app.quiet > 2) app.signal(SIGTERM);
        };
        app.run();
        const std::string ctx = std::string(tls ? "TLS" : "cleartext") + ", room " + std::to_string(rooms[room]) + (rst ? ", RST" : ", close");
        c.state(app.w.trace);
        if (srv::report(c, app.sane(0), ctx)) return;
        if (app.quiet < 3) {
            c.violation("stopped", "a client's disconnect stopped the server: " + ctx);
            return;
        }
        Bytes tx = k[2]->tx;
        if (t[2]) t[2]->step(), tx = t[2]->plain;
        const auto o = h2::parse(tx);
        c.validated();
        if (o.answers.size() != 2) c.violation("next-client", "the next client is not answered: " + ctx);
    });
    // broken standard output and error, each run in a child process
    note("standard output and error intact, broken pipes, broken sockets or closed at start or breaking at every wait of a run, at log level info and off, with and without a client that causes SIGPIPE (in child processes)");
    explore("standard-streams", 0, [&](Chooser& c) {
        const int out = c.pick(4, "stdout"), err = c.pick(3, "stderr");  // 0 fine, 1 pipe, 2 socket, 3 /dev/null only
        const bool log = c.pick(2, "log"), client = c.pick(2, "client");
        const int when = c.pick(thorough() ? 12 : 6, "when");
        if (!c.commit()) return;
        if (out == 3 && err) return;
        int rep[2];
        if (pipe(rep)) abort();
        const pid_t pid = fork();
        if (pid == 0) {
            close(rep[0]);
            const int my = fcntl(rep[1], F_DUPFD, 200);
            // reading ends that the scenario can close
            int peer_out = -1, peer_err = -1;
            auto make = [&](int kind, int fd) {
                int p[2];
                if (kind == 1) {
                    if (pipe(p)) _exit(99);
                    std::swap(p[0], p[1]);
                } else if (kind == 2) {
                    if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(99);
                } else {
                    // a healthy pipe, drained by nobody but large enough
                    if (kind == 3) {
                        const int n = open("/dev/null", O_WRONLY);
                        dup2(n, fd);
                        close(n);
                        return -1;
                    }
                    if (pipe(p)) _exit(99);
                    std::swap(p[0], p[1]);
                }
                dup2(p[0], fd);
                close(p[0]);
                const int keep = fcntl(p[1], F_DUPFD, 210);
                close(p[1]);
                return kind == 0 ? (fcntl(keep, F_SETPIPE_SZ, 1 << 20), -keep) : keep;
            };
            peer_out = make(out, 1);
            peer_err = make(err, 2);
            Chooser dummy;
            App app(dummy);
            app.w.ch = nullptr;
            app.keep_logger = true;
            spdlog::set_default_logger(std::make_shared<spdlog::logger>("", std::make_shared<spdlog::sinks::stdout_sink_st>()));
            app.args = {"--cleartext", "--under-test", "-l", log ? "info" : "off"};
            std::vector<ConnPtr> k;
            int pos = 0, waits = 0;
            bool broke = false;
            auto brk = [&] {
                if (broke) return;
                broke = true;
                if (peer_out > 0) close(peer_out);
                if (peer_err > 0) close(peer_err);
            };
            if (when == 0) brk();
            app.w.before_wait = [&] {
                if (++waits == when) brk();
            };
            int answered = -1;
            app.w.env = [&] {
                auto& w = app.w;
                switch (pos++) {
                    case 0: k.push_back(w.connect(0)); return true;
                    case 1: w.send(k[0], hello() + req(1, "/_tests/ok")); return true;
                    case 2: k.push_back(w.connect(1)); k[1]->room = client ? 2000 : ~size_t(0); w.send(k[1], hello() + req(1, "/_tests/medium_body")); return true;
                    case 3: if (client) w.close_client(k[1]), w.set_room(k[1], 100); return true;
                    case 4: if (client) w.set_room(k[1], 1 << 20); return true;
                    case 5: k.push_back(w.connect(2)); w.send(k[2], hello() + req(1, "/_tests/ok") + req(3, "/_tests/ok")); return true;
                    case 6: brk(); return true;
                    case 7: k.push_back(w.connect(3)); w.send(k[3], hello() + req(1, "/_tests/ok")); return true;
                    default: return false;
                }
            };
            app.w.quiescent = [&] {
                if (++app.quiet > 20) throw Runaway{};
                if (app.quiet > 2) {
                    answered = k.size() > 3 ? static_cast<int>(h2::parse(k[3]->tx).answers.size()) : 0;
                    app.signal(SIGTERM);
                }
            };
            app.run();
            std::string s = std::to_string(app.rc) + " " + std::to_string(app.quiet) + " " + std::to_string(answered) + " " + std::to_string(app.w.sigpipes) + " " + app.sane(0);
            (void)!write(my, s.data(), s.size());
            _exit(0);
        }
        close(rep[1]);
        std::string text;
        char buf[512];
        pollfd pf{rep[0], POLLIN, 0};
        bool late = false;
        for (;;) {
            if (::poll(&pf, 1, 5000) <= 0) {
                late = true;
                kill(pid, SIGKILL);
                break;
            }
            const ssize_t n = ::read(rep[0], buf, sizeof buf);
            if (n <= 0) break;
            text.append(buf, n);
        }
        close(rep[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        static const char* kinds[] = {"intact", "a broken pipe", "a broken socket", "discarded"};
        const std::string ctx = std::string("stdout ") + kinds[out] + ", stderr " + kinds[err] + (log ? ", logging" : "") + (client ? ", client SIGPIPE" : "") + ", breaks at wait " + std::to_string(when);
        c.outcome(text);
        c.state(hash_str(ctx + text));
        c.validated();
        c.step();
        const bool broken = out == 1 || out == 2 || err == 1 || err == 2;
        if (!late && broken && WIFSIGNALED(st) && WTERMSIG(st) == SIGPIPE) return;  // (its handler covers the serving phase only)
        if (late || !WIFEXITED(st) || text.empty()) {
            c.violation("child", late ? "no end within 5 s: " + ctx : "the process is killed by signal " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 0) + ": " + ctx);
            return;
        }
        std::istringstream is(text);
        int rc, quiet, answered, pipes;
        std::string bad;
        is >> rc >> quiet >> answered >> pipes;
        std::getline(is, bad);
        if (!bad.empty() && bad[0] == ' ') bad.erase(0, 1);
        if (srv::report(c, bad, ctx)) return;
        const bool ended = quiet == 0 || quiet < 3;  // by itself, before SIGTERM
        if (!broken && ended) c.violation("stopped", "the server stopped although its standard streams are intact: " + ctx);
        else if (!broken && answered != 1) c.violation("served", "the last client is not answered: " + ctx);
        else if ((out == 1 || out == 2) && log && !ended) c.violation("went-on", "the server goes on writing its log to a broken standard output: " + ctx);
    });
    spdlog::set_default_logger(std::make_shared<spdlog::logger>("", std::make_shared<spdlog::sinks::null_sink_st>()));
}

namespace {
namespace rec = opentelemetry::trace::rec;
struct TracedLine {
    uint64_t span;  // the span that is current, 0: none
    std::string text;
};
class TraceSink : public spdlog::sinks::base_sink<spdlog::details::null_mutex> {
   public:
    std::vector<TracedLine> lines;

   protected:
    void sink_it_(const spdlog::details::log_msg& m) override {
        spdlog::memory_buf_t b;
        formatter_->format(m, b);
        lines.push_back({rec::active.empty() ? 0 : rec::active.back()->data->id, std::string(b.data(), b.size())});
    }
    void flush_() override {}
};
// [time] [level] [trace id] text -> trace id, "-" if there is none
std::string trace_id(const std::string& l) {
    size_t at = 0;
    for (int n = 0; n < 2; ++n) {
        if (at >= l.size() || l[at] != '[') return "?";
        at = l.find("] ", at);
        if (at == std::string::npos) return "?";
        at += 2;
    }
    if (l.size() < at + 35 || l[at] != '[' || l[at + 33] != ']' || l[at + 34] != ' ') return "-";
    const auto id = l.substr(at + 1, 32);
    return id.find_first_not_of("0123456789abcdef") == std::string::npos ? id : "-";
}
}  // namespace

// The application's own tracing: when it is on, and what its log lines say.
MC_PROPERTY(C30) {
    Dirs d;
    const auto& tf = tlsc::files();
    note("application: main() with OTEL_SDK_DISABLED unset, 'true', 'false' and empty x 7 log levels x cleartext and TLS x static mapping, status page and test routes on or off; the exporter, every span and every log line of 15 probe requests");
    const std::vector<std::optional<std::string>> sdk = {std::nullopt, "true", "false", ""};
    const std::vector<std::string> levels = {"trace", "debug", "info", "warn", "error", "critical", "off"};
    enumerate("application", sdk.size() * levels.size() * 4, [&](Chooser& c, uint64_t i) {
        const auto& var = sdk[i % sdk.size()];
        const auto& level = levels[i / sdk.size() % levels.size()];
        const bool tls = i / sdk.size() / levels.size() % 2, pages = i / sdk.size() / levels.size() / 2;
        if (var) setenv("OTEL_SDK_DISABLED", var->c_str(), 1);
        else unsetenv("OTEL_SDK_DISABLED");
        telemetry::created.clear();
        telemetry::alive = 0;
        telemetry::record = true;
        rec::active.clear();
        rec::reset(false);
        App app(c);
        app.keep_logger = true;
        auto sink = std::make_shared<TraceSink>();
        spdlog::set_default_logger(std::make_shared<spdlog::logger>("", sink));
        app.args = {"-p", "8443", "-l", level};
        if (!tls) app.args.push_back("--cleartext");
        else app.args.insert(app.args.end(), {"--tls-cert-path", tf.cert, "--tls-key-path", tf.key});
        if (pages) app.args.insert(app.args.end(), {"--static", "/s", d.www, "--status-page", "--under-test"});
        const std::string ctx = "OTEL_SDK_DISABLED " + (var ? "'" + *var + "'" : "unset") + ": " + join(app.args);
        std::string bad;
        ConnPtr k;
        std::unique_ptr<tlsc::Client> t;
        Bytes data = hello();
        uint32_t sid = 1;
        const size_t np = probes.size() - 1;
        for (size_t j = 0; j < np; ++j, sid += 2) data += req(sid, probes[j].path, {}, true, probes[j].method);
        bool sent = false;
        int alive = -1;
        if (tls) {
            tlsc::reset_random();
            t = std::make_unique<tlsc::Client>(13);
        }
        app.w.env = [&] {
            alive = telemetry::alive;
            if (!k) {
                k = app.w.connect(0, "10.9.8.7");
                if (t) t->conn = k;
                return true;
            }
            if (t) {
                Bytes b = t->step();
                if (b.empty() && t->handshaken && !sent) {
                    sent = true;
                    t->write(data);
                    b = t->step();
                }
                if (b.empty()) return false;
                app.w.send(k, b);
                return true;
            }
            if (sent) return false;
            sent = true;
            app.w.send(k, data);
            return true;
        };
        app.w.before_wait = [&] {
            if (!rec::active.empty() && bad.empty()) bad = "wait-current|a span is current while the server waits";
            for (auto& s : rec::spans)
                if (!s->ended && bad.empty()) bad = "wait-open|a span is open while the server waits";
        };
        app.run();
        telemetry::record = false;
        setenv("OTEL_SDK_DISABLED", "true", 1);
        const auto spans = rec::spans;
        rec::active.clear();
        rec::reset(false);
        spdlog::set_default_logger(std::make_shared<spdlog::logger>("", std::make_shared<spdlog::sinks::null_sink_st>()));
        c.state(hash_str(ctx));
        if (srv::report(c, app.sane(0), ctx) || srv::report(c, bad, ctx)) return;
        const bool on = !var || *var != "true";
        if (on && (telemetry::created != std::vector<std::string>{"ion-server"} || alive != 1)) return c.violation("exporter", std::to_string(telemetry::created.size()) + " exporters, " + std::to_string(alive) + " alive while serving: " + ctx);
        if (!on && !telemetry::created.empty()) return c.violation("exporter-off", "an exporter although tracing is disabled: " + ctx);
        if (telemetry::alive) return c.violation("exporter-left", "the exporter was not shut down: " + ctx);
        Bytes tx = k->tx;
        if (t) {
            t->step();
            tx = t->plain;
        }
        const auto o = h2::parse(tx);
        if (o.answers.size() != np) return c.violation("answers", std::to_string(o.answers.size()) + " answers to " + std::to_string(np) + " probes: " + ctx);
        if (spans.size() != (on ? np : 0)) return c.violation("spans", std::to_string(spans.size()) + " spans for " + std::to_string(np) + " requests: " + ctx);
        for (size_t j = 0; j < spans.size(); ++j) {
            auto& a = spans[j]->attributes;
            c.validated();
            const std::string got = spans[j]->name + " " + a["http.method"] + " " + a["http.target"] + " " + a["ion.client_ip"] + " " + a["http.status_code"];
            const std::string want = "http_request " + probes[j].method + " " + probes[j].path + " 10.9.8.7 " + o.answers[j].fields[0].second;
            if (got != want || !spans[j]->ended) return c.violation("span", "span '" + got + "' instead of '" + want + "': " + ctx);
        }
        std::set<uint64_t> seen;
        for (auto& l : sink->lines) {
            c.step();
            const auto id = trace_id(l.text);
            if (id == "?") return c.violation("format", "a log line has no time and level: " + quote(l.text, 200) + ": " + ctx);
            if (id != (l.span ? rec::hex(l.span, 32) : "-")) return c.violation("id", "trace id " + id + " in a line of span " + std::to_string(l.span) + ": " + quote(l.text, 200) + ": " + ctx);
            if (l.span) seen.insert(l.span);
        }
        // what is said about a request is said under its span
        if (on && (level == "debug" || level == "trace") && seen.size() != np) return c.violation("lines", "log lines for " + std::to_string(seen.size()) + " of " + std::to_string(np) + " requests: " + ctx);
    });
}
