// C18: both event pollers on the real kernel, every operation sequence to a depth, against poll(2);
// and the conformance of the simulated kernel (mc/sim.cpp) that the other checks run on.
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <spdlog/spdlog.h>

#include <array>
#include <memory>

#include "mc/scn.hpp"
#include "pollers/epoll_poller.h"
#include "pollers/poll_poller.h"

using namespace mc;
using h2::bytes;
using ion::PollEventType;

namespace {
enum Op { SetR, SetW, SetRW, Set0, Remove, PeerWrite, Drain, PeerShut, PeerClose, Fill, PeerDrain, Reuse, ReuseUnremoved, ReuseReady, PeerCloseUnread, OPS };
const char* op_name(int o) {
    static const char* n[] = {"set(Read)", "set(Write)", "set(Read|Write)", "set(None)", "remove", "peer writes", "drain", "peer shuts down", "peer closes", "fill", "peer drains",
                              "remove, close, reuse the number", "close, reuse the number", "remove, close, reuse the number with data waiting", "peer closes with unread data"};
    return n[o];
}
struct Sock {
    int fd = -1, peer = -1;
    int number;
    void open(int at) {
        number = at;
        int v[2];
        if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, v)) abort();
        const int sz = 4096;
        ::setsockopt(v[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
        if (syscall(SYS_dup3, v[0], at, 0) < 0) abort();
        syscall(SYS_close, v[0]);
        if (syscall(SYS_dup3, v[1], at + 100, 0) < 0) abort();
        syscall(SYS_close, v[1]);
        fd = at;
        peer = at + 100;
    }
    void shut() {
        if (fd >= 0) syscall(SYS_close, fd);
        if (peer >= 0) syscall(SYS_close, peer);
        fd = peer = -1;
    }
};
struct Want {
    bool registered = false;
    int interest = 0;  // 1 read, 2 write
};
struct Bench {
    std::vector<Sock> s;
    std::vector<Want> w;
    std::unique_ptr<ion::Poller> a, b;
    explicit Bench(int n) : s(n), w(n) {
        a = std::make_unique<ion::EPollPoller>();
        b = std::make_unique<ion::PollPoller>();
        for (int i = 0; i < n; ++i) s[i].open(300 + i);
    }
    ~Bench() {
        for (auto& x : s) x.shut();
    }
    void set(int i, int in) {
        const auto t = static_cast<PollEventType>(in);
        a->set(s[i].fd, t);
        b->set(s[i].fd, t);
        w[i] = {true, in};
    }
    void remove(int i) {
        a->remove(s[i].fd);
        b->remove(s[i].fd);
        w[i] = {};
    }
    bool apply(int i, int op) {
        char buf[65536];
        Sock& k = s[i];
        switch (op) {
            case SetR: set(i, 1); return true;
            case SetW: set(i, 2); return true;
            case SetRW: set(i, 3); return true;
            case Set0: set(i, 0); return true;
            case Remove:
                if (!w[i].registered) return false;
                remove(i);
                return true;
            case PeerWrite: return k.peer >= 0 && ::write(k.peer, "x", 1) == 1;
            case Drain: return ::read(k.fd, buf, sizeof buf) > 0;
            case PeerShut: return k.peer >= 0 && ::shutdown(k.peer, SHUT_WR) == 0;
            case PeerClose:
            case PeerCloseUnread:
                if (k.peer < 0) return false;
                if (op == PeerCloseUnread && ::write(k.fd, "y", 1) != 1) return false;
                if (op == PeerClose)
                    while (::read(k.peer, buf, sizeof buf) > 0) {}
                syscall(SYS_close, k.peer);
                k.peer = -1;
                return true;
            case Fill: {
                bool any = false;
                while (::write(k.fd, buf, sizeof buf) > 0 || ::write(k.fd, buf, 1) > 0) any = true;
                return any;
            }
            case PeerDrain: {
                bool any = false;
                if (k.peer >= 0)
                    while (::read(k.peer, buf, sizeof buf) > 0) any = true;
                return any;
            }
            case Reuse:
            case ReuseReady:
            case ReuseUnremoved: {
                if (op != ReuseUnremoved && w[i].registered) remove(i);
                const int at = k.number;
                k.shut();
                // a poller that is not told may forget or keep the interest in the number; it is set again
                const Want old = w[i];
                k.open(at);
                if (op == ReuseReady && ::write(k.peer, "z", 1) != 1) return false;
                if (old.registered || op != ReuseUnremoved) set(i, op == ReuseUnremoved ? old.interest : 3);
                return true;
            }
        }
        return false;
    }
    std::map<int, int> truth() {
        std::map<int, int> t;
        for (size_t i = 0; i < s.size(); ++i) {
            if (!w[i].registered) continue;
            pollfd p{s[i].fd, static_cast<short>((w[i].interest & 1 ? POLLIN : 0) | (w[i].interest & 2 ? POLLOUT : 0)), 0};
            syscall(SYS_poll, &p, 1, 0);
            const int e = (p.revents & POLLIN ? 1 : 0) | (p.revents & POLLOUT ? 2 : 0) | (p.revents & POLLHUP ? 4 : 0) | (p.revents & POLLERR ? 8 : 0);
            if (e) t[s[i].fd] = e;
        }
        return t;
    }
    std::string polled(ion::Poller& p, std::map<int, int>& out) {
        auto r = p.poll(std::chrono::milliseconds(0));
        if (!r) return r.error() == ion::PollError::Timeout ? "" : "poll fails";
        for (auto& e : *r) {
            if (e.events == PollEventType::None) continue;
            if (out.count(e.fd)) return "descriptor reported twice";
            out[e.fd] = static_cast<int>(e.events);
        }
        return "";
    }
    static std::string show(const std::map<int, int>& m) {
        std::string r;
        for (auto& [fd, e] : m) r += std::to_string(fd) + ":" + (e & 1 ? "R" : "") + (e & 2 ? "W" : "") + (e & 4 ? "H" : "") + (e & 8 ? "E" : "") + " ";
        return "{" + r + "}";
    }
    bool check(Chooser& c, const std::string& hist) {
        const auto t = truth();
        for (int k = 0; k < 2; ++k) {
            std::map<int, int> got;
            auto err = polled(k ? *b : *a, got);
            if (err.empty() && got != t) err = "reports " + show(got) + " instead of " + show(t);
            if (!err.empty()) {
                c.violation(k ? "poll" : "epoll", std::string(k ? "PollPoller: " : "EPollPoller: ") + err + " after " + hist);
                return false;
            }
            c.validated();
        }
        uint64_t h = 7;
        for (size_t i = 0; i < s.size(); ++i) h = mix(h, w[i].registered * 8 + w[i].interest);
        for (auto& [fd, e] : t) h = mix(h, fd * 16 + e);
        c.state(h);
        return true;
    }
};
void quiet_logs() {
    static const bool once = [] {
        spdlog::set_level(spdlog::level::off);
        signal(SIGPIPE, SIG_IGN);
        return true;
    }();
    (void)once;
}
void sequence(Chooser& c, uint64_t i, int depth, int fds) {
    quiet_logs();
    Bench b(fds);
    std::string hist;
    for (int d = 0; d < depth; ++d) {
        const int op = i % OPS, which = i / OPS % fds;
        i /= OPS * fds;
        if (!b.apply(which, op)) return;  // not possible here: other sequences cover the rest
        hist += std::string(d ? ", " : "") + "fd" + std::to_string(which) + " " + op_name(op);
        c.step();
        if (!b.check(c, hist)) return;
    }
    c.outcome(hist);
}
}  // namespace

// ---- the simulated kernel against the real one --------------------------------------------------------
namespace {
struct RealSide {
    int cfd = -1, sfd = -1, efd = -1;
    bool open() {
        static int lfd = -1;
        static sockaddr_in a{};
        const int one = 1;
        if (lfd < 0) {
            lfd = syscall(SYS_socket, AF_INET, SOCK_STREAM, 0);
            a.sin_family = AF_INET;
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            socklen_t l = sizeof a;
            if (lfd < 0 || syscall(SYS_bind, lfd, &a, sizeof a) || syscall(SYS_listen, lfd, 8) || syscall(SYS_getsockname, lfd, &a, &l)) return false;
        }
        cfd = syscall(SYS_socket, AF_INET, SOCK_STREAM, 0);
        if (cfd < 0 || syscall(SYS_connect, cfd, &a, sizeof a)) return false;
        sfd = syscall(SYS_accept4, lfd, nullptr, nullptr, SOCK_NONBLOCK);
        efd = syscall(SYS_epoll_create1, 0);
        syscall(SYS_setsockopt, cfd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        syscall(SYS_setsockopt, sfd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        return sfd >= 0 && efd >= 0;
    }
    ~RealSide() {
        // no TIME_WAIT
        linger lg{1, 0};
        if (cfd >= 0) syscall(SYS_setsockopt, cfd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg), syscall(SYS_close, cfd);
        if (sfd >= 0) syscall(SYS_setsockopt, sfd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg), syscall(SYS_close, sfd);
        if (efd >= 0) syscall(SYS_close, efd);
    }
};
long sysret(long r) { return r < 0 ? -errno : r; }
enum KOp { KSend, KFin, KCloseC, KRst, KRead1, KReadAll, KWrite, KShut, KRegR, KRegRW, KUnreg, KWait, KSoErr, KOPS };
const char* kname(int o) {
    static const char* n[] = {"client sends", "client half-closes", "client closes", "client resets", "read(1)", "read(100)", "write", "shutdown(WR)", "epoll Read", "epoll Read|Write", "epoll remove", "epoll_wait", "SO_ERROR"};
    return n[o];
}
void conform(Chooser& c, uint64_t i, int depth) {
    quiet_logs();
    RealSide r;
    if (!r.open()) {
        c.violation("setup", "no loopback TCP");
        return;
    }
    Chooser dummy;
    sim::World w;
    signal(SIGPIPE, SIG_IGN);
    w.ch = &c;
    auto k = w.connect(0);
    const int sl = ::socket(AF_INET, SOCK_STREAM, 0);
    ::fcntl(sl, F_SETFL, O_NONBLOCK);
    ::listen(sl, 8);
    const int sfd = ::accept(sl, nullptr, nullptr);
    ::fcntl(sfd, F_SETFL, O_NONBLOCK);
    const int efd = ::epoll_create1(0);
    bool reg = false, copen = true, cfin = false;
    std::string hist;
    for (int d = 0; d < depth; ++d) {
        const int op = i % KOPS;
        i /= KOPS;
        hist += std::string(d ? ", " : "") + kname(op);
        long a = 0, b = 0;
        char buf[128];
        switch (op) {
            case KSend:
                if (!copen || cfin) return;
                if (syscall(SYS_sendto, r.cfd, "ab", 2, MSG_NOSIGNAL, nullptr, 0) != 2) return;
                w.send(k, bytes("ab"));
                break;
            case KFin:
                if (!copen || cfin) return;
                if (syscall(SYS_shutdown, r.cfd, SHUT_WR)) return;
                w.fin(k);
                cfin = true;
                break;
            case KCloseC: {
                if (!copen) return;
                // a close with unread data resets instead
                const bool unread = !k->tx.empty();
                syscall(SYS_close, r.cfd);
                r.cfd = -1;
                copen = false;
                if (unread) return;
                w.close_client(k);
                break;
            }
            case KRst: {
                if (!copen) return;
                linger lg{1, 0};
                syscall(SYS_setsockopt, r.cfd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
                syscall(SYS_close, r.cfd);
                r.cfd = -1;
                copen = false;
                w.rst(k);
                break;
            }
            case KRead1:
            case KReadAll: {
                const size_t n = op == KRead1 ? 1 : 100;
                b = sysret(::read(sfd, buf, n));
                a = sysret(syscall(SYS_read, r.sfd, buf, n));
                break;
            }
            case KWrite:
                b = sysret(::write(sfd, "xyz", 3));
                a = sysret(syscall(SYS_sendto, r.sfd, "xyz", 3, MSG_NOSIGNAL, nullptr, 0));
                break;
            case KShut:
                b = sysret(::shutdown(sfd, SHUT_WR));
                a = sysret(syscall(SYS_shutdown, r.sfd, SHUT_WR));
                break;
            case KRegR:
            case KRegRW: {
                epoll_event ev{};
                ev.events = op == KRegR ? EPOLLIN : EPOLLIN | EPOLLOUT;
                b = sysret(::epoll_ctl(efd, reg ? EPOLL_CTL_MOD : EPOLL_CTL_ADD, sfd, &ev));
                a = sysret(syscall(SYS_epoll_ctl, r.efd, reg ? EPOLL_CTL_MOD : EPOLL_CTL_ADD, r.sfd, &ev));
                reg = true;
                break;
            }
            case KUnreg:
                b = sysret(::epoll_ctl(efd, EPOLL_CTL_DEL, sfd, nullptr));
                a = sysret(syscall(SYS_epoll_ctl, r.efd, EPOLL_CTL_DEL, r.sfd, nullptr));
                reg = false;
                break;
            case KWait: {
                epoll_event e1{}, e2{};
                const int n2 = ::epoll_wait(efd, &e2, 1, 0);
                b = n2 > 0 ? static_cast<long>(e2.events) : n2;
                for (int t = 0; t < 20; ++t) {  // delivery over loopback is immediate in practice
                    const long n1 = syscall(SYS_epoll_wait, r.efd, &e1, 1, 0);
                    a = n1 > 0 ? static_cast<long>(e1.events) : n1;
                    if (a == b) break;
                    usleep(500);
                }
                break;
            }
            case KSoErr: {
                int v1 = 0, v2 = 0;
                socklen_t l = sizeof v1;
                ::getsockopt(sfd, SOL_SOCKET, SO_ERROR, &v2, &l);
                syscall(SYS_getsockopt, r.sfd, SOL_SOCKET, SO_ERROR, &v1, &l);
                a = v1, b = v2;
                break;
            }
        }
        c.step();
        c.validated();
        c.state(mix(w.trace, op));
        if (a != b) {
            c.violation("conformance", "simulated kernel gives " + std::to_string(b) + ", the real one " + std::to_string(a) + " after " + hist);
            return;
        }
    }
}
}  // namespace

MC_PROPERTY(C18) {
    const int depth = thorough() ? 5 : 4;
    note("both pollers on the real kernel (unix socket pairs): all sequences of " + std::to_string(depth) + " operations (15 kinds, 2 descriptors), polled after every operation, compared with poll(2) on each descriptor");
    enumerate("sequences1", scn::ipow(OPS, depth + 1), [&](Chooser& c, uint64_t i) { sequence(c, i, depth + 1, 1); });
    enumerate("sequences2", scn::ipow(OPS * 2, depth), [&](Chooser& c, uint64_t i) { sequence(c, i, depth, 2); });
    note("n ready descriptors for every n up to 200 (initial buffer: 64): each reported with its flags within n/64+2 polls, also while descriptors are removed between polls");
    enumerate("many", 200 * 4, [&](Chooser& c, uint64_t i) {
        quiet_logs();
        const int n = 1 + i / 4, mode = i % 4;
        std::vector<Sock> s(n);
        ion::EPollPoller a;
        ion::PollPoller b;
        for (int j = 0; j < n; ++j) {
            int v[2];
            if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, v)) abort();
            s[j].fd = v[0], s[j].peer = v[1];
            a.set(v[0], mode == 1 ? PollEventType::Write : PollEventType::Read);
            b.set(v[0], mode == 1 ? PollEventType::Write : PollEventType::Read);
            if (mode != 1) (void)!::write(v[1], "x", 1);
        }
        for (int k = 0; k < 2; ++k) {
            ion::Poller& p = k ? static_cast<ion::Poller&>(b) : a;
            std::map<int, int> got;
            std::set<int> removed;
            for (int round = 0; round < n / 64 + 2; ++round) {
                auto r = p.poll(std::chrono::milliseconds(0));
                if (!r) {
                    if (mode >= 2 && r.error() == ion::PollError::Timeout && round) break;
                    c.violation("many", "poll fails with " + std::to_string(n) + " descriptors ready");
                    break;
                }
                std::set<int> once;
                for (auto& e : *r) {
                    if (e.events == PollEventType::None) continue;
                    if (!once.insert(e.fd).second) c.violation("many", "descriptor reported twice");
                    if (removed.count(e.fd)) c.violation("many", "removed descriptor reported");
                    got[e.fd] |= static_cast<int>(e.events);
                    if (mode == 2) removed.insert(e.fd), p.remove(e.fd);
                    char x;
                    if (mode == 3 && k) (void)!::read(e.fd, &x, 1);
                }
                c.step();
            }
            for (auto& x : s)
                if (got[x.fd] != (mode == 1 ? 2 : 1) && !c.violated()) c.violation("many", std::string(k ? "PollPoller" : "EPollPoller") + ": with " + std::to_string(n) + " descriptors ready, one is never reported");
        }
        for (auto& x : s) x.shut();
        c.validated();
    });
    enumerate("interrupted", 2, [&](Chooser& c, uint64_t i) {
        quiet_logs();
        sim::World w;
        w.ch = &c;
        auto k = w.connect(0);
        const int sl = ::socket(AF_INET, SOCK_STREAM, 0);
        ::fcntl(sl, F_SETFL, O_NONBLOCK);
        ::listen(sl, 8);
        const int sfd = ::accept(sl, nullptr, nullptr);
        std::unique_ptr<ion::Poller> p;
        if (i) p = std::make_unique<ion::PollPoller>();
        else p = std::make_unique<ion::EPollPoller>();
        p->set(sfd, PollEventType::Read);
        int n = 0;
        w.fault = [&](const sim::Call& call) -> long { return (call.sys == sim::Sys::EpollWait || call.sys == sim::Sys::Poll) && n++ == 0 ? -EINTR : sim::DEFAULT; };
        auto r = p->poll(std::chrono::milliseconds(25));
        if (r || r.error() != ion::PollError::InterruptedBySignal) c.violation("interrupted", "interruption not reported");
        auto r2 = p->poll(std::chrono::milliseconds(25));
        if (r2 || r2.error() != ion::PollError::Timeout) c.violation("timeout", "timeout not reported");
        if (w.now_ns < 25000000) c.violation("timeout", "did not wait for the given time");
        w.send(k, bytes("x"));
        auto r3 = p->poll(std::chrono::milliseconds(25));
        if (!r3 || r3->size() != 1 || (*r3)[0].fd != sfd || (*r3)[0].events != PollEventType::Read) c.violation("interrupted", "event lost after an interruption");
        w.fault = nullptr;
    });
    const int kd = thorough() ? 5 : 4;
    note("simulated kernel against the real one (loopback TCP): all sequences of " + std::to_string(kd) + " operations out of 13 on one connection, every result and event mask compared");
    enumerate("conformance", scn::ipow(KOPS, kd), [&](Chooser& c, uint64_t i) { conform(c, i, kd); });
}
