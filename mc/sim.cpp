#include "sim.hpp"

#include "mem.hpp"

#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>

namespace sim {

World* world = nullptr;
static constexpr int64_t EPOCH_NS = 1'700'000'000'000'000'000;

const char* sys_name(Sys s) {
    static const char* n[] = {"socket", "bind", "listen", "accept", "read", "write", "close", "shutdown", "fcntl",
                              "setsockopt", "getsockopt", "getpeername", "epoll_create", "epoll_ctl", "epoll_wait", "poll"};
    return n[static_cast<int>(s)];
}

World::World() {
    world = this;
    struct sigaction sa{};
    sa.sa_handler = SIG_DFL;
    sigaction(SIGPIPE, &sa, nullptr);
}
World::~World() { world = nullptr; }

int World::alloc_fd() {
    int fd = SIM_BASE;
    while (files.count(fd)) ++fd;
    return fd;
}
void World::misuse(const std::string& m) {
    if (errors.size() < 20) errors.push_back(m);
}
std::vector<int> open_sim_fds() {
    std::vector<int> v;
    if (world)
        for (auto& [fd, f] : world->files) v.push_back(fd);
    return v;
}

void World::notify(Conn* c) {
    for (auto& [efd, f] : files)
        if (f->kind == File::Epoll)
            for (auto& [fd, ep] : f->interest) {
                auto it = files.find(fd);
                if (it == files.end()) continue;
                if ((c && it->second->conn.get() == c) || (!c && it->second->kind == File::Listener)) ep.edge = true;
            }
}
ConnPtr World::connect(int client, const std::string& ip) {
    auto c = std::make_shared<Conn>();
    c->client = client;
    c->peer = ip;
    conns.push_back(c);
    backlog.push_back(c);
    notify(nullptr);
    progress();
    return c;
}
void World::send(const ConnPtr& c, Bytes data) {
    if (data.empty() || c->reset || c->rx_fin) return;
    if (c->closes) {
        c->reset = true;
        return;
    }
    c->rx.push_back(std::move(data));
    notify(c.get());
    progress();
}
void World::fin(const ConnPtr& c) {
    if (c->rx_fin || c->reset) return;
    c->rx_fin = true;
    notify(c.get());
    progress();
}
void World::close_client(const ConnPtr& c) {
    fin(c);
    c->client_gone = true;
}
void World::rst(const ConnPtr& c) {
    if (c->reset) return;
    if (c->rx_fin && c->shut_wr) {  // both directions are closed already
        c->client_gone = true;
        return;
    }
    c->reset = true;
    c->client_gone = true;  // what has already arrived can still be read
    c->so_error = c->rx_fin ? EPIPE : ECONNRESET;
    notify(c.get());
    progress();
}
void World::set_room(const ConnPtr& c, size_t room) {
    const bool was = c->room == 0;
    c->room = room;
    if (was && room) notify(c.get());
    progress();
}

namespace {

bool is_sim(int fd) { return world && fd >= SIM_BASE; }
File* file(int fd) {
    auto it = world->files.find(fd);
    return it == world->files.end() ? nullptr : it->second.get();
}
void tr(Sys s, int fd, long res) {
    world->trace = mc::mix(mc::mix(world->trace, (static_cast<uint64_t>(s) << 32) ^ static_cast<uint32_t>(fd)), static_cast<uint64_t>(res));
}
long done(Sys s, int fd, long res) {
    tr(s, fd, res);
    if (res < 0) {
        errno = static_cast<int>(-res);
        return -1;
    }
    return res;
}
constexpr uint64_t MAX_SPIN = 20000;
// Bookkeeping common to all calls; returns the injected result or DEFAULT.
long enter(Sys s, int fd, size_t len = 0, int op = 0) {
    World& w = *world;
    w.calls++;
    if (++w.calls_since_progress > MAX_SPIN) {
        fprintf(stderr, "mc: livelock: %llu calls into the kernel without any progress, last %s(fd %d)\n",
                (unsigned long long)MAX_SPIN, sys_name(s), fd);
        syscall(SYS_exit_group, 78);
    }
    Conn* c = nullptr;
    if (auto f = file(fd)) c = f->conn.get();
    const Call call{s, fd, c, len, op, w.calls};
    if (w.on_call) w.on_call(call);
    if (w.fault) return w.fault(call);
    return DEFAULT;
}
uint32_t ready(int fd) {
    auto f = file(fd);
    if (!f) return 0;
    uint32_t r = 0;
    if (f->kind == File::Listener) {
        if (f->listening && !world->backlog.empty()) r |= EPOLLIN;
    } else if (f->kind == File::Connection) {
        Conn& c = *f->conn;
        if (!c.rx.empty() || c.rx_fin || c.reset) r |= EPOLLIN;
        if (c.rx_fin || c.reset) r |= EPOLLRDHUP;
        if (c.room > 0 || c.reset || c.shut_wr) r |= EPOLLOUT;
        if (c.so_error) r |= EPOLLERR;
        if (c.reset || (c.rx_fin && c.shut_wr)) r |= EPOLLHUP;
    }
    return r;
}
void sigpipe() {
    world->sigpipes++;
    struct sigaction sa{};
    sigaction(SIGPIPE, nullptr, &sa);
    if (sa.sa_handler == SIG_DFL && !(sa.sa_flags & SA_SIGINFO)) {
        world->killed_by_sigpipe = true;
        return;
    }
    if (sa.sa_handler == SIG_IGN) return;
    raise(SIGPIPE);
}

long do_read(int fd, void* buf, size_t n, Sys s = Sys::Read) {
    const long inj = enter(s, fd, n);
    File* f = file(fd);
    if (!f) {
        world->misuse("read from descriptor that is not open");
        return -EBADF;
    }
    if (inj != DEFAULT && inj < 0) return inj;
    if (f->kind != File::Connection) return -EINVAL;
    Conn& c = *f->conn;
    c.reads++;
    if (c.rx.empty()) {
        if (c.so_error && !c.rx_fin) {
            const int e = c.so_error;
            c.so_error = 0;
            return -e;
        }
        if (c.rx_fin || c.reset) {
            c.eof_read = true;
            return 0;
        }
        if (!f->nonblock) world->misuse("read would block on a blocking socket");
        return -EAGAIN;
    }
    size_t want = n;
    if (inj != DEFAULT && inj > 0) want = std::min<size_t>(want, inj);
    size_t got = 0;
    auto* out = static_cast<uint8_t*>(buf);
    while (got < want && !c.rx.empty()) {
        Bytes& seg = c.rx.front();
        const size_t k = std::min(want - got, seg.size());
        memcpy(out + got, seg.data(), k);
        got += k;
        if (k == seg.size()) c.rx.pop_front();
        else seg.erase(seg.begin(), seg.begin() + k);
        if (!c.coalesce) break;
    }
    world->progress();
    return static_cast<long>(got);
}
long do_write(int fd, const void* buf, size_t n, bool nosignal) {
    const long inj = enter(Sys::Write, fd, n);
    File* f = file(fd);
    if (!f) {
        world->misuse("write to descriptor that is not open");
        return -EBADF;
    }
    if (f->kind != File::Connection) return -EINVAL;
    Conn& c = *f->conn;
    c.writes++;
    if (inj != DEFAULT && inj < 0) {
        if (inj == -EPIPE && !nosignal) sigpipe();
        return inj;
    }
    if (c.so_error) {
        const int e = c.so_error;
        c.so_error = 0;
        if (e == EPIPE && !nosignal) sigpipe();
        return -e;
    }
    if (c.reset || c.shut_wr) {
        if (!nosignal) sigpipe();
        return -EPIPE;
    }
    if (n == 0) return 0;
    size_t k = std::min(n, c.room);
    if (inj != DEFAULT && inj > 0) k = std::min<size_t>(k, inj);
    if (k == 0) {
        if (!f->nonblock) world->misuse("write would block on a blocking socket");
        return -EAGAIN;
    }
    auto* p = static_cast<const uint8_t*>(buf);
    c.tx.insert(c.tx.end(), p, p + k);
    if (c.room != ~size_t(0)) c.room -= k;
    world->progress();
    if (c.client_gone) world->rst(f->conn);
    return static_cast<long>(k);
}
int do_close(int fd) {
    const long inj = enter(Sys::Close, fd);
    File* f = file(fd);
    if (!f) {
        world->misuse("close of a descriptor that is not open");
        return -EBADF;
    }
    if (f->kind == File::Connection) {
        Conn& c = *f->conn;
        c.closes++;
        c.fd = -1;
        c.closed_at = world->now_ns;
        if (!c.shut_wr) c.graceful = c.rx.empty();
        c.shut_wr = true;
    } else if (f->kind == File::Listener) {
        world->listener_closed = true;
        world->listening = false;
    }
    for (auto& [k, g] : world->files)
        if (g->kind == File::Epoll) {
            g->interest.erase(fd);
            auto& o = g->order;
            o.erase(std::remove(o.begin(), o.end(), fd), o.end());
        }
    world->files.erase(fd);
    if (inj != DEFAULT && inj < 0) return static_cast<int>(inj);  // Linux closes the descriptor even on error
    return 0;
}
int do_accept(int fd, sockaddr* addr, socklen_t* len, int flags) {
    const long inj = enter(Sys::Accept, fd);
    File* f = file(fd);
    if (!f) return -EBADF;
    if (inj != DEFAULT && inj < 0) {
        // errors that consume the pending connection
        if ((inj == -ECONNABORTED || inj == -EPROTO) && !world->backlog.empty()) {
            world->backlog.front()->reset = true;
            world->backlog.pop_front();
        }
        return static_cast<int>(inj);
    }
    if (f->kind != File::Listener || !f->listening) return -EINVAL;
    if (world->backlog.empty()) {
        if (!f->nonblock) world->misuse("accept would block on a blocking socket");
        return -EAGAIN;
    }
    auto c = world->backlog.front();
    world->backlog.pop_front();
    const int nfd = world->alloc_fd();
    auto nf = std::make_shared<File>();
    nf->kind = File::Connection;
    nf->conn = c;
    nf->nonblock = flags & SOCK_NONBLOCK;
    c->fd = nfd;
    c->accepted = true;
    c->accepted_at = world->now_ns;
    world->files[nfd] = nf;
    world->progress();
    if (addr && len) {
        sockaddr_in a{};
        a.sin_family = AF_INET;
        inet_pton(AF_INET, c->peer.c_str(), &a.sin_addr);
        a.sin_port = htons(40000);
        memcpy(addr, &a, std::min<size_t>(*len, sizeof a));
        *len = sizeof a;
    }
    return nfd;
}
int do_epoll_wait(int epfd, epoll_event* evs, int max, int timeout) {
    World& w = *world;
    w.waits++;
    const long inj = enter(Sys::EpollWait, epfd, 0, timeout);
    File* e = file(epfd);
    if (!e || e->kind != File::Epoll) return -EBADF;
    if (max <= 0) return -EINVAL;
    if (inj != DEFAULT && inj < 0) return static_cast<int>(inj);
    if (timeout > w.max_wait_ms) w.max_wait_ms = timeout;
    w.watched.clear();
    for (auto& [fd, ep] : e->interest) w.watched.insert(fd);
    if (w.before_wait) w.before_wait();
    const int64_t deadline = timeout < 0 ? INT64_MAX : w.now_ns + timeout * 1000000LL;
    for (int round = 0;; ++round) {
        std::vector<int> order(e->order.begin(), e->order.end());
        if (w.order) w.order(order);
        int n = 0;
        std::vector<int> reported;
        for (int fd : order) {
            if (n >= max) break;
            auto it = e->interest.find(fd);
            if (it == e->interest.end() || it->second.off) continue;
            Ep& ep = it->second;
            const uint32_t r = ready(fd) & (ep.events | EPOLLERR | EPOLLHUP);
            if (!r) continue;
            if ((ep.events & EPOLLET) && !ep.edge) continue;
            ep.edge = false;
            if (ep.events & EPOLLONESHOT) ep.off = true;
            evs[n].events = r;
            evs[n].data.u64 = ep.data;
            ++n;
            reported.push_back(fd);
        }
        if (n && ++w.stale_waits > w.patience) {
            // The server keeps being woken without doing anything: a busy wait.  Real time passes
            // meanwhile, so the environment moves on.
            w.stale_waits = 0;
            w.busy_waits++;
            if (w.env && w.env()) {
                w.progress();
                continue;
            }
            w.idle_waits++;
            if (w.quiescent) w.quiescent();
            w.advance_ms(timeout < 0 ? 25 : timeout);
        }
        if (n) {
            for (int fd : reported) {  // level triggered: to the end of the ready list
                auto& o = e->order;
                o.erase(std::remove(o.begin(), o.end(), fd), o.end());
                o.push_back(fd);
            }
            for (int i = 0; i < n; ++i) w.trace = mc::mix(w.trace, (evs[i].events * 65536ULL) ^ evs[i].data.u64);
            return n;
        }
        if (timeout == 0 || w.now_ns >= deadline) return 0;
        if (w.env && w.env()) {
            w.progress();
            continue;
        }
        break;
    }
    // nothing will ever happen again by itself
    w.idle_waits++;
    if (w.quiescent) w.quiescent();
    if (timeout < 0) {
        w.waited_forever = true;
        return -EINTR;
    }
    if (w.now_ns < deadline) w.now_ns = deadline;
    w.progress();
    return 0;
}
int do_poll(pollfd* fds, nfds_t n, int timeout) {
    World& w = *world;
    w.waits++;
    const long inj = enter(Sys::Poll, -1, 0, timeout);
    if (inj != DEFAULT && inj < 0) return static_cast<int>(inj);
    if (timeout > w.max_wait_ms) w.max_wait_ms = timeout;
    w.watched.clear();
    for (nfds_t i = 0; i < n; ++i) w.watched.insert(fds[i].fd);
    if (w.before_wait) w.before_wait();
    const int64_t deadline = timeout < 0 ? INT64_MAX : w.now_ns + timeout * 1000000LL;
    for (;;) {
        int k = 0;
        for (nfds_t i = 0; i < n; ++i) {
            fds[i].revents = 0;
            if (fds[i].fd < 0) continue;
            if (!file(fds[i].fd)) {
                fds[i].revents = POLLNVAL;
                ++k;
                continue;
            }
            const uint32_t r = ready(fds[i].fd);
            short s = 0;
            if (r & EPOLLIN) s |= POLLIN;
            if (r & EPOLLOUT) s |= POLLOUT;
            if (r & EPOLLERR) s |= POLLERR;
            if (r & EPOLLHUP) s |= POLLHUP;
            s &= fds[i].events | POLLERR | POLLHUP;
            fds[i].revents = s;
            k += s != 0;
        }
        if (k || timeout == 0 || w.now_ns >= deadline) return k;
        if (w.env && w.env()) {
            w.progress();
            continue;
        }
        break;
    }
    w.idle_waits++;
    if (w.quiescent) w.quiescent();
    if (timeout < 0) {
        w.waited_forever = true;
        return -EINTR;
    }
    if (w.now_ns < deadline) w.now_ns = deadline;
    w.progress();
    return 0;
}
}  // namespace
}  // namespace sim

using namespace sim;

extern "C" {
int socket(int domain, int type, int proto) {
    mem::Pause quiet;
    if (!world || (domain != AF_INET && domain != AF_INET6)) return syscall(SYS_socket, domain, type, proto);
    const long inj = enter(Sys::Socket, -1);
    if (inj != DEFAULT && inj < 0) return done(Sys::Socket, -1, inj);
    const int fd = world->alloc_fd();
    auto f = std::make_shared<File>();
    f->kind = File::Listener;
    f->nonblock = type & SOCK_NONBLOCK;
    world->files[fd] = f;
    world->listener_opened++;
    return done(Sys::Socket, fd, fd);
}
int bind(int fd, const sockaddr* a, socklen_t l) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_bind, fd, a, l);
    const long inj = enter(Sys::Bind, fd);
    if (inj != DEFAULT && inj < 0) return done(Sys::Bind, fd, inj);
    auto f = file(fd);
    if (!f) return done(Sys::Bind, fd, -EBADF);
    f->bound = true;
    if (a && a->sa_family == AF_INET) world->bound_port = ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
    else if (a && a->sa_family == AF_INET6) world->bound_port = ntohs(reinterpret_cast<const sockaddr_in6*>(a)->sin6_port);
    return done(Sys::Bind, fd, 0);
}
int listen(int fd, int n) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_listen, fd, n);
    const long inj = enter(Sys::Listen, fd);
    if (inj != DEFAULT && inj < 0) return done(Sys::Listen, fd, inj);
    auto f = file(fd);
    if (!f) return done(Sys::Listen, fd, -EBADF);
    f->listening = true;
    world->listening = true;
    return done(Sys::Listen, fd, 0);
}
int accept(int fd, sockaddr* a, socklen_t* l) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_accept, fd, a, l);
    return done(Sys::Accept, fd, do_accept(fd, a, l, 0));
}
int accept4(int fd, sockaddr* a, socklen_t* l, int flags) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_accept4, fd, a, l, flags);
    return done(Sys::Accept, fd, do_accept(fd, a, l, flags));
}
ssize_t read(int fd, void* b, size_t n) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_read, fd, b, n);
    return done(Sys::Read, fd, do_read(fd, b, n));
}
ssize_t recv(int fd, void* b, size_t n, int flags) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_recvfrom, fd, b, n, flags, nullptr, nullptr);
    return done(Sys::Read, fd, do_read(fd, b, n));
}
ssize_t readv(int fd, const iovec* v, int n) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_readv, fd, v, n);
    return done(Sys::Read, fd, n > 0 ? do_read(fd, v[0].iov_base, v[0].iov_len) : 0);
}
ssize_t write(int fd, const void* b, size_t n) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_write, fd, b, n);
    return done(Sys::Write, fd, do_write(fd, b, n, false));
}
ssize_t send(int fd, const void* b, size_t n, int flags) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_sendto, fd, b, n, flags, nullptr, 0);
    return done(Sys::Write, fd, do_write(fd, b, n, flags & MSG_NOSIGNAL));
}
ssize_t writev(int fd, const iovec* v, int n) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_writev, fd, v, n);
    Bytes all;
    for (int i = 0; i < n; ++i) all.insert(all.end(), static_cast<uint8_t*>(v[i].iov_base), static_cast<uint8_t*>(v[i].iov_base) + v[i].iov_len);
    return done(Sys::Write, fd, do_write(fd, all.data(), all.size(), false));
}
ssize_t sendmsg(int fd, const msghdr* m, int flags) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_sendmsg, fd, m, flags);
    Bytes all;
    for (size_t i = 0; i < m->msg_iovlen; ++i)
        all.insert(all.end(), static_cast<uint8_t*>(m->msg_iov[i].iov_base), static_cast<uint8_t*>(m->msg_iov[i].iov_base) + m->msg_iov[i].iov_len);
    return done(Sys::Write, fd, do_write(fd, all.data(), all.size(), flags & MSG_NOSIGNAL));
}
int close(int fd) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_close, fd);
    return done(Sys::Close, fd, do_close(fd));
}
int shutdown(int fd, int how) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_shutdown, fd, how);
    const long inj = enter(Sys::Shutdown, fd, 0, how);
    auto f = file(fd);
    if (!f) {
        world->misuse("shutdown of a descriptor that is not open");
        return done(Sys::Shutdown, fd, -EBADF);
    }
    if (inj != DEFAULT && inj < 0) return done(Sys::Shutdown, fd, inj);
    if (f->kind != File::Connection) return done(Sys::Shutdown, fd, -ENOTCONN);
    if (f->conn->reset || (f->conn->rx_fin && f->conn->shut_wr)) return done(Sys::Shutdown, fd, -ENOTCONN);
    if (how == SHUT_WR || how == SHUT_RDWR) {
        f->conn->shut_wr = true;
        f->conn->graceful = true;
    }
    if (how == SHUT_RD || how == SHUT_RDWR) f->conn->rx_fin = true;
    world->notify(f->conn.get());
    return done(Sys::Shutdown, fd, 0);
}
static int fcntl_impl(int fd, int cmd, long arg) {
    if (!is_sim(fd)) return syscall(SYS_fcntl, fd, cmd, arg);
    const long inj = enter(Sys::Fcntl, fd, 0, cmd);
    auto f = file(fd);
    if (!f) return done(Sys::Fcntl, fd, -EBADF);
    if (inj != DEFAULT && inj < 0) return done(Sys::Fcntl, fd, inj);
    if (cmd == F_GETFL) return done(Sys::Fcntl, fd, O_RDWR | (f->nonblock ? O_NONBLOCK : 0));
    if (cmd == F_SETFL) f->nonblock = arg & O_NONBLOCK;
    return done(Sys::Fcntl, fd, 0);
}
int fcntl(int fd, int cmd, ...) {
    mem::Pause quiet;
    va_list ap;
    va_start(ap, cmd);
    const long a = va_arg(ap, long);
    va_end(ap);
    return fcntl_impl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
    mem::Pause quiet;
    va_list ap;
    va_start(ap, cmd);
    const long a = va_arg(ap, long);
    va_end(ap);
    return fcntl_impl(fd, cmd, a);
}
int ioctl(int fd, unsigned long req, ...) {
    mem::Pause quiet;
    va_list ap;
    va_start(ap, req);
    void* a = va_arg(ap, void*);
    va_end(ap);
    if (!is_sim(fd)) return syscall(SYS_ioctl, fd, req, a);
    auto f = file(fd);
    if (!f) return done(Sys::Fcntl, fd, -EBADF);
    if (req == FIONBIO) f->nonblock = *static_cast<int*>(a) != 0;
    if (req == FIONREAD) {
        int n = 0;
        if (f->conn)
            for (auto& s : f->conn->rx) n += s.size();
        *static_cast<int*>(a) = n;
    }
    return 0;
}
int setsockopt(int fd, int level, int opt, const void* v, socklen_t l) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_setsockopt, fd, level, opt, v, l);
    const long inj = enter(Sys::Setsockopt, fd, 0, opt);
    if (!file(fd)) return done(Sys::Setsockopt, fd, -EBADF);
    if (inj != DEFAULT && inj < 0) return done(Sys::Setsockopt, fd, inj);
    return done(Sys::Setsockopt, fd, 0);
}
int getsockopt(int fd, int level, int opt, void* v, socklen_t* l) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_getsockopt, fd, level, opt, v, l);
    const long inj = enter(Sys::Getsockopt, fd, 0, opt);
    auto f = file(fd);
    if (!f) return done(Sys::Getsockopt, fd, -EBADF);
    if (inj != DEFAULT && inj < 0) return done(Sys::Getsockopt, fd, inj);
    int r = 0;
    if (level == SOL_SOCKET && opt == SO_ERROR && f->conn) {
        r = f->conn->so_error;
        f->conn->so_error = 0;
    }
    if (level == SOL_SOCKET && opt == SO_TYPE) r = SOCK_STREAM;
    if (l && *l >= sizeof r) {
        memcpy(v, &r, sizeof r);
        *l = sizeof r;
    }
    return done(Sys::Getsockopt, fd, 0);
}
int getpeername(int fd, sockaddr* addr, socklen_t* len) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_getpeername, fd, addr, len);
    const long inj = enter(Sys::Getpeername, fd);
    auto f = file(fd);
    if (!f) return done(Sys::Getpeername, fd, -EBADF);
    if (inj != DEFAULT && inj < 0) return done(Sys::Getpeername, fd, inj);
    if (f->kind != File::Connection || f->conn->reset) return done(Sys::Getpeername, fd, -ENOTCONN);
    if (f->conn->peer.find(':') != std::string::npos) {
        sockaddr_in6 a{};
        a.sin6_family = AF_INET6;
        inet_pton(AF_INET6, f->conn->peer.c_str(), &a.sin6_addr);
        memcpy(addr, &a, std::min<size_t>(*len, sizeof a));
        *len = sizeof a;
    } else {
        sockaddr_in a{};
        a.sin_family = AF_INET;
        inet_pton(AF_INET, f->conn->peer.c_str(), &a.sin_addr);
        a.sin_port = htons(40000);
        memcpy(addr, &a, std::min<size_t>(*len, sizeof a));
        *len = sizeof a;
    }
    return done(Sys::Getpeername, fd, 0);
}
int getsockname(int fd, sockaddr* addr, socklen_t* len) {
    mem::Pause quiet;
    if (!is_sim(fd)) return syscall(SYS_getsockname, fd, addr, len);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    memcpy(addr, &a, std::min<size_t>(*len, sizeof a));
    *len = sizeof a;
    return 0;
}
int epoll_create1(int flags) {
    mem::Pause quiet;
    if (!world) return syscall(SYS_epoll_create1, flags);
    const long inj = enter(Sys::EpollCreate, -1);
    if (inj != DEFAULT && inj < 0) return done(Sys::EpollCreate, -1, inj);
    const int fd = world->alloc_fd();
    auto f = std::make_shared<File>();
    f->kind = File::Epoll;
    world->files[fd] = f;
    return done(Sys::EpollCreate, fd, fd);
}
int epoll_create(int) { return epoll_create1(0); }
int epoll_ctl(int epfd, int op, int fd, epoll_event* ev) {
    mem::Pause quiet;
    if (!is_sim(epfd)) return syscall(SYS_epoll_ctl, epfd, op, fd, ev);
    const long inj = enter(Sys::EpollCtl, fd, 0, op);
    auto e = file(epfd);
    if (!e || e->kind != File::Epoll || !file(fd)) return done(Sys::EpollCtl, fd, -EBADF);
    if (inj != DEFAULT && inj < 0) return done(Sys::EpollCtl, fd, inj);
    const bool has = e->interest.count(fd);
    if (op == EPOLL_CTL_ADD) {
        if (has) return done(Sys::EpollCtl, fd, -EEXIST);
        e->interest[fd] = Ep{ev->events, ev->data.u64, true, false};
        e->order.push_back(fd);
    } else if (op == EPOLL_CTL_MOD) {
        if (!has) return done(Sys::EpollCtl, fd, -ENOENT);
        e->interest[fd] = Ep{ev->events, ev->data.u64, true, false};
    } else if (op == EPOLL_CTL_DEL) {
        if (!has) return done(Sys::EpollCtl, fd, -ENOENT);
        e->interest.erase(fd);
        auto& o = e->order;
        o.erase(std::remove(o.begin(), o.end(), fd), o.end());
    }
    return done(Sys::EpollCtl, fd, 0);
}
int epoll_wait(int epfd, epoll_event* evs, int max, int timeout) {
    mem::Pause quiet;
    if (!is_sim(epfd)) return syscall(SYS_epoll_wait, epfd, evs, max, timeout);
    return done(Sys::EpollWait, epfd, do_epoll_wait(epfd, evs, max, timeout));
}
int epoll_pwait(int epfd, epoll_event* evs, int max, int timeout, const sigset_t* s) {
    mem::Pause quiet;
    if (!is_sim(epfd)) return syscall(SYS_epoll_pwait, epfd, evs, max, timeout, s, 8);
    return done(Sys::EpollWait, epfd, do_epoll_wait(epfd, evs, max, timeout));
}
int poll(pollfd* f, nfds_t n, int timeout) {
    mem::Pause quiet;
    bool any = false;
    for (nfds_t i = 0; i < n; ++i) any |= is_sim(f[i].fd);
    if (!any) return syscall(SYS_poll, f, n, timeout);
    return done(Sys::Poll, -1, do_poll(f, n, timeout));
}
int ppoll(pollfd* f, nfds_t n, const timespec* ts, const sigset_t* s) {
    mem::Pause quiet;
    bool any = false;
    for (nfds_t i = 0; i < n; ++i) any |= is_sim(f[i].fd);
    if (!any) {
        timespec t2;
        if (ts) t2 = *ts;
        return syscall(SYS_ppoll, f, n, ts ? &t2 : nullptr, s, 8);
    }
    return done(Sys::Poll, -1, do_poll(f, n, ts ? static_cast<int>(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1));
}
int clock_gettime(clockid_t id, timespec* ts) {
    if (!world) return syscall(SYS_clock_gettime, id, ts);
    const int64_t t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? EPOCH_NS + world->wall_ns + world->now_ns : world->boot_ns + world->now_ns;
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}
time_t time(time_t* p) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(timeval* tv, void*) noexcept {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
}

namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(ts.tv_sec * 1000000000LL + ts.tv_nsec));
}
system_clock::time_point system_clock::now() noexcept {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return time_point(duration_cast<duration>(nanoseconds(ts.tv_sec * 1000000000LL + ts.tv_nsec)));
}
}  // namespace _V2
}  // namespace std::chrono
