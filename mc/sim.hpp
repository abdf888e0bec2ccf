// A simulated kernel for the server under test: sockets, epoll, poll and clocks.  The libc entry
// points are defined in the executable (sim.cpp), so the library, libstdc++ and OpenSSL all call
// them; descriptors below SIM_BASE go to the real kernel.
#pragma once
#include <sys/types.h>

#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "core.hpp"

namespace sim {

using mc::Bytes;
constexpr int SIM_BASE = 1000;

enum class Sys {
    Socket, Bind, Listen, Accept, Read, Write, Close, Shutdown, Fcntl, Setsockopt, Getsockopt,
    Getpeername, EpollCreate, EpollCtl, EpollWait, Poll, Count
};
const char* sys_name(Sys s);

// One TCP connection as the kernel sees it.
struct Conn {
    int client = -1;       // scenario's client index
    int fd = -1;           // server side descriptor while open
    bool accepted = false;
    int closes = 0;        // times the server closed it
    std::deque<Bytes> rx;  // segments not yet read by the server
    bool coalesce = true;  // read() may return octets of several segments
    bool rx_fin = false;   // client closed its sending side
    bool reset = false;    // connection is dead
    int so_error = 0;
    bool client_gone = false;  // client closed completely: anything the server sends provokes a reset
    bool shut_wr = false;      // server did shutdown(SHUT_WR) or close
    bool graceful = false;     // ...with no unread data, i.e. the client sees FIN and not RST
    Bytes tx;                  // everything the kernel accepted from the server
    size_t room = ~size_t(0);  // octets the send buffer still takes
    bool eof_read = false;     // server has seen end of stream
    int64_t closed_at = -1;    // virtual time of close, ns
    int64_t accepted_at = -1;
    uint64_t reads = 0, writes = 0;
    std::string peer = "10.0.0.1";
    bool nonblock = false;
};
using ConnPtr = std::shared_ptr<Conn>;

struct Call {
    Sys sys;
    int fd;
    Conn* conn;   // if fd is a connection
    size_t len;   // read/write length
    int op;       // epoll_ctl op, fcntl cmd, ...
    uint64_t serial;
};
constexpr long DEFAULT = INT64_MIN;

struct File;
struct World {
    mc::Chooser* ch = nullptr;
    // Environment: called when the server waits and nothing is ready; performs the next action of the
    // scenario and returns true, or returns false when the scenario is over.
    std::function<bool()> env;
    // Called at the start of every wait, before readiness is computed (asynchronous actions).
    std::function<void()> before_wait;
    // Called when the scenario is over and nothing is ready (normally requests stop).
    std::function<void()> quiescent;
    // Fault injection: DEFAULT, or -errno, or for read/write the number of octets to transfer.
    std::function<long(const Call&)> fault;
    // Called before every call of the server into the kernel.
    std::function<void(const Call&)> on_call;
    // Order in which ready descriptors are reported (in place); default: kernel FIFO.
    std::function<void(std::vector<int>&)> order;

    int64_t now_ns = 0;
    int64_t boot_ns = 1'000'000'000'000LL;  // monotonic clock when the world begins
    int64_t wall_ns = 0;                    // steps of the wall clock
    uint64_t calls = 0, waits = 0, idle_waits = 0;
    uint64_t calls_since_progress = 0;
    int stale_waits = 0, busy_waits = 0;
    int patience = 32;  // waits that change nothing before real time passes
    int max_wait_ms = 0;
    std::set<int> watched;  // descriptors the current wait covers
    bool waited_forever = false;
    bool killed_by_sigpipe = false;
    int sigpipes = 0;
    std::vector<std::string> errors;  // kernel-level misuse (double close, blocking call, ...)
    uint64_t trace = 1469598103934665603ULL;  // hash of all calls and results

    // listening side
    std::deque<ConnPtr> backlog;
    std::vector<ConnPtr> conns;  // all, in connect order
    bool listening = false;
    bool listener_closed = false;
    int listener_opened = 0;
    int bound_port = -1;

    // client actions
    ConnPtr connect(int client, const std::string& ip = "10.0.0.1");
    void send(const ConnPtr& c, Bytes data);
    void fin(const ConnPtr& c);         // half close
    void close_client(const ConnPtr& c);  // full close: FIN now, RST on later server data
    void rst(const ConnPtr& c);
    void set_room(const ConnPtr& c, size_t room);
    void advance_ms(int64_t ms) { now_ns += ms * 1000000; progress(); }
    void progress() { calls_since_progress = 0, stale_waits = 0; }

    // internal
    std::map<int, std::shared_ptr<File>> files;
    int alloc_fd();
    void notify(Conn* c);
    void misuse(const std::string& m);
    World();
    ~World();
    World(const World&) = delete;
};
extern World* world;  // the active one, or null

struct Ep {
    uint32_t events = 0;
    uint64_t data = 0;
    bool edge = true;  // something happened since the last report (edge triggered interests)
    bool off = false;  // one-shot fired
};
struct File {
    enum Kind { Listener, Connection, Epoll, Plain } kind = Plain;
    ConnPtr conn;
    bool nonblock = false;
    bool bound = false, listening = false;
    std::map<int, Ep> interest;  // epoll
    std::deque<int> order;       // report order
};
std::vector<int> open_sim_fds();

}  // namespace sim
