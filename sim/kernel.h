// Simulated kernel: cooperative scheduler for the real threads of the program
// under test, simulated clock, sockets, epoll, timers and name service. The
// program's libc calls land in interpose.cpp, which calls into this.
#pragma once
#include "rng.h"
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/epoll.h>

namespace sim {

using Time = int64_t;  // nanoseconds of simulated time
constexpr Time US = 1000, MS = 1000000, SEC = 1000000000LL;

// ---------------------------------------------------------------- world
struct Event {
    Time                  t;
    uint64_t              seq;
    std::function<void()> fn;
};

struct Addr {
    int         family = 0;  // AF_INET, AF_INET6, AF_UNIX
    std::string ip;          // text (or path for AF_UNIX)
    int         port = 0;
    bool        operator<(const Addr &o) const
    {
        if (family != o.family) return family < o.family;
        if (ip != o.ip) return ip < o.ip;
        return port < o.port;
    }
    bool        operator==(const Addr &o) const { return family == o.family && ip == o.ip && port == o.port; }
    std::string str() const;
};
Addr inet(const std::string &ip, int port);

struct TcpSock;

// One direction of a stream connection.
struct Pipe {
    std::deque<uint8_t> arrived;           // readable at the receiver
    size_t              inflight = 0;      // sent, not yet arrived
    size_t              cap      = 65536;  // send + receive window
    Time                lastArrive = 0;
    bool                finSent    = false;
    bool                finArrived = false;
    uint64_t            total      = 0;    // bytes accepted from the sender
    size_t used() const { return inflight + arrived.size(); }
    size_t space() const { return used() >= cap ? 0 : cap - used(); }
};

struct NetParams {
    Time     latMin = 20 * US, latMax = 300 * US;
    Time     rdnsMin = MS, rdnsMax = MS;      // time of reverse lookups
    std::map<std::string, Time> rdnsDelay;    // ... of particular addresses
    unsigned segPct  = 30;    // chance that a write is cut into several segments
    int      recPct  = 0;     // chance that a TLS peer cuts a record short
    unsigned shortWritePct = 5;   // chance that a send accepts only part
    unsigned shortReadPct  = 5;   // chance that a recv returns only part
    size_t   cap     = 65536;
};

struct ConnHandler;
// A simulated stream connection; side P belongs to the program under test,
// side A to an actor of the world.
struct Conn : std::enable_shared_from_this<Conn> {
    uint64_t    id = 0;
    Addr        pAddr, aAddr;   // address of each side
    bool        fromActor = false;
    NetParams   np;
    Rng         rng;
    Pipe        toP, toA;
    TcpSock    *psock = nullptr;  // the program's socket, while open
    ConnHandler *handler = nullptr;  // actor's handler, while attached
    // actor side
    std::deque<uint8_t> aOut;      // app data waiting for window
    bool aWantFin = false;
    bool aClosed = false;          // actor did full close
    bool aPaused = false;          // actor is not reading
    bool established = false;
    bool pReset = false;           // P's side has been reset (RST reached P)
    bool aReset = false;           // RST reached A
    bool pClosed = false;          // program closed its descriptor
    bool pAccepted = false;        // handed to the program by accept()
    bool acceptAborted = false;    // dropped from the accept queue by an injected error
    bool pClosedWithUnread = false;
    bool rstBySim = false;         // an injected fault reset this connection
    bool aGotEof = false;
    Time pClosedAt = 0, tEst = 0;
    std::string tag;
    std::vector<std::pair<uint64_t, uint32_t>> pIn, pOut;  // what the program took in and gave out, if recorded
    std::string pTail;             // the last bytes the program wrote
    // actor API
    void send(const void *p, size_t n);
    void send(const std::string &s) { send(s.data(), s.size()); }
    void closeWrite();       // FIN after pending data
    void close();            // full close (no more reading)
    void rst();              // abortive
    void pauseRead(bool p);
    size_t unsent() const { return aOut.size(); }
    // internals
    void pumpA();
    void deliverToA();
    void transmit(bool toPside, std::string data, bool fin);
    void resetP(int err);
    void resetA();
};
using ConnPtr = std::shared_ptr<Conn>;

struct ConnHandler {
    virtual ~ConnHandler() {}
    virtual void onConnected(Conn &) {}
    virtual void onRefused(Conn &) {}
    virtual void onData(Conn &, const std::string &) {}
    virtual void onEof(Conn &) {}
    virtual void onReset(Conn &) {}
    virtual void onSent(Conn &) {}   // all app data has entered the window
};

struct Acceptor {
    enum Mode { ACCEPT, REFUSE, BLACKHOLE, UNREACH, ACCEPT_RST };
    Mode mode = ACCEPT;
    Time delay = 0;           // extra connect delay
    // returns handler for the new connection
    std::function<ConnHandler *(Conn &)> onAccept;
    std::function<void(const Addr &, Mode)> onAttempt;
    std::function<Mode()> modeFn;
};

struct DnsResult {
    int                      err = 0;  // EAI_*
    Time                     delay = 1 * MS;
    std::vector<std::string> ips;
};

struct Thread {
    int         id;
    pthread_t   real{};
    int         turn = 0;  // futex word
    enum St { RUNNABLE, BLOCKED, FINISHED } st = RUNNABLE;
    const void *waitAddr = nullptr;
    bool        hasTimeout = false;
    Time        wakeAt     = 0;
    bool        timedOut   = false;
    bool        woken      = false;
    Time        stalledUntil = 0;
    int64_t     countdown  = 0;
    void *(*fn)(void *)    = nullptr;
    void       *arg        = nullptr;
    void       *ret        = nullptr;
    bool        joined     = false;
    int         tid        = 0;
    uint64_t    stamp      = 0;   // FIFO order
};

struct Stats {
    uint64_t switches = 0, preempts = 0, syscalls = 0, midStalls = 0, events = 0, blocks = 0;
    std::map<std::string, uint64_t> faults;
};

struct SchedParams {
    unsigned preemptMean = 0;   // mean basic blocks between preemptions, 0 = off
    unsigned unlockPct = 0;  // of the unlocks at favoured places, followed by a preemption
    unsigned stallPct    = 25;  // preemptions that also stall the thread
    bool     shortStalls = false;  // only briefly: the faults have stopped
    unsigned yieldPct    = 10;  // chance of yielding at a syscall
    bool     randomPick  = true;
    bool     randomReady = true;  // shuffle epoll ready order
    uint64_t blockBudget = 400000000ULL;
    std::vector<std::pair<uint64_t, Time>> preemptAt;  // explicit preemption trace (block counts)
    bool     explicitPreempts = false;
};

struct File;

struct Kernel {
    // configuration
    uint64_t    seed = 1;
    SchedParams sp;
    NetParams   net;
    Rng         schedRng, preemptRng, netRng, cryptoRng, faultRng;
    int         fdLimit = 100000;
    // state
    Time     now      = 0;
    Time     realBase = 1900000000LL * SEC;  // wall clock at now == 0
    Time     realSkew = 0;                   // injected clock jumps
    uint64_t seq      = 0;
    bool     recordIo = false;               // keep Conn::pIn and pOut
    uint64_t ioSeq    = 0;
    std::vector<Event>                   heap;
    std::vector<std::unique_ptr<Thread>> threads;
    std::map<int, std::shared_ptr<File>> fds;
    std::map<Addr, TcpSock *>            pListeners;  // program's listeners
    std::map<Addr, Acceptor>             acceptors;   // world's listeners
    std::set<Addr>                       busyPorts;   // bind fails with EADDRINUSE
    std::function<void(const Addr &from, const Addr &to, const std::string &)> onUdp;
    std::function<DnsResult(const std::string &host, const std::string &service)> dns;
    std::function<std::string(const std::string &ip)> reverseDns;
    std::vector<ConnPtr> conns;
    uint64_t nextConn = 1;
    int      nextEphemeral = 40000;
    std::deque<std::pair<int, int>> acceptErrQ;
    std::deque<std::pair<std::string, int>> sysErrQ;   // system calls that shall fail once
    int takeSysErr(const char *op)
    {
        for (auto it = sysErrQ.begin(); it != sysErrQ.end(); ++it)
            if (it->first == op) {
                int e = it->second;
                sysErrQ.erase(it);
                fault((std::string("syscall_") + op).c_str());
                return e;
            }
        return 0;
    }
    Stats    stats;
    uint64_t traceHash = 1469598103934665603ULL;
    bool     verbose = false;
    std::vector<std::string> *log = nullptr;
    bool     stopRequested = false;
    bool     hang = false;
    std::vector<std::pair<uint64_t, Time>> preemptLog;  // block counts at which we preempted
    bool     preemptForced = false;
    size_t   preemptIdx = 0;
    uint64_t nextPreempt = 0;
    int      worldTurn = 0;
    std::string hostname = "simhost";
    size_t   maxFds = 0;

    void at(Time t, std::function<void()> fn);
    void after(Time d, std::function<void()> fn) { at(now + d, std::move(fn)); }
    // world loop: run until cond() or simulated time limit, or deadlock.
    // Returns false if nothing can happen any more.
    void run(Time until, const std::function<bool()> &done);
    bool dueEvent() const { return !heap.empty() && heap.front().t <= now; }
    void runDueEvents();
    Thread *pickThread();
    void    giveBaton(Thread *t);
    void    trace(const char *what, uint64_t a, uint64_t b = 0);
    void    fault(const char *kind) { stats.faults[kind]++; }
    // actor connect to the program
    ConnPtr actorConnect(const Addr &from, const Addr &to, ConnHandler *h);
    Thread *spawn(void *(*fn)(void *), void *arg);
    bool    isListening(const Addr &a);
    size_t  openSimFds() const { return fds.size(); }
};
extern Kernel *K;

// -- called on program threads --
extern thread_local Thread *self;
extern thread_local int     inKernel;
struct KernelScope {
    KernelScope() { ++inKernel; }
    ~KernelScope() { --inKernel; }
};
void syscallPoint(const char *name, uint64_t a = 0);  // tick + maybe yield
void yieldNow();
void unlockPoint(const void *site);
bool blockOn(const void *addr, bool hasTimeout = false, Time wakeAt = 0);  // false on timeout
void wakeAll(const void *addr);
void wakeOne(const void *addr);

// ---------------------------------------------------------------- files
struct Epoll;
struct EpItem {
    Epoll   *ep;
    File    *file;
    int      fd;
    uint32_t events;
    uint64_t data;
    bool     queued = false;
};
struct File : std::enable_shared_from_this<File> {
    int                   fd       = -1;
    bool                  nonblock = false;
    std::vector<EpItem *> watchers;
    char                  waitTag = 0;  // address used for poll() style waits
    virtual ~File();
    virtual uint32_t pollMask() { return 0; }
    virtual void     onClose() {}
    void             notify();  // something may have become ready
    virtual const char *kind() { return "file"; }
};
struct EventFd : File {
    uint64_t count = 0;
    uint32_t pollMask() override { return (count ? EPOLLIN : 0) | EPOLLOUT; }
    const char *kind() override { return "eventfd"; }
};
struct TimerFd : File {
    int      clock = 0;
    Time     expiry = 0, interval = 0;
    uint64_t gen = 0, fired = 0;
    uint32_t pollMask() override { return fired ? EPOLLIN : 0; }
    void     arm();
    const char *kind() override { return "timerfd"; }
};
struct Epoll : File {
    std::map<int, std::unique_ptr<EpItem>> items;
    std::deque<EpItem *>                   ready;
    ~Epoll() override;
    const char *kind() override { return "epoll"; }
};
struct TcpSock : File {
    enum St { FRESH, LISTEN, CONNECTING, EST, DEAD } st = FRESH;
    int     family = AF_INET;
    int     soError = 0;
    bool    rdShut = false, wrShut = false;
    bool    bound = false;
    bool    linger0 = false;
    Addr    boundAddr;
    ConnPtr conn;
    std::deque<ConnPtr> backlog;   // LISTEN
    uint32_t pollMask() override;
    void     onClose() override;
    const char *kind() override { return "tcp"; }
};
struct UdpSock : File {
    int  family = AF_INET;
    Addr peer, local;
    bool full = false;   // injected: no room for a datagram at the moment
    uint32_t pollMask() override { return full ? 0 : EPOLLOUT; }
    const char *kind() override { return "udp"; }
};
int  allocFd(std::shared_ptr<File> f);
std::shared_ptr<File> getFile(int fd);
constexpr int FD_BASE = 1000;

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

}  // namespace sim
