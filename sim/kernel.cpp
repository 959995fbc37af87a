#include <sched.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "kernel.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <dlfcn.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" void simPcBase();
namespace sim {

Kernel             *K = nullptr;
thread_local Thread *self     = nullptr;
thread_local int     inKernel = 0;

std::string fmt(const char *f, ...)
{
    char    buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

// raw system call, so that our own interposed syscall() is not involved
static long rawsys(long n, long a, long b, long c, long d = 0, long e = 0, long f = 0)
{
    long          r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8")   = e;
    register long r9 __asm__("r9")   = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void waitTurn(int *w)
{
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) rawsys(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void signalTurn(int *w)
{
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    rawsys(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1);
}

std::string Addr::str() const
{
    if (family == AF_UNIX) return "unix:" + ip;
    if (family == AF_INET6) return "[" + ip + "]:" + std::to_string(port);
    return ip + ":" + std::to_string(port);
}
Addr inet(const std::string &ip, int port)
{
    Addr a;
    a.family = ip.find(':') != std::string::npos ? AF_INET6 : AF_INET;
    a.ip     = ip;
    a.port   = port;
    return a;
}

// ------------------------------------------------------------- scheduler
static bool evLater(const Event &a, const Event &b) { return a.t != b.t ? a.t > b.t : a.seq > b.seq; }

void Kernel::at(Time t, std::function<void()> fn)
{
    heap.push_back(Event{t < now ? now : t, seq++, std::move(fn)});
    std::push_heap(heap.begin(), heap.end(), evLater);
}

void Kernel::trace(const char *what, uint64_t a, uint64_t b)
{
    uint64_t v[3] = {a, b, (uint64_t)now};
    traceHash     = fnv(what, strlen(what), traceHash);
    traceHash     = fnv(v, sizeof v, traceHash);
    if (verbose) fprintf(stderr, "[%12.6f] T%d %s %llu %llu\n", now / 1e9, self ? self->id : -1, what, (unsigned long long)a, (unsigned long long)b);
}

void Kernel::runDueEvents()
{
    while (dueEvent()) {
        std::pop_heap(heap.begin(), heap.end(), evLater);
        Event e = std::move(heap.back());
        heap.pop_back();
        stats.events++;
        e.fn();
    }
}

Thread *Kernel::pickThread()
{
    Thread *c[64];
    int     n = 0;
    for (auto &t : threads)
        if (t->st == Thread::RUNNABLE && t->stalledUntil <= now && n < 64) c[n++] = t.get();
    if (!n) return nullptr;
    if (n == 1) return c[0];
    Thread *r = c[0];
    if (sp.randomPick)
        r = c[schedRng.below(n)];
    else
        for (int i = 1; i < n; ++i)
            if (c[i]->stamp < r->stamp) r = c[i];
    trace("pick", r->id, n);
    return r;
}

void Kernel::giveBaton(Thread *t)
{
    stats.switches++;
    signalTurn(&t->turn);
    waitTurn(&worldTurn);
    // wait until it is really gone, but leave the joining (after which its
    // identifier may be used again) to the program
    if (t->st == Thread::FINISHED)
        while (syscall(SYS_tgkill, getpid(), t->tid, 0) == 0) sched_yield();
}

void Kernel::run(Time until, const std::function<bool()> &done)
{
    while (!stopRequested && !hang && !done()) {
        runDueEvents();
        if (stopRequested || done()) return;
        Thread *t = pickThread();
        if (t) {
            if (now > until) return;
            giveBaton(t);
            continue;
        }
        if (heap.empty()) return;
        if (heap.front().t > until) {
            now = until;
            return;
        }
        if (heap.front().t > now) now = heap.front().t;
    }
}

static void toWorld()
{
    Thread *t = self;
    t->stamp  = ++K->seq;
    signalTurn(&K->worldTurn);
    waitTurn(&t->turn);
}

// A lock was given back: the window between two locked sections is where
// another thread's change is most often not expected.
// Each run favours a few of the places in the program that do so.
void unlockPoint(const void *site)
{
    if (!K->sp.unlockPct || K->sp.explicitPreempts || K->preemptForced) return;
    uint64_t s = (uint64_t)site - (uint64_t)&simPcBase;
    s          = (s ^ K->seed * 0x9E3779B97F4A7C15ULL) * 0xD6E8FEB86659FD93ULL;
    if ((s >> 40) % 16 && K->preemptRng.below(400)) return;
    if (!K->preemptRng.pct(K->sp.unlockPct)) return;
    K->preemptForced = true;
    K->nextPreempt   = 0;
}

static bool othersRunnable()
{
    for (auto &t : K->threads)
        if (t.get() != self && t->st == Thread::RUNNABLE && t->stalledUntil <= K->now) return true;
    return false;
}

void syscallPoint(const char *name, uint64_t a)
{
    if (!self) return;
    K->stats.syscalls++;
    K->now += 300 + K->schedRng.below(1400);
    K->trace(name, a);
    bool y = false;
    if (self->stalledUntil > K->now) y = true;
    else if (K->dueEvent()) y = K->schedRng.pct(60);
    if (!y && K->sp.yieldPct && othersRunnable()) y = K->schedRng.pct(K->sp.yieldPct);
    if (y) toWorld();
}

void yieldNow()
{
    if (self) toWorld();
}

bool blockOn(const void *addr, bool hasTimeout, Time wakeAt)
{
    Thread *t     = self;
    t->st         = Thread::BLOCKED;
    t->waitAddr   = addr;
    t->timedOut   = false;
    static uint64_t gen = 0;
    uint64_t        g   = ++gen;
    t->stamp            = g;
    if (hasTimeout) {
        uint64_t *live = &K->seq;
        (void)live;
        t->hasTimeout = true;
        t->wakeAt     = wakeAt;
        K->at(wakeAt, [t, addr, wakeAt] {
            if (t->st == Thread::BLOCKED && t->waitAddr == addr && t->hasTimeout && t->wakeAt == wakeAt) {
                t->st       = Thread::RUNNABLE;
                t->timedOut = true;
            }
        });
    }
    else
        t->hasTimeout = false;
    K->trace("block", t->id);
    toWorld();
    t->waitAddr   = nullptr;
    t->hasTimeout = false;
    return !t->timedOut;
}

void wakeAll(const void *addr)
{
    if (!K) return;
    for (auto &t : K->threads)
        if (t->st == Thread::BLOCKED && t->waitAddr == addr) t->st = Thread::RUNNABLE;
}
void wakeOne(const void *addr)
{
    if (!K) return;
    Thread *c[64];
    int     n = 0;
    for (auto &t : K->threads)
        if (t->st == Thread::BLOCKED && t->waitAddr == addr && n < 64) c[n++] = t.get();
    if (n) c[n > 1 ? K->schedRng.below(n) : 0]->st = Thread::RUNNABLE;
}

static void *trampoline(void *p)
{
    Thread *t = (Thread *)p;
    t->tid    = (int)syscall(SYS_gettid);
    waitTurn(&t->turn);
    self     = t;
    inKernel = 0;
    t->ret   = t->fn(t->arg);
    inKernel = 1;
    t->st    = Thread::FINISHED;
    wakeAll(t);
    K->trace("exit", t->id);
    self = nullptr;
    signalTurn(&K->worldTurn);
    return t->ret;
}

Thread *Kernel::spawn(void *(*fn)(void *), void *arg)
{
    auto    up = std::make_unique<Thread>();
    Thread *t  = up.get();
    t->id      = (int)threads.size();
    t->fn      = fn;
    t->arg     = arg;
    t->stamp   = ++seq;
    threads.push_back(std::move(up));
    static auto rc = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    int         e  = rc(&t->real, nullptr, trampoline, t);
    if (e) {
        fprintf(stderr, "sim: pthread_create failed %d\n", e);
        abort();
    }
    trace("spawn", t->id);
    return t;
}

// --------------------------------------------------------------- files
File::~File() {}
Epoll::~Epoll()
{
    for (auto &i : items) {
        auto &w = i.second->file->watchers;
        w.erase(std::remove(w.begin(), w.end(), i.second.get()), w.end());
    }
}
void File::notify()
{
    for (EpItem *w : watchers) {
        if (!w->queued && (pollMask() & (w->events | EPOLLERR | EPOLLHUP))) {
            w->queued = true;
            w->ep->ready.push_back(w);
            wakeAll(&w->ep->waitTag);
        }
    }
    wakeAll(&waitTag);
}
void TimerFd::arm()
{
    uint64_t g = ++gen;
    if (!expiry) return;
    std::weak_ptr<File> wp = weak_from_this();
    K->at(expiry, [wp, g] {
        auto p = std::static_pointer_cast<TimerFd>(wp.lock());
        if (!p || p->gen != g) return;
        p->fired++;
        p->expiry = p->interval ? p->expiry + p->interval : 0;
        p->notify();
        if (p->interval) p->arm();
    });
}
int allocFd(std::shared_ptr<File> f)
{
    int fd = FD_BASE;
    for (auto &p : K->fds) {
        if (p.first == fd)
            ++fd;
        else if (p.first > fd)
            break;
    }
    f->fd      = fd;
    K->fds[fd] = f;
    if (K->fds.size() > K->maxFds) K->maxFds = K->fds.size();
    return fd;
}
std::shared_ptr<File> getFile(int fd)
{
    auto it = K->fds.find(fd);
    return it == K->fds.end() ? nullptr : it->second;
}

uint32_t TcpSock::pollMask()
{
    switch (st) {
      case FRESH: return EPOLLOUT | EPOLLHUP;
      case LISTEN: return backlog.empty() ? 0 : EPOLLIN;
      case CONNECTING: return 0;
      case DEAD: return EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP | (soError ? EPOLLERR : 0);
      case EST: {
          uint32_t m   = 0;
          bool     eof = conn->toP.finArrived || rdShut;
          if (!conn->toP.arrived.empty() || eof) m |= EPOLLIN;
          if (eof) m |= EPOLLRDHUP;
          if (wrShut || conn->toA.space() > 0) m |= EPOLLOUT;
          if (eof && wrShut) m |= EPOLLHUP;
          if (soError) m |= EPOLLERR;
          return m;
      }
    }
    return 0;
}

void TcpSock::onClose()
{
    if (st == LISTEN) {
        K->pListeners.erase(boundAddr);
        for (auto &c : backlog) {
            ConnPtr cc = c;
            cc->pClosed = true;
            cc->psock   = nullptr;
            cc->pClosedAt = K->now;
            K->after(cc->np.latMin, [cc] { cc->resetA(); });
        }
        backlog.clear();
        return;
    }
    if (!conn) return;
    ConnPtr c  = conn;
    c->psock   = nullptr;
    c->pClosed = true;
    c->pClosedAt = K->now;
    K->trace("pclose", c->id);
    if (c->pReset || st == DEAD) return;
    if (st == CONNECTING) return;
    if (!c->toP.arrived.empty() || linger0) {
        c->pClosedWithUnread = !c->toP.arrived.empty();
        c->toA.finSent       = true;
        Time t               = std::max(c->toA.lastArrive, K->now) + c->np.latMin;
        K->at(t, [c] { c->resetA(); });
    }
    else if (!c->toA.finSent) {
        c->transmit(false, "", true);
    }
}

// ------------------------------------------------------------- network
void Conn::transmit(bool toPside, std::string data, bool fin)
{
    Pipe &p = toPside ? toP : toA;
    p.inflight += data.size();
    p.total += data.size();
    if (fin) p.finSent = true;
    std::vector<std::string> segs;
    size_t                   off = 0;
    while (off < data.size()) {
        size_t n = data.size() - off;
        if (segs.size() < 12 && n > 1 && rng.pct(np.segPct)) {
            size_t m = rng.pct(40) ? 1 + rng.below(std::min<size_t>(n, 16)) : 1 + rng.below(n);
            n        = std::min(n, m);
        }
        segs.push_back(data.substr(off, n));
        off += n;
    }
    if (fin && (segs.empty() || rng.pct(50))) segs.push_back("");
    for (size_t i = 0; i < segs.size(); ++i) {
        Time t       = K->now + np.latMin + (Time)rng.below(np.latMax - np.latMin + 1);
        t            = std::max(t, p.lastArrive + (rng.pct(50) ? 1 : (Time)rng.below(50 * US)));
        p.lastArrive = t;
        bool         last = fin && i + 1 == segs.size();
        ConnPtr      me   = shared_from_this();
        std::string  s    = segs[i];
        K->at(t, [me, toPside, s, last] {
            Pipe &p = toPside ? me->toP : me->toA;
            p.inflight -= s.size();
            if (toPside) {
                if (me->pReset) return;
                if (me->pClosed) {
                    // data for a closed socket: the kernel answers with RST
                    if (!s.empty() && !me->aReset && !me->aClosed) {
                        K->after(me->np.latMin, [me] { me->resetA(); });
                    }
                    return;
                }
                p.arrived.insert(p.arrived.end(), s.begin(), s.end());
                if (last) p.finArrived = true;
                K->trace("rxP", me->id, s.size());
                if (me->psock) me->psock->notify();
            }
            else {
                if (me->aReset) return;
                if (me->aClosed) {
                    if (!s.empty() && !me->pReset) {
                        ConnPtr m2 = me;
                        K->after(me->np.latMin, [m2] { m2->resetP(ECONNRESET); });
                    }
                    return;
                }
                p.arrived.insert(p.arrived.end(), s.begin(), s.end());
                if (last) p.finArrived = true;
                me->deliverToA();
            }
        });
    }
}
void Conn::deliverToA()
{
    if (aPaused || aReset || aClosed) return;
    if (!toA.arrived.empty()) {
        std::string s(toA.arrived.begin(), toA.arrived.end());
        bool        wasFull = toA.space() == 0;
        toA.arrived.clear();
        K->trace("rxA", id, s.size());
        if (psock && wasFull) psock->notify();
        else if (psock) psock->notify();
        if (handler) handler->onData(*this, s);
    }
    if (toA.finArrived && !aGotEof && !aPaused && !aClosed && !aReset && toA.arrived.empty()) {
        aGotEof = true;
        K->trace("eofA", id);
        if (handler) handler->onEof(*this);
    }
}
void Conn::pumpA()
{
    if (aReset || pReset) {
        aOut.clear();
        return;
    }
    size_t sp = toP.space();
    bool   had = !aOut.empty();
    if (sp && !aOut.empty()) {
        size_t      n = std::min(sp, aOut.size());
        std::string s(aOut.begin(), aOut.begin() + n);
        aOut.erase(aOut.begin(), aOut.begin() + n);
        bool fin = aWantFin && aOut.empty() && !toP.finSent;
        transmit(true, s, fin);
    }
    if (aOut.empty() && aWantFin && !toP.finSent) transmit(true, "", true);
    if (had && aOut.empty() && handler) handler->onSent(*this);
}
void Conn::send(const void *p, size_t n)
{
    if (aClosed || aReset || aWantFin) return;
    const uint8_t *c = (const uint8_t *)p;
    aOut.insert(aOut.end(), c, c + n);
    pumpA();
}
void Conn::closeWrite()
{
    if (aWantFin || aReset) return;
    aWantFin = true;
    pumpA();
}
void Conn::close()
{
    if (aClosed) return;
    if (!toA.arrived.empty()) {
        rst();
        return;
    }
    closeWrite();
    aClosed = true;
}
void Conn::rst()
{
    if (aClosed && aReset) return;
    aClosed = true;
    aReset  = true;
    aOut.clear();
    ConnPtr me = shared_from_this();
    K->at(std::max(toP.lastArrive, K->now + np.latMin) + 1, [me] { me->resetP(ECONNRESET); });
}
void Conn::pauseRead(bool p)
{
    aPaused = p;
    if (!p) deliverToA();
}
void Conn::resetP(int err)
{
    if (pReset) return;
    pReset = true;
    K->trace("rstP", id);
    if (psock) {
        psock->soError = toP.finArrived && toP.arrived.empty() ? EPIPE : err;
        psock->st      = TcpSock::DEAD;
        psock->notify();
    }
}
void Conn::resetA()
{
    if (aReset) return;
    aReset = true;
    aOut.clear();
    K->trace("rstA", id);
    // data which already arrived stays readable
    if (!toA.arrived.empty() && !aPaused && !aClosed) {
        std::string s(toA.arrived.begin(), toA.arrived.end());
        toA.arrived.clear();
        if (handler) handler->onData(*this, s);
    }
    if (handler && !aClosed) handler->onReset(*this);
}

bool Kernel::isListening(const Addr &a)
{
    if (pListeners.count(a)) return true;
    Addr any = a;
    any.ip   = a.family == AF_INET ? "0.0.0.0" : "::";
    return pListeners.count(any) > 0;
}

ConnPtr Kernel::actorConnect(const Addr &from, const Addr &to, ConnHandler *h)
{
    auto c       = std::make_shared<Conn>();
    c->id        = nextConn++;
    c->fromActor = true;
    c->aAddr     = from;
    c->pAddr     = to;
    c->np        = net;
    c->toP.cap = c->toA.cap = net.cap;
    c->rng.reseed(seed, 1000 + c->id);
    c->handler = h;
    conns.push_back(c);
    Time lat = net.latMin + (Time)netRng.below(net.latMax - net.latMin + 1);
    after(lat, [this, c, to] {
        TcpSock *l  = nullptr;
        auto     it = pListeners.find(to);
        if (it == pListeners.end()) {
            Addr any = to;
            any.ip   = to.family == AF_INET ? "0.0.0.0" : "::";
            it       = pListeners.find(any);
        }
        if (it != pListeners.end()) l = it->second;
        if (!l) {
            trace("refused", c->id);
            after(c->np.latMin, [c] {
                c->aReset = true;
                if (c->handler) c->handler->onRefused(*c);
            });
            return;
        }
        c->established = true;
        c->tEst = now;
        l->backlog.push_back(c);
        trace("syn", c->id);
        l->notify();
        after(c->np.latMin, [c] {
            if (c->aReset || c->aClosed) return;
            if (c->handler) c->handler->onConnected(*c);
            c->deliverToA();
        });
    });
    return c;
}

}  // namespace sim

// -------------------------------------------------- instrumentation callback
using namespace sim;
static uint8_t  covMap[1 << 16];
static uint64_t covCount;
extern "C" void simPcBase() {}
FILE *simPcLog;   // debugging aid: every instrumented block
extern "C" void __sanitizer_cov_trace_pc()
{
    if (!self || inKernel) return;
    uint64_t b = ++K->stats.blocks;
    uint64_t pc = (uint64_t)__builtin_return_address(0) - (uint64_t)&simPcBase;
    uint32_t h  = (uint32_t)((pc * 0x9E3779B97F4A7C15ULL) >> 48);
    if (!covMap[h]) {
        covMap[h] = 1;
        covCount++;
    }
    if (FILE *f = simPcLog) fwrite(&pc, 8, 1, f);
    if (b >= K->nextPreempt) {
        KernelScope ks;
        if (b > K->sp.blockBudget) {
            K->hang = true;
            self->st = Thread::BLOCKED;
            self->waitAddr = nullptr;
            toWorld();
        }
        Time stall = 0;
        if (K->sp.explicitPreempts) {
            auto &v = K->sp.preemptAt;
            bool  hit = false;
            while (K->preemptIdx < v.size() && v[K->preemptIdx].first <= b) {
                hit   = true;
                stall = v[K->preemptIdx].second;
                K->preemptIdx++;
            }
            K->nextPreempt = K->preemptIdx < v.size() ? v[K->preemptIdx].first : K->sp.blockBudget;
            if (!hit) return;
        }
        else {
            bool forced      = K->preemptForced;
            K->preemptForced = false;
            if (!K->sp.preemptMean) {
                K->nextPreempt = K->sp.blockBudget;
                if (!forced) return;
            }
            else
                K->nextPreempt = b + 1 + K->preemptRng.below(2 * (uint64_t)K->sp.preemptMean);
            // sometimes the thread loses its processor for a while, so that
            // the rest of the world moves on in the middle of a handler
            if (K->preemptRng.pct(K->sp.stallPct)) {
                static const Time top[] = {30 * US, 300 * US, 3 * MS, 30 * MS};
                stall = 1 * US + K->preemptRng.below(top[K->preemptRng.below(K->sp.shortStalls ? 2 : 4)]);
            }
        }
        if (stall || K->dueEvent() || othersRunnable()) {
            K->stats.preempts++;
            if (stall) {
                K->stats.midStalls++;
                self->stalledUntil = K->now + stall;
                K->at(self->stalledUntil, [] {});
            }
            K->preemptLog.emplace_back(b, stall);
            K->trace("preempt", b, stall);
            toWorld();
        }
    }
}
const uint8_t *simCoverageMap() { return covMap; }
uint64_t       simCoverageCount() { return covCount; }
