// libc entry points seen by the program under test. Anything that is not a
// simulated descriptor, or is called outside a simulation, goes to the real
// function (through RTLD_NEXT, so that the sanitizer's interceptors still run).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "kernel.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

#define REAL(name) \
    static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
#define REALF(name, var) \
    static auto var = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))

static inline bool onSim() { return self != nullptr; }

#define FAIL(e)      \
    do {             \
        errno = (e); \
        return -1;   \
    } while (0)

// ---------------------------------------------------------------- address
static Addr fromSockaddr(const sockaddr *sa, socklen_t len)
{
    Addr a;
    a.family = sa->sa_family;
    char buf[64];
    if (sa->sa_family == AF_INET) {
        auto s = (const sockaddr_in *)sa;
        inet_ntop(AF_INET, &s->sin_addr, buf, sizeof buf);
        a.ip   = buf;
        a.port = ntohs(s->sin_port);
    }
    else if (sa->sa_family == AF_INET6) {
        auto s = (const sockaddr_in6 *)sa;
        inet_ntop(AF_INET6, &s->sin6_addr, buf, sizeof buf);
        a.ip   = buf;
        a.port = ntohs(s->sin6_port);
    }
    else if (sa->sa_family == AF_UNIX) {
        auto s = (const sockaddr_un *)sa;
        a.ip   = std::string(s->sun_path, strnlen(s->sun_path, len - offsetof(sockaddr_un, sun_path)));
    }
    return a;
}
static void toSockaddr(const Addr &a, sockaddr *sa, socklen_t *len)
{
    sockaddr_storage ss{};
    socklen_t        n = 0;
    if (a.family == AF_INET) {
        auto s        = (sockaddr_in *)&ss;
        s->sin_family = AF_INET;
        s->sin_port   = htons(a.port);
        inet_pton(AF_INET, a.ip.c_str(), &s->sin_addr);
        n = sizeof *s;
    }
    else if (a.family == AF_INET6) {
        auto s         = (sockaddr_in6 *)&ss;
        s->sin6_family = AF_INET6;
        s->sin6_port   = htons(a.port);
        inet_pton(AF_INET6, a.ip.c_str(), &s->sin6_addr);
        n = sizeof *s;
    }
    else {
        auto s        = (sockaddr_un *)&ss;
        s->sun_family = AF_UNIX;
        strncpy(s->sun_path, a.ip.c_str(), sizeof s->sun_path - 1);
        n = offsetof(sockaddr_un, sun_path) + a.ip.size() + 1;
    }
    memcpy(sa, &ss, std::min<socklen_t>(n, *len));
    *len = n;
}

// ---------------------------------------------------------------- time
static Time clockNow(clockid_t c)
{
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) return K->realBase + K->realSkew + K->now;
    if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return K->now / 10;
    return 1000 * SEC + K->now;
}
extern "C" int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!K) {
        REAL(clock_gettime);
        return real(c, ts);
    }
    Time t      = clockNow(c);
    ts->tv_sec  = t / SEC;
    ts->tv_nsec = t % SEC;
    return 0;
}
extern "C" time_t time(time_t *o)
{
    if (!K) {
        REAL(time);
        return real(o);
    }
    time_t t = clockNow(CLOCK_REALTIME) / SEC;
    if (o) *o = t;
    return t;
}
extern "C" int gettimeofday(struct timeval *tv, void *tz)
{
    if (!K) {
        static auto real = (int (*)(struct timeval *, void *))dlsym(RTLD_NEXT, "gettimeofday");
        return real(tv, tz);
    }
    Time t      = clockNow(CLOCK_REALTIME);
    tv->tv_sec  = t / SEC;
    tv->tv_usec = t % SEC / 1000;
    return 0;
}
extern "C" clock_t clock()
{
    if (!K) {
        REAL(clock);
        return real();
    }
    return K->now / 10000;
}
extern "C" clock_t times(struct tms *b)
{
    if (!K) {
        REAL(times);
        return real(b);
    }
    memset(b, 0, sizeof *b);
    b->tms_utime = K->now / 10 / (SEC / 100);
    b->tms_stime = K->now / 20 / (SEC / 100);
    return (1000 * SEC + K->now) / (SEC / 100);
}
extern "C" int getrusage(__rusage_who_t who, struct rusage *r)
{
    if (!K) {
        REAL(getrusage);
        return real(who, r);
    }
    memset(r, 0, sizeof *r);
    r->ru_maxrss        = 20000;
    r->ru_utime.tv_usec = 1000;
    return 0;
}
extern "C" int nanosleep(const struct timespec *a, struct timespec *rem)
{
    if (!onSim()) {
        REAL(nanosleep);
        return real(a, rem);
    }
    KernelScope ks;
    syscallPoint("nanosleep");
    static char tag;
    blockOn(&tag, true, K->now + a->tv_sec * SEC + a->tv_nsec);
    return 0;
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec *a, struct timespec *rem)
{
    if (!onSim()) {
        REAL(clock_nanosleep);
        return real(c, flags, a, rem);
    }
    KernelScope ks;
    static char tag;
    Time        d = a->tv_sec * SEC + a->tv_nsec;
    if (flags & TIMER_ABSTIME) d -= clockNow(c);
    if (d > 0) blockOn(&tag, true, K->now + d);
    return 0;
}
extern "C" int usleep(useconds_t u)
{
    struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
extern "C" unsigned sleep(unsigned s)
{
    struct timespec ts = {(time_t)s, 0};
    nanosleep(&ts, nullptr);
    return 0;
}
extern "C" int sched_yield()
{
    if (!onSim()) {
        REAL(sched_yield);
        return real();
    }
    KernelScope ks;
    yieldNow();
    return 0;
}

// ---------------------------------------------------------------- threads
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    if (!onSim()) {
        REAL(pthread_create);
        return real(t, attr, fn, arg);
    }
    KernelScope ks;
    Thread     *th = K->spawn(fn, arg);
    *t             = th->real;
    syscallPoint("pthread_create", th->id);
    return 0;
}
static Thread *byReal(pthread_t t)
{
    for (auto it = K->threads.rbegin(); it != K->threads.rend(); ++it)
        if ((*it)->real == t) return it->get();
    return nullptr;
}
extern "C" int pthread_join(pthread_t t, void **ret)
{
    if (!onSim()) {
        REAL(pthread_join);
        return real(t, ret);
    }
    KernelScope ks;
    Thread     *th = byReal(t);
    if (!th) {
        REAL(pthread_join);
        return real(t, ret);
    }
    syscallPoint("join", th->id);
    while (th->st != Thread::FINISHED) blockOn(th);
    if (ret) *ret = th->ret;
    if (!th->joined) {
        th->joined = true;
        REAL(pthread_join);
        real(t, nullptr);
        th->real = 0;
    }
    return 0;
}
extern "C" int pthread_detach(pthread_t t)
{
    if (!onSim()) {
        REAL(pthread_detach);
        return real(t);
    }
    return 0;
}

extern "C" int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!onSim()) {
        REAL(pthread_mutex_lock);
        return real(m);
    }
    REALF(pthread_mutex_trylock, tr);
    int r = tr(m);
    if (r != EBUSY) return r;
    KernelScope ks;
    while ((r = tr(m)) == EBUSY) blockOn(m);
    return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m)
{
    REAL(pthread_mutex_unlock);
    int r = real(m);
    if (onSim()) {
        wakeAll(m);
        unlockPoint(__builtin_return_address(0));
    }
    return r;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (!onSim()) {
        REAL(pthread_rwlock_rdlock);
        return real(m);
    }
    REALF(pthread_rwlock_tryrdlock, tr);
    int r = tr(m);
    if (r != EBUSY) return r;
    KernelScope ks;
    while ((r = tr(m)) == EBUSY) blockOn(m);
    return r;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    if (!onSim()) {
        REAL(pthread_rwlock_wrlock);
        return real(m);
    }
    REALF(pthread_rwlock_trywrlock, tr);
    int r = tr(m);
    if (r != EBUSY) return r;
    KernelScope ks;
    while ((r = tr(m)) == EBUSY) blockOn(m);
    return r;
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    REAL(pthread_rwlock_unlock);
    int r = real(m);
    if (onSim()) wakeAll(m);
    return r;
}
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, Time wakeAt)
{
    REALF(pthread_mutex_unlock, un);
    REALF(pthread_mutex_trylock, tr);
    KernelScope ks;
    un(m);
    wakeAll(m);
    bool ok = blockOn(c, timed, wakeAt);
    while (tr(m) == EBUSY) blockOn(m);
    return ok ? 0 : ETIMEDOUT;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!onSim()) {
        REAL(pthread_cond_wait);
        return real(c, m);
    }
    return condWait(c, m, false, 0);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    if (!onSim()) {
        REAL(pthread_cond_timedwait);
        return real(c, m, ts);
    }
    Time t = ts->tv_sec * SEC + ts->tv_nsec;
    // The clock attribute is not readable here: a deadline far below the wall
    // clock's epoch is a monotonic one.
    Time d = t < 1000000000LL * SEC ? t - clockNow(CLOCK_MONOTONIC) : t - clockNow(CLOCK_REALTIME);
    return condWait(c, m, true, K->now + std::max<Time>(d, 0));
}
extern "C" int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts)
{
    if (!onSim()) {
        REAL(pthread_cond_clockwait);
        return real(c, m, clk, ts);
    }
    Time d = ts->tv_sec * SEC + ts->tv_nsec - clockNow(clk);
    return condWait(c, m, true, K->now + std::max<Time>(d, 0));
}
extern "C" int pthread_cond_signal(pthread_cond_t *c)
{
    if (!onSim()) {
        REAL(pthread_cond_signal);
        return real(c);
    }
    wakeOne(c);
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!onSim()) {
        REAL(pthread_cond_broadcast);
        return real(c);
    }
    wakeAll(c);
    return 0;
}
extern "C" int sem_wait(sem_t *s)
{
    if (!onSim()) {
        REAL(sem_wait);
        return real(s);
    }
    REALF(sem_trywait, tr);
    KernelScope ks;
    while (tr(s) != 0) blockOn(s);
    return 0;
}
extern "C" int sem_post(sem_t *s)
{
    REAL(sem_post);
    int r = real(s);
    if (onSim()) wakeAll(s);
    return r;
}
extern "C" int pthread_once(pthread_once_t *o, void (*fn)())
{
    REAL(pthread_once);
    if (!onSim()) return real(o, fn);
    KernelScope ks;  // no preemption while another thread could wait for us
    return real(o, fn);
}

extern "C" long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (onSim() && n == SYS_futex) {
        int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            KernelScope ks;
            if (__atomic_load_n((int *)a, __ATOMIC_SEQ_CST) != (int)c) FAIL(EAGAIN);
            auto ts    = (const struct timespec *)d;
            bool timed = ts != nullptr;
            Time w     = 0;
            if (timed) {
                Time t = ts->tv_sec * SEC + ts->tv_nsec;
                w      = op == FUTEX_WAIT ? K->now + t : K->now + std::max<Time>(0, t - clockNow((int)b & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC));
            }
            if (!blockOn((void *)a, timed, w)) FAIL(ETIMEDOUT);
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            if (c == 1)
                wakeOne((void *)a);
            else
                wakeAll((void *)a);
            return 1;
        }
    }
    if (K && n == SYS_getrandom) {
        for (long i = 0; i < b; ++i) ((uint8_t *)a)[i] = (uint8_t)K->cryptoRng.next();
        return b;
    }
    static auto real = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
    return real(n, a, b, c, d, e, f);
}
extern "C" ssize_t getrandom(void *p, size_t n, unsigned flags)
{
    if (!K) {
        static auto real = (ssize_t(*)(void *, size_t, unsigned))dlsym(RTLD_NEXT, "getrandom");
        return real(p, n, flags);
    }
    for (size_t i = 0; i < n; ++i) ((uint8_t *)p)[i] = (uint8_t)K->cryptoRng.next();
    return n;
}
extern "C" int getentropy(void *p, size_t n)
{
    if (!K) {
        static auto real = (int (*)(void *, size_t))dlsym(RTLD_NEXT, "getentropy");
        return real(p, n);
    }
    for (size_t i = 0; i < n; ++i) ((uint8_t *)p)[i] = (uint8_t)K->cryptoRng.next();
    return 0;
}
extern "C" int gethostname(char *n, size_t l)
{
    if (!K) {
        REAL(gethostname);
        return real(n, l);
    }
    snprintf(n, l, "%s", K->hostname.c_str());
    return 0;
}

// ---------------------------------------------------------------- epoll etc
extern "C" int epoll_create1(int flags)
{
    if (!onSim()) {
        REAL(epoll_create1);
        return real(flags);
    }
    KernelScope ks;
    return allocFd(std::make_shared<Epoll>());
}
extern "C" int epoll_create(int n)
{
    if (!onSim()) {
        REAL(epoll_create);
        return real(n);
    }
    return epoll_create1(0);
}
static void requeue(EpItem *i)
{
    if (!i->queued && (i->file->pollMask() & (i->events | EPOLLERR | EPOLLHUP))) {
        i->queued = true;
        i->ep->ready.push_back(i);
        wakeAll(&i->ep->waitTag);
    }
}
static void dropItem(Epoll *ep, EpItem *i)
{
    if (i->queued) ep->ready.erase(std::remove(ep->ready.begin(), ep->ready.end(), i), ep->ready.end());
}
extern "C" int epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev)
{
    if (epfd < FD_BASE || !K) {
        REAL(epoll_ctl);
        return real(epfd, op, fd, ev);
    }
    KernelScope ks;
    auto        ep = std::dynamic_pointer_cast<Epoll>(getFile(epfd));
    auto        f  = getFile(fd);
    if (!ep || !f) FAIL(EBADF);
    auto it = ep->items.find(fd);
    if (op == EPOLL_CTL_ADD) {
        if (it != ep->items.end()) FAIL(EEXIST);
        auto up    = std::make_unique<EpItem>();
        up->ep     = ep.get();
        up->file   = f.get();
        up->fd     = fd;
        up->events = ev->events;
        up->data   = ev->data.u64;
        f->watchers.push_back(up.get());
        EpItem *p     = up.get();
        ep->items[fd] = std::move(up);
        requeue(p);
    }
    else {
        if (it == ep->items.end()) FAIL(ENOENT);
        EpItem *p = it->second.get();
        if (op == EPOLL_CTL_MOD) {
            p->events = ev->events;
            p->data   = ev->data.u64;
            requeue(p);
        }
        else {
            dropItem(ep.get(), p);
            auto &w = f->watchers;
            w.erase(std::remove(w.begin(), w.end(), p), w.end());
            ep->items.erase(it);
        }
    }
    return 0;
}
extern "C" int epoll_wait(int epfd, struct epoll_event *evs, int maxev, int timeout)
{
    if (epfd < FD_BASE || !onSim()) {
        REAL(epoll_wait);
        return real(epfd, evs, maxev, timeout);
    }
    KernelScope ks;
    syscallPoint("epoll_wait", epfd);
    auto ep = std::dynamic_pointer_cast<Epoll>(getFile(epfd));
    if (!ep) FAIL(EBADF);
    Time deadline = timeout > 0 ? K->now + timeout * MS : 0;
    for (;;) {
        int                  n = 0;
        std::vector<EpItem *> rdy(ep->ready.begin(), ep->ready.end());
        ep->ready.clear();
        if (K->sp.randomReady && rdy.size() > 1)
            for (size_t i = rdy.size() - 1; i > 0; --i) std::swap(rdy[i], rdy[K->schedRng.below(i + 1)]);
        int lim = maxev;
        if (K->sp.randomReady && rdy.size() > 1 && K->schedRng.pct(30)) lim = 1 + (int)K->schedRng.below(rdy.size());
        lim = std::min(lim, maxev);
        std::vector<EpItem *> lt;
        size_t                i = 0;
        for (; i < rdy.size() && n < lim; ++i) {
            EpItem  *it = rdy[i];
            uint32_t m  = it->file->pollMask() & (it->events | EPOLLERR | EPOLLHUP);
            it->queued  = false;
            if (!m) continue;
            evs[n].events   = m;
            evs[n].data.u64 = it->data;
            ++n;
            if (!(it->events & EPOLLET)) lt.push_back(it);
        }
        for (; i < rdy.size(); ++i) ep->ready.push_back(rdy[i]);
        for (auto *p : lt) {
            p->queued = true;
            ep->ready.push_back(p);
        }
        if (n || timeout == 0) {
            K->trace("epoll", n);
            return n;
        }
        if (timeout > 0 && K->now >= deadline) return 0;
        blockOn(&ep->waitTag, timeout > 0, deadline);
    }
}
extern "C" int epoll_pwait(int epfd, struct epoll_event *evs, int maxev, int timeout, const sigset_t *)
{
    return epoll_wait(epfd, evs, maxev, timeout);
}
extern "C" int eventfd(unsigned init, int flags)
{
    if (!onSim()) {
        REAL(eventfd);
        return real(init, flags);
    }
    KernelScope ks;
    auto        f = std::make_shared<EventFd>();
    f->count      = init;
    f->nonblock   = flags & EFD_NONBLOCK;
    return allocFd(f);
}
extern "C" int timerfd_create(int clk, int flags)
{
    if (!onSim()) {
        REAL(timerfd_create);
        return real(clk, flags);
    }
    KernelScope ks;
    auto        f = std::make_shared<TimerFd>();
    f->clock      = clk;
    f->nonblock   = true;
    return allocFd(f);
}
extern "C" int timerfd_settime(int fd, int flags, const struct itimerspec *nv, struct itimerspec *ov)
{
    if (fd < FD_BASE || !K) {
        REAL(timerfd_settime);
        return real(fd, flags, nv, ov);
    }
    KernelScope ks;
    auto        f = std::dynamic_pointer_cast<TimerFd>(getFile(fd));
    if (!f) FAIL(EBADF);
    if (ov) memset(ov, 0, sizeof *ov);
    Time v      = nv->it_value.tv_sec * SEC + nv->it_value.tv_nsec;
    f->interval = nv->it_interval.tv_sec * SEC + nv->it_interval.tv_nsec;
    f->fired    = 0;
    if (!v)
        f->expiry = 0;
    else if (flags & TFD_TIMER_ABSTIME)
        f->expiry = std::max<Time>(1, v - clockNow(f->clock) + K->now);
    else
        f->expiry = K->now + v;
    f->arm();
    return 0;
}

// ---------------------------------------------------------------- sockets
extern "C" int socket(int domain, int type, int proto)
{
    if (!onSim()) {
        REAL(socket);
        return real(domain, type, proto);
    }
    KernelScope ks;
    syscallPoint("socket");
    if (int e = K->takeSysErr("socket")) FAIL(e);
    if ((int)K->fds.size() >= K->fdLimit) {
        K->fault("no_descriptors");
        FAIL(EMFILE);
    }
    if ((type & 0xf) == SOCK_DGRAM) {
        auto f    = std::make_shared<UdpSock>();
        f->family = domain;
        return allocFd(f);
    }
    auto f      = std::make_shared<TcpSock>();
    f->family   = domain;
    f->nonblock = type & SOCK_NONBLOCK;
    return allocFd(f);
}
template <class T> static std::shared_ptr<T> as(int fd) { return std::dynamic_pointer_cast<T>(getFile(fd)); }

extern "C" int bind(int fd, const struct sockaddr *sa, socklen_t len)
{
    if (fd < FD_BASE || !K) {
        REAL(bind);
        return real(fd, sa, len);
    }
    KernelScope ks;
    syscallPoint("bind", fd);
    Addr a = fromSockaddr(sa, len);
    if (auto u = as<UdpSock>(fd)) {
        u->local = a;
        return 0;
    }
    auto f = as<TcpSock>(fd);
    if (!f) FAIL(EBADF);
    if (K->pListeners.count(a)) FAIL(EADDRINUSE);
    if (K->busyPorts.count(a)) {
        K->fault("bind_eaddrinuse");
        FAIL(EADDRINUSE);
    }
    f->bound     = true;
    f->boundAddr = a;
    return 0;
}
extern "C" int listen(int fd, int n)
{
    if (fd < FD_BASE || !K) {
        REAL(listen);
        return real(fd, n);
    }
    KernelScope ks;
    syscallPoint("listen", fd);
    auto f = as<TcpSock>(fd);
    if (!f || !f->bound) FAIL(EINVAL);
    if (K->pListeners.count(f->boundAddr)) FAIL(EADDRINUSE);
    f->st                       = TcpSock::LISTEN;
    K->pListeners[f->boundAddr] = f.get();
    return 0;
}
extern "C" int accept4(int fd, struct sockaddr *sa, socklen_t *len, int flags)
{
    if (fd < FD_BASE || !K) {
        REAL(accept4);
        return real(fd, sa, len, flags);
    }
    KernelScope ks;
    syscallPoint("accept", fd);
    for (;;) {
        auto f = as<TcpSock>(fd);
        if (!f) FAIL(EBADF);
        if (f->st != TcpSock::LISTEN) FAIL(EINVAL);
        if (!f->backlog.empty()) {
            int e = 0, port = f->boundAddr.family == AF_UNIX ? -1 : f->boundAddr.port;
            for (auto it = K->acceptErrQ.begin(); it != K->acceptErrQ.end(); ++it)
                if (it->first == port || (it->first == 0 && port > 0)) {
                    e = it->second;
                    K->acceptErrQ.erase(it);
                    K->fault(e == ECONNABORTED ? "accept_aborted" : e == EMFILE || e == ENFILE ? "accept_no_descriptors" : "accept_error");
                    break;
                }
            if (!e && (int)K->fds.size() >= K->fdLimit) e = EMFILE;
            if (e) {
                K->trace("accept-err", e);
                if (e == ECONNABORTED || e == EPROTO || e == EPERM) {
                    ConnPtr c = f->backlog.front();
                    f->backlog.pop_front();
                    c->pClosed = c->acceptAborted = true;
                    c->resetA();
                }
                FAIL(e);
            }
            ConnPtr c = f->backlog.front();
            f->backlog.pop_front();
            auto s      = std::make_shared<TcpSock>();
            s->family   = f->family;
            s->conn     = c;
            s->st       = c->pReset ? TcpSock::DEAD : TcpSock::EST;
            s->nonblock = flags & SOCK_NONBLOCK;
            if (c->pReset) s->soError = ECONNRESET;
            c->psock     = s.get();
            c->pAccepted = true;
            int nfd  = allocFd(s);
            if (sa && len) toSockaddr(c->aAddr, sa, len);
            K->trace("accepted", c->id, nfd);
            return nfd;
        }
        if (f->nonblock) FAIL(EAGAIN);
        blockOn(&f->waitTag);
    }
}
extern "C" int accept(int fd, struct sockaddr *sa, socklen_t *len)
{
    if (fd < FD_BASE || !K) {
        REAL(accept);
        return real(fd, sa, len);
    }
    return accept4(fd, sa, len, 0);
}
extern "C" int connect(int fd, const struct sockaddr *sa, socklen_t len)
{
    if (fd < FD_BASE || !K) {
        REAL(connect);
        return real(fd, sa, len);
    }
    KernelScope ks;
    syscallPoint("connect", fd);
    Addr to = fromSockaddr(sa, len);
    if (auto u = as<UdpSock>(fd)) {
        u->peer = to;
        return 0;
    }
    auto f = as<TcpSock>(fd);
    if (!f) FAIL(EBADF);
    if (f->st == TcpSock::EST) FAIL(EISCONN);
    if (f->st == TcpSock::CONNECTING) FAIL(EALREADY);
    if (to.family != f->family) FAIL(EAFNOSUPPORT);
    if (f->st == TcpSock::DEAD && f->conn && f->conn->established) FAIL(EISCONN);
    if (f->st == TcpSock::DEAD && f->soError) {
        int e      = f->soError;
        f->soError = 0;
        FAIL(e);
    }
    auto c       = std::make_shared<Conn>();
    c->id        = K->nextConn++;
    c->fromActor = false;
    c->pAddr     = inet(to.family == AF_INET6 ? "fd00::1" : "192.168.0.1", K->nextEphemeral++);
    c->aAddr     = to;
    c->np        = K->net;
    c->toP.cap = c->toA.cap = K->net.cap;
    c->rng.reseed(K->seed, 1000 + c->id);
    c->psock = f.get();
    K->conns.push_back(c);
    f->conn = c;
    f->st   = TcpSock::CONNECTING;
    f->rdShut = f->wrShut = false;
    f->soError = 0;
    K->trace("connect", c->id, to.port);
    Time     lat = K->net.latMin + (Time)K->netRng.below(K->net.latMax - K->net.latMin + 1);
    auto     it  = K->acceptors.find(to);
    auto     mode = it == K->acceptors.end() ? Acceptor::REFUSE : it->second.modeFn ? it->second.modeFn() : it->second.mode;
    if (it != K->acceptors.end()) {
        lat += it->second.delay;
        if (it->second.onAttempt) it->second.onAttempt(c->pAddr, mode);
    }
    auto fail = [c](int e) {
        if (!c->psock || c->psock->st != TcpSock::CONNECTING) return;
        c->psock->st      = TcpSock::DEAD;
        c->psock->soError = e;
        c->pReset = c->aReset = true;
        c->psock->notify();
    };
    if (mode == Acceptor::REFUSE) {
        K->fault("connect_refused");
        K->after(2 * lat, [fail] { fail(ECONNREFUSED); });
    }
    else if (mode == Acceptor::UNREACH) {
        K->fault("connect_unreachable");
        if (K->netRng.pct(50)) {
            f->st = TcpSock::FRESH;
            f->conn.reset();
            c->psock  = nullptr;
            c->pReset = c->aReset = true;
            FAIL(ENETUNREACH);
        }
        K->after(3 * SEC, [fail] { fail(EHOSTUNREACH); });
    }
    else if (mode == Acceptor::BLACKHOLE) {
        K->fault("connect_blackhole");
        K->after(127 * SEC, [fail] { fail(ETIMEDOUT); });
    }
    else {
        K->after(2 * lat, [c, to, mode] {
            if (!c->psock || c->psock->st != TcpSock::CONNECTING) return;  // abandoned
            auto it = K->acceptors.find(to);
            if (it == K->acceptors.end()) return;
            c->established = true;
            c->tEst        = K->now;
            c->psock->st   = TcpSock::EST;
            c->psock->notify();
            c->handler = it->second.onAccept ? it->second.onAccept(*c) : nullptr;
            if (mode == Acceptor::ACCEPT_RST) {
                K->fault("connect_then_rst");
                c->rst();
                return;
            }
            if (c->handler) c->handler->onConnected(*c);
            c->deliverToA();
        });
    }
    if (f->nonblock) FAIL(EINPROGRESS);
    while (f->st == TcpSock::CONNECTING) blockOn(&f->waitTag);
    if (f->soError) {
        int e      = f->soError;
        f->soError = 0;
        FAIL(e);
    }
    return 0;
}

static ssize_t doRecv(int fd, struct iovec *iov, size_t niov, int flags)
{
    auto f = as<TcpSock>(fd);
    if (!f) {
        if (as<UdpSock>(fd)) FAIL(EAGAIN);
        FAIL(EBADF);
    }
    size_t want = 0;
    for (size_t i = 0; i < niov; ++i) want += iov[i].iov_len;
    for (;;) {
        if (f->st == TcpSock::FRESH || f->st == TcpSock::CONNECTING || f->st == TcpSock::LISTEN) FAIL(f->st == TcpSock::CONNECTING ? EAGAIN : ENOTCONN);
        if (!f->conn) FAIL(ENOTCONN);
        auto &p = f->conn->toP;
        if (want == 0) return 0;
        if (!p.arrived.empty()) {
            size_t n = std::min(want, p.arrived.size());
            if (n > 1 && !(flags & MSG_PEEK) && f->conn->rng.pct(f->conn->np.shortReadPct)) {
                n = 1 + f->conn->rng.below(n);
                K->fault("short_read");
            }
            size_t left = n;
            auto   it   = p.arrived.begin();
            for (size_t i = 0; i < niov && left; ++i) {
                size_t      m = std::min(left, iov[i].iov_len);
                std::string tmp(it, it + m);
                memcpy(iov[i].iov_base, tmp.data(), m);
                it += m;
                left -= m;
            }
            if (!(flags & MSG_PEEK)) {
                p.arrived.erase(p.arrived.begin(), p.arrived.begin() + n);
                ConnPtr c = f->conn;
                if (!c->aOut.empty() || c->aWantFin) K->after(c->np.latMin, [c] { c->pumpA(); });
            }
            if (K->recordIo && !(flags & MSG_PEEK)) f->conn->pIn.emplace_back(++K->ioSeq, n);
            K->trace("recv", f->conn->id, n);
            return n;
        }
        if (f->soError) {
            int e      = f->soError;
            f->soError = 0;
            FAIL(e);
        }
        if (p.finArrived || f->rdShut || f->st == TcpSock::DEAD) return 0;
        if (f->nonblock || (flags & MSG_DONTWAIT)) FAIL(EAGAIN);
        blockOn(&f->waitTag);
    }
}
static ssize_t doSend(int fd, const struct iovec *iov, size_t niov, int flags, const Addr *to = nullptr)
{
    size_t total = 0;
    for (size_t i = 0; i < niov; ++i) total += iov[i].iov_len;
    if (auto u = as<UdpSock>(fd)) {
        std::string d;
        for (size_t i = 0; i < niov; ++i) d.append((const char *)iov[i].iov_base, iov[i].iov_len);
        Addr dst = to ? *to : u->peer;
        if (int e = u->full ? EAGAIN : K->takeSysErr("udpsend")) {
            if (!u->full) {
                u->full = true;
                K->fault("udp_send_would_block");
                std::weak_ptr<File> wp = u;
                K->after(K->faultRng.below(3) ? 50 * US : 3 * MS, [wp] {
                    if (auto f = std::dynamic_pointer_cast<UdpSock>(wp.lock())) f->full = false, f->notify();
                });
            }
            FAIL(e);
        }
        K->trace("udp", d.size());
        Addr from = u->local;
        K->after(K->net.latMin, [from, dst, d] {
            if (K->onUdp) K->onUdp(from, dst, d);
        });
        return total;
    }
    auto f = as<TcpSock>(fd);
    if (!f) FAIL(EBADF);
    for (;;) {
        if (f->st == TcpSock::CONNECTING) FAIL(EAGAIN);
        if (f->soError) {
            int e      = f->soError;
            f->soError = 0;
            FAIL(e);
        }
        if (f->st == TcpSock::FRESH || f->st == TcpSock::LISTEN) FAIL(ENOTCONN);
        if (f->st == TcpSock::DEAD || f->wrShut) FAIL(EPIPE);
        if (total == 0) return 0;
        size_t sp = f->conn->toA.space();
        if (sp) {
            size_t n = std::min(sp, total);
            // kernels accept small writes into a nearly empty buffer whole
            if (n > 1 && n + f->conn->toA.used() > 1024 && f->conn->rng.pct(f->conn->np.shortWritePct)) {
                n = 1 + f->conn->rng.below(n);
                K->fault("short_write");
            }
            std::string d;
            size_t      left = n;
            for (size_t i = 0; i < niov && left; ++i) {
                size_t m   = std::min(left, iov[i].iov_len);
                size_t old = d.size();
                d.resize(old + m);
                memcpy(&d[old], iov[i].iov_base, m);
                left -= m;
            }
            K->trace("send", f->conn->id, fnv(d.data(), d.size()));
            if (K->recordIo) f->conn->pOut.emplace_back(++K->ioSeq, n);
            f->conn->pTail += d.size() > 96 ? d.substr(d.size() - 96) : d;
            if (f->conn->pTail.size() > 96) f->conn->pTail.erase(0, f->conn->pTail.size() - 96);
            f->conn->transmit(false, d, false);
            return n;
        }
        if (f->nonblock || (flags & MSG_DONTWAIT)) {
            K->stats.faults["send_would_block"]++;
            FAIL(EAGAIN);
        }
        blockOn(&f->waitTag);
    }
}
#define SIMFD(fd) (K && (fd) >= FD_BASE)
extern "C" ssize_t recvmsg(int fd, struct msghdr *m, int flags)
{
    if (!SIMFD(fd)) {
        REAL(recvmsg);
        return real(fd, m, flags);
    }
    KernelScope ks;
    syscallPoint("recvmsg", fd);
    m->msg_flags = 0;
    return doRecv(fd, m->msg_iov, m->msg_iovlen, flags);
}
extern "C" ssize_t recv(int fd, void *b, size_t n, int flags)
{
    if (!SIMFD(fd)) {
        REAL(recv);
        return real(fd, b, n, flags);
    }
    KernelScope  ks;
    struct iovec v = {b, n};
    syscallPoint("recv", fd);
    return doRecv(fd, &v, 1, flags);
}
extern "C" ssize_t recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *sa, socklen_t *l)
{
    if (!SIMFD(fd)) {
        REAL(recvfrom);
        return real(fd, b, n, flags, sa, l);
    }
    KernelScope  ks;
    struct iovec v = {b, n};
    syscallPoint("recvfrom", fd);
    return doRecv(fd, &v, 1, flags);
}
extern "C" ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
    if (!SIMFD(fd)) {
        REAL(sendmsg);
        return real(fd, m, flags);
    }
    KernelScope ks;
    syscallPoint("sendmsg", fd);
    if (m->msg_name) {
        Addr a = fromSockaddr((sockaddr *)m->msg_name, m->msg_namelen);
        return doSend(fd, m->msg_iov, m->msg_iovlen, flags, &a);
    }
    return doSend(fd, m->msg_iov, m->msg_iovlen, flags);
}
extern "C" ssize_t send(int fd, const void *b, size_t n, int flags)
{
    if (!SIMFD(fd)) {
        REAL(send);
        return real(fd, b, n, flags);
    }
    KernelScope  ks;
    struct iovec v = {(void *)b, n};
    syscallPoint("send", fd);
    return doSend(fd, &v, 1, flags);
}
extern "C" ssize_t sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *sa, socklen_t l)
{
    if (!SIMFD(fd)) {
        REAL(sendto);
        return real(fd, b, n, flags, sa, l);
    }
    KernelScope  ks;
    struct iovec v = {(void *)b, n};
    syscallPoint("sendto", fd);
    if (sa) {
        Addr a = fromSockaddr(sa, l);
        return doSend(fd, &v, 1, flags, &a);
    }
    return doSend(fd, &v, 1, flags);
}
extern "C" ssize_t read(int fd, void *b, size_t n)
{
    if (!SIMFD(fd)) {
        REAL(read);
        return real(fd, b, n);
    }
    KernelScope ks;
    syscallPoint("read", fd);
    if (auto e = as<EventFd>(fd)) {
        if (!e->count) FAIL(EAGAIN);
        uint64_t v = e->count;
        e->count   = 0;
        memcpy(b, &v, 8);
        return 8;
    }
    if (auto t = as<TimerFd>(fd)) {
        if (!t->fired) FAIL(EAGAIN);
        memcpy(b, &t->fired, 8);
        t->fired = 0;
        return 8;
    }
    struct iovec v = {b, n};
    return doRecv(fd, &v, 1, 0);
}
extern "C" ssize_t readv(int fd, const struct iovec *iov, int n)
{
    if (!SIMFD(fd)) {
        REAL(readv);
        return real(fd, iov, n);
    }
    KernelScope ks;
    syscallPoint("readv", fd);
    return doRecv(fd, (struct iovec *)iov, n, 0);
}
extern "C" ssize_t write(int fd, const void *b, size_t n)
{
    if (!SIMFD(fd)) {
        REAL(write);
        return real(fd, b, n);
    }
    KernelScope ks;
    syscallPoint("write", fd);
    if (auto e = as<EventFd>(fd)) {
        uint64_t v;
        memcpy(&v, b, 8);
        e->count += v;
        e->notify();
        return 8;
    }
    struct iovec v = {(void *)b, n};
    return doSend(fd, &v, 1, 0);
}
extern "C" ssize_t writev(int fd, const struct iovec *iov, int n)
{
    if (!SIMFD(fd)) {
        REAL(writev);
        return real(fd, iov, n);
    }
    KernelScope ks;
    syscallPoint("writev", fd);
    return doSend(fd, iov, n, 0);
}
extern "C" int close(int fd)
{
    if (!SIMFD(fd)) {
        REAL(close);
        return real(fd);
    }
    KernelScope ks;
    syscallPoint("close", fd);
    auto f = getFile(fd);
    if (!f) {
        K->trace("close-ebadf", fd);
        FAIL(EBADF);
    }
    f->onClose();
    for (EpItem *w : f->watchers) {
        dropItem(w->ep, w);
        w->ep->items.erase(fd);
    }
    f->watchers.clear();
    wakeAll(&f->waitTag);
    K->fds.erase(fd);
    return 0;
}
extern "C" int shutdown(int fd, int how)
{
    if (!SIMFD(fd)) {
        REAL(shutdown);
        return real(fd, how);
    }
    KernelScope ks;
    syscallPoint("shutdown", fd);
    auto f = as<TcpSock>(fd);
    if (!f) FAIL(EBADF);
    if (f->st != TcpSock::EST) FAIL(ENOTCONN);
    if (how == SHUT_RD || how == SHUT_RDWR) f->rdShut = true;
    if ((how == SHUT_WR || how == SHUT_RDWR) && !f->wrShut) {
        f->wrShut = true;
        if (!f->conn->toA.finSent) f->conn->transmit(false, "", true);
    }
    f->notify();
    return 0;
}
extern "C" int poll(struct pollfd *p, nfds_t n, int timeout)
{
    bool sim = onSim();
    if (sim)
        for (nfds_t i = 0; i < n; ++i)
            if (p[i].fd >= 0 && p[i].fd < FD_BASE) sim = false;
    if (!sim) {
        REAL(poll);
        return real(p, n, timeout);
    }
    KernelScope ks;
    syscallPoint("poll", n ? p[0].fd : 0);
    Time deadline = timeout > 0 ? K->now + timeout * MS : 0;
    for (;;) {
        int r = 0;
        for (nfds_t i = 0; i < n; ++i) {
            p[i].revents = 0;
            auto f       = p[i].fd >= 0 ? getFile(p[i].fd) : nullptr;
            if (!f) {
                if (p[i].fd >= 0) p[i].revents = POLLNVAL;
            }
            else {
                uint32_t m = f->pollMask();
                if (m & EPOLLIN && p[i].events & POLLIN) p[i].revents |= POLLIN;
                if (m & EPOLLOUT && p[i].events & POLLOUT) p[i].revents |= POLLOUT;
                if (m & EPOLLERR) p[i].revents |= POLLERR;
                if (m & EPOLLHUP) p[i].revents |= POLLHUP;
            }
            if (p[i].revents) ++r;
        }
        if (r || timeout == 0) return r;
        if (timeout > 0 && K->now >= deadline) return 0;
        auto f = getFile(p[0].fd);
        blockOn(f ? &f->waitTag : nullptr, timeout > 0, deadline);
    }
}
extern "C" int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (!SIMFD(fd)) {
        static auto real = (int (*)(int, unsigned long, ...))dlsym(RTLD_NEXT, "ioctl");
        return real(fd, req, arg);
    }
    KernelScope ks;
    auto        f = getFile(fd);
    if (!f) FAIL(EBADF);
    if (req == FIONBIO) {
        f->nonblock = *(int *)arg;
        return 0;
    }
    if (req == FIONREAD) {
        auto t      = as<TcpSock>(fd);
        *(int *)arg = t && t->conn ? (int)t->conn->toP.arrived.size() : 0;
        K->trace("fionread", fd, *(int *)arg);
        return 0;
    }
    FAIL(EINVAL);
}
extern "C" int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (!SIMFD(fd)) {
        static auto real = (int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl");
        return real(fd, cmd, arg);
    }
    KernelScope ks;
    auto        f = getFile(fd);
    if (!f) FAIL(EBADF);
    if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) {
        f->nonblock = ((long)arg) & O_NONBLOCK;
        return 0;
    }
    return 0;
}
extern "C" int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (!SIMFD(fd)) {
        static auto real = (int (*)(int, int, ...))dlsym(RTLD_NEXT, "fcntl64");
        return real(fd, cmd, arg);
    }
    return fcntl(fd, cmd, arg);
}
extern "C" int setsockopt(int fd, int level, int opt, const void *v, socklen_t l)
{
    if (!SIMFD(fd)) {
        REAL(setsockopt);
        return real(fd, level, opt, v, l);
    }
    auto f = as<TcpSock>(fd);
    if (!f && !as<UdpSock>(fd)) FAIL(EBADF);
    if (f && level == SOL_SOCKET && opt == SO_LINGER) {
        auto lg    = (const struct linger *)v;
        f->linger0 = lg->l_onoff && lg->l_linger == 0;
    }
    return 0;
}
extern "C" int getsockopt(int fd, int level, int opt, void *v, socklen_t *l)
{
    if (!SIMFD(fd)) {
        REAL(getsockopt);
        return real(fd, level, opt, v, l);
    }
    auto f = as<TcpSock>(fd);
    if (!f && !as<UdpSock>(fd)) FAIL(EBADF);
    int r = 0;
    if (f && level == SOL_SOCKET && opt == SO_ERROR) {
        r          = f->soError;
        f->soError = 0;
    }
    if (*l >= sizeof(int)) *(int *)v = r;
    return 0;
}
extern "C" int getsockname(int fd, struct sockaddr *sa, socklen_t *l)
{
    if (!SIMFD(fd)) {
        REAL(getsockname);
        return real(fd, sa, l);
    }
    KernelScope ks;
    auto        f = as<TcpSock>(fd);
    if (!f) FAIL(EBADF);
    if (f->conn)
        toSockaddr(f->conn->pAddr, sa, l);
    else
        toSockaddr(f->bound ? f->boundAddr : inet("0.0.0.0", 0), sa, l);
    return 0;
}
extern "C" int getpeername(int fd, struct sockaddr *sa, socklen_t *l)
{
    if (!SIMFD(fd)) {
        REAL(getpeername);
        return real(fd, sa, l);
    }
    KernelScope ks;
    auto        f = as<TcpSock>(fd);
    if (!f) FAIL(EBADF);
    if (f->st != TcpSock::EST) FAIL(ENOTCONN);
    toSockaddr(f->conn->aAddr, sa, l);
    return 0;
}

// ---------------------------------------------------------------- names
struct OwnAi {
    addrinfo         ai;
    sockaddr_storage ss;
};
static std::set<void *> *ownAis()
{
    static auto *s = new std::set<void *>;
    return s;
}
extern "C" int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    if (!onSim()) {
        REAL(getaddrinfo);
        return real(node, service, hints, res);
    }
    KernelScope ks;
    syscallPoint("getaddrinfo");
    std::string host = node ? node : "", svc = service ? service : "";
    unsigned char           tmp[16];
    std::vector<std::string> ips;
    if (inet_pton(AF_INET, host.c_str(), tmp) == 1 || inet_pton(AF_INET6, host.c_str(), tmp) == 1)
        ips.push_back(host);
    else if (hints && (hints->ai_flags & AI_NUMERICHOST))
        return EAI_NONAME;
    else {
        DnsResult r;
        r.err = EAI_NONAME;
        if (K->dns) r = K->dns(host, svc);
        static char tag;
        if (r.delay > 0) blockOn(&tag, true, K->now + r.delay);
        if (r.err) return r.err;
        ips = r.ips;
    }
    int port = 0;
    if (!svc.empty()) {
        char *end = nullptr;
        port      = (int)strtol(svc.c_str(), &end, 10);
        if (end && *end) return EAI_SERVICE;
    }
    addrinfo **tail = res;
    *res            = nullptr;
    for (auto &ip : ips) {
        Addr a = inet(ip, port);
        if (hints && hints->ai_family != AF_UNSPEC && hints->ai_family != a.family) continue;
        auto o = (OwnAi *)calloc(1, sizeof(OwnAi));
        ownAis()->insert(o);
        socklen_t l       = sizeof o->ss;
        toSockaddr(a, (sockaddr *)&o->ss, &l);
        o->ai.ai_family   = a.family;
        o->ai.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
        o->ai.ai_protocol = IPPROTO_TCP;
        o->ai.ai_addrlen  = l;
        o->ai.ai_addr     = (sockaddr *)&o->ss;
        *tail             = &o->ai;
        tail              = &o->ai.ai_next;
    }
    return *res ? 0 : EAI_NONAME;
}
extern "C" void freeaddrinfo(struct addrinfo *r)
{
    while (r) {
        if (!ownAis()->count(r)) {
            REAL(freeaddrinfo);
            real(r);
            return;
        }
        auto n = r->ai_next;
        ownAis()->erase(r);
        free(r);
        r = n;
    }
}
extern "C" int getnameinfo(const struct sockaddr *sa, socklen_t sl, char *host, socklen_t hl, char *serv, socklen_t vl, int flags)
{
    if (!onSim()) {
        REAL(getnameinfo);
        return real(sa, sl, host, hl, serv, vl, flags);
    }
    KernelScope ks;
    syscallPoint("getnameinfo");
    static char tag;
    Addr a = fromSockaddr(sa, sl);
    auto sd = K->net.rdnsDelay.find(a.ip);
    blockOn(&tag, true, K->now + (sd != K->net.rdnsDelay.end() ? sd->second : K->net.rdnsMin + K->netRng.below(1 + K->net.rdnsMax - K->net.rdnsMin)));
    std::string h = K->reverseDns ? K->reverseDns(a.ip) : "";
    if (h.empty()) {
        if (flags & NI_NAMEREQD) return EAI_NONAME;
        h = a.ip;
    }
    if (host && hl) snprintf(host, hl, "%s", h.c_str());
    if (serv && vl) snprintf(serv, vl, "%d", a.port);
    return 0;
}
// the program removes its control socket path; simulated sockets have none
extern "C" int unlink(const char *p)
{
    if (onSim() && !strncmp(p, "/sim/", 5)) FAIL(ENOENT);
    REAL(unlink);
    return real(p);
}

extern "C" pid_t getpid() { return sim::self ? 4242 : (pid_t)syscall(SYS_getpid); }
