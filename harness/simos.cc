#include <memory>
#include "simos.hh"
#include "pbt.hh"
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define ASAN_ON 1
#else
#define ASAN_ON 0
#endif

namespace sim {
std::vector<Fiber*> fibers;
Fiber* cur;
uint64_t now_us;
bool active, exited;
int exitcode, nfileops, accept_errors;
std::function<void(const char*)> on_fileop;
std::function<bool(const char*)> want_yield;
std::function<size_t(VP, size_t)> short_write;
std::vector<VP> listeners, udps;
std::map<int, void (*)(int)> handlers;
std::string killed, dirprefix;
std::map<uint64_t, uint64_t> synced;

static std::map<int, VP> vfds;
static ucontext_t driver;
static void* driver_fake;
static const void* driver_stack; static size_t driver_size;
struct Mutex { Fiber* owner = 0; int depth = 0; };
static std::map<void*, Mutex> mutexes;
struct Waiter { void* cond; bool hit; };
static std::vector<Waiter*> waiters;

bool Fiber::can_run() const {
    if (done || cancelled) return false;
    if (!ready) return true;
    if (deadline && now_us >= deadline) return true;
    return ready();
}

static void entry() {
#if ASAN_ON
    __sanitizer_finish_switch_fiber(0, &driver_stack, &driver_size);
#endif
    Fiber* f = cur;
    f->retval = f->fn(f->arg);
    f->done = true;
#if ASAN_ON
    __sanitizer_start_switch_fiber(0, driver_stack, driver_size);
#endif
    setcontext(&driver);
}

Fiber* spawn(const char* name, void* (*fn)(void*), void* arg) {
    Fiber* f = new Fiber;
    f->id = (int) fibers.size() + 1;
    f->name = name;
    f->fn = fn;
    f->arg = arg;
    f->stacksz = 512 * 1024;
    f->stack = mmap(0, f->stacksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ucontext_t* c = new ucontext_t;
    getcontext(c);
    c->uc_stack.ss_sp = f->stack;
    c->uc_stack.ss_size = f->stacksz;
    c->uc_link = 0;
    makecontext(c, entry, 0);
    f->ctx = c;
    fibers.push_back(f);
    return f;
}

void run(Fiber* f) {
    if (!f->can_run()) return;
    f->timedout = f->ready && !f->ready();
    f->ready = nullptr;
    f->deadline = 0;
    cur = f;
    f->started = true;
#if ASAN_ON
    __sanitizer_start_switch_fiber(&driver_fake, f->stack, f->stacksz);
#endif
    swapcontext(&driver, (ucontext_t*) f->ctx);
#if ASAN_ON
    __sanitizer_finish_switch_fiber(driver_fake, 0, 0);
#endif
    cur = 0;
}

static void to_driver() {
    Fiber* f = cur;
#if ASAN_ON
    __sanitizer_start_switch_fiber(&f->fake, driver_stack, driver_size);
#endif
    swapcontext((ucontext_t*) f->ctx, &driver);
#if ASAN_ON
    __sanitizer_finish_switch_fiber(f->fake, &driver_stack, &driver_size);
#endif
}

void block(const char* why, std::function<bool()> ready, uint64_t deadline) {
    if (!cur) { fprintf(stderr, "simos: driver would block in %s\n", why); abort(); }
    cur->why = why;
    cur->ready = std::move(ready);
    cur->deadline = deadline;
    to_driver();
}

void yield(const char* why) {
    if (!cur) return;
    cur->why = why;
    cur->ready = nullptr;
    to_driver();
}

std::vector<Fiber*> runnable() {
    std::vector<Fiber*> r;
    for (Fiber* f : fibers)
        if (f->can_run()) r.push_back(f);
    return r;
}

uint64_t next_deadline() {
    uint64_t d = 0;
    for (Fiber* f : fibers)
        if (!f->done && !f->cancelled && f->ready && f->deadline > now_us && (!d || f->deadline < d)) d = f->deadline;
    return d;
}

void tick() {
    auto it = handlers.find(SIGALRM);
    if (it != handlers.end()) it->second(SIGALRM);
}

static VP vf(int fd) {
    auto it = vfds.find(fd);
    return it == vfds.end() ? VP() : it->second;
}
static int newfd(VP v);
static void fatal(const char* sig) {
    killed = sig;
    if (cur) block("killed", [] { return false; });
}
static void fileop(const char* what) {
    ++nfileops;
    if (on_fileop) on_fileop(what);
    if (cur && want_yield && want_yield(what)) yield(what);
}
static bool readable(VP v) {
    switch (v->kind) {
    case VFd::LISTEN: return !v->backlog.empty();
    case VFd::CONN: return !v->in.empty() || v->eof || v->reset;
    case VFd::PIPE: return !v->in.empty();
    case VFd::UDP: return !v->dgrams.empty();
    default: return false;
    }
}
} // namespace sim

using namespace sim;

extern "C" {
#define REAL(ret, name, args) ret __real_##name args; ret __wrap_##name args
// ---- threads
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    *t = (pthread_t) spawn("thread", fn, arg)->id;
    return 0;
}
REAL(pthread_t, pthread_self, (void)) { return active && cur ? (pthread_t) cur->id : __real_pthread_self(); }
int __wrap_pthread_cancel(pthread_t t) { if (t && t <= fibers.size()) fibers[t - 1]->cancelled = true; return 0; }
int __wrap_pthread_join(pthread_t t, void** r) {
    Fiber* f = fibers[t - 1];
    block("join", [f] { return f->done || f->cancelled; });
    if (r) *r = f->retval;
    return 0;
}
int __wrap_pthread_detach(pthread_t) { return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active) return 0;
    Mutex& x = mutexes[m];
    while (x.owner)
        block("mutex", [&x] { return !x.owner; });
    x.owner = cur;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (active) mutexes[m].owner = 0; return 0; }
static int cwait(void* c, pthread_mutex_t* m, uint64_t deadline) {
    Waiter* w = new Waiter{c, false};
    waiters.push_back(w);
    __wrap_pthread_mutex_unlock(m);
    block("cond", [w] { return w->hit; }, deadline);
    bool to = !w->hit;
    waiters.erase(std::find(waiters.begin(), waiters.end(), w));
    delete w;
    __wrap_pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    uint64_t d = (uint64_t) ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
    return cwait(c, m, d <= now_us ? now_us + 1 : d);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
    for (Waiter* w : waiters)
        if (w->cond == c && !w->hit) { w->hit = true; break; }
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
    for (Waiter* w : waiters)
        if (w->cond == c) w->hit = true;
    return 0;
}
int __wrap_sched_yield(void) { yield("sched_yield"); return 0; }
// ---- time
REAL(int, nanosleep, (const struct timespec* t, struct timespec* rem)) {
    if (!active || !cur) return __real_nanosleep(t, rem);
    uint64_t us = (uint64_t) t->tv_sec * 1000000 + t->tv_nsec / 1000;
    block("sleep", [] { return false; }, now_us + (us ? us : 1));
    return 0;
}
unsigned __wrap_sleep(unsigned s) { struct timespec t = {(time_t) s, 0}; return __wrap_nanosleep(&t, 0), 0; }
int __wrap_usleep(useconds_t u) { struct timespec t = {(time_t) (u / 1000000), (long) (u % 1000000) * 1000}; return __wrap_nanosleep(&t, 0); }
REAL(int, gettimeofday, (struct timeval* tv, void* tz)) {
    if (!active) return __real_gettimeofday(tv, tz);
    tv->tv_sec = now_us / 1000000; tv->tv_usec = now_us % 1000000;
    return 0;
}
REAL(int, clock_gettime, (clockid_t c, struct timespec* ts)) {
    if (!active) return __real_clock_gettime(c, ts);
    ts->tv_sec = now_us / 1000000; ts->tv_nsec = now_us % 1000000 * 1000;
    return 0;
}
REAL(time_t, time, (time_t* t)) {
    if (!active) return __real_time(t);
    time_t r = now_us / 1000000;
    if (t) *t = r;
    return r;
}
REAL(int, setitimer, (int w, const struct itimerval* a, struct itimerval* b)) { return active ? 0 : __real_setitimer((__itimer_which) w, a, b); }
typedef void (*sigh)(int);
REAL(sigh, signal, (int sig, sigh h)) {
    if (!active) return __real_signal(sig, h);
    sigh old = handlers.count(sig) ? handlers[sig] : SIG_DFL;
    handlers[sig] = h;
    return old;
}
REAL(int, sigaction, (int sig, const struct sigaction* a, struct sigaction* o)) {
    if (!active) return __real_sigaction(sig, a, o);
    if (a) handlers[sig] = a->sa_handler;
    return 0;
}
REAL(void, exit, (int c)) {
    if (!active || !cur) __real_exit(c);
    exited = true; exitcode = c;
    while (1) block("exited", [] { return false; });
}
// ---- sockets
int __wrap_socket(int, int type, int) {
    VP v(new VFd);
    v->kind = (type & 0xF) == SOCK_DGRAM ? VFd::UDP : VFd::LISTEN;
    return newfd(v);
}
int __wrap_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int __wrap_getsockopt(int, int, int, void*, socklen_t*) { return 0; }
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t) {
    VP v = vf(fd);
    v->port = ntohs(((const struct sockaddr_in*) a)->sin_port);
    if (v->kind == VFd::UDP) udps.push_back(v);
    return 0;
}
int __wrap_listen(int fd, int) { listeners.push_back(vf(fd)); return 0; }
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) {
    VP v = vf(fd);
    while (v->backlog.empty())
        block("accept", [v] { return !v->backlog.empty(); });
    if (accept_errors > 0) { --accept_errors; errno = accept_errors % 2 ? ECONNABORTED : EMFILE; return -1; }
    VP c = v->backlog.front();
    v->backlog.pop_front();
    if (a && l) memset(a, 0, *l);
    return newfd(c);
}
int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int) { return __wrap_accept(fd, a, l); }
REAL(int, pipe, (int* p)) {
    if (!active) return __real_pipe(p);
    VP r(new VFd), w(new VFd);
    r->kind = w->kind = VFd::PIPE;
    w->peer = r;
    p[0] = newfd(r);
    p[1] = newfd(w);
    return 0;
}
int __wrap_epoll_create(int) { VP v(new VFd); v->kind = VFd::EPOLL; return newfd(v); }
int __wrap_epoll_create1(int) { return __wrap_epoll_create(1); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
    VP v = vf(ep);
    auto it = std::find_if(v->watch.begin(), v->watch.end(), [&](std::pair<int, void*>& x) { return x.first == fd; });
    if (op == EPOLL_CTL_DEL) {
        if (it == v->watch.end()) { errno = ENOENT; return -1; }
        v->watch.erase(it);
    } else {
        if (op == EPOLL_CTL_ADD && it != v->watch.end()) { errno = EEXIST; return -1; }
        void* p = ev->data.ptr;
        if (it != v->watch.end()) it->second = p;
        else v->watch.push_back({fd, p});
    }
    return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event* ev, int max, int) {
    VP v = vf(ep);
    auto any = [v] {
        for (auto& w : v->watch)
            if (VP x = vf(w.first)) if (readable(x)) return true;
        return false;
    };
    while (!any())
        block("epoll", any);
    int n = 0;
    for (auto& w : v->watch)
        if (VP x = vf(w.first))
            if (n < max && readable(x)) { ev[n].events = EPOLLIN; ev[n].data.ptr = w.second; ++n; }
    return n;
}
int __wrap_select(int n, fd_set* r, fd_set* w, fd_set*, struct timeval* tv) {
    std::vector<int> rd;
    for (int i = 0; i < n; ++i) if (r && FD_ISSET(i, r)) rd.push_back(i);
    auto any = [&rd] { for (int i : rd) if (VP x = vf(i)) if (readable(x)) return true; return false; };
    bool poll = (tv && !tv->tv_sec && !tv->tv_usec) || w;
    while (!poll && !any())
        block("select", any);
    int k = 0;
    for (int i : rd) {
        VP x = vf(i);
        if (x && readable(x)) ++k; else FD_CLR(i, r);
    }
    if (w) for (int i = 0; i < n; ++i) k += !!FD_ISSET(i, w);
    return k;
}
REAL(int, poll, (struct pollfd* p, nfds_t n, int timeout)) {
    bool sim = false;
    for (nfds_t i = 0; i < n; ++i) sim = sim || (p[i].fd >= 0 && vf(p[i].fd));
    if (!active || !cur || !sim) return __real_poll(p, n, timeout);
    auto scan = [p, n] {
        int k = 0;
        for (nfds_t i = 0; i < n; ++i) {
            VP x = p[i].fd >= 0 ? vf(p[i].fd) : VP();
            p[i].revents = 0;
            if (p[i].fd >= 0 && !x) p[i].revents = POLLNVAL;
            else if (x) {
                if (readable(x)) p[i].revents |= p[i].events & POLLIN;
                if (x->reset) p[i].revents |= POLLERR | POLLHUP;
                if (!x->reset && x->out.size() < x->outcap) p[i].revents |= p[i].events & POLLOUT;
            }
            k += p[i].revents != 0;
        }
        return k;
    };
    if (timeout && !scan())
        block("poll", [scan] { return scan() > 0; }, timeout < 0 ? 0 : now_us + (uint64_t) timeout * 1000);
    return scan();
}
ssize_t __wrap_recvfrom(int fd, void* buf, size_t n, int, struct sockaddr* a, socklen_t* al) {
    VP v = vf(fd);
    while (v->dgrams.empty())
        block("recvfrom", [v] { return !v->dgrams.empty(); });
    auto d = v->dgrams.front();
    v->dgrams.pop_front();
    if (a && al) {
        struct sockaddr_in s;
        memset(&s, 0, sizeof s);
        s.sin_family = AF_INET;
        s.sin_port = htons((uint16_t) d.second);
        memcpy(a, &s, std::min((size_t) *al, sizeof s));
        *al = sizeof s;
    }
    size_t k = std::min(n, d.first.size());
    memcpy(buf, d.first.data(), k);
    if (v->onread) v->onread(d.first.substr(0, k));
    return k;
}
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int, const struct sockaddr* a, socklen_t) {
    if (n > 65507) { errno = EMSGSIZE; return -1; }
    vf(fd)->sent.push_back({std::string((const char*) b, n), ntohs(((const struct sockaddr_in*) a)->sin_port)});
    return n;
}
// ---- file descriptors
REAL(int, close, (int fd)) {
    if (VP v = vf(fd)) {
        v->closed = true;
        vfds.erase(fd);
        // a closed descriptor leaves every epoll set
        for (auto& p : vfds)
            if (p.second->kind == VFd::EPOLL) {
                auto& w = p.second->watch;
                w.erase(std::remove_if(w.begin(), w.end(), [fd](std::pair<int, void*>& x) { return x.first == fd; }), w.end());
            }
    }
    return __real_close(fd);
}
static ssize_t vread(VP v, void* b, size_t n) {
    while (!readable(v))
        block("read", [v] { return readable(v); });
    if (v->reset) { errno = ECONNRESET; return -1; }
    size_t k = std::min(n, v->in.size());
    std::string got = v->in.substr(0, k);
    memcpy(b, got.data(), k);
    v->in.erase(0, k);
    v->nread += k;
    if (v->onread) v->onread(got);
    return k;
}
static ssize_t vwrite(VP v, const void* b, size_t n, bool nosignal) {
    if (v->kind == VFd::PIPE) { v->peer->in.append((const char*) b, n); return n; }
    if (n == 0) return 0;
    while (!v->reset && v->out.size() >= v->outcap)
        block("write", [v] { return v->reset || v->out.size() < v->outcap; });
    if (v->reset) {
        auto it = handlers.find(SIGPIPE);
        if (!nosignal && (it == handlers.end() || it->second == SIG_DFL)) fatal("SIGPIPE");
        errno = EPIPE;
        return -1;
    }
    size_t k = std::min(n, v->outcap - v->out.size());
    if (short_write) k = std::max<size_t>(1, std::min(k, short_write(v, k)));
    v->out.append((const char*) b, k);
    return k;
}
REAL(ssize_t, read, (int fd, void* b, size_t n)) { VP v = active ? vf(fd) : VP(); return v ? vread(v, b, n) : __real_read(fd, b, n); }
REAL(ssize_t, recv, (int fd, void* b, size_t n, int fl)) { VP v = vf(fd); return v ? vread(v, b, n) : __real_recv(fd, b, n, fl); }
static bool tracked(int fd, struct stat* st) { return active && fd > 2 && fstat(fd, st) == 0 && S_ISREG(st->st_mode); }
REAL(ssize_t, write, (int fd, const void* b, size_t n)) {
    if (!active) return __real_write(fd, b, n);
    if (VP v = vf(fd)) return vwrite(v, b, n, false);
    struct stat st;
    if (!tracked(fd, &st)) return __real_write(fd, b, n);
    synced.emplace(st.st_ino, (uint64_t) st.st_size);
    fileop("write");
    return __real_write(fd, b, n);
}
REAL(ssize_t, send, (int fd, const void* b, size_t n, int fl)) { VP v = vf(fd); return v ? vwrite(v, b, n, fl & MSG_NOSIGNAL) : __real_send(fd, b, n, fl); }
REAL(ssize_t, writev, (int fd, const struct iovec* v, int n)) {
    if (!active) return __real_writev(fd, v, n);
    ssize_t r = 0;
    for (int i = 0; i < n; ++i) {
        ssize_t k = __wrap_write(fd, v[i].iov_base, v[i].iov_len);
        if (k < 0) return r ? r : k;
        r += k;
        if ((size_t) k < v[i].iov_len) break;
    }
    return r;
}
static void did_sync(int fd) {
    struct stat st;
    if (tracked(fd, &st)) synced[st.st_ino] = st.st_size;
}
int __wrap_fsync(int fd) { fileop("fsync"); did_sync(fd); return 0; }
int __wrap_fdatasync(int fd) { fileop("fsync"); did_sync(fd); return 0; }
REAL(int, ftruncate, (int fd, off_t n)) {
    if (active) fileop("ftruncate");
    int r = __real_ftruncate(fd, n);
    struct stat st;
    if (r == 0 && tracked(fd, &st)) {
        auto it = synced.find(st.st_ino);
        if (it == synced.end()) synced[st.st_ino] = n;
        else if (it->second > (uint64_t) n) it->second = n;
    }
    return r;
}
REAL(int, rename, (const char* a, const char* b)) { if (active) fileop("rename"); return __real_rename(a, b); }
REAL(int, unlink, (const char* a)) { if (active) fileop("unlink"); return __real_unlink(a); }
REAL(int, creat, (const char* p, mode_t m)) {
    if (active) fileop("creat");
    int fd = __real_creat(p, m);
    struct stat st;
    if (fd >= 0 && tracked(fd, &st)) synced[st.st_ino] = 0;
    return fd;
}
int __real_open(const char* p, int fl, ...);
int __wrap_open(const char* p, int fl, ...) {
    mode_t m = 0;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    if (active && (fl & (O_CREAT | O_TRUNC))) fileop("creat");
    int fd = __real_open(p, fl, m);
    struct stat st;
    if (fd >= 0 && (fl & (O_CREAT | O_TRUNC)) && tracked(fd, &st) && st.st_size == 0) synced[st.st_ino] = 0;
    return fd;
}
int __real_open64(const char* p, int fl, ...);
int __wrap_open64(const char* p, int fl, ...) {
    mode_t m = 0;
    if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    return __wrap_open(p, fl, m);
}
void masstree_verif_pool_acquire(void*, size_t) {}
void masstree_verif_pool_release(void*, size_t) {}
// the hook in kvthread.hh, checkpoint.cc and log.cc
void masstree_verif_yield(const char* what) {
    if (active && cur && want_yield && want_yield(what)) yield(what);
}
} // extern "C"

namespace sim {
static int newfd(VP v) {
    int fd = __real_open("/dev/null", O_RDWR);
    if (fd < 0) { perror("/dev/null"); abort(); }
    v->fd = fd;
    v->closed = false;
    vfds[fd] = v;
    return fd;
}
}
