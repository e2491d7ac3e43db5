// See dsim.hh.  This file is compiled WITHOUT -fsanitize=thread.
#include "dsim.hh"
#include <sys/mman.h>
#include <sys/socket.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <pthread.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <malloc.h>
#include <map>

extern "C" {
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_open(const char*, int, ...);
int __real_close(int); int __real_fsync(int); int __real_ftruncate(int, off_t); int __real_rename(const char*, const char*); int __real_unlink(const char*);
int __real_sigaction(int, const struct sigaction*, struct sigaction*); void __real_free(void*); void* __real_realloc(void*, size_t);
}
namespace sim {
config cfg; rng R(1); filetab* files; uint64_t file_calls; const char* stuck_note = "";
bool listening = false; std::deque<vdgram> udp_in[8], udp_out;
static uint64_t vnow;
struct fiber { void* sp; char* stack; std::function<void()> fn; std::function<bool()> pred; uint64_t wake; bool done, server; };
static const int MAXF = 96; static fiber F[MAXF]; static int nf, cur = -1; static const size_t STK = 512 << 10;
static long budget = 1 << 30; static int alone;
static void* main_sp;

extern "C" void vs_swtch(void** save, void* to);
asm(R"(
.text
.globl vs_swtch
vs_swtch:
  push %rbp
  push %rbx
  push %r12
  push %r13
  push %r14
  push %r15
  mov %rsp, (%rdi)
  mov %rsi, %rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbx
  pop %rbp
  ret
)");

uint64_t now() { return vnow; }
void finish(int code) { fflush(stdout); fflush(stderr); _exit(code); }
static void refill() { budget = 1 + R.below(2 * cfg.preempt); }
static bool runnable(int i) { return !F[i].done && F[i].wake <= vnow && (!F[i].pred || F[i].pred()); }
static void check_crash() {
    if (vnow >= cfg.crash_at && (!cfg.crash_in_sync || vnow >= cfg.crash_at + 1500000)) finish(EXIT_CRASH);
    if (vnow >= cfg.limit) { fprintf(stderr, "stuck: %s\n", stuck_note); finish(EXIT_STUCK); }
}
// picks who runs next; `me` may be chosen again
static void schedule() {
    int me = cur; refill();
    vnow += 1 + R.below(10);
    while (true) {
        check_crash();
        int c[MAXF], n = 0; uint64_t next = ~0ull;
        for (int i = 0; i < nf; ++i) { if (runnable(i)) c[n++] = i; else if (!F[i].done && F[i].wake > vnow && F[i].wake < next) next = F[i].wake; }
        if (!n) { if (next == ~0ull) { fprintf(stderr, "deadlock: %s\n", stuck_note); finish(EXIT_STUCK); } vnow = next; continue; }
        if (n == 1 && c[0] == me && next != ~0ull && ++alone > 40) { alone = 0; vnow = next; continue; }   // a thread that spins lets time pass
        int to = c[R.below(n)];
        if (to == me) return;
        alone = 0; cur = to; vs_swtch(&F[me].sp, F[to].sp);
        return;
    }
}
static void fiber_main() { F[cur].fn(); F[cur].done = true; while (true) schedule(); }
int spawn(std::function<void()> fn, bool server) {
    int i = nf++; if (i >= MAXF) abort();
    fiber& f = F[i]; f.stack = (char*) mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    f.fn = fn; f.done = false; f.wake = 0; f.server = server;
    uintptr_t* sp = (uintptr_t*)((uintptr_t)(f.stack + STK - 64) & ~63ul);
    *--sp = 0; *--sp = (uintptr_t) fiber_main; for (int k = 0; k < 6; ++k) *--sp = 0;
    f.sp = sp; return i;
}
void run(std::function<void()> fn) { R = rng(cfg.seed); refill(); vnow = 0; spawn(fn, true); cur = 0; vs_swtch(&main_sp, F[0].sp); abort(); }
void sleep_us(uint64_t us) { if (cur < 0) return; F[cur].wake = vnow + us; schedule(); }
void block(std::function<bool()> pred) { if (pred()) return; F[cur].pred = pred; schedule(); F[cur].pred = nullptr; }
static void preempt() {
    if (F[cur].server && cfg.pause > 0 && vnow < cfg.quiet_from && R.chance(cfg.pause)) {
        uint64_t d = 1 + R.next() % cfg.pause_us; if (R.below(2)) d = d % 1000 + 1;
        if (vnow + d > cfg.quiet_from) d = cfg.quiet_from > vnow ? cfg.quiet_from - vnow : 0;
        F[cur].wake = vnow + d;
    }
    schedule();
}
static inline void hit() { if (cur >= 0 && --budget <= 0) preempt(); }
static void point() { if (cur >= 0) { hit(); if (R.below(4) == 0) preempt(); } }

// ------------------------------------------------------------------ files --
static std::map<int, std::string> fdpath;
static filerec* frec(const std::string& p, bool make) {
    for (uint32_t i = 0; i < files->n; ++i) if (p == files->f[i].path) return &files->f[i];
    if (!make) return nullptr;
    if (files->n >= 64) abort();
    filerec* f = &files->f[files->n++]; snprintf(f->path, sizeof f->path, "%s", p.c_str()); f->synced = f->size = 0; return f;
}
static void file_op() { if (cur < 0) return; if (++file_calls == cfg.crash_call) finish(EXIT_CRASH); point(); }
static bool tracked(int fd) { return fdpath.count(fd); }

// ---------------------------------------------------------------- network --
struct pipe_t { std::deque<char> q; };
struct ep_t { std::map<int, epoll_data_t> fds; };
static std::map<int, vconn*> conns; static std::map<int, pipe_t*> rpipe, wpipe; static std::map<int, ep_t*> eps; static std::map<int, int> udpfd; static int nextfd = 300;
static std::deque<vconn*> backlog; static int listenfd = -1;
vconn* connect() { block([] { return listening; }); vconn* c = new vconn; backlog.push_back(c); return c; }
static bool readable(int fd) {
    if (fd == listenfd) return !backlog.empty();
    auto i = conns.find(fd); if (i != conns.end()) return !i->second->in.empty() || i->second->client_closed;
    auto j = rpipe.find(fd); if (j != rpipe.end()) return !j->second->q.empty();
    return false;
}
static void (*alarm_handler)(int); static uint64_t alarm_period;

// ---------------------------------------------------------------- threads --
struct vmutex { bool locked = false; }; static std::map<void*, vmutex> mutexes;
struct vcond { uint64_t gen = 0; std::deque<bool*> waiters; }; static std::map<void*, vcond> conds;
struct thr { bool done = false; void* ret = nullptr; }; static std::map<unsigned long, thr> thrs;
}
using namespace sim;

extern "C" {
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) { int id = spawn([fn, arg] { fn(arg); }, true); *t = id; point(); return 0; }
unsigned long __wrap_pthread_self() { return cur; }
int __wrap_pthread_join(pthread_t t, void**) { block([t] { return F[t].done; }); return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { mutexes[m]; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (cur < 0) return 0; point(); vmutex* v = &mutexes[m]; block([v] { return !v->locked; }); v->locked = true; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (cur < 0) return 0; mutexes[m].locked = false; point(); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { conds[c]; return 0; }
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t until) {
    bool woken = false; vcond* v = &conds[c]; v->waiters.push_back(&woken); mutexes[m].locked = false;
    if (until == ~0ull) block([&woken] { return woken; });
    else { while (!woken && vnow < until) { F[cur].wake = 0; F[cur].pred = [&woken, until] { return woken || vnow >= until; };
            // a timer fiber-less timeout: sleep in small steps
            F[cur].pred = nullptr; F[cur].wake = std::min<uint64_t>(until, vnow + 20000); schedule(); } }
    for (auto i = v->waiters.begin(); i != v->waiters.end(); ++i) if (*i == &woken) { v->waiters.erase(i); break; }
    vmutex* u = &mutexes[m]; block([u] { return !u->locked; }); u->locked = true;
    return woken ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, ~0ull); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    uint64_t t = ts->tv_sec * 1000000ull + ts->tv_nsec / 1000; return cwait(c, m, t > cfg.start_us ? t - cfg.start_us : 0);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) { for (bool* w : conds[c].waiters) if (!*w) { *w = true; break; } point(); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { for (bool* w : conds[c].waiters) *w = true; point(); return 0; }
int __wrap_nanosleep(const struct timespec* a, struct timespec*) { sleep_us(a->tv_sec * 1000000ull + a->tv_nsec / 1000); return 0; }
int __wrap_usleep(useconds_t u) { sleep_us(u); return 0; }
unsigned __wrap_sleep(unsigned s) { sleep_us(s * 1000000ull); return 0; }
int __wrap_sched_yield() { point(); return 0; }
int __wrap_gettimeofday(struct timeval* tv, void*) { vnow += 1; uint64_t t = cfg.start_us + vnow; tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t, struct timespec* ts) { vnow += 1; uint64_t t = cfg.start_us + vnow; ts->tv_sec = t / 1000000; ts->tv_nsec = t % 1000000 * 1000; return 0; }
time_t __real_time(time_t*); time_t __wrap_time(time_t* p) { if (cur < 0) return __real_time(p); time_t t = (cfg.start_us + vnow) / 1000000; if (p) *p = t; return t; }
typedef void (*sigh)(int);
sigh __wrap_signal(int s, sigh h) { if (s == SIGALRM) alarm_handler = h; else if (s == SIGPIPE) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; __real_sigaction(s, &a, nullptr); } return nullptr; }
int __wrap_sigaction(int s, const struct sigaction* a, struct sigaction* o) { if (s == SIGALRM && cur >= 0) { if (a) alarm_handler = a->sa_handler; return 0; } if (s == SIGPIPE || cur < 0) return __real_sigaction(s, a, o); return 0; }
int __wrap_setitimer(int, const struct itimerval* v, struct itimerval*) {
    alarm_period = v->it_interval.tv_sec * 1000000ull + v->it_interval.tv_usec;
    if (alarm_period) spawn([] { while (true) { sleep_us(alarm_period); if (alarm_handler) alarm_handler(SIGALRM); } }, false);
    return 0;
}

int __wrap_open(const char* path, int flags, ...) {
    mode_t mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
    if (cur < 0) return __real_open(path, flags, mode);
    file_op();
    int fd = __real_open(path, flags, mode);
    if (fd >= 0 && (flags & O_ACCMODE) != O_RDONLY) {
        fdpath[fd] = path; struct stat sb; fstat(fd, &sb); bool had = frec(path, false); filerec* f = frec(path, true);
        if (!had) f->synced = sb.st_size;
        if (flags & O_TRUNC) f->synced = 0;
        f->size = sb.st_size;
    }
    return fd;
}
int __wrap_creat(const char* path, mode_t mode) { return __wrap_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int __wrap_close(int fd) {
    if (cur < 0) return __real_close(fd);
    if (fd >= 300) {
        auto i = conns.find(fd); if (i != conns.end()) { i->second->server_closed = true; conns.erase(i); }
        for (auto& e : eps) e.second->fds.erase(fd);
        point(); return 0;
    }
    fdpath.erase(fd); return __real_close(fd);
}
static ssize_t conn_write(vconn* c, const char* p, size_t n) {
    if (c->client_closed) { raise(SIGPIPE); errno = EPIPE; return -1; }   // (ends the process if the server lets it)
    if (cfg.wchunk && n > cfg.wchunk) n = 1 + R.below(cfg.wchunk);
    c->out.insert(c->out.end(), p, p + n); point(); return n;
}
ssize_t __wrap_write(int fd, const void* buf, size_t n) {
    if (cur < 0) return __real_write(fd, buf, n);
    auto i = conns.find(fd); if (i != conns.end()) return conn_write(i->second, (const char*) buf, n);
    auto j = wpipe.find(fd); if (j != wpipe.end()) { j->second->q.insert(j->second->q.end(), (const char*) buf, (const char*) buf + n); point(); return n; }
    if (fd >= 300) { errno = EPIPE; return -1; }
    if (!tracked(fd)) return __real_write(fd, buf, n);
    file_op();
    ssize_t r = __real_write(fd, buf, n);
    if (r > 0) if (filerec* f = frec(fdpath[fd], false)) { struct stat sb; fstat(fd, &sb); f->size = sb.st_size; }
    return r;
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int k) { ssize_t t = 0; for (int i = 0; i < k; ++i) { ssize_t r = __wrap_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; } return t; }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { file_op(); if (tracked(fd)) if (filerec* f = frec(fdpath[fd], false)) if ((uint64_t) o < f->synced) f->synced = o; return pwrite64(fd, b, n, o); }
int __wrap_fsync(int fd) {
    if (cur < 0 || !tracked(fd)) return 0;
    file_op(); if (cfg.crash_in_sync && vnow >= cfg.crash_at) finish(EXIT_CRASH);
    filerec* f = frec(fdpath[fd], true); struct stat sb; fstat(fd, &sb); uint64_t n = sb.st_size;
    uint64_t d = R.below(cfg.sync_us + 1); if (vnow < cfg.quiet_from && R.chance(cfg.slow_sync)) d = R.below(1000000);
    if (vnow < cfg.quiet_from && vnow + d > cfg.quiet_from) d = cfg.quiet_from - vnow;
    sleep_us(d);
    if (fdpath.count(fd)) f = frec(fdpath[fd], true);
    if (n > f->synced) f->synced = n;
    return 0;
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n) {
    if (cur < 0) return __real_ftruncate(fd, n);
    file_op(); int r = __real_ftruncate(fd, n);
    if (r == 0 && tracked(fd)) { filerec* f = frec(fdpath[fd], true); if (f->synced > (uint64_t) n) f->synced = n; f->size = n; }
    return r;
}
int __wrap_rename(const char* a, const char* b) {
    if (cur < 0) return __real_rename(a, b);
    file_op(); int r = __real_rename(a, b);
    if (r == 0) {
        filerec* fa = frec(a, false); filerec* fb = frec(b, true); fb->synced = fa ? fa->synced : 0; fb->size = fa ? fa->size : 0;
        if (!fa) { struct stat sb; if (stat(b, &sb) == 0) fb->synced = fb->size = sb.st_size; } else fa->synced = fa->size = 0;
        for (auto& p : fdpath) if (p.second == a) p.second = b;
        if (cfg.commit_n && strstr(b, "kvd-ckp-gen") && --cfg.commit_n == 0) { cfg.crash_at = std::min(cfg.crash_at, vnow + cfg.commit_us); cfg.crash_in_sync = false; }
    }
    return r;
}
int __wrap_unlink(const char* a) { if (cur < 0) return __real_unlink(a); file_op(); int r = __real_unlink(a); if (filerec* f = frec(a, false)) f->synced = f->size = 0; return r; }

int __wrap_socket(int, int type, int) { int fd = nextfd++; if (type == SOCK_DGRAM) udpfd[fd] = -1; return fd; }
int __wrap_setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t) { auto i = udpfd.find(fd); if (i != udpfd.end()) i->second = ntohs(((const sockaddr_in*) a)->sin_port) - 2117; return 0; }
int __wrap_listen(int fd, int) { listening = true; listenfd = fd; return 0; }
int __wrap_accept(int, struct sockaddr*, socklen_t*) {
    block([] { return !backlog.empty(); });
    vconn* c = backlog.front(); backlog.pop_front(); c->fd = nextfd++; conns[c->fd] = c; c->accepted = true; point(); return c->fd;
}
int __wrap_pipe(int* p) { p[0] = nextfd++; p[1] = nextfd++; pipe_t* q = new pipe_t; rpipe[p[0]] = q; wpipe[p[1]] = q; return 0; }
ssize_t __wrap_read(int fd, void* buf, size_t n) {
    if (cur < 0 || fd < 300) return __real_read(fd, buf, n);
    point();
    auto j = rpipe.find(fd);
    if (j != rpipe.end()) {
        std::deque<char>* q = &j->second->q; block([q] { return !q->empty(); });
        size_t k = std::min(n, q->size()); for (size_t i = 0; i < k; ++i) { ((char*) buf)[i] = q->front(); q->pop_front(); } return k;
    }
    auto i = conns.find(fd); if (i == conns.end()) { errno = EBADF; return -1; }
    vconn* c = i->second; block([c] { return !c->in.empty() || c->client_closed; });
    size_t k = std::min(n, c->in.size()); ++c->served; if (k > cfg.chunk) k = cfg.chunk;
    for (size_t x = 0; x < k; ++x) { ((char*) buf)[x] = c->in.front(); c->in.pop_front(); }
    return k;
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int) { return __wrap_read(fd, b, n); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int fl) { auto i = conns.find(fd); if ((fl & MSG_NOSIGNAL) && i != conns.end() && i->second->client_closed) { errno = EPIPE; return -1; } return __wrap_write(fd, b, n); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int, struct sockaddr* a, socklen_t*) {
    int k = udpfd[fd]; if (k < 0 || k >= 8) k = 0;
    block([k] { return !udp_in[k].empty(); });
    vdgram d = udp_in[k].front(); udp_in[k].pop_front(); memcpy(b, d.data.data(), std::min(n, d.data.size()));
    if (a) ((sockaddr_in*) a)->sin_port = d.from;
    point(); return std::min(n, d.data.size());
}
ssize_t __wrap_sendto(int, const void* b, size_t n, int, const struct sockaddr* a, socklen_t) { udp_out.push_back(vdgram{std::string((const char*) b, n), ((const sockaddr_in*) a)->sin_port}); point(); return n; }
int __wrap_epoll_create(int) { int fd = nextfd++; eps[fd] = new ep_t; return fd; }
int __wrap_epoll_create1(int) { return __wrap_epoll_create(0); }
int __wrap_epoll_ctl(int e, int op, int fd, struct epoll_event* ev) {
    ep_t* p = eps[e]; if (op == EPOLL_CTL_DEL) { if (!p->fds.erase(fd)) { errno = ENOENT; return -1; } } else p->fds[fd] = ev->data; return 0;
}
int __wrap_epoll_wait(int e, struct epoll_event* ev, int maxev, int) {
    point(); ep_t* p = eps[e];
    block([p] { for (auto& x : p->fds) if (readable(x.first)) return true; return false; });
    std::vector<int> r; for (auto& x : p->fds) if (readable(x.first)) r.push_back(x.first);
    for (size_t i = r.size(); i > 1; --i) std::swap(r[i - 1], r[R.below(i)]);
    int n = 0; for (int fd : r) { if (n == maxev) break; ev[n].events = EPOLLIN; ev[n].data = p->fds[fd]; ++n; if (R.below(3) == 0) break; }
    return n;
}
int __wrap_select(int nfds, fd_set* r, fd_set*, fd_set*, struct timeval*) { int n = 0; point(); for (int fd = 0; r && fd < nfds && fd < FD_SETSIZE; ++fd) if (FD_ISSET(fd, r)) { if (readable(fd)) ++n; else FD_CLR(fd, r); } return n; }
int __wrap_poll(struct pollfd* p, unsigned long k, int timeout) {
    point(); auto any = [p, k] { for (unsigned long i = 0; i < k; ++i) if (readable(p[i].fd)) return true; return false; };
    if (timeout < 0) block(any); else if (timeout > 0) { uint64_t end = now() + timeout * 1000ull; while (!any() && now() < end) sleep_us(1000); }
    int n = 0; for (unsigned long i = 0; i < k; ++i) { p[i].revents = readable(p[i].fd) ? POLLIN : 0; n += p[i].revents != 0; } return n;
}
// released memory is overwritten, so that later uses of it show
static bool poison = true;
void __wrap_free(void* p) { if (!p) return; if (poison && cur >= 0) { size_t n = malloc_usable_size(p); memset(p, 0xDD, n < 65536 ? n : 65536); } __real_free(p); }

// --------------------------------------------- inline assembly, see dsimcheck --
void sim_asm_hit() { if (cur >= 0) { budget -= 20; hit(); } }
asm(R"(
.text
.globl sim_asm_point
sim_asm_point:
  pushfq
  push %rax
  push %rcx
  push %rdx
  push %rsi
  push %rdi
  push %r8
  push %r9
  push %r10
  push %r11
  push %rbp
  mov %rsp, %rbp
  sub $576, %rsp
  and $-64, %rsp
  fxsave (%rsp)
  call sim_asm_hit
  fxrstor (%rsp)
  mov %rbp, %rsp
  pop %rbp
  pop %r11
  pop %r10
  pop %r9
  pop %r8
  pop %rdi
  pop %rsi
  pop %rdx
  pop %rcx
  pop %rax
  popfq
  ret
)");

// ------------------------------------------------------- tsan entry points --
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) { hit(); }
void __tsan_vptr_read(void**) { hit(); }
#define RW(n) void __tsan_read##n(void*) { hit(); } void __tsan_write##n(void*) { hit(); } \
  void __tsan_unaligned_read##n(void*) { hit(); } void __tsan_unaligned_write##n(void*) { hit(); } \
  void __tsan_volatile_read##n(void*) { hit(); } void __tsan_volatile_write##n(void*) { hit(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, size_t) { hit(); }
void __tsan_write_range(void*, size_t) { hit(); }
void __tsan_atomic_thread_fence(int) { hit(); }
void __tsan_atomic_signal_fence(int) {}
#define ATOM(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T* a, int) { hit(); return *a; } \
 void __tsan_atomic##bits##_store(volatile T* a, T v, int) { hit(); *a = v; } \
 T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { hit(); T o = *a; *a = v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { hit(); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { hit(); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { hit(); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { hit(); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { hit(); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { hit(); T o = *a; *a = ~(o & v); return o; } \
 static inline bool cas##bits(volatile T* a, T* e, T d) { hit(); if (*a == *e) { *a = d; return true; } *e = *a; return false; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T d, int, int) { return cas##bits(a, e, d); } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T d, int, int) { return cas##bits(a, e, d); } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T d, int, int) { T x = e; cas##bits(a, &x, d); return x; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
}
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
