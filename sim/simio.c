/* Simulated kernel: clocks, descriptors, epoll/poll, eventfd, pipes, stream
 * sockets, signals, children. Descriptors >= SIM_FD_BASE are simulated, others
 * reach the real kernel. */
#define _GNU_SOURCE
#include "sim.h"
#include "simio.h"
#include "simthr.h"
#include "simraw.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <time.h>
#include <sys/time.h>
#include <sys/epoll.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <netinet/tcp.h>

#define RAW(n, ...)  raw_syscall(n, ##__VA_ARGS__)
sim_io_cfg_t sim_io;
uint64_t sim_bytes_written, sim_bytes_read, sim_epoll_waits;
int64_t sim_last_wait_timeout = -1;
void (*sim_hook_poll_enter)(int timeout);
void (*sim_hook_poll_ret)(int n, const int *fds, const uint32_t *evs);

static bool interrupt_pending(void);
static void deliver_signals(void);

void sim_io_config_random(void)
{
    static const uint32_t p[] = { 0, 0, 20, 100, 300, 700 };
    memset(&sim_io, 0, sizeof(sim_io));
    sim_io.short_rd = p[sim_choose(ST_CFG, 6)];
    sim_io.short_wr = p[sim_choose(ST_CFG, 6)];
    sim_io.eagain_rd = p[sim_choose(ST_CFG, 4)];
    sim_io.eagain_wr = p[sim_choose(ST_CFG, 4)];
    sim_io.eintr = p[sim_choose(ST_CFG, 4)];
    static const uint32_t sb[] = { 1 << 18, 1 << 16, 4096, 512, 1 << 14 };
    sim_io.sndbuf = sb[sim_choose(ST_CFG, 5)];
    static const uint32_t dl[] = { 0, 100, 2000, 50000, 500000 };
    sim_io.delay_max_us = dl[sim_choose(ST_CFG, 5)];
    sim_io.split = p[sim_choose(ST_CFG, 5)];
    sim_io.conn_delay_max_us = dl[sim_choose(ST_CFG, 4)];
    sim_io.shuffle = sim_choose(ST_CFG, 2);
    sim_io.late_wake_us = sim_choose(ST_CFG, 3) == 2 ? 3000 : 0;
}

/* {{{ clocks */

int64_t sim_clock_tick = 200;           /* a clock read takes time */

int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
    int64_t t;
    sim_now_ns += sim_clock_tick;
    t = sim_now_ns;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += sim_real_off_ns;
    ts->tv_sec = t / SIM_S;
    ts->tv_nsec = t % SIM_S;
    return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    int64_t t;
    sim_now_ns += sim_clock_tick;
    t = sim_now_ns + sim_real_off_ns;
    tv->tv_sec = t / SIM_S;
    tv->tv_usec = t % SIM_S / 1000;
    (void)tz;
    return 0;
}
time_t __wrap_time(time_t *p)
{
    time_t t;
    sim_now_ns += sim_clock_tick;
    t = (sim_now_ns + sim_real_off_ns) / SIM_S;
    if (p) *p = t;
    return t;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *r)
{
    (void)r;
    sim_sleep_until(sim_now_ns + a->tv_sec * SIM_S + a->tv_nsec);
    return 0;
}
int __wrap_usleep(useconds_t u) { sim_sleep_until(sim_now_ns + u * 1000ll); return 0; }
unsigned __wrap_sleep(unsigned s) { sim_sleep_until(sim_now_ns + s * SIM_S); return 0; }
pid_t __wrap_getpid(void) { return 4242; }
int __wrap_rand(void) { return sim_rand64(ST_MISC) & 0x7fffffff; }
void __wrap_srand(unsigned s) { (void)s; }
long __real_sysconf(int);
int sim_nb_cpu = 4;
long __wrap_sysconf(int n)
{
    if (n == _SC_NPROCESSORS_CONF || n == _SC_NPROCESSORS_ONLN) return sim_nb_cpu;
    return __real_sysconf(n);
}

/* }}} */
/* {{{ objects */

enum { K_FREE, K_MANUAL, K_EVENTFD, K_STREAM, K_LISTEN, K_EPOLL, K_SOCKET };

typedef struct stream_t {           /* one direction */
    uint8_t *buf;
    uint64_t rd, arrived, total;    /* absolute offsets */
    uint64_t base;                  /* offset of buf[0] */
    size_t   cap;
    bool     fin_sent, fin, rst;
    int64_t  last_at;
} stream_t;

typedef struct conn_t {
    stream_t dir[2];                /* dir[i]: written by side i */
    int      open[2];
    bool     reset;
    bool     pipe;
    struct sockaddr_storage addr[2];
    socklen_t alen[2];
    int64_t  hold_until;
    bool     raw;
    bool     unx, seq;              /* AF_UNIX; SOCK_SEQPACKET */
    struct seg_t *segs[2];          /* AF_UNIX: what each sendmsg sent */
    int      nseg[2];
} conn_t;

typedef struct ep_t { int fd; uint32_t ev; uint64_t data; bool on; bool et_armed; struct obj_t *o; } ep_t;
#define EP_MAX 128
#define SEG_FDS 32
#define SEG_MAX 512
typedef struct seg_t { uint64_t start, end; int nfd; struct obj_t *fds[SEG_FDS]; } seg_t;
typedef struct obj_t {
    int      kind, refs;
    int      stype;
    int      flags;                 /* O_NONBLOCK */
    uint32_t ready;                 /* manual */
    uint64_t counter;               /* eventfd */
    conn_t  *c; int side;           /* stream */
    int      connecting, soerr;     /* socket */
    int      domain;
    struct sockaddr_storage addr; socklen_t alen; bool bound;
    struct obj_t *q[64]; int nq;    /* listen */
    int      backlog;
    ep_t    *ep; int nep;           /* epoll */
} obj_t;

#define NFD 512
static obj_t *fdt[NFD];
static conn_t *conns[512];
static int nconns;
static int64_t part_until;
static bool refuse_all, blackhole;

static void *xalloc(size_t n)
{
    void *p = (void *)RAW(SYS_mmap, NULL, (n + 4095) & ~4095ull, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    return p;
}
/* small bump allocator private to the simulator */
static uint8_t pool[1 << 22];
static size_t pool_pos;
static void *palloc(size_t n)
{
    n = (n + 15) & ~15ull;
    if (pool_pos + n > sizeof(pool)) return xalloc(n);
    void *p = pool + pool_pos;
    pool_pos += n;
    return p;
}
static obj_t *obj_free_list[NFD];
static int nobj_free;
static obj_t *obj_new(int kind)
{
    obj_t *o = nobj_free ? obj_free_list[--nobj_free] : palloc(sizeof(*o));
    memset(o, 0, sizeof(*o));
    o->kind = kind;
    return o;
}
static int fd_alloc(obj_t *o)
{
    for (int i = 0; i < NFD; i++) {
        if (!fdt[i]) {
            fdt[i] = o;
            o->refs++;
            return SIM_FD_BASE + i;
        }
    }
    errno = EMFILE;
    return -1;
}
static inline obj_t *get(int fd)
{
    if (fd < SIM_FD_BASE || fd >= SIM_FD_BASE + NFD) return NULL;
    return fdt[fd - SIM_FD_BASE];
}
/* files of the simulated disk, when there is one (simfs.c) */
__attribute__((weak)) int simfs_is(int fd);
__attribute__((weak)) ssize_t simfs_writev(int fd, const struct iovec *v, int n);
__attribute__((weak)) ssize_t simfs_readv(int fd, const struct iovec *v, int n);
__attribute__((weak)) int simfs_close(int fd);
#define ISFS(fd) (simfs_is && simfs_is(fd))
#define ISSIM(fd) ((fd) >= SIM_FD_BASE && (fd) < SIM_FD_BASE + NFD)
#define BAD(o) do { if (!(o)) { errno = EBADF; return -1; } } while (0)

bool sim_fd_is_open(int fd) { return get(fd) != NULL; }
int sim_nb_open(void) { int n = 0; for (int i = 0; i < NFD; i++) n += fdt[i] != NULL; return n; }

static void st_append(stream_t *s, const void *b, size_t n)
{
    if (s->total - s->base + n > s->cap) {
        /* compact then grow */
        memmove(s->buf, s->buf + (s->rd - s->base), s->total - s->rd);
        s->base = s->rd;
        if (s->total - s->base + n > s->cap) {
            size_t nc = s->cap ? s->cap * 2 : 8192;
            while (nc < s->total - s->base + n) nc *= 2;
            uint8_t *nb = xalloc(nc);
            memcpy(nb, s->buf, s->total - s->base);
            if (s->buf) RAW(SYS_munmap, s->buf, (s->cap + 4095) & ~4095ull);
            s->buf = nb;
            s->cap = nc;
        }
    }
    memcpy(s->buf + (s->total - s->base), b, n);
    s->total += n;
}

static void ev_arrive(void *a, uint64_t upto)
{
    stream_t *s = a;
    if (!s->rst && upto > s->arrived) s->arrived = upto;
}
static void ev_fin(void *a, uint64_t b)
{
    stream_t *s = a;
    (void)b;
    if (!s->rst) { s->arrived = s->total; s->fin = true; }
}
static int64_t arrival(conn_t *c, stream_t *s)
{
    int64_t t = sim_now_ns;
    if (c->raw) { return s->last_at > t ? s->last_at : t; }
    if (sim_io.delay_max_us)
        t += 1000ll * sim_range(ST_NET, sim_io.delay_min_us, sim_io.delay_max_us);
    if (t < part_until) { t = part_until; sim_fault("net-partition-delay"); }
    if (t < c->hold_until) t = c->hold_until;
    if (t < s->last_at) t = s->last_at;
    s->last_at = t;
    return t;
}
static void st_send(conn_t *c, stream_t *s, const void *b, size_t n)
{
    uint64_t from = s->total;
    st_append(s, b, n);
    sim_bytes_written += n;
    if (c->pipe || c->unx || (!sim_io.delay_max_us && part_until <= sim_now_ns && c->hold_until <= sim_now_ns
                    && s->last_at <= sim_now_ns)) {
        s->arrived = s->total;
        return;
    }
    /* segments may arrive separately */
    if (n > 1 && sim_io.split && sim_chance(ST_NET, sim_io.split, 1000)) {
        uint64_t cut = from + 1 + sim_choose(ST_NET, n - 1);
        sim_fault("net-split-delivery");
        sim_at(arrival(c, s), ev_arrive, s, cut);
    }
    sim_at(arrival(c, s), ev_arrive, s, s->total);
}
static void st_fin(conn_t *c, stream_t *s)
{
    if (s->fin_sent) return;
    s->fin_sent = true;
    if (c->pipe || c->unx) { s->fin = true; return; }
    sim_at(arrival(c, s), ev_fin, s, 0);
}
static void ev_rst(void *a, uint64_t b)
{
    conn_t *c = a;
    (void)b;
    c->reset = true;
    for (int i = 0; i < 2; i++) { c->dir[i].rst = true; }
}

static uint32_t obj_ready(obj_t *o)
{
    uint32_t r = 0;
    switch (o->kind) {
      case K_MANUAL: return o->ready;
      case K_EVENTFD:
        if (o->counter) r |= POLLIN;
        if (o->counter < UINT64_MAX - 1) r |= POLLOUT;
        return r;
      case K_STREAM: {
        conn_t *c = o->c;
        stream_t *in = &c->dir[1 - o->side], *out = &c->dir[o->side];
        if (c->pipe) {
            if (o->side == 0) {       /* write end */
                if (!c->open[1]) return POLLOUT | POLLERR;
                if (out->total - out->rd < 65536) r |= POLLOUT;
            } else {
                if (in->arrived > in->rd) r |= POLLIN;
                if (in->fin) r |= POLLHUP;
            }
            return r;
        }
        if (c->reset) return POLLIN | POLLOUT | POLLERR | POLLHUP | POLLRDHUP;
        if (in->arrived > in->rd) r |= POLLIN;
        if (in->fin) r |= POLLIN | POLLRDHUP;
        if (in->fin && out->fin_sent) r |= POLLHUP;
        if (!out->fin_sent) { if (out->total - out->rd < sim_io.sndbuf || !sim_io.sndbuf) r |= POLLOUT; }
        else r |= POLLOUT;
        return r;
      }
      case K_LISTEN: return o->nq ? POLLIN : 0;
      case K_SOCKET:
        if (o->soerr) return POLLIN | POLLOUT | POLLERR | POLLHUP;
        if (o->connecting) return 0;
        return POLLOUT | POLLHUP;
      case K_EPOLL:
        for (int i = 0; i < o->nep; i++)
            if (o->ep[i].on && (obj_ready(o->ep[i].o) & (o->ep[i].ev | POLLERR | POLLHUP))) return POLLIN;
        return 0;
    }
    return 0;
}
uint32_t sim_fd_ready(int fd) { obj_t *o = get(fd); return o ? obj_ready(o) : 0; }
int sim_fd_manual(void) { return fd_alloc(obj_new(K_MANUAL)); }
void sim_fd_set_ready(int fd, uint32_t ev) { obj_t *o = get(fd); if (o) o->ready = ev; }

static void ep_forget(obj_t *o)
{
    for (int i = 0; i < NFD; i++) {
        obj_t *e = fdt[i];
        if (!e || e->kind != K_EPOLL) continue;
        for (int j = 0; j < e->nep; j++)
            if (e->ep[j].o == o) { memmove(&e->ep[j], &e->ep[j + 1], sizeof(ep_t) * (e->nep - j - 1)); e->nep--; j--; }
    }
}

static int obj_unref(obj_t *o);
static int obj_unref(obj_t *o)
{
    if (--o->refs > 0) return 0;
    ep_forget(o);
    if (o->kind == K_STREAM) {
        conn_t *c = o->c;
        stream_t *in = &c->dir[1 - o->side], *out = &c->dir[o->side];
        c->open[o->side] = 0;
        for (int i = 0; i < c->nseg[1 - o->side]; i++)       /* descriptors never received */
            for (int j = 0; j < c->segs[1 - o->side][i].nfd; j++) obj_unref(c->segs[1 - o->side][i].fds[j]);
        c->nseg[1 - o->side] = 0;
        if (c->pipe) {
            if (o->side == 0) out->fin = true;
        } else if (in->total > in->rd && !c->reset) {
            /* closing with unread data: the peer gets a reset */
            if (c->open[1 - o->side]) {
                out->fin_sent = true;
                sim_at(arrival(c, out), ev_rst, c, 0);
                sim_probe("net-close-unread-reset");
            }
        } else {
            st_fin(c, out);
        }
    } else if (o->kind == K_LISTEN) {
        for (int i = 0; i < o->nq; i++) { obj_t *q = o->q[i]; q->refs = 1; obj_unref(q); }
        o->nq = 0;
    }
    o->kind = K_FREE;
    obj_free_list[nobj_free++] = o;
    return 0;
}

int __wrap_close(int fd)
{
    obj_t *o;
    if (ISFS(fd)) return simfs_close(fd);
    if (!ISSIM(fd)) return RAW(SYS_close, fd);
    sim_point();
    o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    fdt[fd - SIM_FD_BASE] = NULL;
    return obj_unref(o);
}
int __wrap_dup(int fd)
{
    obj_t *o;
    if (!ISSIM(fd)) return RAW(SYS_dup, fd);
    o = get(fd); BAD(o);
    return fd_alloc(o);
}
int __wrap_dup2(int fd, int to)
{
    if (!ISSIM(fd) && !ISSIM(to)) return RAW(SYS_dup2, fd, to);
    errno = EBADF;
    return -1;
}

int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    long arg;
    va_start(ap, cmd);
    arg = va_arg(ap, long);
    va_end(ap);
    if (!ISSIM(fd)) return RAW(SYS_fcntl, fd, cmd, arg);
    obj_t *o = get(fd); BAD(o);
    switch (cmd) {
      case F_GETFL: return o->flags | O_RDWR;
      case F_SETFL: o->flags = arg & (O_NONBLOCK | O_APPEND); return 0;
      case F_GETFD: return FD_CLOEXEC;
      case F_SETFD: return 0;
      case F_DUPFD: case F_DUPFD_CLOEXEC: return fd_alloc(o);
    }
    errno = EINVAL;
    return -1;
}
int __wrap_ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    void *arg;
    va_start(ap, req);
    arg = va_arg(ap, void *);
    va_end(ap);
    if (!ISSIM(fd)) return RAW(SYS_ioctl, fd, req, arg);
    obj_t *o = get(fd); BAD(o);
    if (req == FIONREAD && o->kind == K_STREAM) {
        stream_t *in = &o->c->dir[1 - o->side];
        *(int *)arg = in->arrived - in->rd;
        return 0;
    }
    if (req == FIONBIO) { if (*(int *)arg) o->flags |= O_NONBLOCK; else o->flags &= ~O_NONBLOCK; return 0; }
    errno = ENOTTY;
    return -1;
}

/* }}} */
/* {{{ epoll, poll */

int __wrap_epoll_create(int n) { (void)n; obj_t *o = obj_new(K_EPOLL); o->ep = palloc(sizeof(ep_t) * EP_MAX); return fd_alloc(o); }
int __wrap_epoll_create1(int n) { return __wrap_epoll_create(n); }
int __wrap_epoll_ctl(int efd, int op, int fd, struct epoll_event *ev)
{
    obj_t *e = get(efd), *o = get(fd);
    sim_point();
    BAD(e); BAD(o);
    int i;
    for (i = 0; i < e->nep && !(e->ep[i].fd == fd && e->ep[i].o == o); i++) ;
    if (op == EPOLL_CTL_ADD) {
        if (i < e->nep) { errno = EEXIST; return -1; }
        if (e->nep == EP_MAX) { errno = ENOSPC; return -1; }
        e->nep++;
    } else if (i == e->nep) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_DEL) {
        memmove(&e->ep[i], &e->ep[i + 1], sizeof(ep_t) * (e->nep - i - 1));
        e->nep--;
        return 0;
    }
    e->ep[i] = (ep_t){ .fd = fd, .ev = ev->events, .data = ev->data.u64, .on = true, .et_armed = true, .o = o };
    return 0;
}
static bool ep_is_ready(obj_t *e)
{
    for (int i = 0; i < e->nep; i++)
        if (e->ep[i].on && (obj_ready(e->ep[i].o) & (e->ep[i].ev | EPOLLERR | EPOLLHUP))) return true;
    return false;
}
static bool pred_ep(void *p) { return ep_is_ready(p) || interrupt_pending(); }

int __wrap_epoll_wait(int efd, struct epoll_event *evs, int max, int timeout)
{
    obj_t *e = get(efd);
    BAD(e);
    sim_point();
    sim_epoll_waits++;
    sim_last_wait_timeout = timeout;
    if (sim_hook_poll_enter) sim_hook_poll_enter(timeout);
    sim_run_due();
    if (timeout && sim_io.eintr && sim_chance(ST_FAULT, sim_io.eintr, 1000)) {
        sim_fault("epoll-eintr");
        deliver_signals();
        if (sim_hook_poll_ret) sim_hook_poll_ret(-1, NULL, NULL);
        errno = EINTR;
        return -1;
    }
    if (!ep_is_ready(e) && timeout != 0) {
        int64_t dl = timeout < 0 ? SIM_INF : sim_now_ns + timeout * SIM_MS;
        if (timeout > 0 && sim_io.late_wake_us) dl += 1000ll * sim_choose(ST_TIME, sim_io.late_wake_us + 1);
        sim_block("epoll_wait", pred_ep, e, dl);
        sim_run_due();
    }
    if (interrupt_pending()) {
        deliver_signals();
        if (!ep_is_ready(e)) { if (sim_hook_poll_ret) sim_hook_poll_ret(-1, NULL, NULL); errno = EINTR; return -1; }
    }
    static int bfd[EP_MAX]; static uint32_t bev[EP_MAX];
    int n = 0, start = 0;
    if (sim_io.shuffle && e->nep > 1) start = sim_choose(ST_NET, e->nep);
    for (int k = 0; k < e->nep && n < max; k++) {
        ep_t *p = &e->ep[(start + k) % e->nep];
        uint32_t r = p->on ? obj_ready(p->o) & (p->ev | EPOLLERR | EPOLLHUP) : 0;
        if (!r) continue;
        evs[n].events = r;
        evs[n].data.u64 = p->data;
        bfd[n] = p->fd; bev[n] = r;
        n++;
        if (p->ev & EPOLLONESHOT) p->on = false;
    }
    if (sim_hook_poll_ret) sim_hook_poll_ret(n, bfd, bev);
    return n;
}
typedef struct { struct pollfd *p; nfds_t n; } pollarg_t;
static bool pred_poll(void *a)
{
    pollarg_t *pa = a;
    for (nfds_t i = 0; i < pa->n; i++) {
        obj_t *o = get(pa->p[i].fd);
        if (pa->p[i].fd < 0) continue;
        if (!o || (obj_ready(o) & (pa->p[i].events | POLLERR | POLLHUP))) return true;
    }
    return interrupt_pending();
}
int __wrap_poll(struct pollfd *p, nfds_t n, int timeout)
{
    pollarg_t pa = { p, n };
    int res = 0;
    for (nfds_t i = 0; i < n; i++)
        if (p[i].fd >= 0 && !ISSIM(p[i].fd)) return RAW(SYS_poll, p, n, timeout);
    sim_point();
    sim_run_due();
    if (timeout && sim_io.eintr && sim_chance(ST_FAULT, sim_io.eintr, 1000)) {
        sim_fault("poll-eintr");
        deliver_signals();
        errno = EINTR;
        return -1;
    }
    if (timeout && !pred_poll(&pa)) {
        int64_t dl = timeout < 0 ? SIM_INF : sim_now_ns + timeout * SIM_MS;
        sim_block("poll", pred_poll, &pa, dl);
        sim_run_due();
    }
    if (interrupt_pending()) {
        deliver_signals();
        errno = EINTR;
        return -1;
    }
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if (p[i].fd < 0) continue;
        obj_t *o = get(p[i].fd);
        p[i].revents = o ? obj_ready(o) & (p[i].events | POLLERR | POLLHUP) : POLLNVAL;
        if (p[i].revents) res++;
    }
    return res;
}

/* }}} */
/* {{{ sockets */

static conn_t *conn_new(void)
{
    conn_t *c = palloc(sizeof(*c));
    memset(c, 0, sizeof(*c));
    c->open[0] = c->open[1] = 1;
    if (nconns < 512) conns[nconns++] = c;
    return c;
}
static obj_t *mk_stream(conn_t *c, int side)
{
    obj_t *o = obj_new(K_STREAM);
    o->c = c;
    o->side = side;
    return o;
}
int __wrap_socketpair(int d, int t, int p, int sv[2])
{
    conn_t *c = conn_new();
    (void)p;
    obj_t *a = mk_stream(c, 0), *b = mk_stream(c, 1);
    a->domain = b->domain = d;
    a->stype = b->stype = t & 0xf;
    c->unx = d == AF_UNIX; c->seq = (t & 0xf) == SOCK_SEQPACKET;
    if (t & SOCK_NONBLOCK) a->flags = b->flags = O_NONBLOCK;
    sv[0] = fd_alloc(a);
    sv[1] = fd_alloc(b);
    return 0;
}
int sim_socketpair_raw(int sv[2])
{
    int r = __wrap_socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv);
    if (!r) get(sv[0])->c->unx = false;
    return r;
}
int __wrap_pipe2(int fds[2], int fl)
{
    conn_t *c = conn_new();
    c->pipe = true;
    obj_t *w = mk_stream(c, 0), *r = mk_stream(c, 1);
    if (fl & O_NONBLOCK) w->flags = r->flags = O_NONBLOCK;
    fds[0] = fd_alloc(r);
    fds[1] = fd_alloc(w);
    return 0;
}
int __wrap_pipe(int fds[2]) { return __wrap_pipe2(fds, 0); }
int __wrap_socket(int d, int t, int p)
{
    (void)p;
    obj_t *o = obj_new(K_SOCKET);
    o->domain = d;
    o->stype = t & 0xf;
    if (t & SOCK_NONBLOCK) o->flags = O_NONBLOCK;
    return fd_alloc(o);
}
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l)
{
    obj_t *o = get(fd); BAD(o);
    memcpy(&o->addr, a, l);
    o->alen = l;
    o->bound = true;
    return 0;
}
static bool addr_eq(obj_t *l, const struct sockaddr *a, socklen_t len)
{
    struct sockaddr *b = (struct sockaddr *)&l->addr;
    if (a->sa_family != b->sa_family) return false;
    if (a->sa_family == AF_INET) return ((struct sockaddr_in *)a)->sin_port == ((struct sockaddr_in *)b)->sin_port;
    if (a->sa_family == AF_INET6) return ((struct sockaddr_in6 *)a)->sin6_port == ((struct sockaddr_in6 *)b)->sin6_port;
    return len == l->alen && !memcmp(a, b, len);
}
int __wrap_listen(int fd, int bl)
{
    obj_t *o = get(fd); BAD(o);
    if (o->bound) {
        for (int i = 0; i < NFD; i++)
            if (fdt[i] && fdt[i] != o && fdt[i]->kind == K_LISTEN && addr_eq(fdt[i], (void *)&o->addr, o->alen)) {
                errno = EADDRINUSE;
                return -1;
            }
    }
    o->kind = K_LISTEN;
    o->backlog = bl;
    return 0;
}
static obj_t *find_listener(const struct sockaddr *a, socklen_t l)
{
    for (int i = 0; i < NFD; i++)
        if (fdt[i] && fdt[i]->kind == K_LISTEN && addr_eq(fdt[i], a, l)) return fdt[i];
    return NULL;
}
static int cport = 20000;
static obj_t *do_connect(obj_t *o, const struct sockaddr *a, socklen_t l)
{
    obj_t *ls = find_listener(a, l);
    if (!ls || ls->nq >= 60 || refuse_all) return NULL;
    conn_t *c = conn_new();
    obj_t *s = mk_stream(c, 1);
    s->domain = o->domain;
    s->stype = o->stype;
    c->unx = o->domain == AF_UNIX; c->seq = o->stype == SOCK_SEQPACKET;
    o->kind = K_STREAM;
    o->c = c;
    o->side = 0;
    struct sockaddr_in me = { .sin_family = AF_INET, .sin_port = htons(cport++), .sin_addr.s_addr = htonl(INADDR_LOOPBACK) };
    if (!c->unx) { memcpy(&c->addr[0], &me, sizeof(me)); c->alen[0] = sizeof(me); }
    memcpy(&c->addr[1], a, l); c->alen[1] = l;
    ls->q[ls->nq++] = s;
    return s;
}
static struct { obj_t *o; struct sockaddr_storage a; socklen_t l; bool used, lost; uint64_t gen; } pend[128];
static uint64_t cgen;
static void ev_connect(void *p, uint64_t gen)
{
    int i = (int)(intptr_t)p;
    if (!pend[i].used || pend[i].gen != gen) return;
    obj_t *o = pend[i].o;
    if (sim_now_ns < part_until) { sim_at(part_until, ev_connect, p, gen); return; }
    pend[i].used = pend[i].lost = false;
    if (o->kind != K_SOCKET || (uint64_t)o->connecting != gen) return;   /* closed meanwhile */
    o->connecting = 0;
    if (!do_connect(o, (void *)&pend[i].a, pend[i].l)) {
        sim_fault("net-connect-refused");
        o->soerr = ECONNREFUSED;
    }
}
static bool pred_conn(void *p) { obj_t *o = p; return o->kind != K_SOCKET || !o->connecting; }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
{
    obj_t *o = get(fd); BAD(o);
    sim_point();
    if (o->kind == K_STREAM) { errno = EISCONN; return -1; }
    if (o->kind != K_SOCKET) { errno = EINVAL; return -1; }
    if (o->connecting) { errno = EALREADY; return -1; }
    if (o->soerr) { errno = o->soerr; o->soerr = 0; return -1; }
    if (o->domain == AF_UNIX) {
        bool r = refuse_all;
        refuse_all = false;
        obj_t *s2 = do_connect(o, a, l);
        refuse_all = r;
        if (!s2) { sim_fault("unix-connect-refused"); errno = ECONNREFUSED; return -1; }
        return 0;
    }
    int i;
    for (i = 0; i < 127 && pend[i].used; i++) ;
    pend[i].o = o; memcpy(&pend[i].a, a, l); pend[i].l = l; pend[i].used = true; pend[i].lost = false; pend[i].gen = ++cgen;
    o->connecting = (int)cgen;
    if (blackhole) { sim_fault("net-syn-lost"); pend[i].lost = true; }
    else {
        int64_t at = sim_now_ns + (sim_io.conn_delay_max_us ? 1000ll * sim_choose(ST_NET, sim_io.conn_delay_max_us + 1) : 0);
        if (at == sim_now_ns && part_until <= sim_now_ns) { ev_connect((void *)(intptr_t)i, cgen); }
        else sim_at(at, ev_connect, (void *)(intptr_t)i, cgen);
    }
    if (o->kind == K_STREAM) return 0;
    if (!o->connecting) { errno = o->soerr; o->soerr = 0; return -1; }
    if (o->flags & O_NONBLOCK) { errno = EINPROGRESS; return -1; }
    sim_block("connect", pred_conn, o, blackhole ? sim_now_ns + 120 * SIM_S : SIM_INF);
    if (o->kind == K_STREAM) return 0;
    errno = o->soerr ? o->soerr : ETIMEDOUT;
    o->soerr = 0;
    return -1;
}
static bool pred_obj_in(void *p) { return obj_ready(p) & (POLLIN | POLLERR | POLLHUP); }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl)
{
    obj_t *o = get(fd); BAD(o);
    sim_point();
    if (o->kind != K_LISTEN) { errno = EINVAL; return -1; }
    if (o->nq && sim_io.eagain_rd && (o->flags & O_NONBLOCK) && sim_chance(ST_FAULT, sim_io.eagain_rd, 1000)) {
        sim_fault("accept-eagain");
        errno = EAGAIN;
        return -1;
    }
    if (!o->nq) {
        if (o->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
        sim_block("accept", pred_obj_in, o, SIM_INF);
    }
    obj_t *s = o->q[0];
    memmove(&o->q[0], &o->q[1], sizeof(o->q[0]) * --o->nq);
    if (fl & SOCK_NONBLOCK) s->flags |= O_NONBLOCK;
    if (a && l) {
        socklen_t n = *l < s->c->alen[0] ? *l : s->c->alen[0];
        memcpy(a, &s->c->addr[0], n);
        *l = s->c->alen[0];
    }
    return fd_alloc(s);
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { return __wrap_accept4(fd, a, l, 0); }
int __wrap_shutdown(int fd, int how)
{
    obj_t *o = get(fd); BAD(o);
    if (o->kind != K_STREAM) { errno = ENOTCONN; return -1; }
    if (how == SHUT_WR || how == SHUT_RDWR) st_fin(o->c, &o->c->dir[o->side]);
    if (how == SHUT_RD || how == SHUT_RDWR) o->c->dir[1 - o->side].fin = true;
    return 0;
}
static int copy_addr(struct sockaddr_storage *s, socklen_t sl, struct sockaddr *a, socklen_t *l)
{
    socklen_t n = *l < sl ? *l : sl;
    memcpy(a, s, n);
    *l = sl;
    return 0;
}
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *l)
{
    obj_t *o = get(fd); BAD(o);
    if (o->kind == K_STREAM && o->c->alen[o->side]) return copy_addr(&o->c->addr[o->side], o->c->alen[o->side], a, l);
    if (o->kind != K_STREAM && o->bound) return copy_addr(&o->addr, o->alen, a, l);
    struct sockaddr_un u = { .sun_family = AF_UNIX };
    return copy_addr((void *)&u, sizeof(sa_family_t), a, l);
}
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
    obj_t *o = get(fd); BAD(o);
    if (o->kind != K_STREAM) { errno = ENOTCONN; return -1; }
    if (o->c->alen[1 - o->side]) return copy_addr(&o->c->addr[1 - o->side], o->c->alen[1 - o->side], a, l);
    struct sockaddr_un u = { .sun_family = AF_UNIX };
    return copy_addr((void *)&u, sizeof(sa_family_t), a, l);
}
int __wrap_getsockopt(int fd, int lv, int op, void *v, socklen_t *l)
{
    obj_t *o = get(fd); BAD(o);
    if (lv == SOL_SOCKET && op == SO_ERROR) {
        *(int *)v = o->soerr;
        if (o->kind == K_STREAM && o->c->reset) *(int *)v = ECONNRESET;
        o->soerr = 0;
        *l = sizeof(int);
        return 0;
    }
    if (lv == SOL_SOCKET && op == SO_TYPE) { *(int *)v = o->stype ? o->stype : SOCK_STREAM; return 0; }
    if (lv == SOL_SOCKET && op == SO_DOMAIN) { *(int *)v = o->domain; return 0; }
    if (lv == SOL_SOCKET && op == SO_PEERCRED) {
        struct ucred *u = v;
        u->pid = 4242; u->uid = 0; u->gid = 0;
        return 0;
    }
    memset(v, 0, *l);
    return 0;
}
int __wrap_setsockopt(int fd, int lv, int op, const void *v, socklen_t l) { (void)lv; (void)op; (void)v; (void)l; obj_t *o = get(fd); BAD(o); return 0; }

int sim_net_nb_conns(void) { return nconns; }
void sim_net_reset_conn(int i)
{
    conn_t *c = conns[i];
    if (c->reset || c->pipe || (!c->open[0] && !c->open[1])) return;
    ev_rst(c, 0);
    sim_fault("net-reset");
}
void sim_net_partition(int64_t until) { part_until = until; sim_fault("net-partition"); }
int sim_net_conn_of_fd(int fd)
{
    obj_t *o = get(fd);
    if (o && o->kind == K_STREAM) for (int i = 0; i < nconns; i++) if (conns[i] == o->c) return i;
    return -1;
}
void sim_net_refuse(bool r) { refuse_all = r; }
void sim_net_blackhole(bool r)
{
    blackhole = r;
    if (r) return;
    /* lost SYNs are sent again */
    for (int i = 0; i < 128; i++)
        if (pend[i].used && pend[i].lost) { pend[i].lost = false; sim_at(sim_now_ns + SIM_S, ev_connect, (void *)(intptr_t)i, pend[i].gen); }
}

/* }}} */
/* {{{ read/write */

static bool pred_in(void *p) { return (obj_ready(p) & (POLLIN | POLLERR | POLLHUP)) || interrupt_pending(); }
static bool pred_out(void *p) { return (obj_ready(p) & (POLLOUT | POLLERR | POLLHUP)) || interrupt_pending(); }

static struct msghdr *cur_rmsg;
static ssize_t unx_recv(conn_t *c, int side, const struct iovec *iov, int cnt, size_t len);
static ssize_t do_readv(int fd, const struct iovec *iov, int cnt, int msgflags)
{
    obj_t *o = get(fd);
    bool nb;
    BAD(o);
    sim_point();
    sim_run_due();
    o = get(fd); BAD(o);
    nb = (o->flags & O_NONBLOCK) || (msgflags & MSG_DONTWAIT);
    size_t len = 0;
    for (int i = 0; i < cnt; i++) len += iov[i].iov_len;
    if (!nb && sim_io.eintr && sim_chance(ST_FAULT, sim_io.eintr, 1000)) { sim_fault("read-eintr"); errno = EINTR; return -1; }
    if (nb && sim_io.eagain_rd && o->kind == K_STREAM && !o->c->pipe && sim_chance(ST_FAULT, sim_io.eagain_rd, 1000)) {
        sim_fault("read-eagain"); errno = EAGAIN; return -1;
    }
    while (!(obj_ready(o) & (POLLIN | POLLERR | POLLHUP))) {
        if (nb) { errno = EAGAIN; return -1; }
        sim_block("read", pred_in, o, SIM_INF);
        if (interrupt_pending()) { deliver_signals(); errno = EINTR; return -1; }
        sim_run_due();
    }
    switch (o->kind) {
      case K_EVENTFD:
        if (len < 8) { errno = EINVAL; return -1; }
        memcpy(iov[0].iov_base, &o->counter, 8);
        o->counter = 0;
        return 8;
      case K_STREAM: {
        conn_t *c = o->c;
        stream_t *in = &c->dir[1 - o->side];
        if (c->pipe && o->side == 0) { errno = EBADF; return -1; }
        if (c->reset) { errno = ECONNRESET; return -1; }
        size_t av = in->arrived - in->rd;
        if (!av) { if (cur_rmsg) cur_rmsg->msg_controllen = 0; return 0; }
        if (c->unx && c->segs[1 - o->side]) return unx_recv(c, o->side, iov, cnt, len);
        if (len > av) len = av;
        if (len > 1 && !c->pipe && sim_io.short_rd && sim_chance(ST_FAULT, sim_io.short_rd, 1000)) {
            size_t k = 1 + sim_choose(ST_NET, len - 1 > 64 && sim_choose(ST_NET, 2) ? 64 : len - 1);
            if (k < len) { sim_fault("short-read"); len = k; }
        }
        size_t done = 0;
        for (int i = 0; i < cnt && done < len; i++) {
            size_t k = iov[i].iov_len < len - done ? iov[i].iov_len : len - done;
            memcpy(iov[i].iov_base, in->buf + (in->rd - in->base) + done, k);
            done += k;
        }
        if (!(msgflags & MSG_PEEK)) { in->rd += done; sim_bytes_read += done; }
        return done;
      }
      case K_SOCKET:
        errno = o->soerr ? o->soerr : ENOTCONN;
        return -1;
    }
    errno = EINVAL;
    return -1;
}
static const struct msghdr *cur_msg;     /* ancillary data of the call */
static ssize_t unx_send(conn_t *c, int side, const struct iovec *iov, int cnt, size_t len);
static ssize_t do_writev(int fd, const struct iovec *iov, int cnt, int msgflags)
{
    obj_t *o = get(fd);
    bool nb;
    BAD(o);
    sim_point();
    sim_run_due();
    o = get(fd); BAD(o);
    nb = (o->flags & O_NONBLOCK) || (msgflags & MSG_DONTWAIT);
    size_t len = 0;
    for (int i = 0; i < cnt; i++) len += iov[i].iov_len;
    if (o->kind == K_EVENTFD) {
        uint64_t v;
        if (len < 8) { errno = EINVAL; return -1; }
        memcpy(&v, iov[0].iov_base, 8);
        o->counter += v;
        return 8;
    }
    if (o->kind == K_SOCKET) { errno = o->soerr ? o->soerr : (o->connecting ? EAGAIN : ENOTCONN); return -1; }
    if (o->kind != K_STREAM) { errno = EINVAL; return -1; }
    if (!nb && sim_io.eintr && !(sim_io.whole_first && !o->c->dir[o->side].total) && sim_chance(ST_FAULT, sim_io.eintr, 1000)) { sim_fault("write-eintr"); errno = EINTR; return -1; }
    conn_t *c = o->c;
    stream_t *out = &c->dir[o->side];
    if (c->pipe && o->side == 1) { errno = EBADF; return -1; }
    size_t done = 0;
    for (;;) {
        if (c->reset) { errno = ECONNRESET; return done ? (ssize_t)done : -1; }
        if (out->fin_sent || (!c->open[1 - o->side] && (c->pipe || 1))) {
            /* peer closed: EPIPE (for TCP, after the RST comes back) */
            errno = EPIPE;
            return done ? (ssize_t)done : -1;
        }
        size_t cap = c->pipe ? 65536 : (sim_io.sndbuf ? sim_io.sndbuf : SIZE_MAX);
        size_t used = out->total - out->rd;
        size_t room = used < cap ? cap - used : 0;
        bool calm = sim_io.whole_first && !out->total;
        if (!calm && nb && room && !c->pipe && sim_io.eagain_wr && sim_chance(ST_FAULT, sim_io.eagain_wr, 1000)) { sim_fault("write-eagain"); errno = EAGAIN; return -1; }
        if (!room) {
            sim_probe("sndbuf-full");
            if (nb) { errno = EAGAIN; return done ? (ssize_t)done : -1; }
            sim_block("write", pred_out, o, SIM_INF);
            if (interrupt_pending()) { deliver_signals(); errno = EINTR; return done ? (ssize_t)done : -1; }
            continue;
        }
        if (c->unx) {
            if (c->nseg[o->side] >= SEG_MAX || (c->seq && used && room < len)) {
                sim_probe("sndbuf-full");
                if (nb) { errno = EAGAIN; return -1; }
                if (c->nseg[o->side] >= SEG_MAX) { errno = ENOBUFS; return -1; }
                sim_block("write", pred_out, o, SIM_INF);
                continue;
            }
            size_t k = len;
            if (!c->seq) {
                if (k > room) k = room;
                if (!calm && k > 1 && sim_io.short_wr && sim_chance(ST_FAULT, sim_io.short_wr, 1000)) { sim_fault("short-write"); k = 1 + sim_choose(ST_NET, k - 1); }
                if (!nb && k < len) k = len;
            }
            return unx_send(c, o->side, iov, cnt, k);
        }
        size_t want = len - done;
        size_t n = want < room ? want : room;
        if (!calm && n > 1 && !c->pipe && sim_io.short_wr && sim_chance(ST_FAULT, sim_io.short_wr, 1000)) {
            size_t k = 1 + sim_choose(ST_NET, n - 1 > 64 && sim_choose(ST_NET, 2) ? 64 : n - 1);
            if (k < n) { n = k; sim_fault("short-write"); }
        }
        /* copy [done, done + n) */
        size_t skip = done, left = n;
        uint64_t from = out->total;
        (void)from;
        uint8_t *tmp = NULL;
        size_t tl = 0;
        static uint8_t flat[1 << 20];
        if (n > sizeof(flat)) { n = left = sizeof(flat); }
        tmp = flat;
        for (int i = 0; i < cnt && left; i++) {
            if (skip >= iov[i].iov_len) { skip -= iov[i].iov_len; continue; }
            size_t k = iov[i].iov_len - skip;
            if (k > left) k = left;
            memcpy(tmp + tl, (uint8_t *)iov[i].iov_base + skip, k);
            tl += k; left -= k; skip = 0;
        }
        st_send(c, out, tmp, tl);
        done += tl;
        if (done == len || nb || n < want) return done;
    }
}
static ssize_t unx_send(conn_t *c, int side, const struct iovec *iov, int cnt, size_t len)
{
    stream_t *out = &c->dir[side];
    if (!c->segs[side]) c->segs[side] = xalloc(sizeof(seg_t) * (SEG_MAX + 1));
    seg_t *g = &c->segs[side][c->nseg[side]++];
    g->start = out->total;
    g->nfd = 0;
    size_t left = len;
    for (int i = 0; i < cnt && left; i++) {
        size_t k = iov[i].iov_len < left ? iov[i].iov_len : left;
        st_append(out, iov[i].iov_base, k);
        left -= k;
    }
    out->arrived = g->end = out->total;
    sim_bytes_written += len;
    if (cur_msg && cur_msg->msg_control) {
        for (struct cmsghdr *h = CMSG_FIRSTHDR((struct msghdr *)cur_msg); h; h = CMSG_NXTHDR((struct msghdr *)cur_msg, h)) {
            if (h->cmsg_level != SOL_SOCKET || h->cmsg_type != SCM_RIGHTS) continue;
            int n = (h->cmsg_len - CMSG_LEN(0)) / sizeof(int);
            for (int i = 0; i < n && g->nfd < SEG_FDS; i++) {
                int f; memcpy(&f, CMSG_DATA(h) + i * sizeof(int), sizeof(int));
                obj_t *fo = get(f);
                if (fo) { fo->refs++; g->fds[g->nfd++] = fo; sim_probe("fd-passed"); }
            }
        }
    }
    return len;
}
/* AF_UNIX reads: record boundaries and ancillary data */
static ssize_t unx_recv(conn_t *c, int side, const struct iovec *iov, int cnt, size_t len)
{
    int w = 1 - side;
    stream_t *in = &c->dir[w];
    size_t max = len, skip = 0;
    seg_t *g = c->segs[w];
    if (c->seq) {
        size_t k = g[0].end - in->rd;
        if (k > max) { skip = k - max; sim_probe("seqpacket-truncated"); } else max = k;
    } else {
        size_t av = in->arrived - in->rd;
        if (max > av) max = av;
        /* a read stops before the next message that carries descriptors */
        for (int i = 0; i < c->nseg[w]; i++)
            if ((i || g[i].start < in->rd) && g[i].nfd && g[i].start > in->rd && g[i].start - in->rd < max) { max = g[i].start - in->rd; break; }
        if (max > 1 && sim_io.short_rd && sim_chance(ST_FAULT, sim_io.short_rd, 1000)) { sim_fault("short-read"); max = 1 + sim_choose(ST_NET, max - 1); }
    }
    size_t done = 0;
    for (int i = 0; i < cnt && done < max; i++) {
        size_t k = iov[i].iov_len < max - done ? iov[i].iov_len : max - done;
        memcpy(iov[i].iov_base, in->buf + (in->rd - in->base) + done, k);
        done += k;
    }
    if (g[0].nfd && g[0].start == in->rd) {
        if (cur_rmsg && cur_rmsg->msg_control && cur_rmsg->msg_controllen >= CMSG_SPACE(g[0].nfd * sizeof(int))) {
            struct cmsghdr *h = cur_rmsg->msg_control;
            h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(g[0].nfd * sizeof(int));
            for (int i = 0; i < g[0].nfd; i++) { int f = fd_alloc(g[0].fds[i]); memcpy(CMSG_DATA(h) + i * sizeof(int), &f, sizeof(int)); g[0].fds[i]->refs--; }
            cur_rmsg->msg_controllen = CMSG_SPACE(g[0].nfd * sizeof(int));
        } else {
            for (int i = 0; i < g[0].nfd; i++) obj_unref(g[0].fds[i]);
            if (cur_rmsg) { cur_rmsg->msg_controllen = 0; cur_rmsg->msg_flags |= MSG_CTRUNC; }
        }
        g[0].nfd = 0;
    } else if (cur_rmsg) cur_rmsg->msg_controllen = 0;
    in->rd += done + skip;
    sim_bytes_read += done;
    int n = 0;
    while (n < c->nseg[w] && g[n].end <= in->rd) n++;
    memmove(g, g + n, sizeof(*g) * (c->nseg[w] - n));
    c->nseg[w] -= n;
    return done;
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    struct iovec v = { b, n };
    if (ISFS(fd)) return simfs_readv(fd, &v, 1);
    if (!ISSIM(fd)) { return RAW(SYS_read, fd, b, n); }
    return do_readv(fd, &v, 1, 0);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    struct iovec v = { (void *)b, n };
    if (ISFS(fd)) return simfs_writev(fd, &v, 1);
    if (!ISSIM(fd)) { return RAW(SYS_write, fd, b, n); }
    return do_writev(fd, &v, 1, 0);
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) { return ISFS(fd) ? simfs_readv(fd, v, n) : ISSIM(fd) ? do_readv(fd, v, n, 0) : RAW(SYS_readv, fd, v, n); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { return ISFS(fd) ? simfs_writev(fd, v, n) : ISSIM(fd) ? do_writev(fd, v, n, 0) : RAW(SYS_writev, fd, v, n); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { struct iovec v = { b, n }; return do_readv(fd, &v, 1, fl); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { struct iovec v = { (void *)b, n }; return do_writev(fd, &v, 1, fl); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { (void)a; (void)l; return __wrap_recv(fd, b, n, fl); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { (void)a; (void)l; return __wrap_send(fd, b, n, fl); }
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int fl) { m->msg_flags = 0; cur_rmsg = m; ssize_t r = do_readv(fd, m->msg_iov, m->msg_iovlen, fl); cur_rmsg = NULL; obj_t *o = get(fd); if (r <= 0 || !o || o->kind != K_STREAM || !o->c->unx) m->msg_controllen = 0; return r; }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) { cur_msg = m; ssize_t r = do_writev(fd, m->msg_iov, m->msg_iovlen, fl); cur_msg = NULL; return r; }

/* harness side peers */
static obj_t *peer_obj(int fd) { return get(fd); }
int sim_peer_connect(int port)
{
    struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = htons(port), .sin_addr.s_addr = htonl(INADDR_LOOPBACK) };
    obj_t *o = obj_new(K_SOCKET);
    o->domain = AF_INET;
    if (!do_connect(o, (void *)&a, sizeof(a))) {
        obj_free_list[nobj_free++] = o;
        return -1;
    }
    o->flags = O_NONBLOCK;
    return fd_alloc(o);
}
ssize_t sim_peer_read(int fd, void *b, size_t n)
{
    obj_t *o = peer_obj(fd);
    if (!o || o->kind != K_STREAM) return -1;
    stream_t *in = &o->c->dir[1 - o->side];
    if (o->c->reset) return -1;
    size_t av = in->arrived - in->rd;
    if (!av) return in->fin ? -1 : 0;
    if (n > av) n = av;
    memcpy(b, in->buf + (in->rd - in->base), n);
    in->rd += n;
    return n;
}
ssize_t sim_peer_write(int fd, const void *b, size_t n)
{
    obj_t *o = peer_obj(fd);
    if (!o || o->kind != K_STREAM || o->c->reset || !o->c->open[1 - o->side] || o->c->dir[o->side].fin_sent) return -1;
    if (n) st_send(o->c, &o->c->dir[o->side], b, n);
    return n;
}
void sim_peer_close(int fd) { obj_t *o = get(fd); if (o) { fdt[fd - SIM_FD_BASE] = NULL; obj_unref(o); } }
void sim_peer_shutdown(int fd) { obj_t *o = get(fd); if (o && o->kind == K_STREAM) st_fin(o->c, &o->c->dir[o->side]); }
bool sim_peer_was_reset(int fd) { obj_t *o = peer_obj(fd); return o && o->kind == K_STREAM && o->c->reset; }
bool sim_peer_gone(int fd)
{
    obj_t *o = get(fd);
    if (!o || o->kind != K_STREAM) return true;
    stream_t *in = &o->c->dir[1 - o->side];
    return o->c->reset || (in->fin && in->arrived == in->rd);
}

/* }}} */
/* {{{ signals and children */

static struct sigaction sa[65];
static uint64_t sigpend;
static uint64_t sigmask_;
void (*sim_sig_sent)(int);
void (*sim_sig_delivered)(int);
static struct { int pid; int st; int state; } kids[64];   /* state 1 running, 2 zombie */
static int nkids;

static bool interrupt_pending(void)
{
    return sim_self() == 0 && (sigpend & ~sigmask_) != 0;
}
static void deliver_signals(void)
{
    while (interrupt_pending()) {
        int s = __builtin_ctzll(sigpend & ~sigmask_);
        sigpend &= ~(1ull << s);
        sim_event("signal %d delivered", s);
        if (sim_sig_delivered) sim_sig_delivered(s);
        if (sa[s].sa_flags & SA_SIGINFO) {
            siginfo_t si;
            memset(&si, 0, sizeof(si));
            si.si_signo = s;
            si.si_pid = 4243;
            if (sa[s].sa_sigaction) sa[s].sa_sigaction(s, &si, NULL);
        } else if (sa[s].sa_handler != SIG_DFL && sa[s].sa_handler != SIG_IGN) {
            sa[s].sa_handler(s);
        }
    }
}
void sim_deliver_signals(void) { deliver_signals(); }
void sim_signal(int s) { sigpend |= 1ull << s; if (sim_sig_sent) sim_sig_sent(s); }
int __wrap_sigaction(int s, const struct sigaction *n, struct sigaction *o)
{
    if (s <= 0 || s > 63) { errno = EINVAL; return -1; }
    if (s == SIGSEGV || s == SIGBUS || s == SIGABRT || s == SIGILL || s == SIGFPE) {
        /* faults of the code under test stay visible; QPS needs the real SIGSEGV */
        extern int __real_sigaction(int, const struct sigaction *, struct sigaction *);
        return __real_sigaction(s, n, o);
    }
    if (o) *o = sa[s];
    if (n) sa[s] = *n;
    return 0;
}
__sighandler_t __wrap_signal(int s, __sighandler_t h)
{
    if (s <= 0 || s > 63) return SIG_ERR;
    __sighandler_t o = sa[s].sa_handler;
    sa[s].sa_handler = h;
    sa[s].sa_flags = 0;
    return o;
}
int __wrap_pthread_sigmask(int how, const sigset_t *n, sigset_t *o) { (void)how; (void)n; if (o) sigemptyset(o); return 0; }
int __wrap_kill(pid_t p, int s) { if (p == 4242) { sim_signal(s); } else sim_event("kill %d %d", p, s); return 0; }
int __wrap_raise(int s) { sim_signal(s); deliver_signals(); return 0; }
int sim_child_spawn(void) { kids[nkids].pid = 5000 + nkids; kids[nkids].state = 1; return kids[nkids++].pid; }
void sim_child_exit(int pid, int st)
{
    for (int i = 0; i < nkids; i++) if (kids[i].pid == pid && kids[i].state == 1) {
        kids[i].state = 2; kids[i].st = st;
        sim_signal(SIGCHLD);
    }
}
static bool pred_kid(void *p)
{
    int pid = *(int *)p;
    for (int i = 0; i < nkids; i++) if ((pid < 0 || kids[i].pid == pid) && kids[i].state == 2) return true;
    return false;
}
pid_t __wrap_waitpid(pid_t pid, int *st, int fl)
{
    int any = 0;
    for (int i = 0; i < nkids; i++) if ((pid < 0 || kids[i].pid == pid) && kids[i].state) any = 1;
    if (!any) { errno = ECHILD; return -1; }
    if (!pred_kid(&pid)) {
        if (fl & WNOHANG) return 0;
        sim_block("waitpid", pred_kid, &pid, SIM_INF);
    }
    int l[64], n = 0;
    for (int i = 0; i < nkids; i++) if ((pid < 0 || kids[i].pid == pid) && kids[i].state == 2) l[n++] = i;
    int k = l[n > 1 ? sim_choose(ST_MISC, n) : 0];
    kids[k].state = 0;
    if (st) *st = kids[k].st;
    return kids[k].pid;
}

/* }}} */
/* {{{ misc */

long __real_syscall(long n, ...);
long __wrap_syscall(long n, ...)
{
    long a[6];
    va_list ap;
    va_start(ap, n);
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex) return sim_futex((int *)a[0], a[1], a[2], (void *)a[3], (int *)a[4], a[5]);
    if (n == SYS_eventfd || n == SYS_eventfd2) {
        if (sim_io.no_eventfd) { sim_fault("eventfd-unavailable"); errno = ENOSYS; return -1; }
        obj_t *o = obj_new(K_EVENTFD);
        o->counter = a[0];
        if (n == SYS_eventfd2) o->flags = a[1] & O_NONBLOCK;
        return fd_alloc(o);
    }
    if (n == SYS_gettid) return 4242 + sim_self();
    return raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int __wrap_munmap(void *a, size_t n) { sim_point(); return RAW(SYS_munmap, a, n); }
int __wrap_mprotect(void *a, size_t n, int p) { sim_point(); return RAW(SYS_mprotect, a, n, p); }

/* }}} */
