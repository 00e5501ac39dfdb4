/* C06 timers, C07 descriptors, C08 signals/children/wakers/hooks/proxies: the
 * real event loop over a simulated kernel and clock, against a reference
 * model. --prop selects which domain is judged and emphasised; crashes and
 * failed assertions are judged for all. */
#include <lib-common/core.h>
#include <lib-common/el.h>
#include <lib-common/unix.h>
#include <poll.h>
#include <signal.h>
#include "sim.h"
#include "simio.h"
#include "simthr.h"
const char *harness_name = "h_el";

enum { K_NONE, K_TIMER, K_FD, K_SIGNAL, K_CHILD, K_WAKE, K_BEFORE, K_IDLE, K_PROXY, K_BLOCKER, K_MAX };
static const char *kname[] = { "none", "timer", "fd", "signal", "child", "wake", "before", "idle", "proxy", "blocker" };
enum { D_TIMER, D_FD, D_MISC };
static int dom;                              /* judged domain, -1: all */

#define NE 48
typedef struct ent_t {
    int      kind;
    bool     live, blk, ref, incb;
    uint32_t gen, key, life;
    el_t     el;
    int      hook, wiped;
    uint64_t armed;                          /* seq of registration/arming */
    int      calls_turn;
    /* timer */
    int64_t  exp, rep, next; int tol, flags; bool restarted; int nfire;
    /* fd */
    int      fd; bool owned; short mask; int prio, prio_seq;
    bool     mark_must, mark_may, mark_must_next; int marks_turn, fired_turn;
    bool     watch; int64_t wexp; int wdelay; short wmask; uint64_t warmed;
    /* signal */
    int      signo; int need_turn; uint64_t need_seq, call_seq; int last_call; bool called_once;
    /* child */
    int      pid, status; bool exited; int exit_turn;
    /* wake */
    bool     wneed, wfired, pipe; int wturns; uint64_t wseq;
    /* before / idle */
    bool     at_start, unparked, un_start, may_un, inrun; int64_t ran_ms;
    /* proxy */
    short    avail, wanted; bool ready_start;
} ent_t;
static ent_t E[NE];
static uint64_t seq;
static uint32_t lives;
static int turn, ops_left, live_n;
static bool in_turn, polled, unloop_req, activity, act_maybe, worker_ran, batch_kept, in_el_loop, draining;
static int64_t ts_ms, pr_ms, wend_ms;
static uint64_t ts_seq, pr_seq;
static bool dirty;
static int lastn, idle_turn = -1;
static struct { int fd; uint32_t ev; uint32_t key; int slot; bool done; } B[128];
static int nB;
static uint64_t deliv_seq[64];
static int last_send[64], sig_turn = -9;
static uint64_t hist;
static int focus, tiny, idle_polls;
static bool slow_ok;

static int64_t now_ms(void) { return sim_now_ns / SIM_MS; }
static uint32_t rnd(uint32_t n) { return sim_choose(ST_OPS, n); }
#define VIOL(d, cls, ...)  do { if (dom < 0 || dom == (d)) sim_violation(cls, __VA_ARGS__); else sim_end_run(); } while (0)
static void (*tick_dummy)(void);

static ent_t *pick(int kind)
{
    int l[NE], n = 0;
    for (int i = 0; i < NE; i++) if (E[i].live && (kind < 0 || E[i].kind == kind)) l[n++] = i;
    return n ? &E[l[rnd(n)]] : NULL;
}
static ent_t *slot_new(int kind)
{
    for (int i = 0; i < NE; i++) {
        if (!E[i].live && !E[i].incb) {
            uint32_t g = E[i].gen + 1;
            p_clear(&E[i], 1);
            E[i].life = ++lives; E[i].gen = g; E[i].key = g << 8 | i; E[i].kind = kind; E[i].live = true;
            E[i].armed = ++seq; E[i].fd = -1;
            live_n++;
            return &E[i];
        }
    }
    return NULL;
}
static int ent_dom(ent_t *e) { return e->kind == K_TIMER ? D_TIMER : e->kind == K_FD ? D_FD : D_MISC; }
static int64_t ent_tolexp(ent_t *e) { return e->exp + e->tol; }

/* the model's view of a dead registration */
static void model_dead(ent_t *e)
{
    e->live = false;
    live_n--;
    if (e->blk && e->wiped != 1)
        VIOL(ent_dom(e), "el:wipe", "wipe block of %s %d called %d times at the end of its life", kname[e->kind], (int)(e - E), e->wiped);
    if (e->kind == K_FD && in_turn && polled) dirty = true;
}
static void on_wipe(uint32_t key)
{
    ent_t *e = &E[key & 0xff];
    if (e->key != key) VIOL(ent_dom(e), "el:wipe-stale", "wipe block of a dead registration called");
    e->wiped++;
    if (e->wiped > 1) VIOL(ent_dom(e), "el:wipe", "wipe block of %s %d called twice", kname[e->kind], (int)(e - E));
}

static void do_ops(int max);
static void check_timer_order(ent_t *who, int64_t exp, int tol)
{
    if (tol) return;
    for (int i = 0; i < NE; i++) {
        ent_t *o = &E[i];
        if (!o->live || o == who) continue;
        if (o->kind == K_TIMER && !o->tol && !o->incb && o->exp < exp)
            VIOL(D_TIMER, "timer:order", "timer due at %lld ms fired at %lld while timer %d was due at %lld", (long long)exp, (long long)now_ms(), i, (long long)o->exp);
        if (o->kind == K_FD && o->watch && o->wexp < exp)
            VIOL(D_TIMER, "timer:order", "timer due at %lld ms fired while the inactivity watch of %d was due at %lld", (long long)exp, i, (long long)o->wexp);
    }
}
static ent_t *enter(int kind, el_t el, uint32_t key, int hook, bool blk)
{
    ent_t *e = &E[key & 0xff];
    if ((key & 0xff) >= NE || e->key != key || !e->live || e->kind != kind)
        VIOL(kind == K_TIMER ? D_TIMER : kind == K_FD ? D_FD : D_MISC, "el:stale-callback",
             "callback of %s %d.%d ran although it is no longer registered", kname[kind], (int)(key & 0xff), (int)(key >> 8));
    if (e->el && e->el != el) VIOL(ent_dom(e), "el:wrong-el", "callback got another el_t than its own");
    if (e->blk != blk || (!blk && e->hook != hook)) VIOL(ent_dom(e), "el:wrong-hook", "%s called through a replaced hook", kname[kind]);
    sim_event("%s %d fires", kname[kind], (int)(key & 0xff));
    hist = hist * 1099511628211ull + key * 16 + kind;
    e->calls_turn++;
    sim_count_op();
    return e;
}
static void slow(void)
{
    if (slow_ok && sim_chance(ST_TIME, 1, 6)) {
        static const int d[] = { 1, 7, 60, 130, 700 };
        sim_advance_to(sim_now_ns + d[sim_choose(ST_TIME, 5)] * SIM_MS);
        sim_fault("slow-callback");
    }
}

static void t_cb(el_t el, uint32_t key, int hook, bool blk)
{
    ent_t *e = enter(K_TIMER, el, key, hook, blk);
    int64_t exp = e->exp; uint32_t life = e->life;
    if (now_ms() < exp)
        VIOL(D_TIMER, "timer:early", "timer %d due at %lld ms fired at %lld", (int)(e - E), (long long)exp, (long long)now_ms());
    check_timer_order(e, exp, e->tol);
    activity = true;
    e->restarted = false; e->incb = true; e->nfire++;
    do_ops(3);
    e->incb = false;
    if (e->life != life || !e->live) return;
    if (e->rep > 0) {
        int64_t until = now_ms();
        e->exp += e->rep;
        e->tol = (e->flags & EL_TIMER_LOWRES) && e->rep >= 500 ? MIN(e->rep / 10, 59000) : 0;
        if (!(e->flags & EL_TIMER_NOMISS) && e->exp < until) {
            int64_t k = (until - e->exp + e->rep - 1) / e->rep;
            e->exp += k * e->rep;
            sim_probe("timer-missed-periods");
        }
    } else if (!e->restarted) {
        /* destroyed by the loop as soon as we return */
        e->wiped += e->blk;     /* checked by on_wipe being late otherwise */
        e->live = false; live_n--;
        e->wiped -= e->blk;
    }
}
static void timer_a(el_t el, data_t p) { t_cb(el, (uint32_t)(uintptr_t)p.ptr, 0, false); }
static void timer_b(el_t el, data_t p) { t_cb(el, (uint32_t)(uintptr_t)p.ptr, 1, false); }

static int fd_cb_(el_t el, int fd, short evs, uint32_t key, int hook, bool blk)
{
    ent_t *e = enter(K_FD, el, key, hook, blk);
    int me = e - E;
    if (fd != e->fd) VIOL(D_FD, "fd:number", "fd callback %d got descriptor %d instead of %d", me, fd, e->fd);
    if (evs == EL_EVENTS_NOACT) {
        if (!e->watch) VIOL(D_FD, "fd:noact-spurious", "inactivity reported for %d which has no watch", me);
        if (now_ms() < e->wexp) VIOL(D_FD, "fd:noact-early", "inactivity of %d reported at %lld ms, watch ends at %lld", me, (long long)now_ms(), (long long)e->wexp);
        int64_t x = e->wexp;
        e->watch = false;
        check_timer_order(e, x, 0);
        activity = true;
        sim_probe("fd-noact");
    } else {
        bool as_mark = false;
        if (in_turn && (!polled || batch_kept)) {
            /* application mark, delivered before polling */
            if ((e->mark_may || e->marks_turn) && !e->fired_turn && evs == POLLIN) as_mark = true;
            else if (!batch_kept)
                VIOL(D_FD, "fd:spurious", "fd %d called with %x before polling, without a mark", me, evs);
        }
        if (as_mark) {
            e->fired_turn = 1;
            e->mark_must = false;
            e->mark_must_next = false;
            sim_probe("fd-mark-fired");
        } else if (in_turn) {
            int k;
            for (k = 0; k < nB && !(B[k].key == e->life && B[k].slot == me && !B[k].done); k++) ;
            if (k == nB) VIOL(D_FD, "fd:spurious", "fd %d called with %x which the poll did not report for this registration", me, evs);
            if ((uint32_t)(uint16_t)evs != B[k].ev) VIOL(D_FD, "fd:events", "fd %d called with %x instead of %x", me, evs, B[k].ev);
            B[k].done = true;
            activity = true;
            if (!dirty && !batch_kept) {
                int mx = -1;
                for (int i = 0; i < nB; i++) {
                    ent_t *o = B[i].slot >= 0 ? &E[B[i].slot] : NULL;
                    int pr = o ? (o->live && o->life == B[i].key ? o->prio : -1) : EV_PRIORITY_NORMAL;
                    if (pr > mx) mx = pr;
                }
                if (e->prio != mx)
                    VIOL(D_FD, "fd:priority", "fd %d of priority %d called while one of priority %d is ready", me, e->prio, mx);
            }
        }
        if (e->watch && (evs & e->wmask)) { e->wexp = now_ms() + e->wdelay; e->warmed = ++seq; }
    }
    e->incb = true;
    do_ops(3);
    if (evs != EL_EVENTS_NOACT) slow();       /* the timer phase has one date */
    e->incb = false;
    return 0;
}
static int fd_a(el_t el, int fd, short evs, data_t p) { return fd_cb_(el, fd, evs, (uint32_t)(uintptr_t)p.ptr, 0, false); }
static int fd_b(el_t el, int fd, short evs, data_t p) { return fd_cb_(el, fd, evs, (uint32_t)(uintptr_t)p.ptr, 1, false); }

static void s_cb(el_t el, int signo, uint32_t key, bool blk)
{
    ent_t *e = enter(K_SIGNAL, el, key, 0, blk);
    if (signo != e->signo) VIOL(D_MISC, "signal:number", "handler of %d called for %d", e->signo, signo);
    if (!in_el_loop && e->calls_turn > 1) VIOL(D_MISC, "signal:twice", "handler of %d called twice in a turn", signo);
    if (!last_send[signo] || (e->called_once && last_send[signo] < e->last_call))
        VIOL(D_MISC, "signal:spurious", "handler of %d called without a signal", signo);
    e->called_once = true; e->last_call = turn; e->call_seq = ++seq;
    if (e->need_turn) e->need_turn = e->need_seq < deliv_seq[signo] ? 0 : turn + 1;
    activity = true;
    e->incb = true; do_ops(2); slow(); e->incb = false;
}
static void sig_a(el_t el, int signo, data_t p) { s_cb(el, signo, (uint32_t)(uintptr_t)p.ptr, false); }
static void on_sig_delivered(int s) { last_send[s] = turn ? turn : 1; sig_turn = turn; deliv_seq[s] = ++seq; act_maybe = true; }
static void on_sig_sent(int s)
{
    sig_turn = turn; act_maybe = true;
    for (int i = 0; i < NE; i++)
        if (E[i].live && E[i].kind == K_SIGNAL && E[i].signo == s) {
            if (!E[i].need_turn) E[i].need_turn = turn + 1;
            E[i].need_seq = ++seq;
        }
}
static void c_cb(el_t el, pid_t pid, int status, uint32_t key, bool blk)
{
    ent_t *e = enter(K_CHILD, el, key, 0, blk);
    if (pid != e->pid) VIOL(D_MISC, "child:pid", "child %d reported as %d", e->pid, pid);
    if (!e->exited) VIOL(D_MISC, "child:alive", "child %d reported although it runs", pid);
    if (status != e->status) VIOL(D_MISC, "child:status", "child %d ended with %x, reported %x", pid, e->status, status);
    /* reported from the SIGCHLD handler or, already dead, as a before hook */
    act_maybe = true;
    if (polled) activity = true;
    e->incb = true; do_ops(2); e->incb = false;
    e->live = false; live_n--;
}
static void child_a(el_t el, pid_t pid, int st, data_t p) { c_cb(el, pid, st, (uint32_t)(uintptr_t)p.ptr, false); }
static void w_cb(el_t el, uint32_t key, bool blk)
{
    ent_t *e = enter(K_WAKE, el, key, 0, blk);
    if (!e->wneed) VIOL(D_MISC, "wake:spurious", "waker called although not fired");
    e->wneed = false;
    activity = true;
    e->incb = true; do_ops(2); slow(); e->incb = false;
}
static void wake_a(el_t el, data_t p) { w_cb(el, (uint32_t)(uintptr_t)p.ptr, false); }
static void b_cb(el_t el, uint32_t key, bool blk)
{
    ent_t *e = enter(K_BEFORE, el, key, 0, blk);
    if (!in_el_loop && (!in_turn || polled)) VIOL(D_MISC, "before:when", "before hook called outside of its phase");
    if (!in_el_loop && e->calls_turn > 1) VIOL(D_MISC, "before:twice", "before hook called twice in a turn");
    e->incb = true; do_ops(2); e->incb = false;
}
static void before_a(el_t el, data_t p) { b_cb(el, (uint32_t)(uintptr_t)p.ptr, false); }
static void i_cb(el_t el, uint32_t key, bool blk)
{
    ent_t *e = enter(K_IDLE, el, key, 0, blk);
    if (activity && !in_el_loop) VIOL(D_MISC, "idle:busy", "idle hook called although the last turn had activity");
    if (!in_el_loop && e->calls_turn > 1) VIOL(D_MISC, "idle:twice", "idle hook called twice in a turn");
    if (idle_turn != turn)
        for (int k = 0; k < NE; k++) {
            E[k].inrun = E[k].live && E[k].kind == K_IDLE && E[k].unparked;
            if (E[k].kind == K_IDLE) E[k].unparked = false;
        }
    idle_turn = turn;
    if (!in_el_loop && !e->inrun && !e->may_un && now_ms() - e->ran_ms < 590000)
        VIOL(D_MISC, "idle:parked", "idle hook %d called again although nothing unparked it", (int)(e - E));
    e->inrun = e->may_un = false;
    e->ran_ms = now_ms();
    e->incb = true; do_ops(2); e->incb = false;
}
static void idle_a(el_t el, data_t p) { i_cb(el, (uint32_t)(uintptr_t)p.ptr, false); }
static void p_cb(el_t el, short ev, uint32_t key, bool blk)
{
    ent_t *e = enter(K_PROXY, el, key, 0, blk);
    if (ev != e->avail || !(ev & e->wanted)) VIOL(D_MISC, "proxy:events", "proxy called with %x, available %x wanted %x", ev, e->avail, e->wanted);
    if (!in_el_loop && e->calls_turn > 1) VIOL(D_MISC, "proxy:twice", "proxy called twice in a turn");
    activity = true;
    e->incb = true; do_ops(2); slow(); e->incb = false;
}
static void proxy_a(el_t el, short ev, data_t p) { p_cb(el, ev, (uint32_t)(uintptr_t)p.ptr, false); }

/* {{{ external events */

static void x_ready(void *a, uint64_t ev) { ent_t *e = a; uint32_t fd = ev >> 32; if (sim_fd_is_open(fd)) { sim_fd_set_ready(fd, (uint32_t)ev); sim_event("fd %d readiness %x", (int)fd, (uint32_t)ev); } (void)e; }
static void x_signal(void *a, uint64_t s) { (void)a; sim_event("signal %d sent", (int)s); sim_signal(s); }
static void x_exit(void *a, uint64_t b)
{
    int pid = b >> 32, st = (uint32_t)b;
    (void)a;
    for (int i = 0; i < NE; i++) if (E[i].live && E[i].kind == K_CHILD && E[i].pid == pid && !E[i].exited) { E[i].exited = true; E[i].status = st; E[i].exit_turn = turn; }
    sim_event("child %d ends with %x", pid, st);
    sim_child_exit(pid, st);
}
static void x_wake(void *a, uint64_t key)
{
    ent_t *e = &E[key & 0xff];
    (void)a;
    if (!e->live || e->key >> 8 != key >> 8) return;
    if (!e->wneed) { e->wneed = true; e->wturns = 0; }
    e->wseq = ++seq; e->wfired = true;
    sim_event("wake %d fired", (int)(key & 0xff));
    el_wake_fire(e->el);
}
static int64_t delay_ns(void)
{
    static const int d[] = { 0, 1, 3, 10, 50, 101, 500, 3000, 20000 };
    return d[sim_choose(ST_TIME, 9)] * SIM_MS + (sim_choose(ST_TIME, 2) ? sim_choose(ST_TIME, 1000) * 1000ll : 0);
}
static const int sigs[] = { SIGUSR1, SIGHUP, SIGALRM, SIGWINCH };

/* }}} */
/* {{{ operations */

static const int tdel[] = { 0, 1, 2, 5, 10, 20, 50, 100, 499, 500, 600, 1000, 5000, 60000 };
static int64_t tdelay(void) { return tiny ? tdel[rnd(6)] : tdel[rnd(14)]; }

static void reg_timer(void)
{
    ent_t *e = slot_new(K_TIMER);
    if (!e) return;
    e->blk = rnd(3) == 1;
    int64_t next = tdelay();
    e->rep = rnd(3) == 1 ? MAX(1, tdelay()) : 0;
    e->flags = (rnd(4) == 1 ? EL_TIMER_NOMISS : 0) | (rnd(3) == 1 ? EL_TIMER_LOWRES : 0);
    if ((e->flags & EL_TIMER_NOMISS) && e->rep && e->rep < 100) e->rep = 100;
    e->next = next;
    e->exp = now_ms() + next;
    e->tol = (e->flags & EL_TIMER_LOWRES) && next >= 500 ? MIN(next / 10, 59000) : 0;
    e->ref = true;
    uint32_t key = e->key;
    if (e->blk) e->el = el_timer_register_blk(next, e->rep, e->flags, ^(el_t el) { t_cb(el, key, 0, true); }, ^{ on_wipe(key); });
    else e->el = el_timer_register(next, e->rep, e->flags, timer_a, (void *)(uintptr_t)key);
    sim_event("timer %d: in %lld ms, repeat %lld, flags %d -> %lld", (int)(e - E), (long long)next, (long long)e->rep, e->flags, (long long)e->exp);
}
static void reg_fd(void)
{
    ent_t *e = slot_new(K_FD);
    if (!e) return;
    e->blk = rnd(3) == 1;
    e->fd = sim_fd_manual();
    e->owned = true;
    static const short m[] = { POLLIN, POLLOUT, POLLIN | POLLOUT, 0 };
    e->mask = m[rnd(4)];
    e->prio = EV_PRIORITY_NORMAL;
    e->ref = true;
    uint32_t key = e->key; int fd = e->fd;
    if (e->blk) e->el = el_fd_register_blk(fd, true, e->mask, ^int(el_t el, int f, short ev) { return fd_cb_(el, f, ev, key, 0, true); }, ^{ on_wipe(key); });
    else e->el = el_fd_register(fd, true, e->mask, fd_a, (void *)(uintptr_t)key);
    sim_event("fd %d: descriptor %d mask %x", (int)(e - E), fd, e->mask);
    if (rnd(2)) sim_fd_set_ready(fd, 1u << (rnd(2) * 2));
}
static void unreg(ent_t *e)
{
    int kind = e->kind;
    if (kind == K_CHILD && e->incb) return;
    sim_event("unregister %s %d", kname[kind], (int)(e - E));
    el_t el = e->el;
    bool wasfd = kind == K_FD;
    data_t d = el_unregister(&el);
    if (el) VIOL(ent_dom(e), "el:unregister", "el_unregister did not reset the handle");
    if (!e->blk && kind != K_BLOCKER && (uint32_t)(uintptr_t)d.ptr != e->key)
        VIOL(ent_dom(e), "el:priv", "el_unregister returned another private value (%p for %x)", d.ptr, e->key);
    model_dead(e);
    if (wasfd && sim_fd_is_open(e->fd)) VIOL(D_FD, "fd:not-closed", "owned descriptor %d still open after unregistering", e->fd);
}
static void reg_misc(int kind)
{
    if (kind == K_WAKE) {
        int n = 0;
        for (int i = 0; i < NE; i++) n += E[i].live && E[i].kind == K_WAKE;
        if (n >= 6) return;
    }
    ent_t *e = slot_new(kind);
    if (!e) return;
    uint32_t key = e->key;
    void *p = (void *)(uintptr_t)key;
    e->blk = kind != K_BLOCKER && rnd(3) == 1;
    e->ref = true;
    switch (kind) {
      case K_SIGNAL:
        e->signo = sigs[rnd(4)];
        e->ref = false;
        e->el = e->blk ? el_signal_register_blk(e->signo, ^(el_t el, int s) { s_cb(el, s, key, true); }, ^{ on_wipe(key); })
                       : el_signal_register(e->signo, sig_a, p);
        break;
      case K_CHILD: {
        static int spawned;
        if (spawned >= 60) { e->live = false; live_n--; return; }
        spawned++;
        e->pid = sim_child_spawn();
        if (rnd(4) == 1) { x_exit(NULL, (uint64_t)e->pid << 32 | 0x300); sim_probe("child-dead-at-register"); }
        else if (rnd(3)) sim_at(sim_now_ns + delay_ns(), x_exit, NULL, (uint64_t)e->pid << 32 | (rnd(4) << 8));
        e->el = e->blk ? el_child_register_blk(e->pid, ^(el_t el, pid_t q, int st) { c_cb(el, q, st, key, true); }, ^{ on_wipe(key); })
                       : el_child_register(e->pid, child_a, p);
        if (el_child_getpid(e->el) != e->pid) VIOL(D_MISC, "child:pid", "el_child_getpid");
        break;
      }
      case K_WAKE:
        e->pipe = sim_io.no_eventfd = sim_chance(ST_FAULT, 1, 3);
        e->el = e->blk ? el_wake_register_blk(^(el_t el) { w_cb(el, key, true); }, ^{ on_wipe(key); }) : el_wake_register(wake_a, p);
        break;
      case K_BEFORE:
        e->el = e->blk ? el_before_register_blk(^(el_t el) { b_cb(el, key, true); }, ^{ on_wipe(key); }) : el_before_register(before_a, p);
        break;
      case K_IDLE:
        e->ref = false; e->unparked = true;
        e->el = e->blk ? el_idle_register_blk(^(el_t el) { i_cb(el, key, true); }, ^{ on_wipe(key); }) : el_idle_register(idle_a, p);
        break;
      case K_PROXY:
        e->el = e->blk ? el_proxy_register_blk(^(el_t el, short ev) { p_cb(el, ev, key, true); }, ^{ on_wipe(key); }) : el_proxy_register(proxy_a, p);
        break;
      case K_BLOCKER:
        e->el = el_blocker_register();
        break;
    }
    sim_event("%s %d registered", kname[kind], (int)(e - E));
}
static void op_timer(void)
{
    ent_t *e = pick(K_TIMER);
    switch (rnd(6)) {
      case 0: case 1: reg_timer(); return;
      case 2: if (e) unreg(e); return;
      case 3: case 4:
        if (!e || e->rep > 0) { reg_timer(); return; }
        {
            int64_t r = rnd(3) ? tdelay() : -1;
            if (r > 0) {
                e->next = r;
                e->tol = (e->flags & EL_TIMER_LOWRES) && r >= 500 ? MIN(r / 10, 59000) : 0;
            } else {
                r = rnd(2) ? 0 : -1;
            }
            sim_event("timer %d restarted (%lld)", (int)(e - E), (long long)r);
            el_timer_restart(e->el, r);
            e->exp = now_ms() + e->next;
            e->restarted = true;
            e->armed = ++seq;
        }
        return;
      case 5:
        if (!e || e->blk) return;
        e->hook ^= 1;
        el_timer_set_hook(e->el, e->hook ? timer_b : timer_a);
        return;
    }
}
static void op_fd(void)
{
    ent_t *e = pick(K_FD);
    static const short m[] = { POLLIN, POLLOUT, POLLIN | POLLOUT, 0 };
    static const uint32_t rd[] = { 0, POLLIN, POLLOUT, POLLIN | POLLOUT, POLLHUP, POLLERR, POLLIN | POLLHUP };
    if (!e) { reg_fd(); return; }
    switch (rnd(10)) {
      case 0: case 1: reg_fd(); return;
      case 2: unreg(e); return;
      case 3: {
        short mk = m[rnd(4)], o = el_fd_set_mask(e->el, mk);
        sim_event("fd %d mask %x", (int)(e - E), mk);
        if (o != e->mask || el_fd_get_mask(e->el) != mk) VIOL(D_FD, "fd:mask", "el_fd_set_mask/get_mask");
        e->mask = mk;
        return;
      }
      case 4: {
        int pr = rnd(3);
        sim_event("fd %d priority %d", (int)(e - E), pr);
        if (pr == 0) el_fd_set_priority(e->el, LOW); else if (pr == 1) el_fd_set_priority(e->el, NORMAL); else el_fd_set_priority(e->el, HIGH);
        e->prio = pr; e->prio_seq = ++seq;
        if (in_turn && polled) dirty = true;
        return;
      }
      case 5: case 6:
        sim_event("fd %d marked", (int)(e - E));
        el_fd_mark_fired(e->el);
        e->marks_turn++;
        e->mark_may = true;
        if (!in_turn) e->mark_must = true;
        else if (e->fired_turn || (polled && !batch_kept)) e->mark_must_next = true;
        return;
      case 7: {
        int d = rnd(4) == 1 ? 0 : rnd(4) == 1 ? -1 : (int)MAX(1, tdelay());
        short mk = m[rnd(4)];
        sim_event("fd %d watch mask %x delay %d", (int)(e - E), mk, d);
        int o = el_fd_watch_activity(e->el, mk, d);
        if (o != (e->watch ? e->wdelay : 0)) VIOL(D_FD, "fd:watch-return", "el_fd_watch_activity returned %d", o);
        e->wmask = mk;
        if (d > 0) { e->wdelay = d; e->watch = true; e->wexp = now_ms() + d; e->warmed = ++seq; }
        else if (d == 0) e->watch = false;
        else if (e->watch) { e->wexp = now_ms() + e->wdelay; e->warmed = ++seq; }
        return;
      }
      case 8: {
        uint32_t r = rd[sim_choose(ST_NET, 7)];
        if (rnd(2)) { sim_fd_set_ready(e->fd, r); sim_event("fd %d ready %x", (int)(e - E), r); }
        else sim_at(sim_now_ns + delay_ns(), x_ready, e, (uint64_t)e->fd << 32 | r);
        return;
      }
      case 9:
        if (e->blk) return;
        if (rnd(2)) { e->hook ^= 1; el_fd_set_hook(e->el, e->hook ? fd_b : fd_a); }
        return;
    }
}
static void op_misc(void)
{
    int kind = K_SIGNAL + rnd(6);
    ent_t *e = pick(kind);
    if (rnd(20) == 1) kind = K_BLOCKER, e = pick(kind);
    if (!e || rnd(3) == 0) { reg_misc(kind); return; }
    if (rnd(4) == 0) { unreg(e); return; }
    switch (kind) {
      case K_SIGNAL: {
        int s = rnd(4) ? e->signo : sigs[rnd(4)];
        if (rnd(2)) { x_signal(NULL, s); if (rnd(2)) sim_deliver_signals(); }
        else sim_at(sim_now_ns + delay_ns(), x_signal, NULL, s);
        return;
      }
      case K_CHILD:
        if (!e->exited) x_exit(NULL, (uint64_t)e->pid << 32 | (rnd(3) ? rnd(256) << 8 : SIGKILL));
        if (rnd(2) && (e = pick(K_CHILD)) && !e->exited) { x_exit(NULL, (uint64_t)e->pid << 32 | 0x100); }
        return;
      case K_WAKE: {
        int n = rnd(4) ? 1 : rnd(3) ? (int)rnd(5) : 16 * (1 + (int)rnd(2));
        if (rnd(2)) while (n-- > 0) x_wake(NULL, e->key);
        else sim_at(sim_now_ns + delay_ns(), x_wake, NULL, e->key);
        return;
      }
      case K_IDLE:
        sim_event("unpark %d", (int)(e - E));
        el_idle_unpark(e->el);
        e->unparked = true;
        return;
      case K_PROXY: {
        short mk = rnd(4);
        switch (rnd(3)) {
          case 0: { short o = el_proxy_set_event(e->el, mk); if (o != e->avail) VIOL(D_MISC, "proxy:return", "el_proxy_set_event"); e->avail |= mk; break; }
          case 1: { short o = el_proxy_clr_event(e->el, mk); if (o != e->avail) VIOL(D_MISC, "proxy:return", "el_proxy_clr_event"); e->avail &= ~mk; break; }
          case 2: { short o = el_proxy_set_mask(e->el, mk); if (o != e->wanted) VIOL(D_MISC, "proxy:return", "el_proxy_set_mask"); e->wanted = mk; break; }
        }
        sim_event("proxy %d avail %x wanted %x", (int)(e - E), e->avail, e->wanted);
        if (!(e->avail & e->wanted)) e->ready_start = false;
        return;
      }
      default: return;
    }
}
static void op_generic(void)
{
    ent_t *e = pick(-1);
    if (!e) return;
    switch (rnd(3)) {
      case 0:
        if (e->blk || e->kind == K_BLOCKER) return;
        {
            /* the slot stays, the private value changes */
            uint32_t old = e->key;
            e->gen++; e->key = e->gen << 8 | (uint32_t)(e - E);
            data_t d = el_set_priv(e->el, (data_t){ .ptr = (void *)(uintptr_t)e->key });
            if ((uint32_t)(uintptr_t)d.ptr != old) VIOL(ent_dom(e), "el:priv", "el_set_priv returned %p instead of %x", d.ptr, old);
        }
        return;
      case 1: el_unref(e->el); e->ref = false; return;
      case 2: el_ref(e->el); e->ref = true; return;
    }
}
static void one_op(void)
{
    if (ops_left <= 0) return;
    idle_polls = 0;
    ops_left--;
    int f = rnd(8);
    int d = f < 5 ? focus : f == 5 ? (int)rnd(3) : f == 6 ? 3 : focus;
    switch (d) {
      case D_TIMER: op_timer(); break;
      case D_FD: op_fd(); break;
      case D_MISC: op_misc(); break;
      default:
        if (in_el_loop && rnd(3) == 1) { el_unloop(); unloop_req = true; sim_event("unloop"); break; }
        if (rnd(8) == 1) { sim_real_off_ns += ((int64_t)rnd(2000) - 1000) * SIM_S; sim_fault("wall-clock-jump"); break; }
        op_generic();
        break;
    }
}
static void do_ops(int max)
{
    int n = sim_exhausted(ST_OPS) ? 0 : rnd(max + 1);
    while (n-- > 0) one_op();
}

/* }}} */
/* {{{ turns */

static int64_t next_deadline(void)
{
    int64_t m = INT64_MAX;
    for (int i = 0; i < NE; i++) {
        if (!E[i].live) continue;
        if (E[i].kind == K_TIMER && !E[i].incb) m = MIN(m, ent_tolexp(&E[i]));
        if (E[i].kind == K_FD && E[i].watch) m = MIN(m, E[i].wexp);
    }
    return m;
}
static int64_t pe_ms;
static void poll_enter(int timeout)
{
    pe_ms = now_ms();
    if (!in_turn) return;
    int64_t dl = next_deadline(), ref = worker_ran ? wend_ms : ts_ms;
    if (dl != INT64_MAX && (timeout < 0 || timeout > MAX(0, dl - ref)))
        VIOL(D_TIMER, "timer:oversleep", "polls for %d ms while a timer is due in %lld ms", timeout, (long long)(dl - ref));
    if (timeout) {
        for (int i = 0; i < NE; i++) {
            ent_t *e = &E[i];
            if (!e->live) continue;
            if (e->kind == K_PROXY && (e->avail & e->wanted) && e->ready_start)
                VIOL(D_MISC, "proxy:sleep", "sleeps up to %d ms while proxy %d is ready", timeout, i);
            if (e->kind == K_IDLE && e->un_start && e->unparked && !activity && !act_maybe)
                VIOL(D_MISC, "idle:sleep", "sleeps up to %d ms although idle hook %d wants to run", timeout, i);
            if (e->kind == K_SIGNAL && deliv_seq[e->signo] > e->armed && deliv_seq[e->signo] > e->call_seq)
                VIOL(D_MISC, "signal:sleep", "sleeps up to %d ms although signal %d has been received", timeout, e->signo);
            if (e->kind == K_FD && e->mark_must && !e->fired_turn)
                VIOL(D_FD, "fd:mark-sleep", "sleeps up to %d ms while descriptor %d is marked", timeout, i);
        }
    }
    if (!polled)
        for (int i = 0; i < NE; i++) {
            ent_t *e = &E[i];
            if (e->live && e->kind == K_IDLE && e->un_start && !e->calls_turn && !activity && !act_maybe)
                VIOL(D_MISC, "idle:skipped", "idle hook %d not called although the loop was idle", i);
            if (e->live && e->kind == K_BEFORE && e->at_start && e->calls_turn != 1)
                VIOL(D_MISC, "before:skipped", "before hook %d not called before polling", i);
        }
}
static void poll_ret(int n, const int *fds, const uint32_t *evs)
{
    nB = 0; lastn = n;
    for (int k = 0; k < n && k < 128; k++) {
        B[k].fd = fds[k]; B[k].ev = evs[k]; B[k].done = false; B[k].slot = -1; B[k].key = 0;
        for (int i = 0; i < NE; i++) if (E[i].live && E[i].kind == K_FD && E[i].fd == fds[k]) { B[k].slot = i; B[k].key = E[i].life; }
        nB++;
    }
    if (n >= 0) {
        /* what the kernel was asked to watch is what the model asked for */
        for (int i = 0; i < NE; i++) {
            ent_t *e = &E[i];
            if (!e->live || e->kind != K_FD) continue;
            uint32_t want = sim_fd_ready(e->fd) & ((uint16_t)e->mask | POLLERR | POLLHUP), got = 0;
            for (int k = 0; k < nB; k++) if (B[k].slot == i) got = B[k].ev;
            if (want != got) VIOL(D_FD, "fd:watch-set", "descriptor %d is ready for %x of what it is watched for, the loop asked to be told %x", e->fd, want, got);
        }
    }
    if (in_turn) {
        polled = true;
        pr_ms = now_ms(); pr_seq = ++seq;
        dirty = false;
    } else {
        batch_kept = n != 0;
        pr_seq = ++seq;
    }
    if (in_turn || n) {
        if (now_ms() - pe_ms >= 100) for (int i = 0; i < NE; i++) E[i].may_un = true;
        if (now_ms() - pe_ms > 100 && in_turn) {
            for (int i = 0; i < NE; i++) if (E[i].live && E[i].kind == K_IDLE) E[i].unparked = true;
        }
        if (in_turn) { activity = false; act_maybe = turn - sig_turn < 2; }
    }
}
static void worker_cb(int timeout)
{
    worker_ran = true;
    if (sim_chance(ST_TIME, 1, 2)) {
        int64_t end = sim_now_ns + (int64_t)timeout * SIM_MS, nx;
        while (sim_now_ns < end && !el_has_pending_events()) {
            int64_t t = sim_next_event(&nx) && nx < end ? MAX(nx, sim_now_ns + SIM_MS) : end;
            sim_advance_to(t);
        }
    } else {
        sim_advance_to(sim_now_ns + sim_choose(ST_TIME, timeout + 1) * SIM_MS);
    }
    wend_ms = now_ms();
}
static void turn_begin(void)
{
    turn++;
    ts_ms = now_ms(); ts_seq = ++seq;
    polled = false; dirty = false; worker_ran = false;
    in_turn = true;
    if (!batch_kept) nB = 0;
    for (int i = 0; i < NE; i++) {
        ent_t *e = &E[i];
        e->calls_turn = 0;
        e->at_start = e->live;
        e->un_start = e->live && e->unparked;
        e->marks_turn = 0; e->fired_turn = 0; e->mark_must_next = false;
        e->ready_start = e->live && e->kind == K_PROXY && (e->avail & e->wanted);
    }
}
static void turn_end(void)
{
    in_turn = false;
    bool norm = !unloop_req;
    int mx = -1;
    for (int k = 0; k < nB; k++) {
        ent_t *o = B[k].slot >= 0 ? &E[B[k].slot] : NULL;
        int pr = o ? (o->live && o->life == B[k].key ? o->prio : -1) : EV_PRIORITY_NORMAL;
        if (pr > mx) mx = pr;
    }
    for (int i = 0; i < NE && norm; i++) {
        ent_t *e = &E[i];
        if (!e->live) continue;
        switch (e->kind) {
          case K_TIMER:
            if (e->armed < ts_seq && ent_tolexp(e) <= ts_ms)
                VIOL(D_TIMER, "timer:late", "timer %d due at %lld ms still pending after the turn begun at %lld", i, (long long)e->exp, (long long)ts_ms);
            if (polled && e->armed < pr_seq && ent_tolexp(e) <= pr_ms)
                VIOL(D_TIMER, "timer:late", "timer %d due at %lld ms still pending after polling ended at %lld", i, (long long)e->exp, (long long)pr_ms);
            break;
          case K_FD:
            if (e->watch && e->warmed < ts_seq && e->wexp <= ts_ms)
                VIOL(D_FD, "fd:noact-late", "inactivity of %d since %lld ms not reported by the turn begun at %lld", i, (long long)e->wexp, (long long)ts_ms);
            if (e->mark_must && !e->fired_turn)
                VIOL(D_FD, "fd:mark-lost", "descriptor %d was marked, its callback not called in the next turn", i);
            for (int k = 0; k < nB; k++) {
                if (B[k].slot != i || B[k].key != e->life || B[k].done || !polled || batch_kept) continue;
                bool must = e->prio == EV_PRIORITY_HIGH ? (uint64_t)e->prio_seq < pr_seq : !dirty && e->prio == mx && mx < EV_PRIORITY_HIGH && !batch_kept;
                if (must)
                    VIOL(D_FD, "fd:lost", "descriptor %d (priority %d) was reported ready for %x, its callback not called", e->fd, e->prio, B[k].ev);
            }
            break;
          case K_SIGNAL:
            if (e->need_turn && turn >= e->need_turn + 2)
                VIOL(D_MISC, "signal:lost", "handler of %d not called %d turns after the signal", e->signo, turn - e->need_turn + 1);
            break;
          case K_CHILD:
            if (e->exited && turn >= e->exit_turn + 3)
                VIOL(D_MISC, "child:lost", "child %d ended %d turns ago and is not reported", e->pid, turn - e->exit_turn);
            break;
          case K_WAKE:
            if (e->wneed && e->wseq < pr_seq && polled && mx <= EV_PRIORITY_NORMAL && !dirty && nB && ++e->wturns > 3)
                VIOL(D_MISC, "wake:lost", "waker %d fired, not called", i);
            if (e->wneed && polled && !nB && lastn >= 0 && e->wseq < pr_seq && ++e->wturns > 3)
                VIOL(D_MISC, "wake:lost", "waker %d fired, not called", i);
            break;
          case K_PROXY:
            if (e->ready_start && !e->calls_turn && (e->avail & e->wanted))
                VIOL(D_MISC, "proxy:lost", "proxy %d was ready all along the turn, not called", i);
            break;
        }
    }
    for (int i = 0; i < NE; i++) {
        ent_t *e = &E[i];
        if (e->kind != K_FD || !e->live || !norm) continue;
        if (e->fired_turn) { e->mark_must = e->mark_must_next; e->mark_may = e->marks_turn > 0; }
        else if (e->marks_turn) e->mark_must = true;
    }
    if (batch_kept) { activity = false; act_maybe = true; }
    if (norm) batch_kept = false;
    nB = 0;
}
static int model_active(void) { int n = 0; for (int i = 0; i < NE; i++) n += E[i].live && E[i].ref; return n; }

static void pending_op(void)
{
    bool must = false;
    sim_run_due();
    for (int i = 0; i < NE; i++) {
        ent_t *e = &E[i];
        if (!e->live) continue;
        if (e->kind == K_TIMER && !e->tol && e->exp <= now_ms()) must = true;
        if (e->kind == K_FD && (sim_fd_ready(e->fd) & ((uint16_t)e->mask | POLLERR | POLLHUP))) must = true;
        if (e->kind == K_FD && e->watch && e->wexp <= now_ms()) must = true;
    }
    bool r = el_has_pending_events();
    sim_event("has_pending_events: %d", r);
    if (must && !r) VIOL(D_FD, "el:pending", "el_has_pending_events is false although something is ready");
}
static void fd_loop_op(void)
{
    ent_t *e = pick(K_FD);
    if (!e) return;
    /* blocking loop on one descriptor, outside of a turn */
    int flags = rnd(3) == 1 ? EV_FDLOOP_HANDLE_TIMERS : 0, tmo = rnd(3) * 30;
    int before = e->calls_turn; uint32_t life = e->life;
    bool marked = e->mark_must;
    sim_event("fd loop on %d, %d ms, flags %d", (int)(e - E), tmo, flags);
    el_t el = e->el;
    e->mark_may = e->mark_must = false;
    int r = el_fd_loop(el, tmo, flags);
    activity = false; act_maybe = true;
    if (e->life != life) return;
    int called = e->calls_turn - before;
    if (!flags && r != (called > 0)) VIOL(D_FD, "fd:loop", "el_fd_loop returned %d, callback called %d times", r, called);
    if (marked && !called) VIOL(D_FD, "fd:mark-lost", "el_fd_loop on a marked descriptor did not call it");
    activity = false; act_maybe = true;
}

/* in el_loop() mode turns are delimited by the poll */
static int loop_polls;
static void loop_enter(int timeout)
{
    (void)timeout;
    idle_polls = model_active() ? 0 : idle_polls + 1;
    if (idle_polls > 1 && !unloop_req && loop_polls > 1)
        VIOL(D_MISC, "loop:end", "the loop goes on although nothing referenced remains");
    if (++loop_polls > 300 || sim_exhausted(ST_OPS)) { el_unloop(); unloop_req = true; }
    int64_t dl = next_deadline();
    if (dl != INT64_MAX && (timeout < 0 || timeout > MAX(0, dl - now_ms()) + 1000))
        VIOL(D_TIMER, "timer:oversleep", "polls for %d ms while a timer is due in %lld ms", timeout, (long long)(dl - now_ms()));
}

void harness_init(void)
{
    MODULE_REQUIRE(el);
}

/* }}} */

void harness_run(void)
{
    sim_io_config_random();
    sim_io.late_wake_us = sim_choose(ST_CFG, 3) == 2 ? 30000 : 0;
    sim_clock_tick = 0;
    dom = !strcmp(sim_prop, "C06") ? D_TIMER : !strcmp(sim_prop, "C07") ? D_FD : !strcmp(sim_prop, "C08") ? D_MISC : -1;
    focus = dom >= 0 && sim_choose(ST_CFG, 8) ? dom : (int)sim_choose(ST_CFG, 3);
    tiny = sim_choose(ST_CFG, 2);
    slow_ok = sim_choose(ST_CFG, 3) == 1;
    sim_hook_poll_enter = poll_enter;
    sim_hook_poll_ret = poll_ret;
    sim_sig_sent = on_sig_sent;
    sim_sig_delivered = on_sig_delivered;
    int nturn = tiny ? sim_range(ST_CFG, 2, 8) : sim_range(ST_CFG, 5, 60);
    ops_left = tiny ? sim_range(ST_CFG, 4, 30) : sim_range(ST_CFG, 20, 300);
    bool worker = sim_choose(ST_CFG, 4) == 1, pend = sim_choose(ST_CFG, 4) == 1, fdl = sim_choose(ST_CFG, 4) == 1;
    if (worker) el_set_worker(worker_cb);
    sim_now_ns += sim_choose(ST_CFG, 1000) * 1000ll;
    (void)tick_dummy;

    do_ops(tiny ? 4 : 10);
    one_op();
    for (int t = 0; t < nturn; t++) {
        static const int tm[] = { 0, 10, 100, 59000, 1000 };
        do_ops(2);
        if (pend && rnd(6) == 1) pending_op();
        if (fdl && !batch_kept && rnd(4) == 1) {
            for (int i = 0; i < NE; i++) E[i].calls_turn = 0;
            fd_loop_op();
        }
        if (slow_ok && sim_chance(ST_TIME, 1, 5)) { sim_advance_to(sim_now_ns + delay_ns()); sim_fault("stalled-process"); }
        turn_begin();
        el_loop_timeout(tm[rnd(5)]);
        turn_end();
    }
    if (worker) el_set_worker(NULL);
    if (sim_choose(ST_CFG, 3) == 1) {
        /* free running loop: it must stop for the right reasons only */
        sim_event("el_loop");
        in_el_loop = true;
        batch_kept = true;         /* phases are not told apart any more */
        for (int i = 0; i < NE; i++) if (E[i].live && E[i].kind == K_FD) sim_fd_set_ready(E[i].fd, 0);
        ops_left = 40;
        sim_hook_poll_enter = NULL;
        sim_hook_poll_ret = NULL;
        dom = dom == D_MISC || dom < 0 ? dom : dom;
        loop_polls = 0;
        sim_hook_poll_enter = loop_enter;
        unloop_req = false;
        nB = 0;
        /* only judged: when it ends. Callbacks keep checking what does not depend on phases */
        for (int i = 0; i < NE; i++) {
            ent_t *e = &E[i];
            if (e->live && e->kind != K_TIMER && e->kind != K_BLOCKER) unreg(e);
        }
        focus = D_TIMER;
        if (!model_active()) { reg_timer(); }
        el_loop();
        if (model_active() && !unloop_req) VIOL(D_MISC, "loop:early-end", "el_loop returned with %d references left", model_active());
        in_el_loop = false;
    }
    /* drain: everything unregistered, nothing may be called any more */
    draining = true;
    ops_left = 0;
    sim_hook_poll_enter = NULL;
    for (int i = 0; i < NE; i++) if (E[i].live) unreg(&E[i]);
    for (int i = 0; i < NE; i++) if (E[i].blk && E[i].gen && E[i].wiped != 1) VIOL(ent_dom(&E[i]), "el:wipe", "wipe block of %d called %d times", i, E[i].wiped);
    el_loop_timeout(0);
    el_loop_timeout(0);
    sim_state(hist);
}
