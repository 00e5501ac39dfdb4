/* Simulated threads: real pthreads, one runs at a time, the simulator decides
 * who. In T builds every memory access of the code under test is a scheduling
 * point (compiler instrumentation, __tsan_* entry points implemented here),
 * stores may stay in a simulated store buffer (x86-TSO) while the thread is
 * preempted, and heap accesses are checked against a shadow map. */
#define _GNU_SOURCE
#include "sim.h"
#include "simthr.h"
#include "simraw.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <stdarg.h>
#include <pthread.h>
#include <time.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sched.h>
#include <dlfcn.h>
#include <signal.h>

#define RAW(n, ...)  raw_syscall(n, ##__VA_ARGS__)

#define MAX_THR  96
typedef struct {
    int        id;
    int        used, done, detached, joined, joinwait;
    volatile int go;              /* futex word: 1 = has the baton */
    pthread_t  real;
    void     *(*fn)(void *);
    void      *arg, *ret;
    /* blocking */
    const char *why;
    sim_pred_f *pred;
    void      *parg;
    int64_t    deadline;
    int        woken;
    int        prio;
    int        dtor_rounds;
    /* store buffer */
    int        tso_n;
    struct { uint8_t *addr; uint64_t old, new_; uint8_t size; } tso[16];
    int        tso_hidden;        /* trailing stores currently rolled back */
    int        keep_errno;
    uint64_t   frozen;            /* not scheduled before this step */
    uintptr_t  sp;                /* frames below are the simulator's */
} sthr_t;

static sthr_t thr[MAX_THR];
static int nthr;
static sthr_t *cur;
static int active;               /* scheduling enabled */
static int nolock;               /* >0: simulator code is running */
static pthread_key_t exit_key;
static uint64_t steps;           /* instrumented accesses + sync points */
uint64_t sim_max_steps = 6000000;
static int64_t budget;           /* scheduling points before the next preemption */
static int count_plain;          /* plain accesses count as points */
static uint32_t pre_mean;
static int pct_mode, tso_mode, spurious_mode, stall_mode, freeze_mode;
static int slice;
int64_t sim_stalled_ns;
static sthr_t *to_join[MAX_THR];
static int nto_join;
uint64_t sim_steps(void) { return steps; }
int sim_self(void) { return cur ? cur->id : 0; }
#define SLICE_MAX 4000

static void default_deadlock(void)
{
    char b[1500];
    int n = 0;
    for (int i = 0; i < nthr; i++) {
        if (thr[i].used && !thr[i].done)
            n += snprintf(b + n, sizeof(b) - n, " t%d:%s", i, thr[i].why ? thr[i].why : "running");
        if (n > 1300) break;
    }
    sim_violation("deadlock", "no thread can run any more:%s", b);
}
void (*sim_on_deadlock)(void) = default_deadlock;

/* {{{ baton */

static void baton_wait(sthr_t *t)
{
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
        RAW(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void baton_give(sthr_t *t)
{
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    RAW(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

static bool runnable(sthr_t *t)
{
    if (!t->used || t->done) return false;
    if (!t->pred) return true;
    if (t->pred(t->parg)) { t->woken = 1; return true; }
    if (t->deadline <= sim_now_ns) { t->woken = 0; return true; }
    return false;
}

static void draw_budget(void)
{
    if (sim_exhausted(ST_SCHED) || pre_mean == 0) { budget = INT64_MAX; return; }
    /* value 0: no more preemption; otherwise number of points */
    uint32_t v = sim_choose(ST_SCHED, 2 * pre_mean + 1);
    budget = v ? (int64_t)v : (int64_t)2 * pre_mean;
}

/* {{{ store buffer */

static inline uint64_t peek(uint8_t *a, int s)
{
    switch (s) {
      case 1: return *a;
      case 2: return *(uint16_t *)a;
      case 4: return *(uint32_t *)a;
      default: return *(uint64_t *)a;
    }
}
static inline void poke(uint8_t *a, int s, uint64_t v)
{
    switch (s) {
      case 1: *a = v; break;
      case 2: *(uint16_t *)a = v; break;
      case 4: *(uint32_t *)a = v; break;
      default: *(uint64_t *)a = v; break;
    }
}
static inline void tso_flush(sthr_t *t) { t->tso_n = 0; }

static void tso_hide(sthr_t *t)
{
    if (!tso_mode || !t->tso_n) return;
    /* stores to stack frames that are gone (or are the simulator's own) */
    int m = 0;
    for (int i = 0; i < t->tso_n; i++) {
        uintptr_t a = (uintptr_t)t->tso[i].addr, sp = t->sp;
        if (a < sp && a + (1 << 18) > sp) continue;
        t->tso[m++] = t->tso[i];
    }
    t->tso_n = m;
    if (!m) return;
    int k = sim_choose(ST_TSO, t->tso_n + 1);
    t->tso_hidden = 0;
    /* older stores are committed: they leave the buffer */
    if (k < t->tso_n) memmove(&t->tso[0], &t->tso[t->tso_n - k], sizeof(t->tso[0]) * k);
    t->tso_n = k;
    if (!k) return;
    for (int i = t->tso_n - 1; i >= t->tso_n - k; i--) {
        uint64_t now = peek(t->tso[i].addr, t->tso[i].size);
        t->tso[i].new_ = now;
        poke(t->tso[i].addr, t->tso[i].size, t->tso[i].old);
    }
    t->tso_hidden = k;
    sim_fault("store-buffered");
}
static void tso_show(sthr_t *t)
{
    if (t->tso_hidden) {
        for (int i = t->tso_n - t->tso_hidden; i < t->tso_n; i++)
            poke(t->tso[i].addr, t->tso[i].size, t->tso[i].new_);
        t->tso_hidden = 0;
        t->tso_n = 0;
    }
}
/* the buffer of a thread that stays descheduled drains by itself */
static void tso_drain_all(void)
{
    for (int i = 0; i < nthr; i++) tso_show(&thr[i]);
}
static inline void tso_log(void *a, int s)
{
    sthr_t *t = cur;
    if (t->tso_n == 16) {
        memmove(&t->tso[0], &t->tso[1], sizeof(t->tso[0]) * 15);
        t->tso_n = 15;
    }
    t->tso[t->tso_n].addr = a;
    t->tso[t->tso_n].size = s;
    t->tso[t->tso_n].old = peek(a, s);
    t->tso_n++;
}
/* }}} */

static void reap(void)
{
    while (nto_join) {
        sthr_t *t = to_join[--nto_join];
        extern int __real_pthread_join(pthread_t, void **);
        __real_pthread_join(t->real, NULL);
    }
}

/* picks the next thread to run. blocked: the current thread cannot go on */
static void reschedule(int blocked, int preempt)
{
    sthr_t *self = cur, *next = NULL;
    sthr_t *cand[MAX_THR];
    int n;

    for (;;) {
        sim_run_due();
        n = 0;
        /* current thread first: choice 0 means "no switch" */
        if (!blocked && !preempt) cand[n++] = self;
        for (int i = 1; i <= nthr; i++) {
            sthr_t *t = &thr[(self->id + i) % nthr];
            if (t == self) {
                if (blocked ? runnable(t) : preempt) cand[n++] = t;
                continue;
            }
            if (runnable(t)) cand[n++] = t;
        }
        if (n) break;
        /* nothing can run: store buffers drain, then time passes */
        int any = 0;
        for (int i = 0; i < nthr; i++) if (thr[i].tso_hidden) any = 1;
        if (any) { tso_drain_all(); continue; }
        int64_t when = SIM_INF, ev;
        for (int i = 0; i < nthr; i++)
            if (thr[i].used && !thr[i].done && thr[i].pred && thr[i].deadline < when) when = thr[i].deadline;
        if (sim_next_event(&ev) && ev < when) when = ev;
        if (when == SIM_INF) {
            sim_on_deadlock();
            continue;
        }
        sim_advance_to(when);
    }
    if (freeze_mode && n > 1) {
        int m = 0;
        for (int i = 0; i < n; i++) if (cand[i]->frozen <= steps) cand[m++] = cand[i];
        if (m) n = m;
    }
    if (n == 1) {
        next = cand[0];
    } else if (pct_mode) {
        for (int i = 0; i < n; i++) if (!next || cand[i]->prio > next->prio) next = cand[i];
    } else {
        next = cand[sim_choose(ST_SCHED, n)];
    }
    if (next->pred) { next->pred = NULL; next->why = NULL; }
    slice = 0;
    if (next != self) {
        uint64_t h = (uint64_t)next->id << 56 ^ steps;
        sim_hash(h);
        if (!blocked) tso_hide(self); else tso_flush(self);
        tso_show(next);
        cur = next;
        draw_budget();
        baton_give(next);
        if (self->done) return;       /* thread exit path: never comes back */
        baton_wait(self);
        reap();
    } else {
        draw_budget();
    }
}

static void sched_slow(void)
{
    if (!active || nolock) return;
    int e = errno;
    nolock++;
    if (steps > sim_max_steps)
        sim_violation("livelock", "more than %llu steps without finishing (t%d)", (unsigned long long)sim_max_steps, cur->id);
    if (budget <= 0) {
        static int nstall;
        if (stall_mode && nstall < 40 && sim_chance(ST_TIME, 1, 200)) {
            nstall++;
            int64_t d = (int64_t)sim_range(ST_TIME, 1, 200) * SIM_MS;
            sim_stalled_ns += d;
            sim_advance_to(sim_now_ns + d);
            sim_fault("stall");
        }
        if (pct_mode) {
            int mn = 0;
            for (int i = 0; i < nthr; i++) if (thr[i].prio < mn) mn = thr[i].prio;
            cur->prio = mn - 1;
        }
        if (freeze_mode && sim_chance(ST_SCHED, 1, freeze_mode)) {
            cur->frozen = steps + (16u << sim_choose(ST_SCHED, 12));
            sim_fault("freeze-thread");
        }
        sim_fault("preempt");
        reschedule(0, 1);
    } else if (slice > SLICE_MAX) {
        /* fairness: spin loops make progress */
        slice = 0;
        int others = 0;
        for (int i = 0; i < nthr; i++) if (&thr[i] != cur && runnable(&thr[i])) others = 1;
        tso_drain_all();
        if (!others) {
            int64_t when = SIM_INF, ev;
            for (int i = 0; i < nthr; i++)
                if (thr[i].used && !thr[i].done && thr[i].pred && thr[i].deadline < when) when = thr[i].deadline;
            if (sim_next_event(&ev) && ev < when) when = ev;
            if (when != SIM_INF) sim_advance_to(when);
        }
        int pm = pct_mode;
        if (pm) {
            int mn = 0;
            for (int i = 0; i < nthr; i++) if (thr[i].prio < mn) mn = thr[i].prio;
            cur->prio = mn - 1;
        }
        /* deterministic round robin */
        sthr_t *self = cur, *next = NULL;
        for (int i = 1; i < nthr; i++) {
            sthr_t *t = &thr[(self->id + i) % nthr];
            if (runnable(t) && (t->frozen <= steps || !next)) { next = t; if (t->frozen <= steps) break; }
        }
        if (next) {
            if (next->pred) { next->pred = NULL; next->why = NULL; }
            tso_flush(self);
            tso_show(next);
            sim_hash((uint64_t)next->id << 56 ^ steps);
            cur = next;
            baton_give(next);
            baton_wait(self);
            reap();
        }
    }
    nolock--;
    errno = e;
}

static inline void sched_point_sync(void)
{
    if (!active || nolock) return;
    steps++; slice++;
    if (--budget <= 0 || slice > SLICE_MAX || steps > sim_max_steps) { cur->sp = (uintptr_t)__builtin_frame_address(0) + 16; sched_slow(); }
}
static inline void sched_point_plain(void)
{
    steps++; slice++;
    if (count_plain) budget--;
    if (budget <= 0 || slice > SLICE_MAX || steps > sim_max_steps) { cur->sp = (uintptr_t)__builtin_frame_address(0) + 16; sched_slow(); }
}
void sim_point(void) { if (active && cur) { tso_flush(cur); } sched_point_sync(); }

bool sim_block(const char *why, sim_pred_f *pred, void *arg, int64_t deadline)
{
    int e = errno;
    bool res;
    sthr_t *self = cur;
    nolock++;
    tso_flush(self);
    self->why = why;
    self->pred = pred;
    self->parg = arg;
    self->deadline = deadline;
    self->woken = 0;
    if (steps > sim_max_steps)
        sim_violation("livelock", "more than %llu steps without finishing", (unsigned long long)sim_max_steps);
    steps++;
    reschedule(1, 0);
    nolock--;
    res = self->woken;
    self->pred = NULL;
    self->why = NULL;
    errno = e;
    return res;
}
static bool pred_true(void *a) { (void)a; return true; }
static bool pred_false(void *a) { (void)a; return false; }
void sim_sleep_until(int64_t t) { sim_block("sleep", pred_false, NULL, t); }
void sim_yield(void) { (void)pred_true; if (active && !nolock) { tso_flush(cur); budget = 0; sched_slow(); } }
void sim_relax(void) { if (active && !nolock) { steps++; sim_yield(); } }
void sim_enter(void) { nolock++; }
void sim_leave(void) { nolock--; }

void sim_threads_start(void)
{
    memset(thr, 0, sizeof(thr));
    nthr = 1;
    cur = &thr[0];
    cur->used = 1;
    cur->real = pthread_self();
    budget = INT64_MAX;
}
/* starts preemptive scheduling; configuration is drawn per run (swarm) */
void sim_sched_config(int want_tso)
{
    static const uint32_t means[] = { 0, 2, 5, 12, 30, 80, 200, 600, 2000 };
    pre_mean = means[sim_choose(ST_CFG, 9)];
    count_plain = sim_choose(ST_CFG, 3) == 1;
    if (count_plain) pre_mean *= 3;
    pct_mode = sim_choose(ST_CFG, 4) == 1;
    tso_mode = want_tso && sim_choose(ST_CFG, 2) == 1;
    spurious_mode = sim_choose(ST_CFG, 4) == 1;
    stall_mode = sim_choose(ST_CFG, 3) == 1;
    freeze_mode = sim_choose(ST_CFG, 2) == 1 ? 1 + sim_choose(ST_CFG, 16) : 0;
    for (int i = 0; i < nthr; i++) thr[i].prio = 1 + sim_choose(ST_CFG, 1000);
    active = 1;
    draw_budget();
}
void sim_sched_off(void) { active = 0; }

/* }}} */
/* {{{ pthread API */

static void exit_dtor(void *p)
{
    sthr_t *t = p;
    if (t->dtor_rounds++ < 2) { pthread_setspecific(exit_key, p); return; }
    nolock++;
    tso_flush(t);
    t->done = 1;
    sim_event("thread %d exits", t->id);
    if (t->detached || 1) to_join[nto_join++] = t;
    nolock--;
    nolock++;
    reschedule(1, 0);
    /* not reached by the scheduler again; nolock is rebalanced by the next
     * thread, which entered the scheduler with its own increment */
}
static void *tramp(void *p)
{
    sthr_t *t = p;
    baton_wait(t);
    reap();
    nolock--;
    pthread_setspecific(exit_key, t);
    t->ret = t->fn(t->arg);
    return t->ret;
}

void *__real_dlsym(void *, const char *);
int __wrap_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int dlsym_ours;
__attribute__((constructor(101))) static void dlsym_ctor(void) { dlsym_ours = 1; }
void *__wrap_dlsym(void *h, const char *name)
{
    static const char pc[] = "pthread_create";
    int i = 0;
    /* sanitizer runtimes look it up before constructors run (and before strcmp works) */
    while (name[i] && name[i] == pc[i]) i++;
    if (dlsym_ours && !name[i] && !pc[i]) return __wrap_pthread_create;
    return __real_dlsym(h, name);
}
int __real_pthread_join(pthread_t, void **);

int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    static int keyed;
    if (!keyed) { pthread_key_create(&exit_key, exit_dtor); keyed = 1; }
    nolock++;
    if (nthr >= MAX_THR) sim_violation("sim:too-many-threads", "more than %d threads", MAX_THR);
    sthr_t *t = &thr[nthr];
    t->id = nthr++;
    t->used = 1;
    t->fn = fn; t->arg = arg;
    t->prio = pct_mode ? 1 + (int)sim_choose(ST_CFG, 1000) : 0;
    if (attr) { int d; pthread_attr_getdetachstate(attr, &d); t->detached = d == PTHREAD_CREATE_DETACHED; }
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 1 << 20);
    static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real_create) {
#ifdef SIM_VARIANT_P
        real_create = __real_dlsym(RTLD_NEXT, "pthread_create");
#else
        real_create = __real_dlsym(RTLD_DEFAULT, "pthread_create");
#endif
    }
    int r = real_create(&t->real, &a, tramp, t);
    pthread_attr_destroy(&a);
    if (r) sim_violation("sim:pthread_create", "cannot create thread: %d", r);
    *out = t->real;
    sim_event("thread %d created", t->id);
    tso_flush(cur);
    nolock--;
    sched_point_sync();
    return 0;
}
static sthr_t *find(pthread_t p)
{
    for (int i = nthr - 1; i >= 0; i--) if (thr[i].used && pthread_equal(thr[i].real, p) && !thr[i].joined) return &thr[i];
    return NULL;
}
static bool pred_done(void *p) { return ((sthr_t *)p)->done; }
int __wrap_pthread_join(pthread_t p, void **ret)
{
    sthr_t *t = find(p);
    if (!t) sim_violation("sim:join", "join of unknown thread");
    if (!t->done) sim_block("join", pred_done, t, SIM_INF);
    t->joined = 1;
    if (ret) *ret = t->ret;
    return 0;
}
int __wrap_pthread_detach(pthread_t p)
{
    sthr_t *t = find(p);
    if (t) t->detached = 1;
    return 0;
}
int __wrap_pthread_kill(pthread_t p, int sig) { (void)p; (void)sig; return 0; }

/* mutexes and condition variables: state kept in the object itself */
typedef struct { int init; int owner; int count; int type; } smtx_t;   /* owner: tid+1 */
#define MTX(m) ((smtx_t *)(m))
_Static_assert(sizeof(smtx_t) <= sizeof(pthread_mutex_t), "");
#define MTX_MAGIC 0x51a7
static smtx_t *mtx(pthread_mutex_t *m)
{
    smtx_t *s = MTX(m);
    if (s->init != MTX_MAGIC) {
        /* statically initialised */
        int kind = ((int *)m)[4];
        memset(s, 0, sizeof(*s));
        s->init = MTX_MAGIC;
        s->type = kind & 3;
    }
    return s;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    memset(m, 0, sizeof(*m));
    smtx_t *s = MTX(m);
    s->init = MTX_MAGIC;
    if (a) pthread_mutexattr_gettype((pthread_mutexattr_t *)a, &s->type);
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { memset(m, 0, sizeof(*m)); return 0; }
static bool pred_mtx(void *p) { return ((smtx_t *)p)->owner == 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    smtx_t *s = mtx(m);
    int me = cur->id + 1;
    sim_point();
    if (s->owner == me && s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    while (s->owner) {
        sim_probe("mutex-contended");
        sim_block("mutex", pred_mtx, s, SIM_INF);
    }
    s->owner = me;
    s->count = 1;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    smtx_t *s = mtx(m);
    int me = cur->id + 1;
    sim_point();
    if (s->owner == me && s->type == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    if (s->owner) return EBUSY;
    s->owner = me;
    s->count = 1;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    smtx_t *s = mtx(m);
    if (s->owner != cur->id + 1)
        sim_violation("mutex-unlock-not-owner", "t%d unlocks a mutex owned by t%d", cur->id, s->owner - 1);
    if (--s->count == 0) s->owner = 0;
    sim_point();
    return 0;
}
typedef struct { uint32_t init; uint32_t seq; uint32_t sigs; uint32_t waiters; uint32_t clock; } scond_t;
typedef struct { scond_t *c; int signaled; void *next; } cwait_t;
/* waiters are listed FIFO; a signal wakes one chosen waiter */
static struct { scond_t *c; int tid; int woken; } cw[MAX_THR];
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
    memset(c, 0, sizeof(*c));
    if (a) { clockid_t k; pthread_condattr_getclock((pthread_condattr_t *)a, &k); ((scond_t *)c)->clock = k; }
    return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { memset(c, 0, sizeof(*c)); return 0; }
static bool pred_cw(void *p) { return *(int *)p; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline)
{
    int i, cnt;
    smtx_t *s = mtx(m);
    sim_point();
    for (i = 0; i < MAX_THR && cw[i].c; i++) ;
    cw[i].c = (scond_t *)c; cw[i].tid = cur->id; cw[i].woken = 0;
    if (s->owner != cur->id + 1) sim_violation("cond-wait-unlocked", "cond_wait without the mutex");
    cnt = s->count; s->count = 0; s->owner = 0;
    if (spurious_mode && sim_chance(ST_FAULT, 1, 20)) { cw[i].woken = 1; sim_fault("spurious-wakeup"); }
    bool ok = sim_block("cond", pred_cw, &cw[i].woken, deadline);
    cw[i].c = NULL;
    while (s->owner) sim_block("mutex", pred_mtx, s, SIM_INF);
    s->owner = cur->id + 1; s->count = cnt;
    return ok ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, SIM_INF); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    int64_t d = ts->tv_sec * SIM_S + ts->tv_nsec;
    if (((scond_t *)c)->clock != CLOCK_MONOTONIC) d -= sim_real_off_ns;
    return cond_wait(c, m, d);
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    for (int i = 0; i < MAX_THR; i++) if (cw[i].c == (scond_t *)c) cw[i].woken = 1;
    sim_point();
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
    int l[MAX_THR], n = 0;
    for (int i = 0; i < MAX_THR; i++) if (cw[i].c == (scond_t *)c && !cw[i].woken) l[n++] = i;
    if (n) cw[l[sim_choose(ST_SCHED, n)]].woken = 1;
    sim_point();
    return 0;
}
static bool pred_once(void *p) { return *(int *)p == 2; }
int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void))
{
    int *st = (int *)o;
    if (*st == 0) { *st = 1; fn(); *st = 2; sim_point(); return 0; }
    if (*st == 1) sim_block("once", pred_once, st, SIM_INF);
    return 0;
}
int __wrap_sched_yield(void) { if (active && !nolock) { sim_yield(); } return 0; }

/* futexes */
static struct { int *addr; int tid; int woken; uint64_t seq; } fw[MAX_THR];
static uint64_t fseq;
uint64_t sim_futex_spurious, sim_futex_eintr;
static bool pred_fw(void *p) { return *(int *)p; }
long sim_futex(int *addr, int op, int val, const struct timespec *to, int *addr2, int val3)
{
    op &= ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    sim_point();
    if (op == FUTEX_WAIT) {
        int i;
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        if (spurious_mode && sim_chance(ST_FAULT, 1, 12)) {
            sim_fault("futex-eintr"); sim_futex_eintr++;
            errno = EINTR;
            return -1;
        }
        for (i = 0; i < MAX_THR && fw[i].addr; i++) ;
        fw[i].addr = addr; fw[i].tid = cur->id; fw[i].woken = 0; fw[i].seq = ++fseq;
        sim_probe("futex-wait");
        int64_t dl = to ? sim_now_ns + to->tv_sec * SIM_S + to->tv_nsec : SIM_INF;
        if (spurious_mode && sim_chance(ST_FAULT, 1, 20)) { fw[i].woken = 1; sim_fault("futex-spurious"); sim_futex_spurious++; }
        bool ok = sim_block("futex", pred_fw, &fw[i].woken, dl);
        fw[i].addr = NULL;
        if (!ok) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (op == FUTEX_WAKE) {
        int n = 0;
        while (n < val) {
            /* FIFO, as the kernel does for equal priorities */
            int best = -1;
            for (int i = 0; i < MAX_THR; i++)
                if (fw[i].addr == addr && !fw[i].woken && (best < 0 || fw[i].seq < fw[best].seq)) best = i;
            if (best < 0) break;
            fw[best].woken = 1;
            n++;
        }
        if (n) sim_probe("futex-wake");
        return n;
    }
    errno = ENOSYS;
    return -1;
}

/* }}} */
#ifdef SIM_VARIANT_T
/* {{{ heap with shadow */

#define ARENA_BASE  ((uint8_t *)0x200000000000ull)
#define ARENA_SIZE  (1ull << 31)
#define SHADOW_BASE ((uint8_t *)0x210000000000ull)
static uint64_t arena_pos;
static int arena_ok;
static volatile int arena_lk;
static int64_t arena_live;
int64_t sim_heap_live(void) { return arena_live; }
/* shadow byte per 8 bytes: 0 = not tracked/ok, 1..7 first n bytes ok, 0x80 redzone, 0x81 freed */
typedef struct { uint64_t size; uint64_t magic; } hdr_t;
#define H_MAGIC 0xa110ca7ed0bbull
#define H_FREED 0xf4eedf4eedull

__attribute__((constructor(101))) static void arena_init(void)
{
    mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    mmap(SHADOW_BASE, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    arena_ok = 1;
}
static inline bool in_arena(const void *p) { return (uint8_t *)p >= ARENA_BASE && (uint8_t *)p < ARENA_BASE + ARENA_SIZE; }
static inline uint8_t *shadow(const void *p) { return SHADOW_BASE + ((uint8_t *)p - ARENA_BASE) / 8; }

static void *arena_alloc(uint64_t size, uint64_t align)
{
    if (align < 16) align = 16;
    uint64_t pos = (arena_pos + sizeof(hdr_t) + 16 + align - 1) & ~(align - 1);
    uint64_t end = (pos + size + 32 + 15) & ~15ull;
    if (end > ARENA_SIZE) { errno = ENOMEM; return NULL; }
    /* redzone before (header) and after */
    memset(shadow(ARENA_BASE + (arena_pos & ~7ull)), 0x80, (end - (arena_pos & ~7ull)) / 8);
    uint8_t *p = ARENA_BASE + pos;
    hdr_t *h = (hdr_t *)p - 1;
    h->size = size;
    h->magic = H_MAGIC;
    memset(shadow(p), 0, size / 8);
    if (size % 8) *shadow(p + size) = size % 8;
    arena_pos = end;
    arena_live += size;
    return p;
}
void *__real_malloc(size_t);
void  __real_free(void *);
void *__real_realloc(void *, size_t);
/* uninitialised memory is not zero */
static void *fill(void *p, size_t n) { return p ? memset(p, 0xa5, n < (1 << 20) ? n : 1 << 20) : p; }
void *__wrap_malloc(size_t n) { return fill(arena_alloc(n, 16), n); }
void *__wrap_calloc(size_t a, size_t b)
{
    /* the arena is never reused: already zero */
    return arena_alloc(a * b, 16);
}
void *__wrap_memalign(size_t al, size_t n) { return fill(arena_alloc(n, al), n); }
void *__wrap_aligned_alloc(size_t al, size_t n) { return fill(arena_alloc(n, al), n); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) { *p = fill(arena_alloc(n, al), n); return *p ? 0 : ENOMEM; }
void __wrap_free(void *p)
{
    if (!p) return;
    if (!in_arena(p)) { __real_free(p); return; }
    hdr_t *h = (hdr_t *)p - 1;
    if (h->magic == H_FREED) sim_violation("mem:double-free", "double free of %p (size %llu)", p, (unsigned long long)h->size);
    if (h->magic != H_MAGIC) sim_violation("mem:bad-free", "free of invalid pointer %p", p);
    h->magic = H_FREED;
    arena_live -= h->size;
    memset(shadow(p), 0x81, (h->size + 7) / 8);
}
void *__wrap_realloc(void *p, size_t n)
{
    if (!p) return __wrap_malloc(n);
    if (!in_arena(p)) return __real_realloc(p, n);
    hdr_t *h = (hdr_t *)p - 1;
    if (h->magic != H_MAGIC) sim_violation("mem:bad-realloc", "realloc of invalid pointer %p", p);
    if (n == 0) { __wrap_free(p); return NULL; }
    void *r = arena_alloc(n, 16);
    memcpy(r, p, n < h->size ? n : h->size);
    __wrap_free(p);
    return r;
}
size_t __wrap_malloc_usable_size(void *p) { return in_arena(p) ? ((hdr_t *)p - 1)->size : 0; }
int __wrap_malloc_trim(size_t n) { (void)n; return 0; }

static void __attribute__((noinline)) bad_access(void *a, int s, int w, void *pc)
{
    uint8_t sh = *shadow(a);
    const char *k = sh == 0x81 || *shadow((uint8_t *)a + s - 1) == 0x81 ? "mem:use-after-free" : "mem:out-of-bounds";
    nolock++;
    sim_violation(k, "%s of size %d at %p by t%d (pc %p)", w ? "write" : "read", s, a, cur->id, pc);
}
static inline void shadow_check(void *a, int s, int w, void *pc)
{
    if (!in_arena(a)) return;
    uint8_t sh = *shadow(a);
    if (__builtin_expect(sh != 0, 0)) {
        if (sh >= 0x80 || (((uintptr_t)a & 7) + s) > sh) bad_access(a, s, w, pc);
    }
    if ((((uintptr_t)a & 7) + s) > 8) {
        sh = *shadow((uint8_t *)a + s - 1);
        if (sh && (sh >= 0x80 || (((uintptr_t)a + s - 1) & 7) >= sh)) bad_access(a, s, w, pc);
    }
}
void sim_mem_check(const void *a, size_t n);
static void range_check(void *a, size_t n, int w, void *pc)
{
    if (!n || !in_arena(a)) return;
    uint8_t *p = a;
    /* first, last and every granule in between */
    shadow_check(p, 1, w, pc);
    shadow_check(p + n - 1, 1, w, pc);
    for (uint8_t *g = (uint8_t *)(((uintptr_t)p + 8) & ~7ull); g + 8 <= p + n; g += 8) {
        uint8_t sh = *shadow(g);
        if (sh) bad_access(g, 8, w, pc);
    }
}
void sim_mem_check(const void *a, size_t n) { range_check((void *)a, n, 0, NULL); }

/* }}} */
/* {{{ instrumentation entry points */

void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
#define PC __builtin_return_address(0)

static inline void acc(void *a, int s, int w, void *pc)
{
    if (!active || nolock) return;
    shadow_check(a, s, w, pc);
    sched_point_plain();
    if (w) {
        if (tso_mode) { if (s <= 8) tso_log(a, s); else tso_flush(cur); }
    }
}
#define RW(s) \
void __tsan_read##s(void *a) { acc(a, s, 0, PC); } \
void __tsan_write##s(void *a) { acc(a, s, 1, PC); } \
void __tsan_unaligned_read##s(void *a) { acc(a, s, 0, PC); } \
void __tsan_unaligned_write##s(void *a) { acc(a, s, 1, PC); } \
void __tsan_volatile_read##s(void *a) { acc(a, s, 0, PC); } \
void __tsan_volatile_write##s(void *a) { acc(a, s, 1, PC); } \
void __tsan_read_write##s(void *a) { acc(a, s, 1, PC); } \
void __tsan_unaligned_read_write##s(void *a) { acc(a, s, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (active && !nolock) { range_check(a, n, 0, PC); sched_point_plain(); } }
void __tsan_write_range(void *a, unsigned long n) { if (active && !nolock) { range_check(a, n, 1, PC); tso_flush(cur); sched_point_plain(); } }
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    if (active && !nolock) { range_check((void *)s, n, 0, PC); range_check(d, n, 1, PC); sched_point_plain(); tso_flush(cur); }
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
    if (active && !nolock) { range_check((void *)s, n, 0, PC); range_check(d, n, 1, PC); sched_point_plain(); tso_flush(cur); }
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n)
{
    if (active && !nolock) { range_check(d, n, 1, PC); sched_point_plain(); tso_flush(cur); }
    return memset(d, c, n);
}

/* atomics: x86 semantics. Loads are plain; relaxed/release stores may sit in
 * the store buffer; everything else is a full barrier. */
#define ORDER_SEQ 5
static inline void at_pre(void *a, int s, int w, void *pc) { if (active && !nolock) { shadow_check(a, s, w, pc); sched_point_sync(); } }
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int mo) { at_pre((void *)a, bits / 8, 0, PC); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { \
    at_pre((void *)a, bits / 8, 1, PC); \
    if (active && !nolock && tso_mode) { if (mo == ORDER_SEQ) tso_flush(cur); else tso_log((void *)a, bits / 8); } \
    *a = v; if (mo == ORDER_SEQ && cur) tso_flush(cur); } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { at_pre((void *)a, bits / 8, 1, PC); if (cur) tso_flush(cur); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { at_pre((void *)a, bits / 8, 1, PC); if (cur) tso_flush(cur); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { at_pre((void *)a, bits / 8, 1, PC); if (cur) tso_flush(cur); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { at_pre((void *)a, bits / 8, 1, PC); if (cur) tso_flush(cur); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { at_pre((void *)a, bits / 8, 1, PC); if (cur) tso_flush(cur); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { at_pre((void *)a, bits / 8, 1, PC); if (cur) tso_flush(cur); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { at_pre((void *)a, bits / 8, 1, PC); if (cur) tso_flush(cur); T o = *a; *a = ~(o & v); return o; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
    at_pre((void *)a, bits / 8, 1, PC); if (cur) tso_flush(cur); T o = *a; if (o == c) *a = v; return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
    at_pre((void *)a, bits / 8, 1, PC); if (cur) tso_flush(cur); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { \
    at_pre((void *)a, bits / 8, 1, PC); if (cur) tso_flush(cur); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
AT(128, __uint128_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!active || nolock) return;
    if (mo == ORDER_SEQ) tso_flush(cur);
    sched_point_sync();
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* }}} */
#endif
