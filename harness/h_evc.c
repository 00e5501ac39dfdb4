/* C04: event counts. */
#include "hthr.h"
const char *harness_name = "h_evc";
extern uint64_t sim_futex_spurious, sim_futex_eintr;

#define MAXT 8
static thr_evc_t ec, ec2;
static int nwait, nsig, mode, items_per;
static atomic_int avail;                /* semaphore-like condition */
static atomic_int gate;                 /* broadcast condition */
static atomic_int arrived;
static int consumed, produced, left, total;
static uint64_t sigs, hist;
static int sig_calls;

ORACLE static uint32_t rnd(uint32_t n) { return sim_choose(ST_OPS, n); }
ORACLE static void o_sig(void) { sig_calls++; sim_count_op(); }
ORACLE static int o_sigs(void) { return sig_calls; }
ORACLE static void o_consume(int who) { consumed++; sim_count_op(); hist = hist * 31 + who; sim_event("w%d takes (%d/%d)", who, consumed, total); }
ORACLE static void o_pass(int who, int g) { hist = hist * 31 + who + 8 * g; sim_event("w%d passes gate %d", who, g); sim_count_op(); }
ORACLE static bool o_share(void) { if (left > 0) { left--; return true; } return false; }
ORACLE static void o_pause(void) { if (rnd(3) == 1) sim_sleep_until(sim_now_ns + sim_range(ST_OPS, 1, 30) * SIM_MS); else if (rnd(2)) sim_yield(); }

/* each waiter takes items until the shared quota is used up */
static bool take(void)
{
    int v = atomic_load_explicit(&avail, memory_order_relaxed);
    while (v > 0)
        if (atomic_compare_exchange_weak(&avail, &v, v - 1)) return true;
    return false;
}
static void *waiter(void *arg)
{
    int me = (int)(intptr_t)arg;
    while (o_share()) {
        for (;;) {
            if (take()) break;
            uint64_t key = thr_ec_get(&ec);
            if (take()) break;
            thr_ec_wait(&ec, key);
        }
        o_consume(me);
        if (rnd(4) == 1) o_pause();
    }
    return NULL;
}
static void *signaller(void *arg)
{
    for (int i = 0; i < items_per; ) {
        int n = 1 + rnd(3);
        if (n > items_per - i) n = items_per - i;
        if (n == 1 && rnd(3) == 2) {
            /* plain store visible through the signal's barrier */
            atomic_fetch_add(&avail, 1);
            thr_ec_signal(&ec);
        } else if (rnd(4) == 1) {
            atomic_fetch_add(&avail, n);
            thr_ec_broadcast(&ec);
        } else {
            atomic_fetch_add(&avail, n);
            thr_ec_signal_n(&ec, n);
        }
        o_sig();
        i += n;
        if (rnd(3) == 1) o_pause();
    }
    return NULL;
}

/* gates: flag published with a relaxed store, then one signal per waiter or
 * one broadcast; all must pass each gate */
static int ngates;
static void *gate_waiter(void *arg)
{
    int me = (int)(intptr_t)arg;
    for (int g = 1; g <= ngates; g++) {
        atomic_fetch_add(&arrived, 1);
        thr_ec_signal(&ec2);
        while (atomic_load_explicit(&gate, memory_order_relaxed) < g) {
            uint64_t key = thr_ec_get(&ec);
            if (atomic_load_explicit(&gate, memory_order_relaxed) >= g) break;
            thr_ec_wait(&ec, key);
        }
        o_pass(me, g);
    }
    return NULL;
}
static void *gate_opener(void *arg)
{
    for (int g = 1; g <= ngates; g++) {
        if (rnd(3)) {
            /* waits for everybody first: the reverse direction */
            while (atomic_load_explicit(&arrived, memory_order_relaxed) < g * nwait) {
                uint64_t key = thr_ec_get(&ec2);
                if (atomic_load_explicit(&arrived, memory_order_relaxed) >= g * nwait) break;
                thr_ec_wait(&ec2, key);
            }
        }
        atomic_store_explicit(&gate, g, memory_order_relaxed);
        if (rnd(2)) thr_ec_broadcast(&ec); else thr_ec_signal_n(&ec, nwait);
        o_sig();
    }
    return NULL;
}

/* timed waits */
ORACLE static int64_t o_now(void) { return sim_now_ns; }
ORACLE static uint64_t o_spur(void) { return sim_futex_spurious + sim_futex_eintr; }
extern int64_t sim_stalled_ns;
ORACLE static void o_timed(long ms, int64_t t0, uint64_t sp0, int s0, int64_t st0)
{
    int64_t el = sim_now_ns - t0;
    int64_t disturbed = o_spur() - sp0;
    sim_event("timed wait %ld ms took %lld us", ms, (long long)el / 1000);
    sim_count_op();
    if (el > ms * SIM_MS * (1 + disturbed) + (sim_stalled_ns - st0) + 5000 * SIM_MS)
        sim_violation("evc:late", "timed wait of %ld ms returned after %lld ms", ms, (long long)(el / SIM_MS));
    if (!disturbed && s0 == sig_calls && !(s0 & 1) && el < ms * SIM_MS)
        sim_violation("evc:early", "timed wait of %ld ms returned after %lld us without any signal", ms, (long long)(el / 1000));
}
ORACLE static int64_t o_stalled(void) { return sim_stalled_ns; }
static atomic_int stop;
static void *timed_waiter(void *arg)
{
    for (int i = 0; i < items_per; i++) {
        static const int lens[] = { 1, 7, 100, 999, 1000, 1001, 4500, 60000 };
        long ms = lens[rnd(8)];
        int64_t t0 = o_now();
        uint64_t sp0 = o_spur();
        int s0 = o_sigs();
        int64_t st0 = o_stalled();
        uint64_t key = thr_ec_get(&ec);
        thr_ec_timedwait(&ec, key, ms);
        o_timed(ms, t0, sp0, s0, st0);
    }
    return NULL;
}
static void *timed_signaller(void *arg)
{
    int n = rnd(4);
    for (int i = 0; i < n; i++) {
        o_sig();               /* odd: a signal is under way */
        thr_ec_signal(&ec);
        o_sig();
        o_pause();
    }
    return NULL;
}

void harness_init(void) {}
void harness_run(void)
{
    pthread_t t[32];
    int n = 0;
    mode = sim_choose(ST_CFG, 3);
    nwait = 1 + sim_choose(ST_CFG, 4);
    nsig = 1 + sim_choose(ST_CFG, 3);
    items_per = 1 + sim_choose(ST_CFG, 6);
    ngates = 1 + sim_choose(ST_CFG, 4);
    thr_ec_init(&ec);
    thr_ec_init(&ec2);
    total = left = nsig * items_per;
    sim_sched_config(1);
    if (mode == 0) {
        for (int i = 0; i < nwait; i++) pthread_create(&t[n++], NULL, waiter, (void *)(intptr_t)i);
        for (int i = 0; i < nsig; i++) pthread_create(&t[n++], NULL, signaller, NULL);
    } else if (mode == 1) {
        for (int i = 0; i < nwait; i++) pthread_create(&t[n++], NULL, gate_waiter, (void *)(intptr_t)i);
        pthread_create(&t[n++], NULL, gate_opener, NULL);
    } else {
        for (int i = 0; i < nwait; i++) pthread_create(&t[n++], NULL, timed_waiter, NULL);
        pthread_create(&t[n++], NULL, timed_signaller, NULL);
    }
    for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
    sim_sched_off();
    if (mode == 0 && consumed != total) sim_violation("evc:count", "%d items taken out of %d", consumed, total);
    sim_state(hist * 4 + mode);
    thr_ec_wipe(&ec);
    thr_ec_wipe(&ec2);
}
