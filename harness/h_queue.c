/* C03: MPSC / SPSC queues. */
#include "hthr.h"
const char *harness_name = "h_queue";

typedef struct node_t { mpsc_node_t n; uint32_t prod, seq; } node_t;
static mpsc_queue_t q;
#define MAXP 5
#define MAXM 40
static int nprod, nmsg, mode, ncons;
static uint64_t clk;                       /* oracle event counter */
static struct { uint64_t b, e; uint64_t c; } ops[MAXP][MAXM];
static int bells, bells_total, consumed, busy, last_seq[MAXP], prod_done;
static uint64_t order[MAXP * MAXM];

ORACLE static void o_push_begin(int p, int s) { ops[p][s].b = ++clk; }
ORACLE static void o_push_end(int p, int s, bool first)
{
    ops[p][s].e = ++clk;
    sim_event("push p%d #%d -> %d", p, s, first);
    if (first) { bells++; bells_total++; }
}
ORACLE static void o_consume(uint32_t p, uint32_t s, int who)
{
    if (p >= (uint32_t)nprod || s >= (uint32_t)nmsg)
        sim_violation("queue:garbage", "consumed unknown message %u/%u", p, s);
    if (ops[p][s].c) sim_violation("queue:duplicate", "message p%u #%u consumed twice", p, s);
    if (!ops[p][s].b) sim_violation("queue:invented", "message p%u #%u consumed before it was pushed", p, s);
    ops[p][s].c = ++clk;
    sim_event("consume p%u #%u by c%d", p, s, who);
    if ((int)s != last_seq[p]) sim_violation("queue:fifo", "producer p%u: got #%u, expected #%d", p, s, last_seq[p]);
    last_seq[p] = s + 1;
    order[consumed++] = p << 16 | s;
    /* real time order between producers */
    for (int i = 0; i < nprod; i++)
        for (int j = 0; j < nmsg; j++)
            if (ops[i][j].e && !ops[i][j].c && ops[i][j].e < ops[p][s].b)
                sim_violation("queue:order", "p%u #%u overtakes p%d #%d whose push had completed before", p, s, i, j);
    sim_count_op();
}
ORACLE static void o_enter(int who)
{
    if (busy) sim_violation("queue:two-consumers", "two pushes reported an empty queue: two consumers active");
    busy = 1; (void)who;
}
ORACLE static void o_leave(void) { busy = 0; }
ORACLE static bool bell_ready(void *a) { return bells > 0 || consumed == nprod * nmsg; }
ORACLE static bool o_take_bell(void)
{
    if (!sim_block("doorbell", bell_ready, NULL, SIM_INF)) return false;
    if (bells) { bells--; return true; }
    return false;
}
ORACLE static bool o_all(void) { return consumed == nprod * nmsg; }
ORACLE static void o_prod_done(void) { prod_done++; }

static void *producer(void *arg)
{
    int p = (int)(intptr_t)arg;
    for (int s = 0; s < nmsg; s++) {
        node_t *n = malloc(sizeof(*n));
        n->prod = p; n->seq = s;
        o_push_begin(p, s);
        o_push_end(p, s, mpsc_queue_push(&q, &n->n));
    }
    o_prod_done();
    return NULL;
}
static void node_use(node_t *n, int who) { o_consume(n->prod, n->seq, who); }
static void doit(mpsc_node_t *mn, data_t d)
{
    node_t *n = container_of(mn, node_t, n);
    node_use(n, d.u32);
    n->prod = n->seq = 0xdeadbeef;
    free(n);
}
static void freenode(mpsc_node_t *mn)
{
    node_t *n = container_of(mn, node_t, n);
    n->prod = n->seq = 0xdeadbeef;
    free(n);
}
static void *drainer(void *arg)
{
    int who = (int)(intptr_t)arg;
    while (o_take_bell()) {
        mpsc_it_t it;
        bool end;
        o_enter(who);
        mpsc_queue_drain_start(&it, &q);
        do {
            mpsc_node_t *n = mpsc_queue_drain_fast(&it, doit, (data_t)(uint32_t)who);
            node_use(container_of(n, node_t, n), who);
            /* a new consumer may be started as soon as the queue is empty */
            o_leave();
            end = mpsc_queue_drain_end(&it, freenode);
            if (!end) o_enter(who);
        } while (!end);
    }
    return NULL;
}
ORACLE static int rnd_block(void) { return sim_choose(ST_OPS, 3); }
static void *popper(void *arg)
{
    while (!o_all()) {
        mpsc_node_t *n;
        if (mpsc_queue_looks_empty(&q)) { sim_yield(); continue; }
        n = mpsc_queue_pop(&q, rnd_block() == 1);
        if (n) { node_use(container_of(n, node_t, n), 0); freenode(n); }
        else sim_yield();
    }
    if (mpsc_queue_pop(&q, false)) sim_violation("queue:extra", "pop returned a node from an empty queue");
    return NULL;
}

spsc_queue_t(u32, uint32_t);
spsc_queue_ptr_t(ptr, uint32_t);
static spsc_t(u32) sq;
static spsc_t(ptr) sp;
static uint32_t vals[MAXM * 4];
static int scap;
ORACLE static int o_inflight(void) { int n = 0; for (int i = 0; i < nmsg; i++) n += ops[0][i].e && !ops[0][i].c; return n; }
static void *s_prod(void *arg)
{
    for (int s = 0; s < nmsg; s++) {
        while (scap && o_inflight() >= scap) sim_yield();
        vals[s] = s;
        o_push_begin(0, s);
        if (mode == 2) spsc_push(u32, &sq, s + 1); else spsc_push(ptr, &sp, &vals[s]);
        o_push_end(0, s, false);
    }
    return NULL;
}
static void *s_cons(void *arg)
{
    while (!o_all()) {
        if (mode == 2) {
            uint32_t v = 77777;
            if (spsc_pop(u32, &sq, &v)) o_consume(0, v - 1, 0); else sim_yield();
        } else {
            uint32_t *v = spsc_pop2(ptr, &sp);
            if (v) o_consume(0, v - vals, 0); else sim_yield();
        }
    }
    return NULL;
}

void harness_init(void) {}
void harness_run(void)
{
    pthread_t t[16];
    int n = 0;
    mode = sim_choose(ST_CFG, 4);
    nprod = mode >= 2 ? 1 : 1 + sim_choose(ST_CFG, 4);
    nmsg = 1 + sim_choose(ST_CFG, mode >= 2 ? 30 : 10);
    scap = sim_choose(ST_CFG, 4);
    ncons = mode == 0 ? 1 + sim_choose(ST_CFG, 3) : 1;
    mpsc_queue_init(&q);
    if (mode == 2) spsc_init(u32, &sq); else if (mode == 3) spsc_init(ptr, &sp);
    sim_sched_config(1);
    for (int i = 0; i < ncons; i++)
        pthread_create(&t[n++], NULL, mode == 0 ? drainer : mode == 1 ? popper : s_cons, (void *)(intptr_t)i);
    for (int i = 0; i < nprod; i++)
        pthread_create(&t[n++], NULL, mode >= 2 ? s_prod : producer, (void *)(intptr_t)i);
    for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
    sim_sched_off();
    if (consumed != nprod * nmsg) sim_violation("queue:lost", "%d messages consumed out of %d", consumed, nprod * nmsg);
    if (mode < 2 && !mpsc_queue_looks_empty(&q)) sim_violation("queue:not-empty", "drained queue does not look empty");
    uint64_t h = mode;
    for (int i = 0; i < consumed; i++) h = h * 1000003 + order[i];
    sim_state(h);
    if (mode == 2) spsc_wipe(u32, &sq); else if (mode == 3) spsc_wipe(ptr, &sp);
}
