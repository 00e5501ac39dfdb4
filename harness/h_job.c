/* C01: job engine and completion groups. C02: serial queues. */
#include "hthr.h"
const char *harness_name = "h_job";

#define MAXJ 1500
#define MAXS 12
#define MAXQ 4
enum { J_NONE, J_SCHED, J_RUN, J_DONE };
typedef struct hjob_t {
    thr_job_t job;
    int id;
} hjob_t;
static struct {
    int state, syn, q, depth, nested, notify;
    uint64_t b, e, start; int64_t tb;
    int kind;
} L[MAXJ];                                   /* oracle ledger */
static int nj, alive_jobs, qbusy[MAXQ], qrun[MAXQ];
static uint64_t clk, order_h;
static int queues_mode, qheavy, tiny;
static int max_jobs;

/* data the jobs write with instrumented accesses */
static volatile uint64_t result[MAXJ];
static hjob_t jobs[MAXJ];
static thr_syn_t syns[MAXS];
static int nsyn;
static thr_queue_t *queues[MAXQ];
static int nq;
static int syn_pending[MAXS], syn_wiped[MAXS];
typedef struct { thr_td_t td; uint64_t sum; int busy; } htd_t;
static int td_live, td_max;

ORACLE static int o_new(int syn, int q, int depth)
{
    if (nj >= max_jobs) return -1;
    int id = nj++;
    L[id].state = J_SCHED; L[id].syn = syn; L[id].q = q; L[id].depth = depth;
    L[id].b = ++clk; L[id].notify = -1; L[id].tb = sim_now_ns;
    alive_jobs++;
    if (syn >= 0) syn_pending[syn]++;
    sim_event("sched j%d syn%d q%d by t%d", id, syn, q, sim_self());
    return id;
}
ORACLE static void o_pushed(int id) { L[id].e = ++clk; }
ORACLE static void o_start(int id, bool main_thread)
{
    sim_event("start j%d on t%d", id, sim_self());
    if (id < 0 || id >= nj) sim_violation("job:garbage", "unknown job %d ran", id);
    if (L[id].state != J_SCHED) sim_violation("job:twice", "job %d started again (state %d)", id, L[id].state);
    L[id].state = J_RUN;
    /* nothing but the loop's own timeout could explain such a delay */
    if (sim_now_ns - L[id].tb > 60 * SIM_S)
        sim_violation("job:late", "job %d (queue %d, group %d) only ran %lld s after it was scheduled", id, L[id].q, L[id].syn, (long long)((sim_now_ns - L[id].tb) / SIM_S));
    L[id].start = ++clk;
    sim_count_op();
    int q = L[id].q;
    if (q >= 0) {
        if (qbusy[q] && !L[id].nested) sim_violation("queue:overlap", "job %d starts on serial queue %d while another of its jobs runs", id, q);
        qbusy[q]++;
        if (q == 0 && !main_thread) sim_violation("queue:main-thread", "job %d of the main queue runs on thread %d", id, sim_self());
        if (!L[id].nested)
            for (int i = 0; i < nj; i++)
                if (i != id && L[i].q == q && !L[i].nested && L[i].state == J_SCHED && L[i].e && L[i].e < L[id].b)
                    sim_violation("queue:order", "queue %d: job %d overtakes job %d pushed before", q, id, i);
    }
    if (L[id].notify >= 0) {
        int s = L[id].notify;
        for (int i = 0; i < nj; i++)
            if (L[i].syn == s && L[i].state != J_DONE && L[i].b < L[id].b)
                sim_violation("syn:notify-early", "completion notification of group %d before job %d is done", s, i);
    }
    order_h = order_h * 1000003 + id * 64 + sim_self();
}
ORACLE static void o_end(int id)
{
    L[id].state = J_DONE;
    alive_jobs--;
    if (L[id].syn >= 0) {
        if (syn_wiped[L[id].syn]) sim_violation("syn:wiped", "job %d of group %d still running after the wait", id, L[id].syn);
        syn_pending[L[id].syn]--;
    }
    if (L[id].q >= 0) qbusy[L[id].q]--;
    sim_event("end j%d", id);
}
/* group wait returned: everything attached and prepared before must be done */
ORACLE static void o_waited(int s, int upto)
{
    for (int i = 0; i < upto; i++)
        if (L[i].syn == s && L[i].state != J_DONE)
            sim_violation("syn:early", "wait on group %d returned although job %d is not done (state %d)", s, i, L[i].state);
}
ORACLE static int o_nj(void) { return nj; }
ORACLE static int o_in_syn(int i, int s) { return L[i].syn == s; }
ORACLE static uint32_t rnd(uint32_t n) { return sim_choose(ST_OPS, n); }
ORACLE static void o_badresult(int i, uint64_t v) { sim_violation("syn:visibility", "result of job %d not visible after the wait (%llx)", i, (unsigned long long)v); }
ORACLE static bool pred_alldone(void *a) { return alive_jobs == 0; }
ORACLE static void o_state_check(int id, int st, const char *what)
{
    if (L[id].state != st) sim_violation(what, "job %d in state %d", id, L[id].state);
}
ORACLE static int o_new_syn(void) { if (nsyn >= MAXS) return -1; return nsyn++; }
ORACLE static void o_syn_wiped(int s) { syn_wiped[s] = 1; }
ORACLE static void o_sleep(void) { sim_sleep_until(sim_now_ns + sim_range(ST_OPS, 1, 300) * SIM_MS); }
ORACLE static void o_set_kind(int id, int k) { L[id].kind = k; }
ORACLE static int o_kind(int id) { return L[id].kind; }
ORACLE static int o_depth(int id) { return L[id].depth; }
ORACLE static int o_syn(int id) { return L[id].syn; }
ORACLE static int o_q(int id) { return L[id].q; }
ORACLE static void o_notify(int id, int s) { L[id].notify = s; }
ORACLE static void o_nested(int id) { L[id].nested = 1; }
ORACLE static void o_td(int d) { td_live += d; if (td_live > td_max) td_max = td_live; }

static void job_body(int id);
static void job_cb(thr_job_t *job, thr_syn_t *syn) { job_body(container_of(job, hjob_t, job)->id); }

/* schedules a new job by one of the documented entry points */
static int spawn(int syn, int q, int depth)
{
    int id = o_new(syn, q, depth);
    if (id < 0) return -1;
    int how = rnd(3);
    hjob_t *j = &jobs[id];
    j->id = id; j->job.run = job_cb;
    if (q >= 0) {
        if (syn >= 0) {
            if (how) thr_syn_queue(&syns[syn], queues[q], &j->job);
            else thr_syn_queue_b(&syns[syn], queues[q], ^{ job_body(id); });
        } else {
            if (how) thr_queue(queues[q], &j->job);
            else thr_queue_b(queues[q], ^{ job_body(id); });
        }
    } else if (syn >= 0) {
        if (how == 2) thr_syn_queue(&syns[syn], NULL, &j->job);
        else if (how) thr_syn_schedule(&syns[syn], &j->job);
        else thr_syn_schedule_b(&syns[syn], ^{ job_body(id); });
    } else {
        if (how) thr_schedule(&j->job);
        else thr_schedule_b(^{ job_body(id); });
    }
    o_pushed(id);
    return id;
}
static void check_results(int s, int upto)
{
    for (int i = 0; i < upto; i++)
        if (o_in_syn(i, s)) {
            uint64_t v = result[i];
            if (v != 0xabcd0000ull + i) o_badresult(i, v);
        }
}
static void wait_syn(int s)
{
    int upto = o_nj();
    thr_syn_wait(&syns[s]);
    o_waited(s, upto);
    check_results(s, upto);
}
static int pick_q(void)
{
    if (!nq) return -1;
    if (!queues_mode && !qheavy && rnd(4)) return -1;
    return (int)rnd(nq + 1) - 1;
}
/* a serial queue job may wait for something that needs no serial queue */
static void nested_group(int depth, bool in_queue)
{
    int s = o_new_syn();
    if (s < 0) return;
    thr_syn_init(&syns[s]);
    int n = 1 + rnd(5);
    /* what a queue job waits for must not need that queue */
    for (int i = 0; i < n; i++) spawn(s, -1, in_queue ? 3 : depth + 1);
    wait_syn(s);
    thr_syn_wipe(&syns[s]);
    o_syn_wiped(s);
}
static void sync_queue(int q, int depth)
{
    int id = o_new(-1, q, depth);
    if (id < 0) return;
    hjob_t *j = &jobs[id];
    j->id = id; j->job.run = job_cb;
    o_set_kind(id, 1);
    if (thr_is_on_queue(queues[q])) o_nested(id);
    if (rnd(2)) thr_queue_sync(queues[q], &j->job);
    else thr_queue_sync_b(queues[q], ^{ job_body(id); });
    o_state_check(id, J_DONE, "queue:sync-early");
    uint64_t v = result[id];
    if (v != 0xabcd0000ull + id) o_badresult(id, v);
}

static void job_body(int id)
{
    o_start(id, thr_id() == 0);
    int n = rnd(4), depth = o_depth(id), kind = o_kind(id);
    /* a job scheduled by a queue's job may be run in place: it must not wait
     * for that queue, so it spawns and waits for nothing */
    int cd = o_q(id) >= 0 ? 3 : depth + 1;
    for (int i = 0; i < n; i++) result[id] += i;
    if (depth < 3 && kind != 1) {
        switch (rnd(queues_mode ? 12 : 14)) {
          case 0: case 1: case 2: case 3: break;
          case 4: case 5: { int k = 1 + rnd(2); while (k--) spawn(o_syn(id), -1, cd); break; }
          case 6: spawn(-1, -1, cd); break;
          case 7: spawn(o_syn(id), pick_q(), cd); break;
          case 8: spawn(-1, pick_q(), cd); break;
          case 9: if (o_q(id) != 0) nested_group(depth, o_q(id) > 0); break;
          case 10:
            if (queues_mode && o_q(id) < 0) {
                int q = 1 + rnd(nq > 1 ? nq - 1 : 1);
                if (q < nq) sync_queue(q, 3);
            } else if (queues_mode && o_q(id) >= 0 && nq) {
                sync_queue(o_q(id), 3);      /* from inside: runs in place */
            }
            break;
          case 11:
            thr_enter_blocking_syscall();
            o_sleep();
            thr_exit_blocking_syscall();
            break;
          case 12: o_sleep(); break;
          case 13: {
            int k = 2 + rnd(12);
            if (o_q(id) == 0) break;
            __block volatile uint32_t seen[16] = { 0 };
            volatile uint32_t *sp = (volatile uint32_t *)seen;
            thr_for_each(k, ^(size_t pos) { sp[pos]++; });
            for (int i = 0; i < k; i++)
                if (sp[i] != 1) { o_state_check(id, -1, "job:for-each"); }
            break;
          }
        }
    }
    result[id] = 0xabcd0000ull + id;
    o_end(id);
}

/* thread data */
ORACLE static void o_td_bad(uint64_t a, uint64_t b) { sim_violation("syn:td", "thread data accounts for %llu uses out of %llu", (unsigned long long)a, (unsigned long long)b); }
ORACLE static void o_td_busy(void) { sim_violation("syn:td-shared", "thread data handed out to two threads at a time"); }
ORACLE static void o_note_job(void) { sim_count_op(); }
static void td_group(void)
{
    int s = o_new_syn();
    if (s < 0) return;
    thr_syn_t *syn = &syns[s];
    thr_syn_init(syn);
    thr_syn_declare_td(syn, ^thr_td_t *(void) { htd_t *t = p_new(htd_t, 1); o_td(1); return &t->td; },
                       ^(thr_td_t **p) { htd_t *t = container_of(*p, htd_t, td); o_td(-1); p_delete(&t); *p = NULL; });
    int n = 1 + rnd(12);
    for (int i = 0; i < n; i++)
        thr_syn_schedule_b(syn, ^{
            htd_t *t = container_of(thr_syn_acquire_td(syn), htd_t, td);
            if (t->busy) o_td_busy();
            t->busy = 1;
            t->sum++;
            t->busy = 0;
            o_note_job();
            thr_syn_release_td(syn, &t->td);
        });
    thr_syn_wait(syn);
    __block uint64_t tot = 0;
    thr_syn_collect_td(syn, ^(const thr_td_t *td) { tot += container_of(td, htd_t, td)->sum; });
    if (tot != (uint64_t)n) o_td_bad(tot, n);
    thr_syn_wipe(syn);
    if (td_live) o_td_bad(td_live, 0);
    o_syn_wiped(s);
}

ORACLE static int o_running(int id) { return L[id].state != J_DONE; }
ORACLE static int o_any_alive(void) { return alive_jobs; }
ORACLE static void o_lost(void)
{
    for (int i = 0; i < nj; i++) if (L[i].state != J_DONE)
        sim_violation("job:lost", "job %d (queue %d, group %d) never ran (state %d)", i, L[i].q, L[i].syn, L[i].state);
}
static int loop_ms(void) { static const int ms[] = { 10, 100, 100000, 100000 }; return ms[rnd(4)]; }
static void el_turns(int ms) { el_loop_timeout(ms); }
static el_t keeper;
static void noop_cb(el_t el, data_t d) {}

static void main_step(void)
{
    switch (rnd(queues_mode ? 12 : 10)) {
      case 0: case 1: {
        /* a group */
        int s = o_new_syn();
        if (s < 0) break;
        thr_syn_init(&syns[s]);
        int n = 1 + rnd(8);
        int oneq = nq > 1 && rnd(3) == 1 ? 1 + rnd(nq - 1) : -2;
        for (int i = 0; i < n; i++) spawn(s, oneq != -2 ? oneq : pick_q(), oneq != -2 ? 3 : 0);
        switch (rnd(4)) {
          case 0: wait_syn(s); break;
          case 1: {
            int upto = o_nj();
            int k = rnd(upto);
            if (!o_in_syn(k, s)) { wait_syn(s); break; }
            volatile uint64_t *r = &result[k];
            uint64_t want = 0xabcd0000ull + k;
            thr_syn_wait_until(&syns[s], ^bool (void) { return *r == want; });
            if (*r != want) o_badresult(k, *r);
            wait_syn(s);
            break;
          }
          case 2: {
            int q = pick_q();
            if (q == 0) q = -1;
            int id = o_new(-1, q, 3);
            if (id < 0) { wait_syn(s); break; }
            o_notify(id, s);
            thr_syn_notify_b(&syns[s], q >= 0 ? queues[q] : NULL, ^{ job_body(id); });
            if (rnd(2)) wait_syn(s);
            /* the group must outlive its notification */
            while (o_running(id)) el_turns(loop_ms());
            wait_syn(s);
            break;
          }
          case 3: spawn(-1, pick_q(), 0); wait_syn(s); break;
        }
        thr_syn_wipe(&syns[s]);
        o_syn_wiped(s);
        break;
      }
      case 2: case 3: { int n = 1 + rnd(4); while (n--) spawn(-1, pick_q(), 0); break; }
      case 4: nested_group(0, false); break;
      case 5: td_group(); break;
      case 6: {
        int k = 1 + rnd(20);
        __block volatile uint32_t seen[24] = { 0 };
        volatile uint32_t *sp = (volatile uint32_t *)seen;
        thr_for_each(k, ^(size_t pos) { sp[pos]++; });
        for (int i = 0; i < k; i++) if (sp[i] != 1) o_state_check(0, -1, "job:for-each");
        break;
      }
      case 7: o_sleep(); break;
      case 8: {
        if (tiny || rnd(8)) break;
        int s = o_new_syn();
        if (s < 0) break;
        thr_syn_init(&syns[s]);
        int n = 250 + rnd(60);
        for (int i = 0; i < n; i++) spawn(s, -1, 3);
        sim_probe("deque-overflow");
        wait_syn(s);
        thr_syn_wipe(&syns[s]);
        o_syn_wiped(s);
        break;
      }
      case 9: el_turns(1 + rnd(20)); break;
      case 10: {
        int id = spawn(-1, pick_q(), 0);
        while (id >= 0 && o_running(id)) el_turns(loop_ms());
        break;
      }
      case 11: if (nq > 1) sync_queue(1 + rnd(nq - 1), 3); break;
    }
}

void harness_init(void) { }

void harness_run(void)
{
    queues_mode = sim_prop && !strcmp(sim_prop, "C02") ? 1 : sim_prop && !strcmp(sim_prop, "C01") ? 0 : sim_choose(ST_CFG, 2);
    max_jobs = sim_choose(ST_CFG, 6) ? 120 : MAXJ;
    extern int sim_nb_cpu;
    sim_nb_cpu = 2 + sim_choose(ST_CFG, 3);
    int steps = 1 + sim_choose(ST_CFG, 6);
    nq = queues_mode ? 1 + sim_choose(ST_CFG, 3) : sim_choose(ST_CFG, 4);
    qheavy = sim_choose(ST_CFG, 3) == 1;
    tiny = sim_choose(ST_CFG, 2) == 1;
    if (tiny) {
        /* few things at a time: short runs, many schedules of each window */
        sim_nb_cpu = 2 + sim_choose(ST_CFG, 2);
        steps = 1 + sim_choose(ST_CFG, 2);
        max_jobs = 4 + sim_choose(ST_CFG, 12);
        if (nq > 2) nq = 2;
    }
    sim_io_config_random();
    sim_sched_config(1);
    MODULE_REQUIRE(thr);
    keeper = el_timer_register(20000 * 1000, 0, 0, noop_cb, NULL);
    queues[0] = thr_queue_main_g;
    for (int i = 1; i < nq; i++) queues[i] = thr_queue_create();
    for (int i = 0; i < steps; i++) main_step();
    /* quiesce. Queues first: destruction runs what was queued */
    int turns = 0;
    while (o_any_alive() && turns++ < 400) el_turns(loop_ms());
    if (o_any_alive()) o_lost();
    for (int i = 1; i < nq; i++) {
        /* jobs that spawn nothing, then destruction at once */
        int n = rnd(4);
        while (n--) spawn(-1, i, 3);
        bool wait = rnd(2);
        int upto = o_nj();
        thr_queue_destroy(queues[i], wait);
        if (wait)
            for (int k = 0; k < upto; k++)
                if (o_q(k) == i) o_state_check(k, J_DONE, "queue:destroy-early");
    }
    /* left for the shutdown: jobs that neither wait nor use a queue */
    for (int k = rnd(6); k > 0; k--) spawn(-1, -1, 3);
    if (nq) for (int k = rnd(3); k > 0; k--) spawn(-1, 0, 3);
    el_unregister(&keeper);
    MODULE_RELEASE(thr);
    if (o_any_alive()) o_lost();
    sim_sched_off();
    sim_state(order_h);
}
