/* Deterministic simulator: public interface for harnesses. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

/* {{{ decisions: every nondeterministic choice of a run comes from here.
 *
 * Streams are independent tapes of integers. In search mode values come from
 * a PRNG derived from (VERIF_SEED, run index, stream) and are recorded; in
 * replay mode they come from the replay file, 0 once it is exhausted: 0 must
 * always mean "nothing unusual".
 */
enum {
    ST_CFG, ST_OPS, ST_SCHED, ST_TSO, ST_FAULT, ST_NET, ST_DISK, ST_TIME,
    ST_DATA, ST_MISC, ST_MAX
};
uint32_t sim_choose(int st, uint32_t n);                  /* [0, n)          */
uint32_t sim_range(int st, uint32_t lo, uint32_t hi);     /* [lo, hi]        */
bool     sim_chance(int st, uint32_t num, uint32_t den);  /* P(true)=num/den */
uint64_t sim_rand64(int st);
bool     sim_exhausted(int st);      /* replaying and the tape is finished */
/* }}} */
/* {{{ recording */
void sim_event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_hash(uint64_t v);           /* folds v in the run's history hash */
void sim_fault(const char *kind);    /* a fault really fired */
void sim_probe(const char *name);    /* a rare condition was reached */
void sim_state(uint64_t h);          /* a state/interleaving was reached */
void sim_count_op(void);             /* one workload operation */
_Noreturn void sim_violation(const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
/* listed known findings are not violations, the run ends there */
_Noreturn void sim_known_finding(const char *id);
_Noreturn void sim_end_run(void);
extern int sim_verbose;
extern const char *sim_prop;
extern int sim_tier;                 /* 0 quick, 1 thorough */
bool sim_replaying(void);
/* }}} */
/* {{{ time */
extern int64_t sim_now_ns;           /* monotonic simulated clock */
extern int64_t sim_real_off_ns;      /* realtime = monotonic + offset */
#define SIM_MS  1000000ll
#define SIM_S   1000000000ll
typedef void (sim_cb_f)(void *a, uint64_t b);
void sim_at(int64_t when_ns, sim_cb_f *cb, void *a, uint64_t b);
bool sim_next_event(int64_t *when);
void sim_run_due(void);
void sim_advance_to(int64_t when_ns);
/* }}} */
/* {{{ threads (simthr.c) */
typedef bool (sim_pred_f)(void *arg);
#define SIM_INF  INT64_MAX
/* blocks the calling simulated thread; true if pred became true, false if the
 * deadline passed first */
bool sim_block(const char *why, sim_pred_f *pred, void *arg, int64_t deadline);
void sim_point(void);                /* explicit scheduling point */
int  sim_self(void);
void sim_threads_start(void);
uint64_t sim_steps(void);
/* called when nothing can run any more; default: violation "deadlock" */
extern void (*sim_on_deadlock)(void);
extern uint64_t sim_max_steps;
/* }}} */
/* {{{ provided by the harness */
extern const char *harness_name;
void harness_init(void);             /* once, before forking runs */
void harness_run(void);              /* one simulated run */
/* }}} */
#endif
