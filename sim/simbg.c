/* A background process of the system under test, see simfs.h. Never instrumented.
 * It is a real process (so that copy on write, file locks and descriptors are
 * the real ones) that takes turns with the others. */
#define _GNU_SOURCE
#include "simfs.h"
#include "simio.h"
#include "simthr.h"
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <poll.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include "simraw.h"
#define RAW(n, ...)  raw_syscall(n, ##__VA_ARGS__)
void sim_cpu_limit(int secs);

typedef struct {
    int     turn;                    /* 1: the child's */
    int     state, status, vpid;
    int64_t budget;
    int     real, parent;
} bg_t;
static bg_t *bg;
static bool self;

static void give(int to)
{
    __atomic_store_n(&bg->turn, to, __ATOMIC_SEQ_CST);
    RAW(SYS_futex, &bg->turn, FUTEX_WAKE, 1, NULL, NULL, 0);
}
static bool wait_turn(int who)
{
    for (int i = 0; __atomic_load_n(&bg->turn, __ATOMIC_SEQ_CST) != who; i++) {
        struct timespec ts = { .tv_nsec = 50000000 };
        RAW(SYS_futex, &bg->turn, FUTEX_WAIT, !who, &ts, NULL, 0);
        if (who == 0 && __atomic_load_n(&bg->turn, __ATOMIC_SEQ_CST) == 1) {
            int wst;
            if (RAW(SYS_wait4, bg->real, &wst, WNOHANG, NULL) == bg->real) return false;
            if (RAW(SYS_kill, bg->real, 0) < 0) return false;
        }
    }
    return true;
}
void sim_bg_root(void)
{
    bg = sim_shared(sizeof(*bg));
    RAW(SYS_prctl, PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
}
bool sim_bg_self(void) { return self; }
int sim_bg_state(void) { return bg->state; }
int sim_bg_status(void) { return bg->status; }
int sim_bg_vpid(void) { return bg->vpid; }
bool sim_bg_orphan(void) { return (int)RAW(SYS_getppid) != bg->parent; }
static _Noreturn void leave(int state, int status)
{
    bg->state = state; bg->status = status;
    give(0);
    RAW(SYS_exit_group, 0);
    for (;;) ;
}
void sim_bg_exit(int status) { leave(BG_EXITED, status); }
static void on_crash(void) { leave(BG_CRASHED, 0); }
static void on_tick(void)
{
    if (bg->budget-- > 0) return;
    give(0);
    wait_turn(1);
    bg->budget--;
}
pid_t sim_bg_fork(void)
{
    if (bg->state == BG_ALIVE) sim_violation("sim:bg", "two background processes");
    int v = sim_child_spawn();
    bg->turn = 0; bg->state = BG_ALIVE; bg->status = 0; bg->vpid = v; bg->budget = 0;
    bg->parent = RAW(SYS_getpid);
    pid_t p = _Fork();
    if (p < 0) sim_violation("sim:bg", "fork: %s", "failed");
    if (p == 0) {
        self = true;
        sim_own_run();
        sim_sched_off();
        sim_enter();
        sim_cpu_limit(20);
        sim_crash_hook = on_crash;
        simfs_tick = on_tick;
        wait_turn(1);
        return 0;
    }
    bg->real = p;
    return v;
}
static void reap(void)
{
    int wst, fd = RAW(SYS_pidfd_open, bg->real, 0);
    struct pollfd p = { .fd = fd, .events = POLLIN };
    while (fd >= 0 && RAW(SYS_poll, &p, 1, 1000) == 0) ;
    if (fd >= 0) RAW(SYS_close, fd);
    RAW(SYS_wait4, bg->real, &wst, WNOHANG, NULL);   /* an orphan is the root's */
}
void sim_bg_run(int64_t budget)
{
    if (bg->state != BG_ALIVE) return;
    bg->budget = budget;
    give(1);
    if (!wait_turn(0)) {
        /* it died by itself, and said why */
        RAW(SYS_exit_group, 66);
    }
    if (bg->state != BG_ALIVE) {
        reap();
        if (bg->state == BG_CRASHED) sim_crash();
    }
}
void sim_bg_kill(void)
{
    if (bg->state != BG_ALIVE) return;
    RAW(SYS_kill, bg->real, SIGKILL);
    reap();
    bg->state = BG_EXITED; bg->status = SIGKILL;
}
