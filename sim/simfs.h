/* Simulated disk: the code works on real files of a private scratch directory
 * (the page cache); the simulator decides which system calls fail and what is
 * left of the directory after a crash. */
#ifndef SIMFS_H
#define SIMFS_H
#include "sim.h"
#include <sys/types.h>
typedef struct {
    /* per 1000 */
    uint32_t short_wr, short_rd, eintr, eagain, eio_wr, eio_rd, enospc, eio_sync,
             open_fail, rename_fail, unlink_fail, close_fail, trunc_fail, stat_fail;
    bool     limited;                /* the disk has only this many bytes left */
    int64_t  space;
    bool     fsync_entries;          /* fsync of a file makes its name durable */
    bool     dir_reorder;            /* unsynced directory updates may survive alone */
    int      crash_in;               /* crash at the n-th call from now (0: never) */
    bool     off;                    /* harness's own accesses: no fault */
    uint64_t calls, failed;          /* calls seen, failures injected (but EINTR, EAGAIN) */
    uint64_t opens, unlink_failed, close_failed;
} simfs_cfg_t;
extern simfs_cfg_t *simfs;           /* shared between incarnations */

void simfs_init(void);               /* fresh empty disk, becomes the current directory */
void simfs_cleanup(void);
/* what is left after a power loss; which: bits of SIMFS_* ways to lose data */
#define SIMFS_KEEP   1               /* everything was written back */
#define SIMFS_LOSE   2               /* nothing that was not synced */
#define SIMFS_PREFIX 4               /* appended data, cut anywhere */
#define SIMFS_MIX    8               /* any subset of the 512 byte sectors */
void simfs_power_loss(unsigned which);
/* durable content of a file by name; -1 if it does not exist */
int64_t simfs_size(const char *path);

/* {{{ processes: one incarnation of the system, in a process of its own */
void *sim_shared(size_t n);
/* 0: fn returned, 1: it crashed (sim_crash()), 2: it left through exit(code) */
int  sim_incarnate(void (*fn)(void *), void *arg, int *code);
_Noreturn void sim_crash(void);
_Noreturn void sim_proc_exit(int code);
extern void (*sim_crash_hook)(void);
void sim_own_run(void);
/* for calls made inside other libraries */
void simfs_point(void);
bool simfs_fault(uint32_t p, const char *kind, int err);
extern void (*simfs_tick)(void), (*simfs_on_rename)(void);
/* }}} */
/* {{{ a background process forked by the system: it runs only when told to, for
 * a number of disk calls; the rest of the system is stopped meanwhile */
enum { BG_NONE, BG_ALIVE, BG_EXITED, BG_CRASHED };
pid_t sim_bg_fork(void);             /* virtual pid, or 0 in the child */
bool sim_bg_self(void);
int  sim_bg_state(void);
int  sim_bg_status(void);
void sim_bg_run(int64_t budget);     /* BG_ALIVE: at most that many disk calls */
void sim_bg_kill(void);
_Noreturn void sim_bg_exit(int status);  /* in the child */
bool sim_bg_orphan(void);            /* in the child: its parent has died */
int  sim_bg_vpid(void);
void sim_bg_root(void);              /* in the process all others descend from */
/* }}} */
#endif
