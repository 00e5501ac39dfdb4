#ifndef SIMIO_H
#define SIMIO_H
#include "sim.h"
#include <sys/types.h>
#include <sys/socket.h>

#define SIM_FD_BASE 1000

/* per-run knobs, drawn by the harness (all 0: ideal world) */
typedef struct {
    uint32_t short_rd, short_wr;     /* per 1000 */
    uint32_t eagain_rd, eagain_wr;   /* per 1000, non blocking fds only */
    uint32_t eintr;                  /* per 1000, interruptible calls */
    uint32_t whole_first;            /* no fault on the first write of a connection */
    uint32_t sndbuf;                 /* bytes in flight per direction */
    uint32_t delay_min_us, delay_max_us;
    uint32_t split;                  /* per 1000: segment split on arrival */
    uint32_t conn_delay_max_us;
    bool     shuffle;                /* readiness order is arbitrary */
    bool     no_eventfd;             /* the kernel has no eventfd */
    uint32_t late_wake_us;           /* epoll_wait/poll return late by up to */
} sim_io_cfg_t;
extern sim_io_cfg_t sim_io;
void sim_io_config_random(void);

/* harness controlled descriptor: readiness set by hand */
int  sim_fd_manual(void);
void sim_fd_set_ready(int fd, uint32_t events);
uint32_t sim_fd_ready(int fd);

/* network faults */
int  sim_net_nb_conns(void);
void sim_net_reset_conn(int i);              /* RST both ways */
void sim_net_partition(int64_t until);       /* nothing delivered before */
int  sim_net_conn_of_fd(int fd);             /* connection index or -1 */
void sim_net_refuse(bool refuse);            /* new connections refused */
void sim_net_blackhole(bool on);             /* SYN lost: connect hangs */
/* raw access for harness-side peers (no faults, no blocking) */
int  sim_peer_connect(int port);             /* returns peer handle (fd), or -1 */
int  sim_socketpair_raw(int fds[2]);
bool sim_fd_is_open(int fd);
int  sim_nb_open(void);
ssize_t sim_peer_read(int fd, void *buf, size_t len);  /* 0: nothing, -1: eof/reset */
ssize_t sim_peer_write(int fd, const void *buf, size_t len);
void sim_peer_close(int fd);
void sim_peer_shutdown(int fd);
bool sim_peer_gone(int fd);
bool sim_peer_was_reset(int fd);

/* signals & children */
void sim_signal(int sig);
int  sim_child_spawn(void);
void sim_child_exit(int pid, int wstatus);
void sim_deliver_signals(void);
extern void (*sim_sig_sent)(int);
extern void (*sim_sig_delivered)(int);

/* total bytes really transferred, for conservation checks */
extern uint64_t sim_bytes_written, sim_bytes_read;
extern uint64_t sim_epoll_waits;
extern int64_t sim_last_wait_timeout;
extern int64_t sim_clock_tick;       /* ns a clock read takes (default 200) */
/* observation of epoll_wait: timeout asked, then what it returned (-1: EINTR) */
extern void (*sim_hook_poll_enter)(int timeout);
extern void (*sim_hook_poll_ret)(int n, const int *fds, const uint32_t *evs);
#endif
