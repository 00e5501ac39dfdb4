#ifndef SIMTHR_H
#define SIMTHR_H
#include <stdint.h>
#include <time.h>
void sim_sched_config(int want_tso);
void sim_sched_off(void);
void sim_sleep_until(int64_t t);
void sim_yield(void);
void sim_enter(void);
void sim_leave(void);
long sim_futex(int *addr, int op, int val, const struct timespec *to, int *addr2, int val3);
int64_t sim_heap_live(void);
void sim_mem_check(const void *a, size_t n);   /* all of it is live heap memory */
#endif
