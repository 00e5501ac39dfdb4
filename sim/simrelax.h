/* plain variant: nothing is instrumented, so spin loops must yield themselves */
#ifndef SIMRELAX_H
#define SIMRELAX_H
#include <lib-common/core.h>
#undef cpu_relax
void sim_relax(void);
#define cpu_relax()  sim_relax()
#endif
