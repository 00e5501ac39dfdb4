/* helpers for threaded harnesses */
#ifndef HTHR_H
#define HTHR_H
#include <lib-common/core.h>
#include <lib-common/thr.h>
#include <lib-common/el.h>
#include "sim.h"
#include "simthr.h"
#include "simio.h"
/* oracle code is neither instrumented nor preempted */
#define ORACLE __attribute__((no_sanitize("thread"), noinline))
#endif
