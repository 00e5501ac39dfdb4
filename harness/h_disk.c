/* C15 record files, C16 buffered files and full I/O helpers, C17 rotating
 * logs, C18 output buffers: the real code over a simulated disk with failing system calls,
 * crashes and power losses, against list and byte array models. */
#include <lib-common/core.h>
#include <lib-common/file.h>
#include <lib-common/file-bin.h>
#include <lib-common/file-log.h>
#include <lib-common/el.h>
#include <lib-common/unix.h>
#include <lib-common/datetime.h>
#include <lib-common/log.h>
#include "sim.h"
#include "simio.h"
#include "simfs.h"
const char *harness_name = "h_disk";

static uint32_t rnd(uint32_t n) { return sim_choose(ST_OPS, n); }
static uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
/* deterministic contents, never all the same byte */
static void fill(byte *b, size_t n, uint32_t id)
{
    uint64_t s = mix(id * 77ull + 5);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { s = mix(s); memcpy(b + i, &s, 8); }
    if (i < n) { s = mix(s); memcpy(b + i, &s, n - i); }
    if (n >= 4 && id % 4 == 1) memset(b, 0, 4);
}
#define V(cls, ...)  sim_violation(cls, __VA_ARGS__)

#include "h_disk_bin.h"
#include "h_disk_io.h"
#include "h_disk_log.h"
#include "h_disk_ob.h"

void harness_init(void)
{
    logger_set_level(LSTR_EMPTY_V, LOG_CRIT, LOG_RECURSIVE);
    MODULE_REQUIRE(log);
}
void harness_run(void)
{
    simfs_init();
    if (!strcmp(sim_prop, "C16")) run_io();
    else if (!strcmp(sim_prop, "C17")) run_log();
    else if (!strcmp(sim_prop, "C18")) run_ob();
    else run_bin();
    sim_end_run();
}
