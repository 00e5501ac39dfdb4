/* C13 QPS snapshots, C14 QPS memory, tables and bitmaps: the real store over the
 * simulated disk, its snapshotter a real forked process that takes turns with
 * it, crashes, power losses and failing system calls; against a plain model. */
#include <lib-common/core.h>
#include <lib-common/el.h>
#include <lib-common/thr.h>
#include <lib-common/unix.h>
#include <lib-common/qps.h>
#include <lib-common/qps-hat.h>
#include <lib-common/qps-bitmap.h>
#include <sys/wait.h>
#include <zlib.h>
#include "sim.h"
#include "simio.h"
#include "simthr.h"
#include "simfs.h"
const char *harness_name = "h_qps";
#define V(cls, ...)  sim_violation(cls, __VA_ARGS__)
static uint32_t rnd(uint32_t n) { return sim_choose(ST_OPS, n); }
static uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

/* {{{ the model */

#define NREG  8
#define NOFF  2048
#define NKEY  (NREG * NOFF)
#define NOBJ  160
#define NPG   24
#define NTAB  4
#define NMASS 66000
typedef struct {
    uint32_t h;
    uint8_t  kind, vlen;             /* 1: hat, 2: bitmap */
    bool     nulls;
    uint32_t start[NREG], stride[NREG];
    uint8_t  st[NKEY];               /* 0: unset, 1: value, 2: set to 0 */
    uint32_t seed[NKEY];
} tab_t;
typedef struct { uint32_t h, len, seed; } obj_t;
typedef struct { uint32_t pg, n, seed; } pgb_t;
typedef struct {
    uint32_t id, plen;
    obj_t    o[NOBJ];
    pgb_t    p[NPG];
    tab_t    t[NTAB];
    int      nmass;
    uint32_t mass[NMASS];
} model_t;
typedef struct {
    model_t  cur, snap[2];
    int      c;                      /* committed slot */
    bool     created, inprog, done;
    uint32_t next_id, next_seed;
    int      nsnap;
    uint64_t failed0;                /* failures at the start of the incarnation */
    bool     killed;                 /* the snapshotter was killed */
    bool     may_fail_open;          /* an orphan may hold the lock */
    bool     opened;
    bool     syn_used;
    int      fork_failed, nbk;
    bool     clean;
    uint32_t wts[24];
    int      nops, ncrash;
    uint32_t faults[10];
    bool     kids_die, use_c14;
    bool     replaced;               /* by the snapshotter of a dead process, after it was opened */
    uint32_t reg_start[NTAB][NREG], reg_stride[NTAB][NREG];
    char     last_err[200];
} shared_t;
static shared_t *S;
static qps_t *qps;
static qhat_t hats[NTAB];
static qps_bitmap_t maps[NTAB];
static model_t *M;
static thr_syn_t syn;
static int syn_todo, syn_done;

static uint32_t key_of(const tab_t *t, int i)
{
    int r = i / NOFF;
    return ((uint32_t)r << 29) + t->start[r] + (uint32_t)(i % NOFF) * t->stride[r];
}
static int idx_of(const tab_t *t, uint32_t k)
{
    int r = k >> 29;
    uint32_t d = (k & ((1u << 29) - 1)) - t->start[r];
    if ((k & ((1u << 29) - 1)) < t->start[r] || d % t->stride[r] || d / t->stride[r] >= NOFF) return -1;
    return r * NOFF + d / t->stride[r];
}
/* first index whose key is >= k */
static int idx_from(const tab_t *t, uint32_t k)
{
    int r = k >> 29;
    uint32_t d = k & ((1u << 29) - 1);
    if (d <= t->start[r]) return r * NOFF;
    d = (d - t->start[r] + t->stride[r] - 1) / t->stride[r];
    if (d >= NOFF) d = NOFF;
    return r * NOFF + d;
}
static void value_of(uint32_t seed, int vlen, void *out)
{
    uint64_t v[2] = { mix(seed), mix(seed + 1000000007ull) };
    /* small values too, but never 0 */
    if (seed % 3 == 0) { v[0] &= 3; v[1] = 0; }
    if (!(v[0] & 0xff)) v[0]++;
    memcpy(out, v, vlen);
}
static const uint8_t zeros[16];

/* }}} */
/* {{{ contents */

static inline uint64_t word_at(uint32_t seed, uint32_t off) { return mix((uint64_t)seed << 32 | off); }
/* large blocks: the beginning of each half page, and the end */
static uint32_t next_off(uint32_t o, uint32_t len)
{
    uint32_t last = (len - 64) / 8 * 8;
    o += 8;
    if (len <= 8192 || o >= last || o % 2048 < 64) return o;
    o = (o | 2047) + 1;
    return o < last ? o : last;
}
static void fill(uint8_t *p, uint32_t len, uint32_t seed)
{
    for (uint32_t o = 0; o < len; o = next_off(o, len)) {
        uint64_t w = word_at(seed, o);
        memcpy(p + o, &w, len - o < 8 ? len - o : 8);
    }
}
static int check(const uint8_t *p, uint32_t len, uint32_t seed, uint32_t upto)
{
    if (upto > len) upto = len;
    for (uint32_t o = 0; o < upto; o = next_off(o, len)) {
        uint64_t w = word_at(seed, o);
        if (memcmp(p + o, &w, upto - o < 8 ? upto - o : 8)) return o;
    }
    return -1;
}

/* }}} */
/* {{{ verification */

static void v_obj(qps_t *q, const model_t *m, int i, const char *when)
{
    const obj_t *o = &m->o[i];
    if (!o->h) return;
    const uint8_t *p = qps_handle_deref(q, o->h);
    if (qps_sizeof(q, p) < o->len) V("qps:size", "%s: object %d has %zu bytes, %u were asked for", when, i, qps_sizeof(q, p), o->len);
    int at = check(p, o->len, o->seed, o->len);
    if (at >= 0) V("qps:object", "%s: the contents of object %d (handle %u, %u bytes) changed at offset %d", when, i, o->h, o->len, at);
}
static void v_pg(qps_t *q, const model_t *m, int i, const char *when)
{
    const pgb_t *o = &m->p[i];
    if (!o->pg) return;
    if (qps_pg_sizeof(q, o->pg) < o->n) V("qps:pg-size", "%s: page block %d has %zu pages, %u were asked for", when, i, qps_pg_sizeof(q, o->pg), o->n);
    int at = check(qps_pg_deref(q, o->pg), o->n * QPS_PAGE_SIZE, o->seed, o->n * QPS_PAGE_SIZE);
    if (at >= 0) V("qps:pages", "%s: the contents of page block %d ("QPS_PG_FMT", %u pages) changed at offset %d", when, i, QPS_PG_ARG(o->pg), o->n, at);
}
/* is what is stored for key i (NULL: nothing) what it should be? */
static void v_val(const tab_t *t, int tn, uint32_t key, int i, const void *v, const char *when)
{
    uint8_t want[16] = "";
    int st = i < 0 ? 0 : t->st[i];
    if (st == 1) value_of(t->seed[i], t->vlen, want);
    if (!v) {
        if (st == 1 || (st == 2 && t->nulls)) V("hat:lost", "%s: table %d, key %#x: nothing found", when, tn, key);
        return;
    }
    if (!st && t->nulls) V("hat:unset", "%s: table %d, key %#x was never set or was removed, but a value is found", when, tn, key);
    if (memcmp(v, want, t->vlen)) V("hat:value", "%s: table %d (%d byte values%s), key %#x: wrong value", when, tn, t->vlen, t->nulls ? ", nullable" : "", key);
}
static bool shown(const tab_t *t, int i) { return t->st[i] == 1 || (t->st[i] == 2 && t->nulls); }
static void v_hat(qhat_t *hat, const tab_t *t, int tn, const char *when, bool safe, uint32_t from)
{
    int i = idx_from(t, from);
    uint32_t last = 0;
    bool first = true;
    for (qhat_enumerator_t en = qhat_get_enumerator_at(hat, from); !en.end; qhat_enumerator_next(&en, safe)) {
        if (en.key < from || (!first && en.key <= last)) V("hat:order", "%s: table %d: the enumeration from %#x goes from %#x to %#x", when, tn, from, last, en.key);
        first = false; last = en.key;
        while (i < NKEY && key_of(t, i) < en.key) {
            if (shown(t, i)) V("hat:skipped", "%s: table %d%s: the enumeration from %#x skips key %#x, next is %#x", when, tn, t->nulls ? " (nullable)" : "", from, key_of(t, i), en.key);
            i++;
        }
        const void *v = safe ? qhat_enumerator_get_value_safe(&en) : qhat_enumerator_get_value_unsafe(&en);
        if (!v) V("hat:enum-null", "%s: table %d: no value for the enumerated key %#x", when, tn, en.key);
        v_val(t, tn, en.key, idx_of(t, en.key), v, when);
        if (i < NKEY && key_of(t, i) == en.key) i++;
    }
    for (; i < NKEY; i++) if (shown(t, i)) V("hat:skipped", "%s: table %d%s: the enumeration from %#x ends before key %#x", when, tn, t->nulls ? " (nullable)" : "", from, key_of(t, i));
}
static void v_bitmap(qps_bitmap_t *map, const tab_t *t, int tn, const char *when, bool safe, uint32_t from)
{
    int i = idx_from(t, from);
    for (qps_bitmap_enumerator_t en = qps_bitmap_get_enumerator_at(map, from); !en.end; qps_bitmap_enumerator_next(&en, safe)) {
        uint32_t k = en.key.key;
        while (i < NKEY && !shown(t, i)) i++;
        if (i == NKEY || k != key_of(t, i)) V("bitmap:enum", "%s: bitmap %d%s: the enumeration from %#x gives %#x, not %#llx", when, tn, t->nulls ? " (nullable)" : "", from, k, i == NKEY ? -1ll : (long long)key_of(t, i));
        if (en.value != (t->st[i] == 1)) V("bitmap:value", "%s: bitmap %d%s: key %#x enumerated with value %d", when, tn, t->nulls ? " (nullable)" : "", k, en.value);
        i++;
    }
    while (i < NKEY && !shown(t, i)) i++;
    if (i < NKEY) V("bitmap:enum", "%s: bitmap %d%s: the enumeration from %#x ends before %#x", when, tn, t->nulls ? " (nullable)" : "", from, key_of(t, i));
}
static void v_tab_deep(qhat_t *hat, qps_bitmap_t *map, const tab_t *t, int tn, const char *when)
{
    if (t->kind == 1) {
        if (qhat_check_consistency_flags(hat, QHAT_CHECK_DONT_PANIC | QHAT_CHECK_CONTENT, NULL) < 0) V("hat:inconsistent", "%s: table %d is inconsistent: %s", when, tn, S->last_err);
        v_hat(hat, t, tn, when, false, 0);
    } else {
        v_bitmap(map, t, tn, when, false, 0);
    }
}
static void v_leaks(qps_t *q, const model_t *m, qhat_t *h, qps_bitmap_t *b, const char *when)
{
    qps_roots_t r;
    qps_roots_init(&r);
    for (int i = 0; i < NOBJ; i++) if (m->o[i].h) qv_append(&r.handles, m->o[i].h);
    for (int i = 0; i < m->nmass; i++) qv_append(&r.handles, m->mass[i]);
    for (int i = 0; i < NPG; i++) if (m->p[i].pg) qv_append(&r.pages, m->p[i].pg);
    for (int i = 0; i < NTAB; i++) {
        if (m->t[i].kind == 1) qhat_get_qps_roots(&h[i], &r);
        if (m->t[i].kind == 2) qps_bitmap_get_qps_roots(&b[i], &r);
    }
    S->last_err[0] = 0;
    if (qps_check_leaks(q, &r) < 0) V("qps:leak", "%s: leaks or missing blocks: %s", when, S->last_err);
    qps_roots_wipe(&r);
}
static void v_all(qps_t *q, const model_t *m, const char *when)
{
    qhat_t h[NTAB];
    qps_bitmap_t b[NTAB];
    S->last_err[0] = 0;
    if (__qps_check_maps(q, false) < 0) V("qps:maps", "%s: inconsistent maps: %s", when, S->last_err);
    for (int i = 0; i < NOBJ; i++) v_obj(q, m, i, when);
    for (int i = 0; i < NPG; i++) v_pg(q, m, i, when);
    for (int i = 0; i < m->nmass; i++) {
        if (check(qps_handle_deref(q, m->mass[i]), 16, i, 16) >= 0) V("qps:object", "%s: the contents of small object %d changed", when, i);
    }
    for (int i = 0; i < NTAB; i++) {
        const tab_t *t = &m->t[i];
        if (t->kind == 1) { qhat_init(&h[i], q, t->h); v_tab_deep(&h[i], NULL, t, i, when); }
        if (t->kind == 2) { qps_bitmap_init(&b[i], q, t->h); v_tab_deep(NULL, &b[i], t, i, when); }
    }
    v_leaks(q, m, h, b, when);
}

/* }}} */
/* {{{ operations: memory */

static uint32_t pick_len(void)
{
    switch (rnd(8)) {
      case 0: return 1 + rnd(24);
      case 1: case 2: case 3: return 1 + rnd(200);
      case 4: return 1 + rnd(4096);
      case 5: return 60000 + rnd(6000);
      case 6: return 1 + rnd(65536);
      default: return 65536 + rnd(1 << 20);
    }
}
static void op_obj(void)
{
    int i = rnd(NOBJ);
    obj_t *o = &M->o[i];
    uint8_t *p;
    if (!o->h) {
        o->len = pick_len(); o->seed = S->next_seed++;
        p = qps_alloc(qps, &o->h, o->len);
        if (!p || !o->h) V("qps:alloc", "no object of %u bytes", o->len);
        sim_event("alloc %d: %u bytes, handle %u", i, o->len, o->h);
        for (int k = 0; k < NOBJ; k++) if (k != i && M->o[k].h == o->h) V("qps:handle", "handle %u given twice", o->h);
        fill(p, o->len, o->seed);
        return;
    }
    switch (rnd(5)) {
      case 0: {
        uint32_t n = pick_len(), ol = o->len;
        p = qps_realloc(qps, o->h, n);
        sim_event("realloc %d: %u to %u bytes", i, ol, n);
        if (!p || p != qps_handle_deref(qps, o->h)) V("qps:realloc", "realloc of %d to %u bytes: wrong pointer", i, n);
        int at = check(p, ol, o->seed, MIN(ol, n));
        if (at >= 0) V("qps:realloc", "realloc of %d from %u to %u bytes changed its contents at %d", i, ol, n, at);
        p = qps_handle_w_deref(qps, o->h);
        o->len = n; o->seed = S->next_seed++;
        fill(p, o->len, o->seed);
        break;
      }
      case 1: case 2:
        sim_event("free %d", i);
        v_obj(qps, M, i, "before freeing");
        qps_free(qps, o->h);
        o->h = 0;
        break;
      default:
        sim_event("write %d", i);
        v_obj(qps, M, i, "before writing");
        p = qps_handle_w_deref(qps, o->h);
        int at = check(p, o->len, o->seed, o->len);
        if (at >= 0) V("qps:w-deref", "object %d made writable: its contents changed at %d", i, at);
        o->seed = S->next_seed++;
        fill(p, o->len, o->seed);
    }
}
static uint32_t pick_pg(void) { return rnd(4) ? 1 + rnd(8) : rnd(8) ? 1 + rnd(300) : 1 + rnd(3000); }
static void op_pg(void)
{
    int i = rnd(NPG);
    pgb_t *o = &M->p[i];
    if (!o->pg) {
        o->n = pick_pg(); o->seed = S->next_seed++;
        o->pg = qps_pg_map(qps, o->n);
        sim_event("map %d: %u pages at %x", i, o->n, o->pg);
        if (!o->pg) V("qps:pg-map", "no block of %u pages", o->n);
        fill(qps_pg_deref(qps, o->pg), o->n * QPS_PAGE_SIZE, o->seed);
        return;
    }
    v_pg(qps, M, i, "before a change");
    switch (rnd(5)) {
      case 0: {
        uint32_t n = pick_pg(), on = o->n;
        o->pg = qps_pg_remap(qps, o->pg, n);
        sim_event("remap %d: %u to %u pages at %x", i, on, n, o->pg);
        if (!o->pg) V("qps:pg-map", "no block of %u pages", n);
        int at = check(qps_pg_deref(qps, o->pg), on * QPS_PAGE_SIZE, o->seed, MIN(on, n) * QPS_PAGE_SIZE);
        if (at >= 0) V("qps:remap", "remap of %d from %u to %u pages changed its contents at %d", i, on, n, at);
        o->n = n; o->seed = S->next_seed++;
        fill(qps_pg_deref(qps, o->pg), o->n * QPS_PAGE_SIZE, o->seed);
        break;
      }
      case 1: case 2:
        sim_event("unmap %d", i);
        qps_pg_unmap(qps, o->pg);
        o->pg = 0;
        break;
      default:
        sim_event("write pages %d", i);
        o->seed = S->next_seed++;
        fill(qps_pg_deref(qps, o->pg), o->n * QPS_PAGE_SIZE, o->seed);
    }
}
static void op_mass(void)
{
    if (!M->nmass) {
        int n = rnd(6) ? 200 + rnd(2000) : NMASS - rnd(600);
        sim_event("%d small objects", n);
        for (int i = 0; i < n; i++) {
            uint8_t *p = qps_alloc(qps, &M->mass[i], 16);
            fill(p, 16, i);
        }
        M->nmass = n;
    } else {
        /* frees the end of them */
        int n = rnd(2) ? 0 : rnd(M->nmass);
        sim_event("free %d small objects", M->nmass - n);
        if (rnd(2)) for (int i = n; i < M->nmass; i++) qps_free(qps, M->mass[i]);
        else for (int i = M->nmass; i-- > n; ) qps_free(qps, M->mass[i]);
        M->nmass = n;
    }
}

/* }}} */
/* {{{ operations: tables and bitmaps */

static qhat_path_t kept[NTAB]; static int kept_i[NTAB]; static bool kept_on[NTAB];
static void t_open(int i)
{
    tab_t *t = &M->t[i];
    kept_on[i] = false;
    if (t->kind == 1) qhat_init(&hats[i], qps, t->h);
    if (t->kind == 2) qps_bitmap_init(&maps[i], qps, t->h);
}
static void op_tab_create(int i)
{
    tab_t *t = &M->t[i];
    memset(t, 0, sizeof(*t));
    memcpy(t->start, S->reg_start[i], sizeof(t->start));
    memcpy(t->stride, S->reg_stride[i], sizeof(t->stride));
    t->kind = 1 + (rnd(3) == 0);
    t->nulls = rnd(2);
    t->vlen = 1 << rnd(5);
    t->h = t->kind == 1 ? qhat_create(qps, t->vlen, t->nulls) : qps_bitmap_create(qps, t->nulls);
    sim_event("create %s %d: %d byte values%s", t->kind == 1 ? "table" : "bitmap", i, t->vlen, t->nulls ? ", nullable" : "");
    t_open(i);
    if (t->kind == 1 && rnd(2)) qhat_compute_counts(&hats[i], true);
}
/* the statistics kept along are those of the table */
static void t_stats(int i)
{
    qhat_t *h = &hats[i];
    const qhat_root_t *r;
    if (M->t[i].kind != 1 || !h->do_stats) return;
    uint64_t mem = qhat_compute_memory(h), over = qhat_compute_memory_overhead(h);
    r = (const qhat_root_t *)qps_hptr_deref(h->qps, &h->root_cache);
    uint32_t c[6] = { r->node_count, r->compact_count, r->flat_count, r->entry_count, r->key_stored_count, r->zero_stored_count };
    qhat_compute_counts(h, false);
    qhat_compute_counts(h, true);
    r = (const qhat_root_t *)qps_hptr_deref(h->qps, &h->root_cache);
    uint32_t d[6] = { r->node_count, r->compact_count, r->flat_count, r->entry_count, r->key_stored_count, r->zero_stored_count };
    if (memcmp(c, d, sizeof(c)))
        V("hat:stats", "table %d: nodes %u, compacts %u, flats %u, entries %u, keys %u, zeros %u; it has %u, %u, %u, %u, %u, %u", i,
          c[0], c[1], c[2], c[3], c[4], c[5], d[0], d[1], d[2], d[3], d[4], d[5]);
    if (mem != qhat_compute_memory(h) || over != qhat_compute_memory_overhead(h)) V("hat:stats", "table %d: its memory is %ju, not %ju", i, (uintmax_t)mem, (uintmax_t)qhat_compute_memory(h));
    sim_probe("hat-stats");
}
static qhat_path_t *use_path;
static void key_op(int tn, int i, int what)
{
    tab_t *t = &M->t[tn];
    uint32_t k = key_of(t, i), ns = S->next_seed;
    if (t->kind == 1) {
        uint8_t old[16], want[16] = "";
        qhat_t *h = &hats[tn];
        qhat_path_t newp, *path = use_path ?: &newp;
        bool by_path = what & 8;
        if (t->st[i] == 1) value_of(t->seed[i], t->vlen, want);
        if (by_path) { if (!use_path) qhat_path_init(path, h, k); if (!use_path || what & 16) v_val(t, tn, k, i, qhat_get_path(path), "by path"); }
        memset(old, 0xee, sizeof(old));
        switch (what & 3) {
          case 0: case 1: {
            void *p = by_path ? qhat_set_path(path) : qhat_set(h, k);
            if (!p) V("hat:set", "table %d, key %#x: no slot", tn, k);
            if (t->st[i] == 1 ? memcmp(p, want, t->vlen) : memcmp(p, zeros, t->vlen)) V("hat:slot", "table %d%s, key %#x: its slot does not hold its value", tn, t->nulls ? " (nullable)" : "", k);
            value_of(ns, t->vlen, p);
            t->st[i] = 1; t->seed[i] = ns;
            S->next_seed++;
            break;
          }
          case 2: {
            bool r = by_path ? qhat_remove_path(path, old) : qhat_remove(h, k, old);
            if (t->st[i] == 1 && !r) V("hat:remove", "table %d, key %#x: the removal says it was not there", tn, k);
            if (t->nulls && r != (t->st[i] != 0)) V("hat:remove", "nullable table %d, key %#x: the removal says %d", tn, k, r);
            if (memcmp(old, want, t->vlen)) V("hat:removed", "table %d%s, key %#x: the removed value is wrong", tn, t->nulls ? " (nullable)" : "", k);
            t->st[i] = 0;
            if (by_path && (what & 32) && !rnd(3)) {
                /* again by the same path */
                void *p = qhat_set_path(path);
                if (memcmp(p, zeros, t->vlen)) V("hat:slot", "table %d%s, key %#x: its slot does not hold its value", tn, t->nulls ? " (nullable)" : "", k);
                value_of(ns, t->vlen, p);
                t->st[i] = 1; t->seed[i] = ns;
                S->next_seed++;
                if (rnd(8)) {
                    v_val(t, tn, k, i, qhat_get(h, k), "set again by path");
                    if (!qhat_remove(h, k, old)) V("hat:remove", "table %d, key %#x: the removal says it was not there", tn, k);
                    t->st[i] = 0;
                }
            }
            break;
          }
          default:
            if (by_path) qhat_set0_path(path, old); else qhat_set0(h, k, old);
            if (memcmp(old, want, t->vlen)) V("hat:set0-old", "table %d%s, key %#x: the former value is wrong", tn, t->nulls ? " (nullable)" : "", k);
            t->st[i] = 2;
        }
    } else {
        qps_bitmap_t *m = &maps[tn];
        qps_bitmap_state_t r, want = t->st[i] == 1 ? QPS_BITMAP_1 : t->nulls && !t->st[i] ? QPS_BITMAP_NULL : QPS_BITMAP_0;
        switch (what & 3) {
          case 0: case 1: r = qps_bitmap_set(m, k); t->st[i] = 1; break;
          case 2: r = qps_bitmap_remove(m, k); t->st[i] = 0; break;
          default: r = qps_bitmap_reset(m, k); t->st[i] = t->nulls ? 2 : 0; break;
        }
        if (r != want) V("bitmap:state", "bitmap %d%s, key %#x: operation %d says it was %d, not %d", tn, t->nulls ? " (nullable)" : "", k, what & 3, r, want);
    }
}
static void key_get(int tn, uint32_t k)
{
    tab_t *t = &M->t[tn];
    int i = idx_of(t, k);
    if (t->kind == 1) {
        v_val(t, tn, k, i, qhat_get(&hats[tn], k), "get");
        if (t->nulls && qhat_is_null(&hats[tn], k) != (i < 0 || !t->st[i])) V("hat:is-null", "table %d, key %#x: null is %d", tn, k, qhat_is_null(&hats[tn], k));
    } else {
        int st = i < 0 ? 0 : t->st[i];
        qps_bitmap_state_t want = st == 1 ? QPS_BITMAP_1 : t->nulls && !st ? QPS_BITMAP_NULL : QPS_BITMAP_0;
        if (qps_bitmap_get(&maps[tn], k) != want) V("bitmap:get", "bitmap %d%s, key %#x is %d, not %d", tn, t->nulls ? " (nullable)" : "", k, qps_bitmap_get(&maps[tn], k), want);
    }
}
/* enumerates while changing things, and jumping forward */
static void tab_walk(int tn)
{
    tab_t *t = &M->t[tn];
    uint32_t from = rnd(2) ? 0 : key_of(t, rnd(NKEY)), k = 0;
    qhat_enumerator_t en;
    qps_bitmap_enumerator_t be;
    bool safe = rnd(3), end;
    int lim = 3 + rnd(60);
    int64_t at = -1;                 /* current index */
    if (t->kind == 1) { en = qhat_get_enumerator_at(&hats[tn], from); end = en.end; k = en.key; }
    else { be = qps_bitmap_get_enumerator_at(&maps[tn], from); end = be.end; k = be.key.key; }
    int i = idx_from(t, from);
    sim_event("walk %d from %#x%s", tn, from, safe ? " with changes" : "");
    for (int n = 0; n < lim; n++) {
        /* where are we? the first shown key from i on, or a 0 before it */
        int nx = i;
        while (nx < NKEY && !shown(t, nx)) nx++;
        if (end) {
            if (nx < NKEY) V("hat:walk", "table %d%s: the walk ended before key %#x", tn, t->nulls ? " (nullable)" : "", key_of(t, nx));
            break;
        }
        int ki = idx_of(t, k);
        if (i < NKEY && k < key_of(t, i)) {
            if (t->nulls || t->kind == 2 || (at >= 0 && k <= key_of(t, at))) V("hat:walk", "table %d: the walk goes back to %#x", tn, k);
        }
        if ((nx < NKEY && k > key_of(t, nx)) || nx == NKEY) {
            if (nx < NKEY || t->nulls || t->kind == 2) V("hat:walk", "table %d%s: the walk is on %#x, not %#llx", tn, t->nulls ? " (nullable)" : "", k, nx == NKEY ? -1ll : (long long)key_of(t, nx));
        }
        if (t->kind == 1) {
            const void *v = safe ? qhat_enumerator_get_value_safe(&en) : qhat_enumerator_get_value_unsafe(&en);
            if (!v) V("hat:enum-null", "table %d: no value for the enumerated key %#x", tn, k);
            v_val(t, tn, k, ki, v, "walk");
            if (!rnd(8)) {
                qhat_path_t p = qhat_enumerator_get_path(&en);
                v_val(t, tn, k, ki, qhat_get_path(&p), "path of the walk");
            }
        } else if (ki >= 0 && be.value != (t->st[ki] == 1)) V("bitmap:value", "bitmap %d: key %#x walked with value %d", tn, k, be.value);
        i = ki >= 0 ? ki + 1 : idx_from(t, k);
        at = ki >= 0 ? ki : at;
        if (safe && !rnd(3)) {
            int c = ki >= 0 && rnd(2) ? ki : (int)rnd(NKEY);
            if (ki >= 0 && rnd(2)) { int nn = ki + 1 + rnd(4); c = nn < NKEY ? nn : ki; }
            int how = rnd(8);
            if (how < 3) { if (c < NKEY && t->st[c]) key_op(tn, c, 2 + 8 * (how & 1) + 32); }
            else key_op(tn, c, rnd(16));
            if (!rnd(40)) {
                sim_event("clear %d", tn);
                if (t->kind == 1) qhat_clear(&hats[tn]); else qps_bitmap_clear(&maps[tn]);
                memset(t->st, 0, sizeof(t->st));
            }
            if (!rnd(4)) for (int j = ki < 0 ? 0 : ki, e = j + rnd(300); j < e && j < NKEY; j++) key_op(tn, j, 2 + rnd(2));
            if (!rnd(4)) for (int j = ki < 0 ? 0 : ki, e = j + rnd(300); j < e && j < NKEY; j++) key_op(tn, j, 0);
        }
        if (safe && t->kind == 1 && ki >= 0 && !rnd(3)) {
            /* it may have been changed or removed since */
            const void *v = qhat_enumerator_get_value_safe(&en);
            uint8_t want[16] = "";
            if (t->st[ki] == 1) value_of(t->seed[ki], t->vlen, want);
            if (v ? memcmp(v, want, t->vlen) : t->st[ki] == 1) V("hat:walk-value", "table %d%s, key %#x: wrong value in a walk after changes", tn, t->nulls ? " (nullable)" : "", k);
            if (en.key != k) V("hat:walk", "table %d: getting a value moves the walk", tn);
            sim_probe("walk-value-again");
        }
        if (!rnd(3)) {
            int tgt = (ki < 0 ? i : ki) + (rnd(2) ? rnd(20) : rnd(3000));
            uint32_t tk = tgt >= NKEY ? UINT32_MAX : key_of(t, tgt);
            if (tk < k) continue;
            if (!rnd(4) && tk < UINT32_MAX) tk++;
            if (t->kind == 1) qhat_enumerator_go_to(&en, tk, safe); else qps_bitmap_enumerator_go_to(&be, tk, safe);
            i = idx_from(t, tk);
        } else {
            if (t->kind == 1) qhat_enumerator_next(&en, safe); else qps_bitmap_enumerator_next(&be, safe);
        }
        if (t->kind == 1) { end = en.end; k = en.key; } else { end = be.end; k = be.key.key; }
    }
}
static void op_tab(void)
{
    int tn = rnd(NTAB);
    tab_t *t = &M->t[tn];
    if (!t->kind) { op_tab_create(tn); return; }
    switch (rnd(16)) {
      case 0: case 1: case 2: {
        int r = rnd(NREG), a = rnd(NOFF), n = rnd(3) ? rnd(400) : rnd(NOFF), st = rnd(3) ? 1 : 1 + rnd(9);
        int w = rnd(4) ? rnd(2) * 8 : rnd(16);
        bool down = rnd(3) == 0;
        sim_event("table %d: %d keys from %d of region %d by %d, operation %d%s", tn, n, a, r, st, w, down ? ", downwards" : "");
        if (down) for (int j = 0; j < n && a - j * st >= 0; j++) key_op(tn, r * NOFF + a - j * st, w);
        else for (int j = 0; j < n && a + j * st < NOFF; j++) key_op(tn, r * NOFF + a + j * st, w);
        break;
      }
      case 3: case 4: {
        int r = rnd(NREG), a = rnd(NOFF), n = rnd(3) ? rnd(400) : rnd(NOFF), st = rnd(3) ? 1 : 1 + rnd(9), w = 2 + (rnd(3) == 0) + rnd(2) * 8 + (rnd(3) == 0) * 32;
        sim_event("table %d: operation %d for %d keys from %d of region %d by %d", tn, w, n, a, r, st);
        for (int j = 0; j < n && a + j * st < NOFF; j++) key_op(tn, r * NOFF + a + j * st, w);
        break;
      }
      case 5: tab_walk(tn); break;
      case 13: case 14: {
        /* dense leaves, then one side of the boundary of a leaf is emptied */
        int r = rnd(NREG), base = r * NOFF, mask = t->kind == 1 ? 4096 / t->vlen : 4096, e, b;
        if (t->stride[r] > 3 && rnd(4)) break;
        bool side = rnd(2), down = rnd(2);
        int w = 2 + 8 * rnd(2) + 32 * rnd(2), keep = rnd(4) ? 0 : rnd(4), from = rnd(3) ? 0 : rnd(NOFF), to = rnd(3) ? NOFF : from + rnd(NOFF - from);
        for (b = from + (rnd(3) ? 0 : rnd(to - from + 1)); b < to && key_of(t, base + b) % mask; b++) ;
        sim_event("table %d: fill %d to %d of region %d, then empty it %s %d%s, operation %d", tn, from, to, r, side ? "from" : "to", b, down ? ", downwards" : "", w);
        for (e = from; e < to; e++) if (!t->st[base + e] || !rnd(16)) key_op(tn, base + e, 0);
        if (side) from = b; else to = b;
        from += keep;
        if (down) for (e = to - 1; e >= from; e--) key_op(tn, base + e, w);
        else for (e = from; e < to; e++) key_op(tn, base + e, w);
        sim_probe("dense-then-emptied");
        break;
      }
      case 11: case 12:
        /* a path kept since some time ago */
        if (t->kind != 1) break;
        if (kept_on[tn]) {
            int w = 8 + rnd(4) + rnd(2) * 16;
            sim_event("table %d: operation %d on %#x by its path", tn, w, key_of(t, kept_i[tn]));
            sim_probe("kept-path");
            use_path = &kept[tn]; key_op(tn, kept_i[tn], w); use_path = NULL;
            if (rnd(3)) break;
        }
        kept_i[tn] = rnd(NKEY); kept_on[tn] = true;
        qhat_path_init(&kept[tn], &hats[tn], key_of(t, kept_i[tn]));
        if (rnd(2)) v_val(t, tn, key_of(t, kept_i[tn]), kept_i[tn], qhat_get_path(&kept[tn]), "by path");
        break;
      case 6: {
        uint32_t f = rnd(2) ? key_of(t, rnd(NKEY)) + rnd(2) : (uint32_t)rnd(65536) << 16;
        sim_event("enumerate %d from %#x", tn, f);
        if (t->kind == 1) v_hat(&hats[tn], t, tn, "enumeration", rnd(2), f);
        else v_bitmap(&maps[tn], t, tn, "enumeration", rnd(2), f);
        break;
      }
      case 7:
        for (int j = 0; j < 20; j++) key_get(tn, rnd(2) ? key_of(t, rnd(NKEY)) : (uint32_t)(rnd(65536) << 16 | rnd(65536)));
        break;
      case 8:
        sim_event("check %d", tn);
        S->last_err[0] = 0;
        v_tab_deep(&hats[tn], &maps[tn], t, tn, "check");
        t_stats(tn);
        break;
      case 9:
        if (rnd(3)) break;
        sim_event("clear %d", tn);
        if (t->kind == 1) qhat_clear(&hats[tn]); else qps_bitmap_clear(&maps[tn]);
        memset(t->st, 0, sizeof(t->st));
        break;
      case 10:
        if (rnd(3)) break;
        sim_event("destroy %d", tn);
        if (t->kind == 1) qhat_destroy(&hats[tn]); else qps_bitmap_destroy(&maps[tn]);
        t->kind = 0;
        break;
      default: {
        int n = 1 + rnd(20);
        sim_event("table %d: %d keys", tn, n);
        for (int j = 0; j < n; j++) {
            int i = rnd(NKEY);
            key_op(tn, i, rnd(16));
            if (!rnd(3)) key_get(tn, key_of(t, i));
        }
      }
    }
}

/* }}} */
/* {{{ operations: snapshots */

static bool faulty(void) { return simfs->failed != S->failed0 || S->fork_failed; }
static void priv_fill(uint8_t *b, const model_t *m)
{
    memcpy(b, &m->id, 4);
    fill(b + 4, m->plen, m->id + 500);
}
static void op_snapshot(void)
{
    uint8_t priv[8200];
    if (qps->snapshotting) return;
    if (S->nsnap >= 12) return;
    if (S->may_fail_open) {
        sim_bg_run(1000000);
        if (sim_bg_state() == BG_ALIVE) return;
        S->may_fail_open = false;
    }
    S->nsnap++;
    M->id = S->next_id++;
    M->plen = rnd(3) ? rnd(40) : rnd(8000);
    priv_fill(priv, M);
    memcpy(&S->snap[!S->c], M, sizeof(*M));
    S->done = false; S->inprog = true;
    if (!rnd(4)) {
        /* jobs the end of the snapshot must wait for */
        int n = 1 + rnd(3);
        S->syn_used = true;
        qps_set_snapshot_syn(qps, &syn);
        syn_todo += n;
        for (int i = 0; i < n; i++) thr_syn_schedule_b(&syn, ^{ sim_yield(); sim_yield(); syn_done++; });
    }
    uint32_t id = M->id;
    int want = syn_todo;
    sim_event("snapshot %u (%u bytes of private data)", id, M->plen);
    sim_count_op();
    qps_snapshot(qps, priv, 4 + M->plen, ^(uint32_t gen) {
        sim_event("snapshot %u is complete", id);
        sim_probe("snapshot-complete");
        if (!S->done) V("qps:early", "snapshot %u is said to be complete but the snapshotter has not ended", id);
        if (syn_done < want) V("qps:syn", "snapshot %u ended before the jobs it has to wait for", id);
        if (sim_self() != 0) V("qps:notify-thread", "snapshot notified out of the main thread");
        if (!S->inprog || S->snap[!S->c].id != id) V("qps:notify-twice", "snapshot %u notified twice", id);
        S->c = !S->c;
        S->inprog = S->done = false;
    });
    if (S->ncrash && !sim_choose(ST_OPS, 25)) { sim_event("crash at once"); sim_crash(); }
}
static int pred_bg(void) { return sim_bg_state() == BG_ALIVE; }
static bool pred_bg_b(void *p) { return pred_bg(); }
static void bg_advance(int64_t n)
{
    if (sim_bg_state() != BG_ALIVE) return;
    if (S->may_fail_open) { sim_bg_run(n); return; }       /* that of a former life */
    if (S->kids_die && !sim_choose(ST_FAULT, 40)) {
        sim_fault("snapshotter-killed");
        S->killed = true;
        sim_bg_kill();
    } else {
        sim_bg_run(n);
    }
    if (sim_bg_state() == BG_EXITED) {
        int st = sim_bg_status();
        sim_event("the snapshotter ends with %#x", st);
        if (st == 0) S->done = true;
        else if (!S->killed && simfs->failed == S->failed0) V("qps:snapshotter", "the snapshotter failed (status %#x): %s", st, S->last_err);
        sim_child_exit(sim_bg_vpid(), st);
        sim_deliver_signals();
    }
}
static void *runner(void *arg)
{
    for (;;) {
        sim_block("snapshotter", pred_bg_b, NULL, SIM_INF);
        bg_advance(sim_choose(ST_SCHED, 3) ? 1 + sim_choose(ST_SCHED, 6) : 1000000);
        sim_yield();
    }
    return NULL;
}
pid_t __real_ifork(void);
pid_t __wrap_ifork(void) { return __real_ifork(); }
pid_t __wrap_fork(void) { return sim_bg_fork(); }
static void on_rename(void)
{
    if (sim_bg_self() && sim_bg_orphan() && S->opened && S->may_fail_open) S->replaced = true;
    if (sim_bg_self() && !sim_bg_orphan() && S->ncrash && !simfs->crash_in && !sim_choose(ST_FAULT, 5)) simfs->crash_in = 1 + sim_choose(ST_FAULT, 4);
}
pid_t __wrap_getppid(void) { return sim_bg_self() ? (sim_bg_orphan() ? 1 : 4242) : 1; }

static void died(const char *how, int code)
{
    if (sim_bg_self()) sim_bg_exit(code);
    sim_event("the process %s: %s", how, S->last_err);
    if (!faulty() && !S->killed) V("qps:died", "the process %s: %s", how, S->last_err);
    sim_fault("fatal-error");
    sim_proc_exit(code);
}
void __wrap_abort(void) { died("aborted", 6); for (;;) ; }
void __wrap__exit(int code) { died("exited", code << 8); for (;;) ; }

/* zlib makes its system calls itself */
int __real_gzwrite(gzFile f, const void *b, unsigned n);
int __wrap_gzwrite(gzFile f, const void *b, unsigned n)
{
    simfs_point();
    if (simfs_fault(simfs->eio_wr, "gz-write-failure", EIO) || simfs_fault(simfs->enospc, "gz-disk-full", ENOSPC)) return 0;
    return __real_gzwrite(f, b, n);
}
int __real_gzread(gzFile f, void *b, unsigned n);
int __wrap_gzread(gzFile f, void *b, unsigned n)
{
    if (simfs_fault(simfs->eio_rd, "gz-read-failure", EIO)) return -1;
    return __real_gzread(f, b, n);
}
int __real_gzclose(gzFile f);
int __wrap_gzclose(gzFile f)
{
    simfs_point();
    int r = __real_gzclose(f);
    if (!r && simfs_fault(simfs->close_fail, "gz-close-failure", EIO)) return Z_ERRNO;
    return r;
}

/* the waits of QPS spin on this one */
void __real_thr_queue_main_drain(void);
void __wrap_thr_queue_main_drain(void) { sim_yield(); __real_thr_queue_main_drain(); }

static void op_backup(void)
{
    if (qps->snapshotting || S->fork_failed) return;
    bool link = rnd(2);
    char d[32];
    uint32_t crash = simfs->crash_in;
    uint64_t f0 = simfs->failed;
    snprintf(d, sizeof(d), "bk%d", S->nbk++);
    mkdir(d, 0755);
    int dfd = open(d, O_RDONLY);
    sim_event("backup in %s%s", d, link ? " (links)" : "");
    simfs->crash_in = 0;
    simfs->off = !rnd(2);
    int r = qps_backup(qps, dfd, link);
    simfs->off = true;
    close(dfd);
    if (r < 0 && f0 == simfs->failed) V("qps:backup", "the backup failed: %s", S->last_err);
    if (r == 0) {
        SB_1k(priv);
        qps_t *b = qps_open(d, "backup", &priv);
        if (!b) V("qps:backup-open", "the backup cannot be opened: %s", S->last_err);
        model_t *m = &S->snap[S->c];
        uint8_t want[8200];
        priv_fill(want, m);
        if (priv.len != 4 + (int)m->plen || memcmp(priv.data, want, priv.len)) V("qps:backup-state", "the backup is not the last snapshot");
        v_all(b, m, "in the backup");
        qps_close(&b);
    }
    simfs->off = false;
    simfs->crash_in = crash;
}

/* }}} */
/* {{{ a life of the process */

static void log_handler(const log_ctx_t *ctx, const char *fmt, va_list va)
{
    if (ctx->level <= LOG_ERR) {
        vsnprintf(S->last_err, sizeof(S->last_err), fmt, va);
        if (sim_verbose) sim_event("log: %s", S->last_err);
    }
}
static void faults_on(void)
{
    simfs->eio_wr = S->faults[0]; simfs->enospc = S->faults[1]; simfs->eio_sync = S->faults[2];
    simfs->open_fail = S->faults[3]; simfs->rename_fail = S->faults[4]; simfs->close_fail = S->faults[5];
    simfs->trunc_fail = S->faults[6]; simfs->eio_rd = S->faults[7]; simfs->stat_fail = S->faults[8];
    simfs->short_wr = S->faults[9]; simfs->eintr = S->faults[9];
}
static void faults_off(void)
{
    simfs->eio_wr = simfs->enospc = simfs->eio_sync = simfs->open_fail = simfs->rename_fail = simfs->close_fail = 0;
    simfs->trunc_fail = simfs->eio_rd = simfs->stat_fail = simfs->short_wr = simfs->eintr = 0;
}
/* opens the store and compares it with what it must hold */
static bool reopen(void)
{
    SB_8k(priv);
    uint32_t id;
    S->last_err[0] = 0;
    uint64_t f0 = simfs->failed;
    qps = qps_open("store", "vq", &priv);
    if (!qps) {
        if (f0 == simfs->failed && !S->may_fail_open) V("qps:open-failed", "the store cannot be opened: %s", S->last_err);
        sim_event("open failed: %s", S->last_err);
        return false;
    }
    if (priv.len < 4) V("qps:priv", "private data of %d bytes", priv.len);
    memcpy(&id, priv.data, 4);
    sim_event("opened: state %u", id);
    int slot = -1;
    if (S->inprog && S->snap[!S->c].id == id) slot = !S->c;
    else if (S->snap[S->c].id == id) slot = S->c;
    if (slot < 0) V("qps:state", "the store is in state %u, but the last complete snapshot is %u%s", id, S->snap[S->c].id, S->inprog ? " and another was going on" : "");
    if (S->inprog && S->done && slot == S->c) V("qps:state-lost", "the store is in state %u, snapshot %u was complete", id, S->snap[!S->c].id);
    if (slot != S->c) sim_probe("in-progress-snapshot-found");
    uint8_t want[8200];
    priv_fill(want, &S->snap[slot]);
    if (priv.len != 4 + (int)S->snap[slot].plen || memcmp(priv.data, want, priv.len)) V("qps:priv", "the private data of snapshot %u are wrong", id);
    S->c = slot;
    S->inprog = S->done = false;
    memcpy(M, &S->snap[slot], sizeof(*M));
    v_all(qps, M, "after opening");
    for (int i = 0; i < NTAB; i++) t_open(i);
    return true;
}
static void settle(void)
{
    /* nothing prevents the snapshot from ending any more */
    for (int i = 0; i < 400 && qps->snapshotting; i++) { el_loop_timeout(10); sim_yield(); }
    if (qps->snapshotting) V("qps:stuck", "the snapshot does not end (snapshotter %s)", sim_bg_state() == BG_ALIVE ? "still running" : "ended");
}
static void life(void *arg)
{
    pthread_t t;
    bool first = !S->created;
    S->failed0 = simfs->failed;
    S->killed = false;
    S->fork_failed = 0;
    S->opened = S->replaced = false;
    S->clean = false;
    M = &S->cur;
    log_set_handler(log_handler);
    MODULE_REQUIRE(log);
    sim_sched_config(0);
    MODULE_REQUIRE(thr);
    thr_syn_init(&syn);
    pthread_create(&t, NULL, runner, NULL);

    if (first) {
        uint8_t priv[8200];
        memset(M, 0, sizeof(*M));
        M->id = S->next_id++;
        M->plen = rnd(100);
        memcpy(&S->snap[S->c], M, sizeof(*M));
        priv_fill(priv, M);
        if (qps_exists("store")) {
            /* the creation was interrupted, yet it took place */
            if (!S->snap[S->c].id) V("qps:exists", "there is a store before it was created");
        }
        if (rnd(3)) faults_on();
        S->inprog = false;
        qps = qps_create("store", "vq", 0755, priv, 4 + M->plen);
        faults_off();
        if (!qps) {
            if (simfs->failed == S->failed0) V("qps:create", "the store cannot be created: %s", S->last_err);
            return;
        }
        S->created = true;
        sim_event("created");
    } else {
        if (!rnd(3)) faults_on();
        bool ok = reopen();
        faults_off();
        if (!ok) return;
    }
    S->opened = true;
    uint64_t f0 = simfs->failed;
    (void)f0;
    if (rnd(3)) faults_on();
    int n = 1 + rnd(S->nops);
    if (S->ncrash && rnd(2)) simfs->crash_in = 1 + (rnd(2) ? rnd(60) : rnd(600));
    for (int i = 0; i < n && !sim_exhausted(ST_OPS); i++) {
        uint32_t tot = 0, w, k;
        sim_count_op();
        for (k = 0; k < 12; k++) tot += S->wts[k];
        w = rnd(tot);
        for (k = 0; w >= S->wts[k]; k++) w -= S->wts[k];
        switch (k) {
          case 0: op_obj(); break;
          case 1: op_pg(); break;
          case 2: op_tab(); break;
          case 3: op_snapshot(); break;
          case 4: el_loop_timeout(rnd(3) * 5); break;
          case 5: bg_advance(1 + rnd(20)); break;
          case 6:
            sim_event("wait for the snapshot");
            qps_snapshot_wait(qps);
            if (qps->snapshotting || S->inprog) V("qps:wait", "the snapshot goes on after having been waited for");
            break;
          case 7:
            if (qps->snapshotting) break;
            sim_event("garbage collection");
            sim_probe("gc");
            qps_gc_run(qps);
            if (!rnd(3)) v_all(qps, M, "after a garbage collection");
            break;
          case 8: op_backup(); break;
          case 9: op_mass(); break;
          case 10: v_all(qps, M, "during the life of the store"); break;
          default:
            if (S->ncrash) { sim_event("crash now"); sim_crash(); }
        }
        sim_state(mix(sim_bg_state() * 7 + qps->snapshotting * 3 + qps->maps.len * 64 + qps->no_free.len * 4096 + qps->no_blocked.len * 65536 + (uint64_t)k * 1000003 + (uint64_t)S->nsnap * 77777777));
        sim_yield();
    }
    simfs->crash_in = 0;
    v_all(qps, M, "at the end");
    if (rnd(2)) { settle(); v_all(qps, M, "once the snapshot is done"); }
    sim_event("close");
    qps_close(&qps);
    if (S->inprog) V("qps:close", "the store was closed and its snapshot was not notified");
    S->clean = true;
}

/* }}} */

void harness_init(void)
{
    logger_set_level(LSTR_EMPTY_V, LOG_ERR, LOG_RECURSIVE);
    MODULE_REQUIRE(log);
}
void harness_run(void)
{
    extern int sim_nb_cpu;
    int code;
    simfs_init();
    sim_bg_root();
    S = sim_shared(sizeof(*S));
    simfs_on_rename = on_rename;
    sim_nb_cpu = 2 + sim_choose(ST_CFG, 2);
    S->use_c14 = !strcmp(sim_prop, "C14");
    S->next_id = 1; S->next_seed = 1;
    S->nops = 1 + sim_choose(ST_CFG, S->use_c14 ? 120 : 60);
    int lives = 1 + sim_choose(ST_CFG, 5);
    static const uint32_t base13[12] = { 20, 12, 10, 12, 8, 10, 2, 4, 3, 1, 2, 1 };
    static const uint32_t base14[12] = { 12, 8, 60, 5, 4, 4, 1, 3, 1, 1, 2, 0 };
    for (int i = 0; i < 12; i++) {
        S->wts[i] = (S->use_c14 ? base14 : base13)[i];
        if (!sim_choose(ST_CFG, 5)) S->wts[i] = 0;
        if (!sim_choose(ST_CFG, 6)) S->wts[i] *= 5;
    }
    S->wts[10]++;
    S->ncrash = sim_choose(ST_CFG, 3);
    simfs->dir_reorder = sim_choose(ST_CFG, 2);
    if (sim_choose(ST_CFG, 3) == 1) {
        for (int i = 0; i < 10; i++) if (!sim_choose(ST_CFG, 3)) S->faults[i] = 1 + sim_choose(ST_CFG, 20);
    }
    S->kids_die = sim_choose(ST_CFG, 4) == 1;
    for (int t = 0; t < NTAB; t++) for (int r = 0; r < NREG; r++) {
        static const uint32_t strides[] = { 1, 1, 1, 2, 3, 16, 1023, 1024, 32768, 65536, 200000 };
        uint32_t st = strides[sim_choose(ST_CFG, countof(strides))], room = (1u << 29) - (NOFF - 1) * st - 1;
        S->reg_stride[t][r] = st;
        switch (sim_choose(ST_CFG, 4)) {
          case 0: S->reg_start[t][r] = 0; break;
          case 1: S->reg_start[t][r] = room; break;
          case 2: S->reg_start[t][r] = (uint32_t)sim_choose(ST_CFG, room >> 10) << 10; break;
          default: S->reg_start[t][r] = sim_choose(ST_CFG, room); break;
        }
    }
    for (int l = 0; l < lives; l++) {
        S->may_fail_open = false;
        simfs->crash_in = 0;
        int how = sim_incarnate(life, NULL, &code);
        faults_off();
        sim_event("life %d ended: %d", l, how);
        if (how == 0 && sim_bg_state() == BG_ALIVE) V("qps:left", "the process ended before its snapshotter");
        bool power = how == 1 && sim_choose(ST_DISK, 3);
        if (power) {
            simfs->off = true;
            sim_bg_kill();
            simfs->off = false;
            simfs_power_loss(1 + sim_choose(ST_DISK, 15));
            sim_fault("power-loss");
        } else if (sim_bg_state() == BG_ALIVE) {
            /* the snapshotter outlives the process */
            sim_probe("orphan-snapshotter");
            int k = sim_choose(ST_DISK, 4);
            if (k == 0) sim_bg_kill();
            else {
                bool tried = false;
                for (int j = 0; j < 200 && sim_bg_state() == BG_ALIVE; j++) {
                    simfs->crash_in = 0;
                    if (k != 3 || tried || sim_choose(ST_DISK, 3)) sim_bg_run(k == 1 ? 1000000 : sim_choose(ST_DISK, 30));
                    if (k == 3 && !tried && sim_bg_state() == BG_ALIVE) {
                        tried = true;
                        S->may_fail_open = true;
                        sim_event("open while the former snapshotter is running");
                        how = sim_incarnate(life, NULL, &code);
                        faults_off();
                        if (S->opened) {
                            sim_probe("opened-with-orphan");
                            uint32_t id = S->snap[S->c].id;
                            sim_bg_run(1000000);
                            if (S->replaced) V("qps:orphan", "the snapshotter of a dead process replaced the store that was opened in state %u", id);
                        }
                        S->may_fail_open = false;
                        if (how == 1 && sim_choose(ST_DISK, 2)) { sim_bg_kill(); simfs_power_loss(1 + sim_choose(ST_DISK, 15)); sim_fault("power-loss"); }
                    }
                }
                if (sim_bg_state() == BG_EXITED && sim_bg_status() == 0 && S->inprog) S->done = true;
            }
        }
        if (!S->created && simfs_size("store/meta.qps") >= 0) S->created = true;
    }
    /* in the end, without any fault, the store opens */
    if (S->created) {
        S->nops = 1; S->ncrash = 0;
        memset(S->faults, 0, sizeof(S->faults));
        S->kids_die = false;
        simfs->crash_in = 0;
        int how = sim_incarnate(life, NULL, &code);
        if (how != 0 || !S->opened) V("qps:last-open", "the last life ended with %d", how);
    }
    sim_end_run();
}
