/* C05: ring, FIFO, stack and page allocators against a ledger of live blocks:
 * alignment, disjointness, contents, zeroing, release from other threads. */
#include "hthr.h"
#include <lib-common/qpage.h>
const char *harness_name = "h_mem";

#define NB 400
typedef struct blk_t { uint8_t *p; size_t n; uint32_t id; int frame; uint32_t seg; size_t al; bool live; } blk_t;
static blk_t B[NB];
static uint32_t ids;
static uint64_t hist;
static int mode;
ORACLE static uint32_t rnd(uint32_t n) { return sim_choose(ST_OPS, n); }
ORACLE static void bad(const char *c, blk_t *b, const char *w)
{
    sim_violation(c, "block %d (%zu bytes, frame %d): %s", (int)(b - B), b->n, b->frame, w);
}
/* sparse stamp: enough to notice any foreign write of more than a few bytes */
ORACLE static uint8_t stamp(uint32_t id, size_t i) { uint32_t h = (id * 2654435761u) ^ (uint32_t)(i * 40503u); return h ^ h >> 13 ^ h >> 22; }
ORACLE static size_t step(size_t i, size_t n) { return n <= 512 || i < 64 || n - i <= 64 ? 1 : n > 20000 ? 61 : 7; }
ORACLE static void fill(blk_t *b) { for (size_t i = 0; i < b->n; i += step(i, b->n)) b->p[i] = stamp(b->id, i); }
/* of huge blocks, only the ends are looked at */
static bool huge;
ORACLE static size_t pg_step(size_t k, size_t n) { return huge && k < n - 1 ? n - 1 : k + 1; }
ORACLE static void fill_pages(blk_t *b)
{
    for (size_t k = 0; k < b->n; k = pg_step(k, b->n)) for (size_t i = 0; i < 4096; i += i < 32 || i >= 4064 ? 1 : 97) b->p[k * 4096 + i] = stamp(b->id, k * 4096 + i);
}
ORACLE static void check_upto(blk_t *b, size_t lim)
{
    for (size_t i = 0; i < b->n; i += step(i, b->n)) if (i < lim && b->p[i] != stamp(b->id, i)) {
        sim_violation("mem:clobbered", "block %d of %zu bytes changed at offset %zu", (int)(b - B), b->n, i);
    }
}
ORACLE static void check_pages(blk_t *b, size_t from, size_t to)
{
    for (size_t k = from; k < to; k = pg_step(k, b->n)) for (size_t i = 0; i < 4096; i += i < 32 || i >= 4064 ? 1 : 97)
        if (b->p[k * 4096 + i] != stamp(b->id, k * 4096 + i))
            sim_violation("mem:clobbered", "page %zu of block %d (%zu pages) changed at offset %zu", k, (int)(b - B), b->n, i);
}
ORACLE static void check(blk_t *b) { if (mode == 3) check_pages(b, 0, b->n); else check_upto(b, b->n); }
ORACLE static void check_some(void) { int i = rnd(NB); for (int k = 0; k < 20; k++) if (B[(i + k) % NB].live) check(&B[(i + k) % NB]); }
ORACLE static blk_t *slot(void) { for (int i = 0; i < NB; i++) if (!B[i].live) { memset(&B[i], 0, sizeof(B[i])); return &B[i]; } return NULL; }
ORACLE static void disjoint(blk_t *b)
{
    size_t u = mode == 3 ? 4096 : 1;
    for (int i = 0; i < NB; i++)
        if (B[i].live && &B[i] != b && B[i].p < b->p + b->n * u && b->p < B[i].p + B[i].n * u)
            sim_violation("mem:overlap", "block %d (%zu) overlaps live block %d (%zu)", (int)(b - B), b->n, i, B[i].n);
}
ORACLE static void check_zero(blk_t *b, size_t from, size_t to)
{
    for (size_t i = from; i < to; i++) if (b->p[i]) sim_violation("mem:not-zeroed", "byte %zu of a zero-initialised block of %zu bytes is %x", i, b->n, b->p[i]);
}
ORACLE static void born(blk_t *b, void *p, size_t n, size_t align, bool zero, size_t kept)
{
    b->p = p; b->n = n; b->live = true;
    if (!p) bad("mem:null", b, "no memory returned");
    if ((uintptr_t)p & (align - 1)) sim_violation("mem:misaligned", "block of %zu bytes is not aligned on %zu", n, align);
    disjoint(b);
    if (mode != 3) sim_mem_check(p, n);
    if (zero) check_zero(b, mode == 3 ? kept * 4096 : kept, mode == 3 ? n * 4096 : n);
    b->id = ++ids;
    hist = hist * 1099511628211ull + n * 8 + mode;
    sim_count_op();
}
/* contents kept by a realloc: stamps depend on the old length's sampling steps */
ORACLE static void check_kept(const uint8_t *p, uint32_t id, size_t oldn, size_t kept)
{
    for (size_t i = 0; i < oldn && i < kept; i += step(i, oldn))
        if (p[i] != stamp(id, i)) sim_violation("mem:realloc-lost", "reallocation of %zu bytes lost byte %zu", oldn, i);
}
static int profile;
ORACLE static size_t a_size(void)
{
    if (profile == 1) return rnd(12) ? 1 + rnd(60) : 1 + rnd(9000);   /* small blocks, frames over several of them */
    if (profile == 2) return 8 * (1 + rnd(512));
    if (profile == 3) return rnd(4) ? 4096 - 32 - rnd(60) : 1 + rnd(300);   /* about one allocation per block */
    if (profile == 4) return rnd(3) ? (4096u << (rnd(3) ? 0 : rnd(6))) - (rnd(2) ? rnd(280) : 20 + rnd(60)) : 1 + rnd(500);   /* around the ends of blocks */
    switch (rnd(8)) {
      case 0: case 1: case 2: return 1 + rnd(64);
      case 3: case 4: return 1 + rnd(600);
      case 5: return 1 + rnd(5000);
      case 6: return 1 << rnd(14);
      default: return mode == 1 ? 1 + rnd(90000) : 1 + rnd(30000);
    }
}
ORACLE static blk_t *pick(int frame)
{
    int l[NB], n = 0;
    for (int i = 0; i < NB; i++) if (B[i].live && (frame < 0 || B[i].frame == frame)) l[n++] = i;
    return n ? &B[l[rnd(n)]] : NULL;
}
ORACLE static int nlive(void) { int n = 0; for (int i = 0; i < NB; i++) n += B[i].live; return n; }
static mem_pool_t *mp;
static int64_t live0;
ORACLE static void no_leak(const char *w)
{
    int64_t l = sim_heap_live() - live0;
    if (l > 2000)   /* less: buffers of the logger */
        sim_violation("mem:leak", "%lld bytes still allocated once the %s pool is deleted and everything in it released", (long long)l, w);
}

static void do_alloc(int frame, size_t maxal)
{
    blk_t *b = slot();
    if (!b) return;
    size_t n = a_size(), al = 1u << rnd(maxal > 16 ? 7 : 5);
    bool raw = rnd(2);
    if (al > maxal) al = maxal;
    while (al > n) al >>= 1;   /* the size of an object is at least its alignment */
    b->frame = frame; b->al = al;
    void *p = mp_imalloc(mp, n, al, raw ? MEM_RAW : 0);
    sim_event("alloc %zu aligned %zu%s -> block %d", n, al, raw ? " raw" : "", (int)(b - B));
    born(b, p, n, al, !raw, 0);
    fill(b);
}
static void do_realloc(int frame, size_t maxal, bool unknown_ok)
{
    blk_t *b = pick(frame);
    if (!b) return;
    if (rnd(2)) for (int i = 0; i < NB; i++) if (B[i].live && B[i].frame == frame && B[i].id > b->id) b = &B[i];   /* the last one */
    size_t n = rnd(3) == 0 ? rnd(b->n + 1) : rnd(3) ? b->n + 1 + rnd(200) : a_size(), old = b->n;
    bool raw = rnd(2), unk = raw && unknown_ok && rnd(2);
    uint32_t id = b->id;
    check(b);
    sim_event("realloc block %d %zu -> %zu%s", (int)(b - B), old, n, raw ? " raw" : "");
    b->live = false;
    if (n && n < b->al) n = b->al;
    void *p = mp_irealloc(mp, b->p, unk ? MEM_UNKNOWN : old, n, b->al, raw ? MEM_RAW : 0);
    if (!n) return;
    check_kept(p, id, old, n);
    if (n > old) born(b, p, n, b->al, !raw, old); else born(b, p, n, b->al, false, 0);
    fill(b);
}

/* {{{ ring */

#define NF 64
typedef struct fr_t { const void *cookie; int no; bool sealed, taken; } fr_t;
static fr_t F[NF];
static int nframes, cur = -1, live_frames;
static bool owner_done, pool_gone;
static int max_out;
ORACLE static void frame_verify(int no)
{
    for (int i = 0; i < NB; i++) if (B[i].live && B[i].frame == no) { check(&B[i]); B[i].live = false; }
}
ORACLE static int frame_take(void)
{
    int l[NF], n = 0;
    for (int i = 0; i < NF; i++) if (F[i].sealed && !F[i].taken) l[n++] = i;
    if (!n) return -1;
    int k = l[sim_choose(ST_OPS, n)];
    F[k].taken = true;
    sim_event("release frame %d", F[k].no);
    frame_verify(F[k].no);
    return k;
}
ORACLE static void frame_gone(int k) { F[k].sealed = F[k].taken = false; live_frames--; }
static void release_one(void)
{
    int k = frame_take();
    if (k < 0) return;
    mem_ring_release(F[k].cookie);
    frame_gone(k);
}
static int thr = 1;
ORACLE static bool rel_ready(void *a)
{
    if (live_frames < thr && !owner_done) return false;
    for (int i = 0; i < NF; i++) if (F[i].sealed && !F[i].taken) return true;
    return owner_done;
}
ORACLE static bool rel_wait(void)
{
    sim_block("frame", rel_ready, NULL, SIM_INF);
    for (int i = 0; i < NF; i++) if (F[i].sealed && !F[i].taken) return true;
    return false;
}
static void *releaser(void *a)
{
    int lag = sim_choose(ST_CFG, 3) * 40;
    while (rel_wait()) {
        /* be runnable, with frames to release, while the owner works */
        if (lag) for (int k = rnd(lag); k > 0; k--) sim_point();
        release_one();
        if (lag && rnd(4) == 1) thr = 1 + rnd(12);   /* let frames pile up */
    }
    return NULL;
}
ORACLE static int frame_slot(void) { for (int i = 0; i < NF; i++) if (!F[i].sealed) return i; return -1; }
ORACLE static void o_sealed(int k, const void *c, int no) { F[k].cookie = c; F[k].no = no; F[k].taken = false; F[k].sealed = true; live_frames++; }
static void *ring_owner(void *a)
{
    int nops = 10 + rnd(rnd(3) ? 40 : profile == 1 ? 700 : 220), helpers = (int)(intptr_t)a;
    for (int i = 0; i < nops && !sim_exhausted(ST_OPS); i++) {
        if (cur < 0) {
            const void *c = mem_ring_newframe(mp);
            cur = ++nframes;
            sim_event("new frame %d", cur);
            if (c != mem_ring_getframe(mp)) sim_violation("ring:frame", "mem_ring_newframe and mem_ring_getframe differ");
        }
        switch (rnd(profile == 3 ? 9 : 12)) {
          case 0: case 1: case 2: case 3: do_alloc(cur, 16); break;
          case 4: if (profile == 1) { int k = rnd(30); while (k-- > 0) do_alloc(cur, 16); } do_alloc(cur, 16); break;
          case 5: case 6: do_realloc(cur, 16, false); break;
          case 7: case 8: {
            int k = frame_slot();
            if (k < 0) break;
            const void *f = mem_ring_getframe(mp);
            const void *c = mem_ring_seal(mp);
            sim_event("seal frame %d", cur);
            if (c != f) sim_violation("ring:frame", "sealing returned another frame than the active one");
            o_sealed(k, c, cur);
            cur = -1;
            break;
          }
          case 9:
            if (live_frames < 3 && helpers) break;
            release_one();
            break;
          case 10:
            if (rnd(3)) break;
            sim_event("release active frame %d", cur);
            frame_verify(cur);
            mem_ring_release(mem_ring_getframe(mp));
            cur = -1;
            break;
          case 11:
            if (!helpers && rnd(3) == 0) {
                /* checkpoint: everything after it goes away at once */
                const void *cp = mem_ring_checkpoint(mp);
                int save = cur, n = rnd(6);
                bool open = rnd(2);
                if (open) {
                    mem_ring_newframe(mp);
                    cur = ++nframes;
                    while (n-- > 0) do_alloc(cur, 16);
                    frame_verify(cur);
                    sim_event("rewind from frame %d to %d", cur, save);
                } else {
                    sim_event("rewind to %d", save);
                }
                mem_ring_rewind(mp, cp);
                cur = save;
                break;
            }
            mem_ring_reset(mp);
            break;
        }
        check_some();
    }
    if (cur >= 0) {
        int k = frame_slot();
        const void *c = mem_ring_seal(mp);
        if (k >= 0) o_sealed(k, c, cur); else { frame_verify(cur); mem_ring_release(c); }
        cur = -1;
    }
    /* frames may outlive the deletion of their pool */
    if (rnd(2)) { pool_gone = true; sim_event("delete pool"); mem_ring_delete(&mp); }
    owner_done = true;
    return NULL;
}
/* the same work again and again must not need more and more memory */
static void ring_steady(void)
{
    int out = 1 + rnd(4), na = 1 + rnd(6);
    size_t sz[6], max1 = 0, max2 = 0;
    const void *fr[8]; int w = 0, r = 0;
    for (int i = 0; i < na; i++) sz[i] = a_size();
    mp = mem_ring_new("sim", 4096);
    for (int i = 0; i < 700; i++) {
        mem_ring_newframe(mp);
        for (int k = 0; k < na; k++) {
            void *p = mp_imalloc(mp, sz[k], 1, MEM_RAW);
            memset(p, i, sz[k]);
        }
        fr[w++ & 7] = mem_ring_seal(mp);
        if (w - r > out) mem_ring_release(fr[r++ & 7]);
        size_t f = mem_ring_memory_footprint(mp);
        if (i < 350) { if (f > max1) max1 = f; } else if (f > max2) max2 = f;
    }
    while (r < w) mem_ring_release(fr[r++ & 7]);
    if (max2 > max1 * 2 + 65536) sim_violation("ring:growth", "the same work needs %zu bytes then %zu", max1, max2);
    mem_ring_delete(&mp);
    sim_probe("ring-steady");
}

/* }}} */
/* {{{ fifo */

static void fifo_run(void)
{
    int nops = 10 + rnd(rnd(3) ? 60 : 500), bias = rnd(3);
    size_t used = 0;
    mp = mem_fifo_pool_new("sim", rnd(2) ? 0 : 4096 * rnd(40));
    for (int i = 0; i < nops && !sim_exhausted(ST_OPS); i++) {
        switch (rnd(8)) {
          case 0: case 1: case 2: do_alloc(0, 8); break;
          case 3: if (bias) do_alloc(0, 8); break;
          case 4: case 5: {
            /* mostly oldest first */
            blk_t *b = NULL;
            if (rnd(3) == 0) b = pick(-1);
            else for (int k = 0; k < NB; k++) if (B[k].live && (!b || B[k].id < b->id)) b = &B[k];
            if (!b) break;
            check(b);
            b->live = false;
            sim_event("free block %d", (int)(b - B));
            mp_ifree(mp, b->p);
            break;
          }
          case 6: do_realloc(0, 8, true); break;
          case 7: if (bias == 0) while (nlive() > 2) { blk_t *b = pick(-1); check(b); b->live = false; mp_ifree(mp, b->p); } break;
        }
        check_some();
    }
    if (rnd(2)) {
        blk_t *b;
        ssize_t al = 0, us = 0;
        while ((b = pick(-1))) { check(b); b->live = false; mp_ifree(mp, b->p); }
        mem_fifo_pool_stats(mp, &al, &us);
        if (us) sim_violation("fifo:leak", "%zd bytes in use in a pool where everything has been freed", us);
        (void)used;
        mem_fifo_pool_delete(&mp);
        if (mp) sim_violation("fifo:delete", "empty pool not deleted");
    } else {
        /* the pool dies with its last block */
        blk_t *b;
        mem_pool_t *p = mp;
        sim_event("delete pool with %d blocks", nlive());
        mem_fifo_pool_delete(&mp);
        while ((b = pick(-1))) { check(b); b->live = false; mp_ifree(p, b->p); check_some(); }
        if (mp) sim_violation("fifo:delete", "pool still there after its last block was freed");
    }
}
static void fifo_steady(void)
{
    int out = 1 + rnd(40); size_t sz[6]; int na = 1 + rnd(6);
    ssize_t al, us, max1 = 0, max2 = 0;
    void *q[64]; unsigned w = 0, r = 0;
    for (int i = 0; i < na; i++) sz[i] = a_size();
    mp = mem_fifo_pool_new("sim", 0);
    for (int i = 0; i < 1500; i++) {
        q[w++ & 63] = mp_imalloc(mp, sz[i % na], 8, MEM_RAW);
        if (w - r > (unsigned)out) mp_ifree(mp, q[r++ & 63]);
        mem_fifo_pool_stats(mp, &al, &us);
        if (i < 750) { if (al > max1) max1 = al; } else if (al > max2) max2 = al;
    }
    while (r != w) mp_ifree(mp, q[r++ & 63]);
    if (max2 > max1 * 2 + 262144) sim_violation("fifo:growth", "the same work needs %zd bytes then %zd", max1, max2);
    mem_fifo_pool_delete(&mp);
    sim_probe("fifo-steady");
}

/* }}} */
/* {{{ stack */

static void stack_run(void)
{
    int nops = 10 + rnd(rnd(3) ? 60 : 400), depth = 0;
    const void *ck[64];
    bool own = profile == 4 || rnd(4) != 0, big = rnd(4) == 1;
    live0 = sim_heap_live();
    mp = own ? mem_stack_new("sim", profile == 4 || rnd(2) ? 4096 : 65536) : t_pool();
    if (profile == 4) { mem_stack_push(mp); for (int k = 0; k < 4000; k++) mp_imalloc(mp, 1, 1, MEM_RAW); mem_stack_pop(mp); }   /* a small mean size, hence small blocks */
    for (int i = 0; i < nops && !sim_exhausted(ST_OPS); i++) {
        switch (rnd(10)) {
          case 0: case 1:
            if (depth < 60) { ck[depth++] = mem_stack_push(mp); sim_event("push -> depth %d", depth); }
            break;
          case 2: case 3:
            if (depth) {
                sim_event("pop depth %d", depth);
                frame_verify(depth);
                const void *c = mem_stack_pop(mp);
                if (c != ck[--depth]) sim_violation("stack:pop", "pop did not return the frame of the matching push");
            }
            break;
          case 4: case 5: case 6: case 7:
            if (!depth) break;
            if (big && rnd(3) == 0) {
                blk_t *b = slot();
                if (!b) break;
                size_t n = 300000 + rnd(1000000);
                b->frame = depth; b->al = 8;
                born(b, mp_imalloc(mp, n, 8, MEM_RAW), n, 8, false, 0);
                fill(b);
                break;
            }
            do_alloc(depth, 64);
            break;
          case 8: if (depth) do_realloc(depth, 8, false); break;
          case 9: sim_now_ns += rnd(2) ? 61 * SIM_S : SIM_MS; break;
        }
        check_some();
    }
    while (depth) { frame_verify(depth); mem_stack_pop(mp); depth--; }
    if (own) { mem_stack_delete(&mp); no_leak("stack"); }
}

/* }}} */
/* {{{ pages */

static int npg, page_cap;
ORACLE static void pg_born(blk_t *b, void *p, size_t n, bool zero, size_t kept, uint32_t id, size_t shift)
{
    if (kept) { blk_t t = *b; t.p = p; t.id = id; t.n = n; check_pages(&t, 0, kept); }
    born(b, p, n, 4096u << shift, zero, kept);
    fill_pages(b);
    npg += n - kept;
}
ORACLE static blk_t *pg_take(int who)
{
    int l[NB], n = 0;
    for (int i = 0; i < NB; i++) if (B[i].live && B[i].frame == who) l[n++] = i;
    if (!n) return NULL;
    blk_t *b = &B[l[rnd(n)]];
    check(b);
    return b;
}
/* a slot being allocated must not be taken by a sibling */
ORACLE static blk_t *pg_slot(int who)
{
    for (int i = 0; i < NB; i++) if (!B[i].live && !B[i].frame) { memset(&B[i], 0, sizeof(B[i])); B[i].frame = who; return &B[i]; }
    return NULL;
}
ORACLE static void pg_drop(blk_t *b) { b->live = false; npg -= b->n; }
ORACLE static void pg_cut(blk_t *b, size_t head, size_t tail)
{
    b->p += head * 4096; b->n -= head + tail; npg -= head + tail;
    if (head) { b->id = ++ids; fill_pages(b); }
}
ORACLE static size_t pg_count(void) { if (huge) return 4096; switch (rnd(6)) { case 0: case 1: return 1; case 2: return 1 + rnd(4); case 3: return 1 + rnd(40); case 4: return 1 + rnd(300); default: return rnd(4) ? 1 + rnd(70) : 1 + rnd(3000); } }
static void *page_user(void *arg)
{
    int who = 1 + (int)(intptr_t)arg, nops = huge ? 2 + rnd(7) : 4 + rnd(rnd(3) ? 12 : 60);
    for (int i = 0; i < nops && !sim_exhausted(ST_OPS); i++) {
        blk_t *b;
        switch (rnd(8)) {
          case 0: case 1: case 2: {
            size_t n = pg_count(), sh = rnd(5) == 1 ? rnd(5) : 0;
            bool zero = !huge && rnd(2);
            if (npg + (int)n > page_cap || !(b = pg_slot(who))) break;
            uint32_t seg = 0;
            void *p = zero ? qpage_alloc_align(n, sh, &seg) : qpage_allocraw_align(n, sh, &seg);
            sim_event("t%d pages %zu shift %zu%s -> %d at %p", who, n, sh, zero ? " zero" : "", (int)(b - B), p);
            b->seg = seg;
            pg_born(b, p, n, zero, 0, 0, sh);
            break;
          }
          case 3: case 4:
            if (!(b = pg_take(who))) break;
            if (!huge && b->n > 1 && rnd(2)) {
                /* part of a block: its head or its tail */
                size_t k = 1 + rnd(b->n - 1);
                uint8_t *p = b->p;
                if (rnd(2)) {
                    pg_cut(b, 0, k);
                    sim_event("t%d free the last %zu pages of %d", who, k, (int)(b - B));
                    qpage_free_n(p + b->n * 4096, k, rnd(2) ? b->seg : -1u);
                } else {
                    pg_cut(b, k, 0);
                    sim_event("t%d free the first %zu pages of %d", who, k, (int)(b - B));
                    qpage_free_n(p, k, rnd(2) ? b->seg : -1u);
                }
                break;
            }
            pg_drop(b);
            sim_event("t%d free pages %d", who, (int)(b - B));
            qpage_free_n(b->p, b->n, rnd(2) ? b->seg : -1u);
            b->frame = 0;
            break;
          case 5: case 6: {
            if (!(b = pg_take(who))) break;
            if (huge) break;
            size_t n = rnd(2) ? 1 + rnd(b->n) : b->n + 1 + rnd(rnd(2) ? 8 : 200), old = b->n;
            bool zero = rnd(2), move = rnd(4) != 1;
            uint32_t seg = b->seg, nseg = seg, id = b->id;
            if (npg + (int)n > page_cap) break;
            sim_event("t%d remap %d: %zu -> %zu%s%s", who, (int)(b - B), old, n, zero ? " zero" : "", move ? "" : " in place");
            uint8_t *was = b->p;
            /* what stays ours meanwhile is the common part, at its old place */
            if (n < old) pg_cut(b, 0, old - n);
            else b->live = false;
            void *p = zero ? qpage_remap(was, old, rnd(2) ? seg : -1u, n, &nseg, move) : qpage_remap_raw(was, old, rnd(2) ? seg : -1u, n, &nseg, move);
            if (n <= old) {
                if (p != was) sim_violation("page:remap", "shrinking moved the block");
                b->live = true;
                check(b);
            } else if (!p) {
                if (move) sim_violation("page:null", "remap failed");
                b->live = true;
                check(b);
            } else {
                if (!move && p != was) sim_violation("page:remap", "remap moved a block it may not move");
                b->seg = nseg;
                pg_born(b, p, n, zero, old, id, 0);
            }
            break;
          }
          case 7: {
            if (huge) break;
            blk_t *s = pg_take(who);
            uint32_t seg = 0;
            if (!s || npg + (int)s->n > page_cap || !(b = pg_slot(who))) break;
            void *p = qpage_dup_n(s->p, s->n, &seg);
            sim_event("t%d dup %d -> %d at %p", who, (int)(s - B), (int)(b - B), p);
            b->seg = seg;
            npg += s->n;
            pg_born(b, p, s->n, false, s->n, s->id, 0);
            break;
          }
        }
        check_some();
    }
    return NULL;
}

/* }}} */

void harness_init(void) { MODULE_REQUIRE(qpage); }
void harness_run(void)
{
    pthread_t t[8];
    int n = 0;
    mode = sim_choose(ST_CFG, 4);
    if (0 && getenv("MEM_MODE")) mode = atoi(getenv("MEM_MODE"));
    bool steady = sim_choose(ST_CFG, 20) == 19;
    sim_max_steps = 3000000;
    switch (mode) {
      case 0:
        live0 = sim_heap_live();
        if (steady) { ring_steady(); break; }
        mp = mem_ring_new("sim", 4096 << sim_choose(ST_CFG, 2) * sim_choose(ST_CFG, 4));
        n = sim_choose(ST_CFG, 4);
        profile = sim_choose(ST_CFG, 5);
        if (profile >= 3) {
            /* a small mean size, hence small blocks */
            profile = 3;
            mem_ring_newframe(mp);
            for (int k = 0; k < 5000; k++) mp_imalloc(mp, 1, 1, MEM_RAW);
            mem_ring_release(mem_ring_seal(mp));
        }
        if (n) sim_sched_config(0);
        for (int i = 0; i < n; i++) pthread_create(&t[i], NULL, releaser, NULL);
        ring_owner((void *)(intptr_t)n);
        for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
        if (n) sim_sched_off();
        while (live_frames) release_one();
        if (!pool_gone) mem_ring_delete(&mp);
        no_leak("ring");
        break;
      case 1: live0 = sim_heap_live(); profile = sim_choose(ST_CFG, 3) == 2 ? 4 : 0; if (steady) fifo_steady(); else fifo_run(); no_leak("fifo"); break;
      case 2: profile = sim_choose(ST_CFG, 3) == 2 ? 4 : 0; stack_run(); break;
      case 3:
        n = 1 + sim_choose(ST_CFG, 3);
        page_cap = sim_choose(ST_CFG, 2) ? 6000 : 20000;
        if (n > 1 && sim_choose(ST_CFG, 12) == 11) {
            /* many arenas */
            huge = true; page_cap = 1 << 20;
            for (int i = 0, k = 19 + sim_choose(ST_CFG, 6); i < k; i++) {
                uint32_t seg; blk_t *b = pg_slot(1 + i % n);
                void *p = qpage_allocraw_n(4096, &seg); b->seg = seg; pg_born(b, p, 4096, false, 0, 0, 0);
            }
        }
        if (n > 1) sim_sched_config(0);
        for (int i = 1; i < n; i++) pthread_create(&t[i], NULL, page_user, (void *)(intptr_t)i);
        page_user((void *)(intptr_t)0);
        for (int i = 1; i < n; i++) pthread_join(t[i], NULL);
        if (n > 1) sim_sched_off();
        for (int i = 0; i < NB; i++) if (B[i].live) { check(&B[i]); B[i].live = false; qpage_free_n(B[i].p, B[i].n, B[i].seg); }
        break;
    }
    sim_state(hist);
}
