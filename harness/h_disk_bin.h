/* C15 */
#define BN 600
typedef struct { uint32_t id, len; int64_t start, end; } brec_t;
static struct bm_t {                 /* the model, survives crashes */
    int      n;                      /* records accepted by the writer */
    brec_t   r[BN];
    int      flushed, synced;        /* records covered by a successful flush / sync */
    bool     werr;                   /* the writer reported an error */
    uint32_t next_id, slot;
    int      ops, left;
    bool     v0;                     /* a file of the first version */
    /* reader following the file */
    int      rd;
} *M;
#define BPATH  "rec.bin"
static file_bin_t *bw, *br;

static const uint32_t blens[] = { 0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 16, 20, 27, 33, 60 };
static uint32_t b_len(void)
{
    if (M->v0) return 1 + rnd(rnd(3) ? 300 : 65000);
    switch (rnd(4)) {
      case 0: return blens[rnd(countof(blens))];
      case 1: return rnd(40);
      case 2: return M->slot > 4 ? rnd(MIN(3 * M->slot, 6000u)) : rnd(50);
      default: {
        /* to end just around a slot boundary */
        int64_t cur = bw ? bw->cur : 0;
        uint32_t rem = M->slot - cur % M->slot;
        int l = (int)MIN(rem, 5000u) - 4 + (int)rnd(13) - 6;
        return MAX(l, 0);
      }
    }
}
static bool b_same(lstr_t s, brec_t *r)
{
    static byte b[1 << 16];
    if (s.len != (int)r->len) return false;
    fill(b, MIN(r->len, 16), r->id);
    if (memcmp(b, s.s, MIN(r->len, 16))) return false;
    if (r->len <= 16) return true;
    fill(b, r->len, r->id);
    return !memcmp(b, s.s, r->len);
}
/* the records of a reader are exactly [from, to[ of the model */
static void b_check_all(file_bin_t *f, int from, int lo, int hi, const char *what)
{
    int i = from;
    for (;;) {
        lstr_t s = file_bin_get_next_record(f);
        if (!s.s) break;
        if (i >= lo && simfs->failed) { i++; continue; }
        if (i >= hi) V("bin:extra", "%s: record %d of %d bytes returned, %d were written", what, i, s.len, hi);
        if (!b_same(s, &M->r[i])) V("bin:content", "%s: record %d (%d bytes) is not the one written (%u bytes)", what, i, s.len, M->r[i].len);
        i++;
    }
    if (i < lo) V("bin:lost", "%s: only %d records, %d expected", what, i, lo);
    sim_count_op();
}
static void b_check_last(file_bin_t *f, int lo, int hi, const char *what)
{
    t_scope;
    qv_t(lstr) out;
    int n, asked = rnd(4) == 0 ? hi + 5 : 1 + rnd(MAX(hi, 1) + 2);
    off_t cur = f->cur;

    t_qv_init(&out, 10);
    if (t_file_bin_get_last_records(f, asked, &out) < 0) V("bin:last-error", "%s: get_last_records failed", what);
    if (f->cur != cur) V("bin:last-moved", "%s: get_last_records moved the reader", what);
    /* the number of readable records is known only up to [lo, hi] */
    n = out.len;
    if (n > asked) V("bin:last-count", "%s: %d records, %d asked", what, n, asked);
    if (lo == hi && !simfs->failed && n != MIN(asked, hi)) V("bin:last-count", "%s: %d records instead of %d (of %d)", what, n, MIN(asked, hi), hi);
    if (simfs->failed) return;
    for (int top = hi; top >= lo; top--) {
        bool ok = n == MIN(asked, top);
        for (int i = 0; ok && i < n; i++) ok = b_same(out.tab[i], &M->r[top - 1 - i]);
        if (ok) return;
    }
    V("bin:last-content", "%s: the last records are not those written", what);
}
static file_bin_t *b_open(bool may_fail)
{
    simfs->off = true;
    file_bin_t *f = file_bin_open(LSTR(BPATH));
    simfs->off = false;
    if (!f && !may_fail) V("bin:open", "cannot open the file");
    return f;
}
static void b_reader_close(void)
{
    simfs->off = true;
    IGNORE(file_bin_close(&br));
    simfs->off = false;
}
/* one incarnation of the writer */
static void b_writer(void *arg)
{
    bool clean = *(bool *)arg;
    static byte buf[1 << 16];
    bool trunc = M->n == 0 && rnd(2);

    bw = file_bin_create(LSTR(BPATH), M->slot, trunc);
    if (!bw) {
        if (!simfs->failed) V("bin:create", "cannot create the file");
        M->werr = true;
        return;
    }
    while (M->left-- > 0 && M->n < BN - 1 && !M->werr) {
        uint32_t o = rnd(100);
        int res;
        if (sim_exhausted(ST_OPS)) break;
        if (o < 62) {
            brec_t *r = &M->r[M->n];
            r->id = ++M->next_id; r->len = MIN(b_len(), sizeof(buf)); r->start = bw->cur;
            fill(buf, r->len, r->id);
            sim_event("put %u: %u bytes at %jd", r->id, r->len, (intmax_t)bw->cur);
            M->n++;                              /* may be found from now on */
            res = file_bin_put_record(bw, buf, r->len);
            r->end = bw->cur;
            if (res < 0) { M->werr = true; if (!simfs->failed) V("bin:put-error", "put failed on a healthy disk"); }
        } else if (o < 72) {
            res = file_bin_flush(bw);
            if (res < 0) { M->werr = true; if (!simfs->failed) V("bin:flush-error", "flush failed on a healthy disk"); }
            else M->flushed = M->n;
        } else if (o < 80) {
            res = file_bin_sync(bw);
            if (res < 0) { M->werr = true; if (!simfs->failed) V("bin:sync-error", "sync failed on a healthy disk"); }
            else M->flushed = M->synced = M->n;
        } else if (o < 84 && clean && M->n) {
            /* forget the last records */
            int k = M->n - 1 - rnd(MIN(M->n, 4));
            if (M->r[k].start && k >= M->rd && !M->v0) {
                sim_event("truncate to record %d", k);
                M->flushed = MIN(M->flushed, k); M->synced = MIN(M->synced, k);
                if (file_bin_truncate(bw, M->r[k].start) < 0) { M->werr = true; if (!simfs->failed) V("bin:truncate-error", "truncate failed on a healthy disk"); }
                else M->n = k;
            }
        } else if (o < 94) {
            /* a reader follows */
            if (!br) {
                if (simfs_size(BPATH) >= 0 && (br = b_open(true))) M->rd = 0;
            } else {
                simfs->off = true;
                if (file_bin_refresh(br) < 0 && simfs_size(BPATH) >= 20) V("bin:refresh", "refresh failed");
                simfs->off = false;
            }
            if (br) {
                for (int k = 1 + rnd(12); k-- > 0; ) {
                    lstr_t s = file_bin_get_next_record(br);
                    if (!s.s) {
                        if (M->rd < M->flushed) V("bin:follow-lost", "the reader stops at record %d, %d were flushed", M->rd, M->flushed);
                        break;
                    }
                    if (M->rd >= M->flushed && simfs->failed) { b_reader_close(); break; }
                    if (M->rd >= M->n) V("bin:follow-extra", "the reader got record %d of %d bytes, %d were written", M->rd, s.len, M->n);
                    if (!b_same(s, &M->r[M->rd])) V("bin:follow-content", "the reader got %d bytes for record %d (%u bytes)", s.len, M->rd, M->r[M->rd].len);
                    M->rd++;
                }
            }
        } else if (o < 97) {
            if (simfs_size(BPATH) >= 20) {
                file_bin_t *f = b_open(false);
                if (rnd(2)) b_check_all(f, 0, M->flushed, M->n, "while written");
                else b_check_last(f, M->flushed, M->n, "while written");
                simfs->off = true; IGNORE(file_bin_close(&f)); simfs->off = false;
            }
        } else if (clean) {
            sim_event("close and reopen");
            if (file_bin_close(&bw) < 0) { M->werr = true; if (!simfs->failed) V("bin:close-error", "close failed on a healthy disk"); break; }
            M->flushed = M->n;
            bw = file_bin_create(LSTR(BPATH), M->n == 0 || rnd(2) ? M->slot : 0, false);
            if (!bw) { M->werr = true; if (!simfs->failed) V("bin:create", "cannot reopen the file"); break; }
        }
        sim_count_op();
    }
    if (bw) {
        if (file_bin_close(&bw) < 0) { M->werr = true; if (!simfs->failed) V("bin:close-error", "close failed on a healthy disk"); }
        else if (!M->werr) M->flushed = M->n;
    }
}
/* damaged files: never a crash, always an end, and whole slots survive */
static byte bbad[70000];             /* per slot: 1 damaged, 2 its header too */
static void b_damage(int64_t off, int64_t len)
{
    for (int64_t s = off / M->slot; s <= (off + len - 1) / M->slot; s++) {
        int64_t h = s ? s * M->slot : 20;
        if (bbad[s] < 1) bbad[s] = 1;
        if (off < h + 4 && off + len > h) bbad[s] = 2;
    }
}
static void b_check_damaged(int64_t size, int lo)
{
    int i = 0, k = 0;
    file_bin_t *f = b_open(true);
    static byte lost[BN];

    if (!f) return;
    p_clear(lost, countof(lost));
    for (;;) {
        lstr_t s = file_bin_get_next_record(f);
        if (!s.s) break;
        if (++k > size) V("bin:endless", "more records than bytes");
        if (k <= lo && !b_same(s, &M->r[k - 1])) V("bin:content", "record %d, before the damage, is not the one written", k - 1);
        /* which one is it ? garbage is possible in damaged slots only */
        if (s.len < 8) continue;
        for (int j = i; j < M->n; j++) {
            if (b_same(s, &M->r[j])) {
                for (int x = i; x < j; x++) lost[x] = 1;
                i = j + 1;
                break;
            }
        }
    }
    if (k < lo) V("bin:lost", "only %d records, %d before the damage", k, lo);
    for (int x = i; x < M->n; x++) lost[x] = 1;
    for (int x = 0; x < M->n; x++) {
        bool hurt = false;
        int64_t st = M->r[x].start, rem = M->slot - st % M->slot;
        if (!lost[x] || M->r[x].len < 8) continue;
        if (rem < 4) st += rem;
        /* a damaged length is noticed at the header of the next slot, and
         * reading resumes at the one after; a damaged slot header may lead
         * anywhere */
        int64_t from = st / M->slot, to = (M->r[x].end - 1) / M->slot;
        for (int64_t s = 0; s <= to; s++) hurt |= bbad[s] == 2 || (bbad[s] && s >= from - 2);
        if (!hurt) V("bin:undamaged-lost", "record %d [%jd, %jd[ lies in undamaged slots and was not returned", x,
                     (intmax_t)M->r[x].start, (intmax_t)M->r[x].end);
    }
    /* from the end: no crash, it ends */
    {
        t_scope;
        qv_t(lstr) out;
        t_qv_init(&out, 10);
        IGNORE(t_file_bin_get_last_records(f, 1 + rnd(50), &out));
    }
    simfs->off = true; IGNORE(file_bin_close(&f)); simfs->off = false;
}
static void b_corrupt(void *arg)
{
    int fd, nd = 1 + rnd(4), i, lo = M->n;
    int64_t size = simfs_size(BPATH);

    if (size < 40) return;
    simfs->off = true;
    fd = open(BPATH, O_RDWR);
    if (rnd(8) == 0) {
        /* the slot size itself: nothing can be found, nothing must break */
        uint32_t l = rnd(2) ? rnd(40) : sim_choose(ST_DATA, 1 << 30);
        IGNORE(pwrite(fd, &l, 4, 16));
        sim_event("slot size set to %u", l);
        sim_fault("corrupted-header");
        p_clear(bbad, 1); memset(bbad, 2, sizeof(bbad));
        nd = lo = 0;
    }
    while (nd-- > 0) {
        int64_t off = 20 + rnd(size - 20), len = 1 + rnd(rnd(2) ? 6 : 200);
        byte b[256];
        len = MIN(len, size - off);
        switch (rnd(3)) {
          case 0: memset(b, 0, len); break;
          case 1: memset(b, 0xff, len); break;
          default: for (i = 0; i < len; i++) b[i] = sim_choose(ST_DATA, 256);
        }
        if (len >= 4 && rnd(2)) { uint32_t l = rnd(300); memcpy(b, &l, 4); }
        IGNORE(pwrite(fd, b, len, off));
        sim_fault("corrupted-bytes");
        sim_event("corrupt [%jd, %jd[", (intmax_t)off, (intmax_t)(off + len));
        b_damage(off, len);
        for (int x = 0; x < lo; x++) if (M->r[x].end > off) lo = x;
    }
    close(fd);
    simfs->off = false;
    b_check_damaged(size, lo);
}
/* the writer comes back after a crash and goes on after the torn record */
static void b_resume(void *arg)
{
    int lo = *(int *)arg, n0 = M->n;
    int64_t size = simfs_size(BPATH);
    static byte buf[1 << 16];

    if (size < 20 || M->slot == FILE_BIN_DEFAULT_SLOT_SIZE) return;
    bw = file_bin_create(LSTR(BPATH), M->slot, false);
    if (!bw) V("bin:create", "cannot reopen the file");
    /* the records after the durable ones may be there or not */
    M->n = lo;
    sim_event("resume at %jd, slot size %u, %d records for sure", (intmax_t)bw->cur, M->slot, lo);
    b_damage(MAX(size - 1, 20), 2);
    while (M->n < BN - 1 && M->n < n0 + 60) {
        brec_t *r = &M->r[M->n];
        r->id = ++M->next_id; r->len = MIN(b_len(), sizeof(buf)); r->start = bw->cur;
        fill(buf, r->len, r->id);
        if (file_bin_put_record(bw, buf, r->len) < 0) V("bin:put-error", "put failed on a healthy disk");
        sim_event("put %u: %u bytes at %jd", r->id, r->len, (intmax_t)r->start);
        r->end = bw->cur;
        M->n++;
    }
    if (file_bin_close(&bw) < 0) V("bin:close-error", "close failed on a healthy disk");
    b_check_damaged(simfs_size(BPATH), lo);
}
static void b_verify(void *arg)
{
    int lo = *(int *)arg;
    int64_t size = simfs_size(BPATH);
    file_bin_t *f;
    if (size < 20) {
        if (lo) V("bin:lost-file", "%d durable records, the file has %jd bytes", lo, (intmax_t)size);
        if (size < 0) return;
    }
    f = b_open(size > 0 && size < 20);
    if (!f) return;
    b_check_all(f, 0, lo, M->n, "after the end");
    b_check_last(f, lo, M->n, "after the end");
    if (rnd(4) == 0) {
        /* start from any slot */
        int64_t s = rnd(size / MAX(f->slot_size, 1u) + 1) * f->slot_size;
        if (_file_bin_seek(f, MIN(s, size)) < 0) V("bin:seek", "seek failed");
        int first = -1;
        for (int i = 0; i < M->n; i++) {
            int64_t st = M->r[i].start, rem = M->slot - st % M->slot;
            if (rem < 4 || (M->v0 && rem < M->r[i].len + 4)) st += rem;              /* padding: it starts in the next slot */
            if (first < 0 && st >= s) first = i;
        }
        if (first < 0) first = M->n;
        b_check_all(f, first, MAX(first, lo), M->n, "from a slot");
    }
    simfs->off = true; IGNORE(file_bin_close(&f));
}
static void run_bin(void)
{
    static const uint32_t slots[] = { 32, 28, 30, 40, 64, 100, 200, 512, 1000, 4096, 20000, 0 };
    bool clean = true;
    int lo, how = 0, ways = rnd(8);

    M = sim_shared(sizeof(*M));
    M->slot = slots[rnd(countof(slots))];
    if (!M->slot) M->slot = FILE_BIN_DEFAULT_SLOT_SIZE;
    M->left = 10 + rnd(sim_tier ? 400 : 160);
    simfs->fsync_entries = true;
    if (ways == 1 || ways == 2) {
        /* errors: once the writer got one nothing is promised but what was
         * flushed before */
        uint32_t *k[] = { &simfs->eio_wr, &simfs->enospc, &simfs->eio_sync, &simfs->trunc_fail, &simfs->close_fail };
        *k[rnd(countof(k))] = 30;
        if (rnd(2)) { simfs->limited = true; simfs->space = rnd(4000); }
    }
    if (rnd(3) == 0) simfs->short_wr = 200;
    if (ways >= 3 && ways <= 6) { simfs->crash_in = 1 + rnd(60); clean = rnd(2); }
    if (rnd(12) == 5) {
        /* written by an older release: no header, records within slots */
        byte b[64];
        le32_t l = cpu_to_le32(sizeof(b));
        simfs->off = true;
        int fd = open(BPATH, O_WRONLY | O_CREAT, 0644);
        M->v0 = true; M->slot = FILE_BIN_DEFAULT_SLOT_SIZE;
        M->r[0] = (brec_t){ .id = ++M->next_id, .len = sizeof(b), .end = 68 };
        fill(b, sizeof(b), M->r[0].id);
        IGNORE(write(fd, &l, 4)); IGNORE(write(fd, b, sizeof(b)));
        M->n = M->flushed = 1;
        fsync(fd); M->synced = 1;
        close(fd);
        simfs->off = false;
    }
    how = sim_incarnate(b_writer, &clean, NULL);
    simfs->crash_in = 0;
    simfs->limited = false;
    simfs->eio_wr = simfs->enospc = simfs->eio_sync = simfs->trunc_fail = simfs->close_fail = simfs->short_wr = 0;
    lo = M->flushed;
    sim_event("writer %s: %d records, %d flushed, %d synced", how ? "crashed" : "ended", M->n, M->flushed, M->synced);
    if (how && rnd(2)) {
        /* the machine stops: what was not synced may be cut anywhere */
        sim_fault("power-loss");
        simfs_power_loss(SIMFS_PREFIX | SIMFS_KEEP);
        lo = M->synced;
    }
    sim_incarnate(b_verify, &lo, NULL);
    if (how && rnd(2)) sim_incarnate(b_resume, &lo, NULL);
    if (rnd(3) == 0 && !how && !M->werr) sim_incarnate(b_corrupt, NULL, NULL);
    sim_state(mix(M->n) ^ mix(M->slot) ^ mix(simfs->calls));
}
