/* C17 */
#define LN 400
#define LF 200
#define LMSG(b, m)  l_msg(b, m)
enum { LM_NONE, LM_MAYBE, LM_OK, LM_FLUSHED };     /* what the API said about a message */
typedef struct { uint32_t id, len; int file; int st; } lmsg_t;
typedef struct { char name[48]; time_t stamp; bool dirty, deleted, created; } lfile_t;
static struct lm_t {
    int      n, nf, cur;             /* cur: index of the current file or -1 */
    lmsg_t   m[LN];
    lfile_t  f[LF];
    bool     bin, compress, utc, nosym, uselast, back, crashed;
    int      max_size, max_files, max_total, delay, age;
    int      left;
    bool     used;                   /* a directory of an earlier life */
    uint64_t unlink_failed, fork_failed;
} *L;
static log_file_t *llog;
static bool l_in_open;
static struct { int pid; uint64_t ts; } lkid[64];
static int lnkid, lforks_fail;

static uint32_t l_msg(byte *b, lmsg_t *m)
{
    int p = sprintf((char *)b, "<%06u|%07u|", m->id, m->len);
    for (uint32_t i = 0; i < m->len; i++) b[p + i] = 'a' + (m->id * 7 + i * (1 + m->id % 5)) % 26;
    b[p + m->len] = '>'; b[p + m->len + 1] = '\n';
    return p + m->len + 2;
}
#define LHDR 16
static void l_name(char *out, time_t t)
{
    struct tm tm;
    gmtime_r(&t, &tm);
    sprintf(out, "app_" LOG_FILE_DATE_FMT ".log", LOG_FILE_DATE_FMT_ARG(tm));
}
static int l_file(const char *name)
{
    for (int i = L->nf; i-- > 0; ) if (!strcmp(L->f[i].name, name) && !L->f[i].deleted) return i;
    return -1;
}
static int l_file_at(time_t t)
{
    char n[48];
    l_name(n, t);
    int i = l_file(n);
    if (i < 0) {
        if (L->nf == LF) sim_end_run();
        i = L->nf++;
        p_clear(&L->f[i], 1);
        strcpy(L->f[i].name, n); L->f[i].stamp = t;
    }
    return i;
}
static bool l_exists(int i, bool *gz)
{
    char g[64];
    sprintf(g, "%s.gz", L->f[i].name);
    if (gz) *gz = false;
    if (simfs_size(L->f[i].name) >= 0) return true;
    if (simfs_size(g) >= 0) { if (gz) *gz = true; return true; }
    return false;
}
/* the content of a file is that of the messages written in it */
static void l_check_file(int fi, bool closed, const char *when)
{
    static byte buf[40 << 20], ref[1 << 20];
    lfile_t *f = &L->f[fi];
    char path[64];
    bool gz, off = simfs->off;
    int64_t n = 0;
    int cnt = 0;
    struct { int64_t at, len; } part[LN];

    if (!l_exists(fi, &gz)) V("log:gone", "%s: %s does not exist", when, f->name);
    sprintf(path, "%s%s", f->name, gz ? ".gz" : "");
    simfs->off = true;
    if (L->bin) {
        file_bin_t *b = file_bin_open(LSTR(path));
        if (!b && simfs_size(path) >= 20) V("log:bin", "%s: %s cannot be read", when, path);
        while (b) {
            lstr_t r = file_bin_get_next_record(b);
            if (!r.s) break;
            if (n + r.len > ssizeof(buf) || cnt == LN) break;
            memcpy(buf + n, r.s, r.len);
            part[cnt].at = n; part[cnt++].len = r.len; n += r.len;
        }
        IGNORE(file_bin_close(&b));
    } else {
        int fd = open(path, O_RDONLY);
        for (ssize_t r; (r = pread(fd, buf + n, sizeof(buf) - n, n)) > 0; n += r) ;
        close(fd);
    }
    simfs->off = off;
    /* walk */
    int64_t p = 0;
    int mi = 0;
    for (; mi < L->n; mi++) {
        lmsg_t *m = &L->m[mi];
        if (m->file != fi || m->st == LM_NONE) continue;
        int64_t l = l_msg(ref, m);
        if (p + l <= n && !memcmp(buf + p, ref, l)) { p += l; continue; }
        if (f->dirty) {
            /* after an error: look further for it */
            byte *x = p < n ? memmem(buf + p, n - p, ref, l) : NULL;
            if (x) { p = x - buf + l; continue; }
            if (m->st == LM_FLUSHED) V("log:lost", "%s: %s: message %u was flushed and is not there", when, f->name, m->id);
            continue;
        }
        if (m->st == LM_MAYBE) continue;
        if (!closed && m->st != LM_FLUSHED && p + l > n && !memcmp(buf + p, ref, n - p)) {
            /* the end of the current file may still be buffered */
            p = n;
            for (mi++; mi < L->n; mi++)
                if (L->m[mi].file == fi && L->m[mi].st == LM_FLUSHED) V("log:lost", "%s: %s: message %u was flushed and is not there", when, f->name, L->m[mi].id);
            break;
        }
        V("log:content", "%s: %s: message %u (%u bytes) is not at %jd of %jd", when, f->name, m->id, m->len, (intmax_t)p, (intmax_t)n);
    }
    if (p < n && !f->dirty) V("log:extra", "%s: %s has %jd bytes, %jd were written", when, f->name, (intmax_t)n, (intmax_t)p);
}
static int64_t l_size(int i)
{
    char g[64];
    int64_t n = simfs_size(L->f[i].name);
    sprintf(g, "%s.gz", L->f[i].name);
    return n >= 0 ? n : simfs_size(g);
}
static void l_on_event(log_file_t *log, enum log_file_event ev, const char *path, void *priv)
{
    char name[64];
    int i;
    static const char *names[] = { "create", "close", "delete", "rotate" };
    sim_event("event %s %s", names[ev], path);
    snprintf(name, sizeof(name), "%s", path);
    switch (ev) {
      case LOG_FILE_CREATE:
        i = l_file(name);
        if (i >= 0 && L->f[i].created && L->back && L->compress) sim_end_run();      /* name used again while compressed */
        if (i >= 0 && L->f[i].created) V("log:create", "%s created twice", name);
        i = l_file_at(log->open_date);
        if (strcmp(L->f[i].name, name)) V("log:create", "created %s instead of %s", name, L->f[i].name);
        L->f[i].created = true;
        L->cur = i;
        break;
      case LOG_FILE_DELETE: {
        int len = strlen(name), nfiles = 0;
        int64_t tot = 0;
        bool gz = len > 3 && !strcmp(name + len - 3, ".gz"), older = false, why = false;
        if (gz) name[len - 3] = 0;
        i = l_file(name);
        if (i < 0) V("log:delete", "deleted %s, which is none of ours", name);
        if (log->open_date == L->f[i].stamp) V("log:delete-current", "the current file %s was deleted", name);
        if (simfs_size(path) >= 0) V("log:delete", "%s was not deleted", path);
        if (!gz && !L->back) for (int k = 0; k < lnkid; k++)
            if (lkid[k].ts == (uint64_t)L->f[i].stamp) V("log:delete-gzip", "%s was deleted while gzip works on it", name);
        if (!gz && l_exists(i, NULL)) break;     /* the compressed one stays */
        L->f[i].deleted = true;
        if (L->back) break;
        for (int k = 0; k < L->nf; k++) {
            if (L->f[k].deleted || !l_exists(k, NULL)) continue;
            nfiles++; tot += l_size(k);
            if (L->f[k].stamp < L->f[i].stamp) older = true;
        }
        if (older && !L->compress && !L->unlink_failed && simfs->unlink_failed == 0) V("log:delete-order", "%s was deleted, older files stay", name);
        if (log->max_files && nfiles + 1 > log->max_files) why = true;
        if (log->max_file_age && L->f[i].stamp < lp_getsec() - log->max_file_age - log->rotate_delay) why = true;
        if (log->max_total_size) why = true;     /* see l_check_limits */
        if (!why) V("log:delete-early", "%s was deleted, %d other files, %jd s old", name, nfiles, (intmax_t)(lp_getsec() - L->f[i].stamp));
        break;
      }
      case LOG_FILE_ROTATE:
        i = l_file_at(log->open_date);
        if (strcmp(L->f[i].name, name)) V("log:rotate", "rotated %s instead of %s", name, L->f[i].name);
        if (!L->f[i].dirty) for (int k = 0; k < L->n; k++) if (L->m[k].file == i && L->m[k].st == LM_OK) L->m[k].st = LM_FLUSHED;
        l_check_file(i, true, "at rotation");
        break;
      default: break;
    }
}
/* the limits, just after a rotation or an opening */
static void l_check_limits(void)
{
    int nfiles = 0, waiting = 0;
    time_t oldest = 0;
    bool oldest_gz = true;
    int64_t tot = 0;
    if (L->back || simfs->unlink_failed || L->fork_failed) return;
    for (int k = 0; k < L->nf; k++) {
        bool gz;
        if (L->f[k].deleted || !l_exists(k, &gz)) continue;
        if (L->compress && !gz && k != L->cur) {
            bool on = false;
            for (int j = 0; j < lnkid; j++) on |= lkid[j].ts == (uint64_t)L->f[k].stamp;
            if (!on) V("log:not-compressed", "%s is closed and nothing compresses it", L->f[k].name);
        }
        nfiles++;
        if (!oldest || L->f[k].stamp < oldest) { oldest = L->f[k].stamp; oldest_gz = gz; }
        if (k == L->cur) continue;
        if (L->compress && !gz) waiting++;
        else tot += l_size(k);
        if (L->age && L->f[k].stamp < lp_getsec() - L->age - L->delay && !L->compress)
            V("log:age", "%s is %jd s old and is still there", L->f[k].name, (intmax_t)(lp_getsec() - L->f[k].stamp));
    }
    if (L->max_files && nfiles > MAX(L->max_files, 1) && (!L->compress || (oldest_gz && !L->max_total))) V("log:max-files", "%d files, at most %d expected", nfiles, L->max_files);
    if (L->max_total && tot > (int64_t)L->max_total << 20) V("log:max-total", "%jd bytes, at most %d MB expected", (intmax_t)tot, L->max_total);
}
/* {{{ gzip, run by hand */

pid_t __wrap_ifork(void)
{
    if (lforks_fail && sim_chance(ST_FAULT, lforks_fail, 1000)) { sim_fault("fork-failure"); L->fork_failed++; errno = EAGAIN; return -1; }
    int pid = sim_child_spawn();
    uint64_t ts = 0;
    qh_for_each_key(u64, k, &llog->files_being_compressed) {
        bool known = false;
        for (int i = 0; i < lnkid; i++) known |= lkid[i].ts == k;
        if (!known) ts = k;
    }
    lkid[lnkid].pid = pid; lkid[lnkid++].ts = ts;
    char n[48];
    l_name(n, ts);
    sim_event("gzip %s: pid %d", n, pid);
    if (L->cur >= 0 && L->f[L->cur].stamp == (time_t)ts && llog->open_date == (time_t)ts) V("log:gzip-current", "the current file %s gets compressed", n);
    return pid;
}
static void l_gzip_done(int k)
{
    char n[48], g[64];
    int st = 0;
    l_name(n, lkid[k].ts);
    sprintf(g, "%s.gz", n);
    switch (rnd(6)) {
      case 1: st = 9; sim_fault("gzip-killed"); break;
      case 2: st = 1 << 8; sim_fault("gzip-failed"); break;
      default: simfs->off = true; rename(n, g); simfs->off = false; break;
    }
    sim_event("gzip %s ends: %x", n, st);
    int pid = lkid[k].pid;
    lkid[k] = lkid[--lnkid];
    sim_child_exit(pid, st);
    sim_deliver_signals();
    el_loop_timeout(0);
}
/* }}} */
static time_t l_now(void) { return (sim_now_ns + sim_real_off_ns) / SIM_S; }
static void l_failed(int mi)
{
    /* an error was reported: what is not known to be flushed may be lost */
    if (mi >= 0) L->m[mi].st = LM_MAYBE;
    for (int k = 0; k < L->nf; k++) if (!L->f[k].deleted) {
        bool hit = k == L->cur;
        for (int i = 0; i < L->n; i++) if (L->m[i].file == k && L->m[i].st == LM_OK) hit = true;
        if (hit) L->f[k].dirty = true;
    }
}
static void l_flushed(int fi)
{
    if (fi < 0 || L->f[fi].dirty) return;
    for (int i = 0; i < L->n; i++) if (L->m[i].file == fi && L->m[i].st == LM_OK) L->m[i].st = LM_FLUSHED;
}
static int l_new_msg(byte *b, uint32_t *len, int file)
{
    lmsg_t *m = &L->m[L->n];
    m->id = L->n + 1;
    m->len = L->max_total ? (rnd(3) ? rnd(300000) : rnd(100)) : rnd(4) ? rnd(120) : rnd(5000);
    m->file = file; m->st = LM_MAYBE;
    *len = l_msg(b, m);
    return L->n++;
}
static int l_write(byte *b, uint32_t len)
{
    if (L->bin) return log_fwrite(llog, b, len);
    switch (rnd(3)) {
      case 0: return log_fwrite(llog, b, len);
      case 1: { b[len] = 0; return log_fprintf(llog, "%s", b); }
      default: {
        struct iovec v[3];
        uint32_t a = rnd(len), c = rnd(len - a);
        v[0] = MAKE_IOVEC(b, a); v[1] = MAKE_IOVEC(b + a, c); v[2] = MAKE_IOVEC(b + a + c, len - a - c);
        return log_fwritev(llog, v, 3);
      }
    }
}
static int64_t l_tell(void)
{
    if (!llog->_internal) return -1;
    return L->bin ? llog->_bin_internal->cur : file_tell(llog->_internal);
}
static void l_life(void *arg)
{
    static byte b[1 << 20];
    int flags = (L->compress ? LOG_FILE_COMPRESS : 0) | (L->utc ? LOG_FILE_UTCSTAMP : 0) | (L->nosym ? LOG_FILE_NOSYMLINK : 0) | (L->uselast ? LOG_FILE_USE_LAST : 0);
    struct timeval tv;
    int old_cur = L->cur;
    uint64_t fa;

    if (L->compress) MODULE_REQUIRE(el);
    lp_gettv(&tv);
    if (L->used && rnd(3) == 0) { flags |= LOG_FILE_FORCE_ROTATE; sim_probe("force-rotate"); }
    llog = log_file_new("app.log", flags);
    log_file_set_maxsize(llog, L->max_size);
    log_file_set_maxfiles(llog, L->max_files);
    log_file_set_maxtotalsize(llog, L->max_total);
    log_file_set_rotate_delay(llog, L->delay);
    log_file_set_max_file_age(llog, L->age);
    log_file_set_file_cb(llog, l_on_event, NULL);
    L->cur = -1;
    fa = simfs->failed;
    if (log_file_open(llog, L->bin) < 0) {
        if (fa == simfs->failed) V("log:open", "log_file_open failed without reason");
        sim_event("cannot open");
        IGNORE(log_file_close(&llog));
        return;
    }
    L->used = true;
    L->cur = l_file_at(llog->open_date);
    sim_event("open: current %s", L->f[L->cur].name);
    if (!(flags & LOG_FILE_FORCE_ROTATE) && old_cur >= 0 && !L->f[old_cur].deleted && !L->back && L->cur != old_cur && l_exists(old_cur, NULL) && !L->compress)
        V("log:reopen", "the last file %s was not continued, but %s", L->f[old_cur].name, L->f[L->cur].name);
    l_check_limits();
    while (L->left-- > 0 && L->n < LN - 8 && !sim_exhausted(ST_OPS)) {
        uint32_t o = rnd(100), len;
        time_t open_date = llog->open_date, t0, t1;
        int64_t size = l_tell();
        int res = 0, mi = -1;
        bool rot = false, check_rot = true;
        const char *what = "";

        fa = simfs->failed;
        lp_gettv(&tv);
        t0 = l_now();
        if (o < 60) {
            mi = l_new_msg(b, &len, -1);
            what = "write";
            res = l_write(b, len);
            L->m[mi].file = l_file_at(llog->open_date);
            if (res >= 0) L->m[mi].st = LM_OK;
            sim_event("write %d of %u bytes: %d", mi + 1, len, res);
        } else if (o < 68) {
            what = "flush"; check_rot = false;
            res = log_file_flush(llog);
            sim_event("flush: %d", res);
            if (res >= 0 && llog->_internal) l_flushed(l_file_at(llog->open_date));
        } else if (o < 74) {
            what = "rotate";
            res = log_file_rotate(llog);
            sim_event("rotate: %d", res);
            rot = true;
        } else if (o < 82) {
            /* transaction */
            __block int first = L->n, bad = rnd(2);
            what = "transaction"; check_rot = false;
            res = log_fwrite_transaction(llog, ^int (void) {
                for (int k = 1 + rnd(3); k > 0; k--) {
                    uint32_t l2;
                    int m2 = l_new_msg(b, &l2, l_file_at(llog->open_date));
                    if (l_write(b, l2) < 0) { bad = 2; return -1; }
                    if (rnd(4) == 0 && log_file_flush(llog) < 0) { bad = 2; return -1; }
                    L->m[m2].st = LM_OK;
                }
                return bad ? -1 : 0;
            });
            sim_event("transaction %d..%d: %d", first + 1, L->n, res);
            if (bad == 1) {
                if (res >= 0) V("log:transaction", "an aborted transaction succeeded");
                if (fa == simfs->failed) for (int k = first; k < L->n; k++) L->m[k].st = LM_NONE;
                else { for (int k = first; k < L->n; k++) L->m[k].st = LM_MAYBE; l_failed(-1); }
                res = 0;
            } else if (res < 0) for (int k = first; k < L->n; k++) L->m[k].st = LM_MAYBE;
        } else if (o < 86 && L->compress && lnkid) {
            l_gzip_done(rnd(lnkid)); check_rot = false;
        } else {
            int64_t d = rnd(6) == 0 ? rnd(200000) : rnd(3) == 0 ? rnd(5000) : rnd(4);
            check_rot = false;
            if (L->back && rnd(3) == 0) {
                d = MIN(d, 3600);
                sim_fault("clock-backwards"); sim_real_off_ns -= d * SIM_S;
            } else sim_advance_to(sim_now_ns + d * SIM_S + rnd(1000) * SIM_MS);
            sim_event("time %jd", (intmax_t)l_now());
        }
        t1 = l_now();
        if (res < 0) {
            if (fa == simfs->failed) V("log:spurious", "%s failed without reason", what);
            sim_probe("log-error");
            if (L->cur >= 0) L->f[L->cur].dirty = true;
            L->cur = llog->_internal ? l_file_at(llog->open_date) : -1;
            l_failed(mi);
            continue;
        }
        if (check_rot && size >= 0 && t0 == t1) {
            bool want = rot || (L->max_size && size >= L->max_size) || (L->delay && open_date + L->delay <= t0);
            if (open_date == t0) want = false;
            if (want != (llog->open_date != open_date)) V(want ? "log:no-rotation" : "log:needless-rotation", "%s: file of %jd bytes, %jd s old", what, (intmax_t)size, (intmax_t)(t0 - open_date));
        }
        L->cur = l_file_at(llog->open_date);
        if (llog->open_date != open_date && llog->_internal) { l_check_limits(); sim_probe("rotated"); }
        if (llog->_internal && !l_exists(L->cur, NULL)) V("log:gone", "the current file %s does not exist any more", L->f[L->cur].name);
        if (llog->_internal && !L->nosym && !simfs->failed) {
            char to[64];
            ssize_t k = readlink(L->uselast ? "app_last.log" : "app.log", to, 63);
            if (k < 0 || (to[k] = 0, strcmp(to, L->f[L->cur].name))) V("log:symlink", "the link does not point to %s", L->f[L->cur].name);
        }
        if (rnd(8) == 0 && llog->_internal) l_check_file(L->cur, false, "current");
        sim_count_op();
        sim_state(mix(L->nf) ^ mix(L->n * 64 + o));
    }
    fa = simfs->failed;
    int res = log_file_close(&llog);
    sim_event("close: %d", res);
    if (res < 0) { if (fa == simfs->failed) V("log:spurious", "close failed without reason"); l_failed(-1); }
    else l_flushed(L->cur);
    L->crashed = false;
}
static void run_log(void)
{
    static const int sizes[] = { 0, 200, 1000, 5000, 30000 };
    int lives = 1 + rnd(4);

    sim_real_off_ns = 1600000000ll * SIM_S + rnd(86400) * SIM_S;
    L = sim_shared(sizeof(*L));
    L->cur = -1;
    L->bin = rnd(4) == 0; L->utc = rnd(2); L->nosym = rnd(4) == 0; L->uselast = rnd(2);
    L->max_size = sizes[rnd(countof(sizes))];
    L->delay = rnd(2) ? 0 : 1 + rnd(rnd(2) ? 5 : 5000);
    L->max_files = rnd(2) ? 1 + rnd(6) : 0;
    L->age = rnd(3) == 0 ? 1 + rnd(10000) : 0;
    L->max_total = rnd(6) == 0;
    if (L->max_total && rnd(2)) L->max_size = 400000;
    L->compress = rnd(4) == 0;
    L->back = rnd(4) == 0;
    simfs->fsync_entries = true;
    for (int k = 0; k < lives; k++) {
        int how;
        L->left = 5 + rnd(sim_tier ? 120 : 60);
        switch (rnd(5)) {
          case 1: {
            uint32_t *kn[] = { &simfs->eio_wr, &simfs->enospc, &simfs->close_fail, &simfs->open_fail, &simfs->unlink_fail, &simfs->trunc_fail };
            for (int n = 1 + rnd(2); n > 0; n--) *kn[rnd(countof(kn))] = 20 + rnd(200);
            if (L->bin) simfs->trunc_fail = 0;
            if (rnd(3) == 0) { simfs->limited = true; simfs->space = rnd(20000); }
            if (rnd(2)) lforks_fail = 300;
            break;
          }
          case 2: simfs->crash_in = 1 + rnd(80); break;
          default: break;
        }
        if (rnd(2)) { simfs->short_wr = 100; }
        how = sim_incarnate(l_life, NULL, NULL);
        simfs->eio_wr = simfs->enospc = simfs->close_fail = simfs->open_fail = simfs->unlink_fail = simfs->trunc_fail = simfs->short_wr = simfs->eintr = simfs->crash_in = 0;
        simfs->limited = false; lforks_fail = 0; lnkid = 0;
        L->unlink_failed |= simfs->unlink_failed;
        if (how) {
            /* what was not flushed may be lost, the end may be torn */
            L->crashed = true;
            for (int i = 0; i < L->n; i++) {
                int f = L->m[i].file;
                if (L->m[i].st == LM_OK) L->m[i].st = LM_MAYBE;
                if (f >= 0 && L->m[i].st == LM_MAYBE) L->f[f].dirty = true;
            }
            if (L->cur >= 0) L->f[L->cur].dirty = true;
            if (L->nf) L->f[L->nf - 1].dirty = true;
        }
        for (int i = 0; i < L->nf; i++) {
            if (L->f[i].deleted) continue;
            if (how && !l_exists(i, NULL)) { L->f[i].deleted = true; continue; }     /* deleted just before the crash */
            bool any = false;
            for (int j = 0; j < L->n; j++) any |= L->m[j].file == i && L->m[j].st == LM_FLUSHED;
            if (!any && !l_exists(i, NULL)) continue;
            l_check_file(i, true, "at the end");
        }
        sim_advance_to(sim_now_ns + rnd(3) * SIM_S);
    }
}
