/* C18: output buffers */
#include <lib-common/str-outbuf.h>
#include <sanitizer/asan_interface.h>

#define OMAX  (3 << 20)
#define ONB   3
typedef struct { outbuf_t ob, *dyn; byte *b; int64_t at, n; } om_t;   /* b[at..n]: queued, not delivered */
static om_t om[ONB];
static byte osrc[1 << 18];                 /* memory that outlives the buffers */
static struct { const void *p; bool map; } oowned[4096];
static int oownedn;
static int ofd, osunk;                     /* the descriptor written to, what it got */
static uint32_t oid;
#define OB(m)   ((m)->dyn ?: &(m)->ob)
static void om_put(om_t *m, const void *d, int64_t n)
{
    if (n <= 0) return;
    memcpy(m->b + m->n, d, n); m->n += n;
}
static void om_check(om_t *m, const char *what)
{
    ob_check_invariants(OB(m));
    if (OB(m)->length != m->n - m->at)
        V("ob:length", "after %s %d bytes are queued instead of %jd", what, OB(m)->length, (intmax_t)(m->n - m->at));
    if (ob_is_empty(OB(m)) != (m->n == m->at)) V("ob:empty", "after %s ob_is_empty() is wrong", what);
}
static uint32_t o_len(void)
{
    switch (rnd(8)) {
      case 0: return rnd(3) ? 1 : 0;
      case 1: case 2: case 3: return 1 + rnd(200);
      case 4: return OUTBUF_CHUNK_MIN_SIZE - 2 + rnd(5);
      case 5: return rnd(5000);
      case 6: return OUTBUF_CHUNK_MIN_SIZE + rnd(20000);
      default: return rnd(90000);
    }
}
/* what was delivered: d[0..n) follows what was delivered before */
static void om_got(om_t *m, const byte *d, int64_t n, const char *what)
{
    if (n > m->n - m->at) V("ob:extra", "%s delivered %jd bytes, only %jd were queued", what, (intmax_t)n, (intmax_t)(m->n - m->at));
    for (int64_t i = 0; i < n; i++)
        if (d[i] != m->b[m->at + i])
            V("ob:content", "%s: the byte %jd of the stream is not the one that was queued", what, (intmax_t)(m->at + i));
    m->at += n;
}
/* {{{ writing */

static struct { om_t *m; byte *b; int64_t n; int calls; bool fail; } ow;
static ssize_t o_writerv(int fd, const struct iovec *iov, int cnt, void *priv)
{
    int64_t tot = 0, take;
    if (fd != 4242 || priv != &ow) V("ob:writer", "the writer gets fd %d and priv %p", fd, priv);
    if (cnt <= 0 || cnt > IOV_MAX) V("ob:iov", "%d vectors passed to the writer", cnt);
    ow.calls++;
    for (int i = 0; i < cnt; i++) tot += iov[i].iov_len;
    if (tot > ow.m->n - ow.m->at) V("ob:extra", "%jd bytes offered to the writer, %jd are queued", (intmax_t)tot, (intmax_t)(ow.m->n - ow.m->at));
    switch (sim_choose(ST_FAULT, 6)) {
      case 0:
        ow.fail = true; errno = rnd(2) ? EAGAIN : EPIPE;
        sim_fault("writer-error");
        return -1;
      case 1: take = tot; break;
      case 2: take = tot ? 1 : 0; sim_fault("short-writev"); break;
      case 3: {                            /* a boundary between vectors */
        int k = sim_choose(ST_FAULT, cnt + 1);
        take = 0;
        for (int i = 0; i < k; i++) take += iov[i].iov_len;
        sim_fault("short-writev");
        break;
      }
      default: take = sim_choose(ST_FAULT, tot + 1); sim_fault("short-writev"); break;
    }
    ow.n = 0;
    for (int i = 0; i < cnt && ow.n < take; i++) {
        int64_t k = iov[i].iov_len;
        if (k > take - ow.n) k = take - ow.n;
        memcpy(ow.b + ow.n, iov[i].iov_base, k);
        ow.n += k;
    }
    return take;
}
static byte oread[OMAX];
static void o_write(om_t *m)
{
    int64_t had = m->n - m->at, got;
    int res;
    if (rnd(2)) {
        ow = (typeof(ow)){ .m = m, .b = ow.b };
        res = ob_write_with(OB(m), 4242, o_writerv, &ow);
        sim_event("write_with of %jd: %d, took %jd", (intmax_t)had, res, (intmax_t)ow.n);
        if (!had && (ow.calls || res)) V("ob:empty", "an empty buffer was written");
        if (had && ow.calls != 1) V("ob:writer", "the writer was called %d times", ow.calls);
        if (ow.fail != (res < 0)) V("ob:result", "ob_write_with returned %d, the writer %s", res, ow.fail ? "failed" : "succeeded");
        om_got(m, ow.b, ow.n, "ob_write_with");
    } else {
        uint64_t fa = simfs->failed;
        bool soft = simfs->eintr || simfs->eagain, o;
        res = ob_write(OB(m), ofd);
        o = simfs->off; simfs->off = true;
        got = lseek(ofd, 0, SEEK_END) - osunk;
        if (got > 0 && got < OMAX && pread(ofd, oread, got, osunk) != got) abort();
        simfs->off = o;
        sim_event("write of %jd: %d, took %jd", (intmax_t)had, res, (intmax_t)got);
        if (res < 0 && got) V("ob:result", "ob_write failed and %jd bytes were written", (intmax_t)got);
        if (res < 0 && !soft && fa == simfs->failed) V("ob:spurious", "ob_write failed without reason (errno %d)", errno);
        if (res >= 0 && had && !got) V("ob:stuck", "ob_write wrote nothing of %jd bytes", (intmax_t)had);
        if (res >= 0 && !had && got) V("ob:empty", "an empty buffer was written");
        om_got(m, oread, got, "ob_write");
        osunk += got;
    }
    om_check(m, "a write");
    if (res < 0) sim_probe("ob-write-error");
}
/* }}} */
static void o_owned(const void *p, bool map)
{
    if (oownedn < countof(oowned)) { oowned[oownedn].p = p; oowned[oownedn++].map = map; }
}
static void o_released(void)
{
    char line[1024];
    for (int i = 0; i < oownedn; i++)
        if (!oowned[i].map && !__asan_address_is_poisoned(oowned[i].p))
            V("ob:leak", "a block given to a buffer was not freed with it");
    FILE *f = fopen("/proc/self/maps", "r");
    while (f && fgets(line, sizeof(line), f))
        if (strstr(line, "/obmap")) V("ob:leak", "a mapping given to a buffer was not undone");
    if (f) fclose(f);
}
static void o_fresh(om_t *m)
{
    m->at = m->n = 0;
    m->dyn = rnd(2) ? ob_new() : NULL;
    if (!m->dyn) ob_init(&m->ob);
}
static void o_wipe(om_t *m)
{
    if (m->dyn) ob_delete(&m->dyn);
    else ob_wipe(&m->ob);
}
static void o_chunk(om_t *m, uint32_t l)
{
    outbuf_chunk_t *c = p_new(outbuf_chunk_t, 1);
    uint32_t off = rnd(2) ? rnd(l + 1) : 0, at = rnd(sizeof(osrc) - l);
    c->u.p = osrc + at; c->length = l; c->offset = off;
    if (rnd(3) == 0) {
        c->u.vp = p_dup(osrc + at, MAX(l, 1u)); c->on_wipe = OUTBUF_DO_FREE;
        o_owned(c->u.p, false);
    }
    ob_add_chunk(OB(m), c);
    om_put(m, osrc + at + off, l - off);
}
static int oflen[2];
/* a string buffer filled from a descriptor, short read after short read */
static void o_sbread(void)
{
    int k = rnd(2), at = 0, res, lim = 400, fd;
    bool off = simfs->off;
    sb_t sb;
    sb_init(&sb);
    simfs->off = true; fd = open(k ? "obmap1" : "obmap0", O_RDONLY); simfs->off = off;
    sb_adds(&sb, "kept");
    while (--lim > 0) {
        uint64_t fa = simfs->failed;
        bool soft = simfs->eintr || simfs->eagain, all = rnd(8) == 0;
        int had = sb.len;
        res = all ? sb_read_fd(&sb, fd) : sb_read(&sb, fd, rnd(3) ? (int)rnd(9000) : 0);
        sim_event("sb_read%s at %d of %d: %d, %d bytes", all ? "_fd" : "", at, oflen[k], res, sb.len);
        if (res < 0) {
            if (sb.len != had) V("ob:rewind", "a failed read left %d bytes in the buffer instead of %d", sb.len, had);
            if (fa == simfs->failed && (all || !soft)) V("ob:spurious", "a read failed without reason");
            if (all) { at = -1; break; }       /* what it had read is gone */
        } else {
            if (sb.len != had + res) V("ob:length", "%d bytes were read, the buffer went from %d to %d", res, had, sb.len);
            if (all && at + res != oflen[k]) V("ob:read", "sb_read_fd stopped at %d of %d bytes", at + res, oflen[k]);
            if (!res && at != oflen[k]) V("ob:read", "the end was found at %d of %d bytes", at, oflen[k]);
            at += res;
            if (all || !res) break;
        }
        if (at > oflen[k] || memcmp(sb.data, "kept", 4) || memcmp(sb.data + 4, osrc, MAX(at, 0))) V("ob:content", "the buffer does not hold what was read");
        if (sb.data[sb.len]) V("ob:content", "the buffer is not terminated");
        if (rnd(12) == 0 && at > 0) break;
    }
    if (at >= 0 && (at > oflen[k] || memcmp(sb.data, "kept", 4) || memcmp(sb.data + 4, osrc, at))) V("ob:content", "the buffer does not hold what was read");
    sb_wipe(&sb);
    simfs->off = true; close(fd); simfs->off = off;
}
static void o_op(void)
{
    om_t *m = &om[rnd(ONB)], *s = &om[rnd(ONB)];
    outbuf_t *ob = OB(m);
    uint32_t l = o_len(), at = rnd(sizeof(osrc) - l), o = rnd(29);
    const char *what;
    uint64_t fa = simfs->failed;
    int res = 0;

    if (m->n + l + (s->n - s->at) > OMAX - 400000) {
        /* make room: what was delivered can be forgotten */
        memmove(m->b, m->b + m->at, m->n - m->at);
        m->n -= m->at; m->at = 0;
        if (m->n + l + (s->n - s->at) > OMAX - 400000) o = 27;
    }
    switch (o) {
      case 0: case 1:
        what = "ob_add"; ob_add(ob, osrc + at, l); om_put(m, osrc + at, l);
        break;
      case 2: {
        char t[64];
        snprintf(t, sizeof(t), "line %u\r\n", ++oid);
        what = "ob_adds"; ob_adds(ob, t); om_put(m, t, strlen(t));
        break;
      }
      case 3: {
        char t[700];
        int k = rnd(300), z = snprintf(t, sizeof(t), "%0*d:%s;", k, (int)++oid, "text");
        what = "ob_addf"; ob_addf(ob, "%0*d:%s;", k, (int)oid, "text"); om_put(m, t, z);
        break;
      }
      case 4: {
        int old;
        sb_t *sb = outbuf_sb_start(ob, &old);
        what = "outbuf_sb_start"; sb_add(sb, osrc + at, l); sb_adds(sb, "end");
        outbuf_sb_end(ob, old);
        om_put(m, osrc + at, l); om_put(m, "end", 3);
        break;
      }
      case 5: {
        int k = ob_reserve(ob, l);
        what = "ob_reserve"; om_put(m, osrc + at, l);
        if (rnd(2)) { ob_adds(ob, "after"); om_put(m, "after", 5); }
        memcpy(ob->sb.data + k, osrc + at, l);
        break;
      }
      case 6: case 7:
        what = "ob_add_memchunk(const)"; ob_add_memchunk(ob, osrc + at, l, true); om_put(m, osrc + at, l);
        break;
      case 8: case 9: {
        void *p = p_dup(osrc + at, MAX(l, 1u));
        o_owned(p, false);
        what = "ob_add_memchunk"; ob_add_memchunk(ob, p, l, false); om_put(m, osrc + at, l);
        break;
      }
      case 10: {
        int k = rnd(2), fd, n = oflen[k];
        bool off = simfs->off;
        simfs->off = true;
        fd = open(k ? "obmap1" : "obmap0", O_RDONLY);
        void *p = mmap(NULL, n, PROT_READ, MAP_SHARED, fd, 0);
        close(fd);
        simfs->off = off;
        if (p == MAP_FAILED) abort();
        o_owned(p, true);
        what = "ob_add_memmap"; ob_add_memmap(ob, p, n); om_put(m, osrc, n);
        break;
      }
      case 11: case 12: {
        int k = rnd(2), n = rnd(2) ? -1 : (int)rnd(oflen[k] + 1);
        what = "ob_add_file"; res = ob_add_file(ob, k ? "obmap1" : "obmap0", n);
        if (res >= 0) om_put(m, osrc, n < 0 ? oflen[k] : n);
        else if (fa == simfs->failed) V("ob:spurious", "ob_add_file failed without reason");
        break;
      }
      case 13: {
        int k = rnd(2), fd, pos, n;
        bool off = simfs->off, enough;
        simfs->off = true;
        fd = open(k ? "obmap1" : "obmap0", O_RDONLY);
        pos = rnd(oflen[k] + 1); lseek(fd, pos, SEEK_SET);
        simfs->off = off;
        n = rnd(3) ? (int)rnd(oflen[k] - pos + 1) : (int)rnd(oflen[k] + 3000);
        enough = n <= oflen[k] - pos;
        what = "ob_xread"; res = ob_xread(ob, fd, n);
        if (res >= 0 && !enough) V("ob:result", "ob_xread of %d bytes succeeded, there are %d", n, oflen[k] - pos);
        if (res < 0 && enough && fa == simfs->failed) V("ob:spurious", "ob_xread failed without reason");
        if (res >= 0) om_put(m, osrc + pos, n);
        simfs->off = true; close(fd); simfs->off = off;
        break;
      }
      case 14: case 15:
        what = "ob_add_chunk"; o_chunk(m, l);
        break;
      case 16:
        what = "ob_add_chunk";
        for (int n = rnd(8) ? rnd(40) : rnd(2200); n > 0; n--) {
            o_chunk(m, 1 + rnd(40));
            if (rnd(2)) { ob_adds(ob, "-"); om_put(m, "-", 1); }
        }
        break;
      case 17: case 18:
        if (s == m) return;
        what = "ob_merge";
        om_put(m, s->b + s->at, s->n - s->at);
        if (rnd(2)) { ob_merge(ob, OB(s)); s->at = s->n = 0; om_check(s, what); }
        else if (s->dyn) { ob_merge_delete(ob, &s->dyn); if (s->dyn) V("ob:merge", "ob_merge_delete kept the source"); o_fresh(s); }
        else { ob_merge_wipe(ob, &s->ob); o_fresh(s); }
        break;
      case 19:
        if (rnd(4)) return;
        what = "ob_wipe"; o_wipe(m); o_fresh(m); ob = OB(m);
        break;
      case 28:
        o_sbread();
        sim_count_op();
        return;
      default:
        what = "write"; o_write(m);
        break;
    }
    if (o < 20) sim_event("buffer %d: %s %u -> %d, %d bytes", (int)(m - om), what, l, res, ob->length);
    om_check(m, what);
    sim_count_op();
    sim_state(mix(OB(m)->length) ^ mix(OB(m)->sb.len * 3));
}
static void run_ob(void)
{
    for (int i = 0; i < ONB; i++) {
        if (!om[i].b) om[i].b = mmap(NULL, OMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        o_fresh(&om[i]);
    }
    if (!ow.b) ow.b = mmap(NULL, OMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    fill(osrc, sizeof(osrc), 1 + rnd(1000));
    simfs->off = true;
    oflen[0] = 1 + rnd(OUTBUF_CHUNK_MIN_SIZE + 1); oflen[1] = OUTBUF_CHUNK_MIN_SIZE + rnd(60000);
    for (int i = 0; i < 2; i++) IGNORE(xwrite_file(i ? "obmap1" : "obmap0", osrc, oflen[i]));
    ofd = open("sink", O_RDWR | O_CREAT | O_APPEND, 0644);
    int probe = open("obmap0", O_RDONLY); close(probe);
    simfs->off = false;
    osunk = 0;
    i_faults(rnd(2));
    for (int n = 10 + rnd(sim_tier ? 300 : 120); n > 0 && !sim_exhausted(ST_OPS); n--) {
        o_op();
        if (simfs->limited && rnd(6) == 0) simfs->space = rnd(60000);
    }
    /* once the faults stop everything goes out, each write making progress */
    simfs->limited = false;
    simfs->short_wr = simfs->eintr = simfs->eagain = simfs->eio_wr = simfs->enospc = 0;
    for (int i = 0; i < ONB; i++) {
        om_t *m = &om[i];
        if (rnd(4)) {
            for (int k = 0; OB(m)->length; k++) {
                if (k > 20000) V("ob:stuck", "%d bytes are never written", OB(m)->length);
                o_write(m);
            }
            if (m->at != m->n) V("ob:lost", "%jd bytes were queued and never delivered", (intmax_t)(m->n - m->at));
        }
        o_wipe(m);
    }
    simfs->off = true;
    o_released();
    int fd = open("obmap0", O_RDONLY);
    if (fd != probe) V("ob:fd-leak", "file descriptors were leaked");
    close(fd);
    close(ofd);
}
