/* C16 */
#include <lib-common/iop.h>
#include <lib-common/iop-json.h>
#include <lib-common/yaml.h>
#include "vrpc.iop.h"

#define IMAX (1 << 18)
typedef struct { byte *b; int64_t n; } ic_t;              /* a content */
static void ic_init(ic_t *c) { c->b = mmap(NULL, IMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); c->n = 0; }
static void ic_put(ic_t *c, int64_t off, const void *d, int64_t n)
{
    if (n <= 0) return;
    if (off > c->n) memset(c->b + c->n, 0, off - c->n);
    memcpy(c->b + off, d, n);
    c->n = MAX(c->n, off + n);
}
static void ic_size(ic_t *c, int64_t n)
{
    if (n > c->n) memset(c->b + c->n, 0, n - c->n);
    c->n = n;
}
/* the real content, read behind the back of the code; -1: no such file */
static int64_t ic_real(const char *path, byte *out)
{
    bool o = simfs->off;
    int64_t n = -1;
    simfs->off = true;
    int fd = open(path, O_RDONLY);
    if (fd >= 0) {
        n = 0;
        for (;;) {
            ssize_t r = pread(fd, out + n, IMAX - n, n);
            if (r <= 0) break;
            n += r;
        }
        close(fd);
    }
    simfs->off = o;
    return n;
}
static byte ireal[IMAX], ibuf[IMAX], ibuf2[IMAX];
static uint32_t iid;
static void ic_same(const char *path, ic_t *c, const char *what)
{
    int64_t n = ic_real(path, ireal);
    if (n != c->n) V("io:size", "%s: %s has %jd bytes instead of %jd", what, path, (intmax_t)n, (intmax_t)c->n);
    for (int64_t i = 0; i < n; i++)
        if (ireal[i] != c->b[i]) V("io:content", "%s: %s differs at byte %jd of %jd", what, path, (intmax_t)i, (intmax_t)n);
}
static uint32_t i_len(void)
{
    switch (rnd(8)) {
      case 0: return 0;
      case 1: return 1 + rnd(3);
      case 2: case 3: return rnd(200);
      case 4: return rnd(5000);
      case 5: return BUFSIZ - 3 + rnd(7);
      case 6: return rnd(3 * BUFSIZ);
      default: return rnd(40000);
    }
}
static void i_faults(bool hard)
{
    if (rnd(2)) simfs->short_wr = 50 + rnd(500);
    if (rnd(2)) simfs->short_rd = 50 + rnd(500);
    if (rnd(2)) simfs->eintr = 10 + rnd(200);
    if (rnd(4) == 0) simfs->eagain = 10 + rnd(200);
    if (!hard) return;
    uint32_t *k[] = { &simfs->eio_wr, &simfs->enospc, &simfs->trunc_fail, &simfs->close_fail, &simfs->open_fail, &simfs->eio_rd, &simfs->stat_fail, &simfs->unlink_fail };
    for (int n = 1 + rnd(3); n > 0; n--) *k[rnd(countof(k))] = 20 + rnd(200);
    if (rnd(3) == 0) { simfs->limited = true; simfs->space = rnd(60000); }
}
/* {{{ file_t */

#define FP  "buffered"
static void run_filet(void)
{
    ic_t m, flushed;
    bool hard = rnd(2);
    int64_t pos = 0;
    file_t *f;
    bool fuzzy = false;
    int n = 5 + rnd(sim_tier ? 150 : 50);

    ic_init(&m); ic_init(&flushed);
    simfs->off = true;
    if (rnd(3) == 0) {
        uint32_t l = i_len();
        int fd = open(FP, O_WRONLY | O_CREAT, 0644);
        fill(ibuf, l, ++iid);
        IGNORE(xwrite(fd, ibuf, l));
        close(fd);
        ic_put(&m, 0, ibuf, l);
    }
    simfs->off = false;
    ic_put(&flushed, 0, m.b, m.n);
    i_faults(hard);
    for (int t = 0; ; t++) {
        unsigned fl = FILE_WRONLY | FILE_CREATE | (rnd(2) ? FILE_TRUNC : 0);
        uint64_t fa = simfs->failed;
        f = rnd(2) ? file_open(FP, fl, 0644) : file_open_at(AT_FDCWD, FP, fl, 0644);
        if (f) { if (fl & FILE_TRUNC) m.n = flushed.n = 0; break; }
        if (fa == simfs->failed) V("io:spurious", "file_open failed without reason");
        if (t > 20) return;
    }
    while (n-- > 0 && !sim_exhausted(ST_OPS) && pos < IMAX / 2 - 45000) {
        uint64_t fa = simfs->failed;
        uint32_t o = rnd(20), l = i_len(), res_ok = 0;
        int64_t res = 0, want = 0, old = pos, t;
        const char *what;
        bool wr = false;

        if (o == 0) {
            ibuf[0] = rnd(4) ? 'a' + rnd(26) : '\n'; l = 1; wr = true; what = "file_putc";
            res = file_putc(f, ibuf[0]);
        } else if (o < 8) {
            fill(ibuf, l, ++iid); wr = true; what = "file_write"; want = l;
            res = file_write(f, ibuf, l);
        } else if (o < 12) {
            struct iovec iov[40];
            int c = rnd(40), left = l, off = 0;
            for (int i = 0; i < c; i++) {
                int k = rnd(3) == 0 ? 0 : i == c - 1 ? left : (int)rnd(left + 1);
                iov[i] = MAKE_IOVEC(ibuf + off, k);
                off += k; left -= k;
            }
            l = off;
            fill(ibuf, l, ++iid); wr = true; what = "file_writev"; want = l;
            res = file_writev(f, iov, c);
        } else if (o < 14) {
            int k = snprintf((char *)ibuf, IMAX, "%u:%0*d/%s;", ++iid, (int)rnd(300), 5, rnd(2) ? "x" : "yy\n");
            l = k; wr = true; what = "file_writef"; want = l;
            memcpy(ibuf2, ibuf, k + 1);
            res = file_writef(f, "%s", (char *)ibuf2);
        } else if (o < 16) {
            what = "file_flush";
            res = file_flush(f);
            if (res >= 0) res_ok = 1;
        } else if (o < 18) {
            int64_t to = rnd(3) == 0 ? m.n : rnd(m.n + 20);
            what = "file_seek";
            switch (rnd(3)) {
              case 0: res = file_seek(f, to, SEEK_SET); break;
              case 1: res = file_seek(f, to - pos, SEEK_CUR); break;
              default: res = file_seek(f, to - m.n, SEEK_END); break;
            }
            if (res >= 0) {
                if (res != to) V("io:seek", "file_seek went to %jd instead of %jd", (intmax_t)res, (intmax_t)to);
                pos = to; res_ok = 1;
            }
        } else {
            int64_t to = rnd(4) == 0 ? pos : rnd(3) == 0 ? m.n : rnd(m.n + (rnd(3) ? 30 : 20000));
            what = "file_truncate"; l = to;
            res = file_truncate(f, to);
            if (res >= 0) { ic_size(&m, to); pos = to; }
            else {
                if (fa == simfs->failed && !simfs->eintr) V("io:spurious", "file_truncate failed without reason");
                sim_probe("truncate-failed");
                fuzzy = true;
                break;
            }
        }
        t = file_tell(f);
        sim_event("%s %u -> %jd, at %jd", what, l, (intmax_t)res, (intmax_t)t);
        if (res >= 0) {
            if (wr) {
                if (res != want) V("io:result", "%s of %u bytes returned %jd", what, l, (intmax_t)res);
                ic_put(&m, pos, ibuf, l); pos += l;
            }
        } else {
            if (fa == simfs->failed) V("io:spurious", "%s failed without reason", what);
            sim_probe("buffered-error");
            if (wr) {
                /* what it kept of the data is known from the position */
                if (t < old || t > old + l) V("io:tell", "after a failed %s of %u bytes at %jd the position is %jd", what, l, (intmax_t)old, (intmax_t)t);
                ic_put(&m, pos, ibuf, t - old); pos = t;
            }
        }
        if (t != pos) V("io:tell", "after %s the position is %jd instead of %jd", what, (intmax_t)t, (intmax_t)pos);
        if (res_ok) {
            ic_same(FP, &m, what);
            flushed.n = 0; ic_put(&flushed, 0, m.b, m.n);
        }
        sim_count_op();
        sim_state(mix(t) ^ mix(m.n));
    }
    if (rnd(2)) { simfs->eio_wr = simfs->enospc = simfs->close_fail = 0; simfs->limited = false; }
    uint64_t fa = simfs->failed, cf = simfs->close_failed;
    int res = file_close(&f);
    if (f) V("io:close", "file_close kept the file");
    sim_event("close: %d", res);
    if (fuzzy) return;
    if (res >= 0) {
        if (cf != simfs->close_failed) V("io:error-lost", "file_close succeeded although close() failed");
        ic_same(FP, &m, "file_close");
    } else {
        if (fa == simfs->failed) V("io:spurious", "file_close failed without reason");
        int64_t k = ic_real(FP, ireal);
        if (k > m.n) V("io:size", "%jd bytes, only %jd were written", (intmax_t)k, (intmax_t)m.n);
        for (int64_t i = 0; i < k; i++)
            if (ireal[i] != m.b[i] && (i >= flushed.n || ireal[i] != flushed.b[i]))
                V("io:content", "after a failed close the byte %jd is none of those written", (intmax_t)i);
    }
}
/* }}} */
/* {{{ helpers */

#define NF 4
static ic_t ifile[NF];
static bool iexists[NF], ilost[NF];
static const char *iname[NF] = { "f0", "f1", "f2", "f3" };
/* after a failure in the middle: what is there becomes the model */
static void i_resync(int k)
{
    int64_t n = ic_real(iname[k], ireal);
    iexists[k] = n >= 0;
    ifile[k].n = 0;
    ic_put(&ifile[k], 0, ireal, n);
}
static void i_verify(int k, const char *what)
{
    if (!iexists[k]) {
        if (ic_real(iname[k], ireal) >= 0) V("io:leftover", "%s left %s", what, iname[k]);
        return;
    }
    ic_same(iname[k], &ifile[k], what);
}
/* content is base + a prefix of data written at off, nothing else touched */
static void i_partial(int k, int64_t off, const byte *d, int64_t len, const char *what)
{
    int64_t n = ic_real(iname[k], ireal), done = 0;
    ic_t *c = &ifile[k];
    if (n < 0) V("io:gone", "%s: %s does not exist any more", what, iname[k]);
    while (done < len && off + done < n && ireal[off + done] == d[done]) done++;
    if (n > MAX(c->n, off + done)) V("io:size", "after a failed %s %s has %jd bytes", what, iname[k], (intmax_t)n);
    if (n < c->n) V("io:lost", "a failed %s shortened %s from %jd to %jd bytes", what, iname[k], (intmax_t)c->n, (intmax_t)n);
    for (int64_t i = 0; i < n; i++) {
        if (i >= off && i < off + done) continue;
        if (i < c->n ? ireal[i] != c->b[i] : ireal[i] != 0) V("io:content", "a failed %s changed the byte %jd of %s", what, (intmax_t)i, iname[k]);
    }
    i_resync(k);
}
#define HARD(fa)  (simfs->failed != (fa))
/* the last chance to report that data was lost */
static uint64_t iclosed;
#define CLOSE_FAILED()  (simfs->close_failed != iclosed)
static void i_fd_ops(int k)
{
    int64_t pos = 0;
    uint64_t fa = simfs->failed;
    ic_t *c = &ifile[k];
    int fd = open(iname[k], O_RDWR | O_CREAT, 0644);
    if (fd < 0) return;
    if (!iexists[k]) { iexists[k] = true; c->n = 0; }
    for (int n = 1 + rnd(10); n > 0; n--) {
        uint32_t o = rnd(7), l = i_len();
        int64_t res, off = rnd(c->n + 10);
        const char *what;
        if (MAX(pos, c->n) > IMAX / 2) break;
        fa = simfs->failed;
        if (o < 2) {
            struct iovec iov[30];
            int cnt = rnd(30), left = l, at = 0;
            if (o == 0) {
                what = "xwrite"; fill(ibuf, l, ++iid);
                res = xwrite(fd, ibuf, l);
            } else {
                for (int i = 0; i < cnt; i++) {
                    int q = rnd(3) == 0 ? 0 : i == cnt - 1 ? left : (int)rnd(left + 1);
                    iov[i] = MAKE_IOVEC(ibuf + at, q);
                    at += q; left -= q;
                }
                l = at; fill(ibuf, l, ++iid); what = "xwritev";
                res = xwritev(fd, iov, cnt);
            }
            if (res >= 0) {
                if (res != l) V("io:result", "%s of %u bytes returned %jd", what, l, (intmax_t)res);
                ic_put(c, pos, ibuf, l); pos += l;
                i_verify(k, what);
            } else {
                i_partial(k, pos, ibuf, l, what);
                simfs->off = true; pos = lseek(fd, 0, SEEK_CUR); simfs->off = false;
            }
        } else if (o == 2) {
            what = "xpwrite"; fill(ibuf, l, ++iid);
            res = xpwrite(fd, ibuf, l, off);
            if (res >= 0) {
                if (res != l) V("io:result", "%s of %u bytes returned %jd", what, l, (intmax_t)res);
                ic_put(c, off, ibuf, l); i_verify(k, what);
            } else i_partial(k, off, ibuf, l, what);
        } else if (o == 3) {
            what = "xftruncate";
            res = xftruncate(fd, off);
            if (res >= 0) ic_size(c, off);
            i_verify(k, what);
        } else if (o == 4) {
            bool enough = l <= (pos < c->n ? c->n - pos : 0);
            what = "xread";
            if (rnd(3)) { l = MIN(l, pos < c->n ? c->n - pos : 0); enough = true; }
            res = xread(fd, ibuf, l);
            if (res >= 0) {
                if (!enough) V("io:read", "xread of %u bytes at %jd of %jd succeeded", l, (intmax_t)pos, (intmax_t)c->n);
                if (memcmp(ibuf, c->b + pos, l)) V("io:read", "xread of %u bytes at %jd: not what was written", l, (intmax_t)pos);
                pos += l;
            } else {
                if (!enough) fa--;
                pos = lseek(fd, 0, SEEK_CUR);
            }
        } else if (o == 5) {
            bool enough = off + l <= c->n;
            what = "xpread";
            if (rnd(3)) { off = rnd(c->n + 1); l = MIN(l, c->n - off); enough = true; }
            enough = enough || !l;
            res = xpread(fd, ibuf, l, off);
            if (res >= 0) {
                if (!enough) V("io:read", "xpread of %u bytes at %jd of %jd succeeded", l, (intmax_t)off, (intmax_t)c->n);
                if (l && memcmp(ibuf, c->b + off, l)) V("io:read", "xpread of %u bytes at %jd: not what was written", l, (intmax_t)off);
            } else if (!enough) fa--;
        } else {
            res = 0; what = "lseek"; pos = lseek(fd, off, SEEK_SET);
        }
        sim_event("%s %s %u -> %jd", what, iname[k], l, (intmax_t)res);
        if (res < 0 && !HARD(fa)) V("io:spurious", "%s failed without reason", what);
        sim_count_op();
        sim_state(mix(c->n) ^ mix(pos));
    }
    close(fd);
}
static void i_helper_op(void)
{
    int k = rnd(NF), k2 = (k + 1 + rnd(NF - 1)) % NF;
    uint32_t o = rnd(11), l = i_len();
    uint64_t fa = simfs->failed, un = simfs->unlink_failed;
    int64_t res = 0;
    bool rd_only = false;
    const char *what;
    SB_1k(err);

    if (o < 3) {
        sb_t sb;
        sb_init(&sb);
        fill(ibuf, l, ++iid); sb_add(&sb, ibuf, l);
        what = o == 0 ? "sb_write_file" : "xwrite_file";
        uint64_t op = simfs->opens;
        res = o == 0 ? sb_write_file(&sb, iname[k]) : xwrite_file(iname[k], ibuf, l);
        sb_wipe(&sb);
        if (res >= 0) {
            if (res != l) V("io:result", "%s of %u bytes returned %jd", what, l, (intmax_t)res);
            iexists[k] = true; ifile[k].n = 0; ic_put(&ifile[k], 0, ibuf, l);
        } else if (op != simfs->opens) {
            /* it was opened, hence truncated: nothing may stay of it */
            if (un == simfs->unlink_failed) iexists[k] = false;
            else { ifile[k].n = 0; iexists[k] = true; i_partial(k, 0, ibuf, l, what); }
        }
        i_verify(k, what);
    } else if (o == 3) {
        fill(ibuf, l, ++iid); what = "xappend_to_file";
        if (ifile[k].n > IMAX / 2) return;
        uint64_t op = simfs->opens;
        res = xappend_to_file(iname[k], ibuf, l);
        if (res >= 0) {
            if (res != l) V("io:result", "%s of %u bytes returned %jd", what, l, (intmax_t)res);
            if (!iexists[k]) { iexists[k] = true; ifile[k].n = 0; }
            ic_put(&ifile[k], ifile[k].n, ibuf, l);
            i_verify(k, what);
        } else if (op != simfs->opens) {
            if (iexists[k]) i_partial(k, ifile[k].n, ibuf, l, what);
            i_resync(k);
        }
    } else if (o == 4 || o == 5) {
        sb_t sb;
        sb_init(&sb);
        what = "sb_read_file"; rd_only = true;
        sb_adds(&sb, "before");
        res = sb_read_file(&sb, iname[k]);
        if (res >= 0) {
            if (!iexists[k]) V("io:read", "sb_read_file read a file that does not exist");
            if (res != ifile[k].n || sb.len != res + 6 || memcmp(sb.data, "before", 6) || memcmp(sb.data + 6, ifile[k].b, res))
                V("io:read", "sb_read_file: %jd bytes read, not what was written (%jd)", (intmax_t)res, (intmax_t)ifile[k].n);
        } else {
            if (!iexists[k]) fa--;
            if (sb.len != 6 || memcmp(sb.data, "before", 6)) V("io:rewind", "a failed sb_read_file left %d bytes in the buffer", sb.len);
        }
        sb_wipe(&sb);
    } else if (o == 6) {
        lstr_t s = LSTR_NULL;
        what = "lstr_init_from_file"; rd_only = true;
        res = lstr_init_from_file(&s, iname[k], PROT_READ, MAP_PRIVATE);
        if (res >= 0) {
            if (!iexists[k]) V("io:read", "lstr_init_from_file read a file that does not exist");
            if (s.len != ifile[k].n || (s.len && memcmp(s.s, ifile[k].b, s.len)))
                V("io:read", "lstr_init_from_file: %d bytes, not what was written (%jd)", s.len, (intmax_t)ifile[k].n);
            lstr_wipe(&s);
        } else if (!iexists[k]) fa--;
    } else if (o == 7 || o == 8) {
        what = o == 7 ? "filecopy" : "filecopyat";
        uint64_t op = simfs->opens;
        res = o == 7 ? filecopy(iname[k], iname[k2]) : filecopyat(AT_FDCWD, iname[k], AT_FDCWD, iname[k2]);
        if (res >= 0) {
            if (!iexists[k]) V("io:read", "%s copied a file that does not exist", what);
            if (res != ifile[k].n) V("io:result", "%s of %jd bytes returned %jd", what, (intmax_t)ifile[k].n, (intmax_t)res);
            iexists[k2] = true; ifile[k2].n = 0; ic_put(&ifile[k2], 0, ifile[k].b, ifile[k].n);
        } else {
            if (!iexists[k]) fa--;
            if (simfs->opens >= op + 2) {
                iexists[k2] = true; ifile[k2].n = 0;
                i_partial(k2, 0, ifile[k].b, ifile[k].n, what);
            }
        }
        i_verify(k, what); i_verify(k2, what);
    } else if (o == 9) {
        char path[] = "tmp.XXXXXX";
        ic_t c = { .b = ibuf, .n = l };
        fill(ibuf, l, ++iid); what = "write_in_tmp_file";
        res = write_in_tmp_file(path, (char *)ibuf, l, &err);
        if (res >= 0) { ic_same(path, &c, what); simfs->off = true; unlink(path); simfs->off = false; }
        else {
            if (!err.len) V("io:message", "write_in_tmp_file failed without an error message");
            if (un == simfs->unlink_failed && ic_real(path, ireal) >= 0) V("io:leftover", "a failed write_in_tmp_file left the file");
        }
    } else {
        i_fd_ops(k);
        return;
    }
    sim_event("%s %s %u -> %jd", what, iname[k], l, (intmax_t)res);
    if (res < 0 && !HARD(fa)) V("io:spurious", "%s failed without reason", what);
    if (res >= 0 && CLOSE_FAILED() && !rd_only)
        V("io:error-lost", "%s succeeded although close() failed", what);
    sim_count_op();
    sim_state(mix(o) ^ mix(ifile[k].n));
}
/* }}} */
/* {{{ documents */

static void i_json(void)
{
    t_scope;
    vrpc__info__t info, *back = NULL;
    uint64_t fa = simfs->failed, un = simfs->unlink_failed, op = simfs->opens;
    uint32_t l = rnd(3) ? rnd(50) : i_len();
    int nn = rnd(2) ? rnd(3000) : rnd(5), res;
    ic_t c;
    SB_8k(sb); SB_1k(err);

    iop_init(vrpc__info, &info);
    fill(ibuf, l, ++iid);
    info.id = iid; info.data = t_lstr_dup(LSTR_DATA_V(ibuf, l));
    if (rnd(2)) info.tag = t_lstr_fmt("tag-%0*d", (int)rnd(500), 3);
    info.nums.tab = t_new(int, nn + 1); info.nums.len = nn;
    for (int i = 0; i < nn; i++) info.nums.tab[i] = mix(i);
    iop_sb_jpack(&sb, &vrpc__info__s, &info, 0);
    c = (ic_t){ .b = (byte *)sb.data, .n = sb.len };
    res = iop_jpack_file("doc.json", &vrpc__info__s, &info, 0, &err);
    sim_event("json %u+%d -> %d", l, nn, res);
    if (res >= 0) {
        if (CLOSE_FAILED()) V("io:error-lost", "iop_jpack_file succeeded although close() failed");
        ic_same("doc.json", &c, "iop_jpack_file");
        fa = simfs->failed;
        res = t_iop_junpack_ptr_file("doc.json", &vrpc__info__s, (void **)&back, 0, NULL, &err);
        if (res < 0) {
            if (!HARD(fa)) V("io:spurious", "t_iop_junpack_file failed: %*pM", SB_FMT_ARG(&err));
        } else if (!iop_equals(vrpc__info, &info, back)) V("io:read", "t_iop_junpack_file: not what was written");
    } else {
        if (!HARD(fa)) V("io:spurious", "iop_jpack_file failed without reason");
        if (!err.len) V("io:message", "iop_jpack_file failed without an error message");
        if (op != simfs->opens && un == simfs->unlink_failed && ic_real("doc.json", ireal) >= 0) V("io:leftover", "a failed iop_jpack_file left the file");
    }
    simfs->off = true; unlink("doc.json"); simfs->off = false;
    sim_count_op();
}
static void i_yaml(void)
{
    t_scope;
    yaml_parse_t *p = t_yaml_parse_new(YAML_PARSE_GEN_PRES_DATA), *p2;
    yaml_data_t data, back;
    yaml__document_presentation__t pres;
    yaml_pack_env_t *env = t_yaml_pack_env_new();
    uint32_t l = rnd(3) ? 1 + rnd(100) : 1 + i_len();
    uint64_t fa;
    int res;
    ic_t c = { .b = ibuf, .n = l };
    SB_8k(main); SB_1k(err);

    for (uint32_t i = 0; i < l; i++) ibuf[i] = 'a' + mix(i + iid) % 26;
    iid++;
    sb_adds(&main, "- !includeraw:inner.txt\n- !include:sub.yml\n- end\n");
    for (int i = rnd(2) ? rnd(1200) : rnd(5); i > 0; i--) sb_addf(&main, "- key%d: value%u\n", i, iid);
    simfs->off = true;
    IGNORE(xwrite_file("inner.txt", ibuf, l));
    IGNORE(xwrite_file("sub.yml", "a: 1\nb: two\n", 12));
    IGNORE(xwrite_file("main.yml", main.data, main.len));
    simfs->off = false;
    fa = simfs->failed;
    if (t_yaml_parse_attach_file(p, "main.yml", NULL, &err) < 0 || t_yaml_parse(p, &data, &err) < 0) {
        if (!HARD(fa)) V("io:spurious", "the document cannot be parsed: %*pM", SB_FMT_ARG(&err));
        yaml_parse_delete(&p);
        return;
    }
    t_yaml_data_get_presentation(&data, &pres);
    t_yaml_pack_env_set_presentation(env, &pres);
    fa = simfs->failed;
    res = t_yaml_pack_file(env, "out/main.yml", &data, &err);
    sim_event("yaml %u+%d -> %d", l, main.len, res);
    if (res >= 0) {
        if (CLOSE_FAILED()) V("io:error-lost", "t_yaml_pack_file succeeded although close() failed");
        ic_same("out/inner.txt", &c, "t_yaml_pack_file");
        simfs->off = true;
        p2 = t_yaml_parse_new(0);
        if (t_yaml_parse_attach_file(p2, "out/main.yml", NULL, &err) < 0 || t_yaml_parse(p2, &back, &err) < 0)
            V("io:read", "the document packed cannot be parsed: %*pM", SB_FMT_ARG(&err));
        SB_8k(t1); SB_8k(t2);
        IGNORE(t_yaml_pack_sb(t_yaml_pack_env_new(), &data, &t1, &err));
        IGNORE(t_yaml_pack_sb(t_yaml_pack_env_new(), &back, &t2, &err));
        if (!lstr_equal(LSTR_SB_V(&t1), LSTR_SB_V(&t2))) V("io:read", "the document packed is not the one that was written");
        yaml_parse_delete(&p2);
        simfs->off = false;
    } else {
        if (!HARD(fa)) V("io:spurious", "t_yaml_pack_file failed: %*pM", SB_FMT_ARG(&err));
        if (!err.len) V("io:message", "t_yaml_pack_file failed without an error message");
    }
    yaml_parse_delete(&p);
    sim_count_op();
}
/* }}} */

static void run_io(void)
{
    int fds = 0;
    if (rnd(2)) { run_filet(); return; }
    for (int k = 0; k < NF; k++) ic_init(&ifile[k]);
    i_faults(rnd(3) != 0);
    simfs->off = true;
    int probe = open("probe", O_RDONLY | O_CREAT, 0644); close(probe);
    simfs->off = false;
    for (int n = 3 + rnd(sim_tier ? 60 : 20); n > 0 && !sim_exhausted(ST_OPS); n--) {
        uint32_t o = rnd(12);
        iclosed = simfs->close_failed;
        if (o == 0) i_json();
        else if (o == 1) i_yaml();
        else i_helper_op();
        if (simfs->limited && rnd(6) == 0) simfs->space = rnd(60000);
    }
    simfs->off = true;
    fds = open("probe", O_RDONLY); close(fds);
    if (fds != probe) V("io:fd-leak", "file descriptors were leaked");
}
