/* Simulated disk, see simfs.h. Never instrumented. */
#define _GNU_SOURCE
#include "simfs.h"
#include "simio.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "simraw.h"
#define RAW(n, ...)  raw_syscall(n, ##__VA_ARGS__)

#define NINO 1024
#define NDENT 512
#define NPEND 2048
#define PLEN 128
enum { D_CREATE, D_UNLINK, D_RENAME };
typedef struct {
    simfs_cfg_t cfg;
    char root[128];                  /* .../cur */
    int  rootlen;
    int  nino;
    struct { uint64_t real; bool synced, used; } ino[NINO];
    int  ndur;
    struct { char path[PLEN]; int ino; } dur[NDENT];
    int  npend;
    struct { int op, ino; char a[PLEN], b[PLEN]; } pend[NPEND];
} fs_t;
static fs_t *F;
simfs_cfg_t *simfs;
static unsigned char track[1024];

void *sim_shared(size_t n)
{
    void *p = (void *)RAW(SYS_mmap, NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) abort();
    return p;
}

static void rm_tree(const char *path)
{
    DIR *d = opendir(path);
    struct dirent *e;
    char b[512];
    if (!d) return;
    while ((e = readdir(d))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(b, sizeof(b), "%s/%s", path, e->d_name);
        if (e->d_type == DT_DIR) { rm_tree(b); RAW(SYS_rmdir, b); }
        else RAW(SYS_unlink, b);
    }
    closedir(d);
}
static void scratch_name(char *b, size_t n, int pid)
{
    const char *base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    snprintf(b, n, "%s/verif-simfs.%d", base, pid);
}
void simfs_cleanup(void)             /* called by the worker */
{
    char b[100];
    scratch_name(b, sizeof(b), (int)RAW(SYS_getpid));
    if (access(b, F_OK) == 0) { rm_tree(b); RAW(SYS_rmdir, b); }
}
void simfs_init(void)
{
    char b[100], c[128];
    F = sim_shared(sizeof(*F));
    simfs = &F->cfg;
    scratch_name(b, sizeof(b), (int)RAW(SYS_getppid));
    rm_tree(b);
    RAW(SYS_mkdir, b, 0700);
    const char *sub[] = { "cur", "ino", "dur" };
    for (int i = 0; i < 3; i++) { snprintf(c, sizeof(c), "%s/%s", b, sub[i]); RAW(SYS_mkdir, c, 0700); }
    F->rootlen = snprintf(F->root, sizeof(F->root), "%s/cur", b);
    if (RAW(SYS_chdir, F->root) < 0) sim_violation("sim:scratch", "cannot use %s: %s", F->root, strerror(errno));
}

/* {{{ names and inodes */

/* path relative to the root, NULL when it lies outside */
static const char *norm(int dfd, const char *path, char *buf)
{
    char l[64], t[300];
    if (!F || !path) return NULL;
    if (path[0] == '/') {
        if (strncmp(path, F->root, F->rootlen) || path[F->rootlen] != '/') return NULL;
        snprintf(buf, PLEN, "%s", path + F->rootlen + 1);
        return buf;
    }
    while (path[0] == '.' && path[1] == '/') path += 2;
    if (dfd == AT_FDCWD) { strcpy(t, F->root); }
    else {
        snprintf(l, sizeof(l), "/proc/self/fd/%d", dfd);
        long n = RAW(SYS_readlink, l, t, sizeof(t) - 1);
        if (n <= 0) return NULL;
        t[n] = 0;
    }
    if (strncmp(t, F->root, F->rootlen)) return NULL;
    if (!t[F->rootlen]) snprintf(buf, PLEN, "%s", path);
    else snprintf(buf, PLEN, "%s/%s", t + F->rootlen + 1, path);
    return buf;
}
static void side(char *b, const char *sub, int i)
{
    snprintf(b, 160, "%.*s%s/%d", F->rootlen - 3, F->root, sub, i);
}
static int ino_of(int dfd, const char *path, int fd)
{
    struct stat st;
    char l[160];
    if ((fd >= 0 ? RAW(SYS_fstat, fd, &st) : RAW(SYS_newfstatat, dfd, path, &st, AT_SYMLINK_NOFOLLOW)) < 0) return -1;
    if (!S_ISREG(st.st_mode)) return -1;
    for (int i = 0; i < F->nino; i++) if (F->ino[i].used && F->ino[i].real == st.st_ino) return i;
    if (F->nino == NINO) sim_violation("sim:simfs", "too many files");
    int i = F->nino++;
    F->ino[i].used = true; F->ino[i].real = st.st_ino; F->ino[i].synced = false;
    side(l, "ino", i);
    RAW(SYS_unlink, l);
    if (fd >= 0) {
        char s[64];
        snprintf(s, sizeof(s), "/proc/self/fd/%d", fd);
        RAW(SYS_linkat, AT_FDCWD, s, AT_FDCWD, l, AT_SYMLINK_FOLLOW);
    } else {
        RAW(SYS_linkat, dfd, path, AT_FDCWD, l, 0);
    }
    return i;
}
static void pend(int op, const char *a, const char *b, int ino)
{
    if (F->npend == NPEND) sim_violation("sim:simfs", "too many directory operations");
    int i = F->npend++;
    F->pend[i].op = op; F->pend[i].ino = ino;
    snprintf(F->pend[i].a, PLEN, "%s", a);
    snprintf(F->pend[i].b, PLEN, "%s", b ? b : "");
}
static int dur_find(const char *p)
{
    for (int i = 0; i < F->ndur; i++) if (!strcmp(F->dur[i].path, p)) return i;
    return -1;
}
static void dur_set(const char *p, int ino)
{
    int i = dur_find(p);
    if (i < 0) { if (F->ndur == NDENT) sim_violation("sim:simfs", "too many entries"); i = F->ndur++; snprintf(F->dur[i].path, PLEN, "%s", p); }
    F->dur[i].ino = ino;
}
static void dur_del(const char *p)
{
    int i = dur_find(p);
    if (i >= 0) F->dur[i] = F->dur[--F->ndur];
}
static void apply(int i)
{
    switch (F->pend[i].op) {
    case D_CREATE: dur_set(F->pend[i].a, F->pend[i].ino); break;
    case D_UNLINK: dur_del(F->pend[i].a); break;
    case D_RENAME: dur_del(F->pend[i].a); dur_set(F->pend[i].b, F->pend[i].ino); break;
    }
}
static void drop_pend(int i)
{
    memmove(&F->pend[i], &F->pend[i + 1], (F->npend - i - 1) * sizeof(F->pend[0]));
    F->npend--;
}
static bool in_dir(const char *p, const char *dir)
{
    const char *s = strrchr(p, '/');
    size_t n = s ? (size_t)(s - p) : 0;
    return strlen(dir) == n && !strncmp(p, dir, n);
}

/* }}} */
/* {{{ copies */

static int64_t fsize(int fd) { struct stat st; return RAW(SYS_fstat, fd, &st) < 0 ? -1 : st.st_size; }
static bool zeroes(const char *p, long n)
{
    return !n || (!*p && !memcmp(p, p + 1, n - 1));
}
/* copies to a file which is all zeroes there: what is zero is left as a hole */
static void copy_range(int from, int to, int64_t off, int64_t end)
{
    static char b[1 << 16];
    while (off < end) {
        int64_t d = RAW(SYS_lseek, from, off, SEEK_DATA), h;
        if (d < 0 || d >= end) return;
        h = RAW(SYS_lseek, from, d, SEEK_HOLE);
        if (h > end) h = end;
        while (d < h) {
            long n = h - d > (int64_t)sizeof(b) ? (long)sizeof(b) : h - d;
            n = RAW(SYS_pread64, from, b, n, d);
            if (n <= 0) return;
            if (!zeroes(b, n)) {
                for (long o = 0; o < n; o += 4096) {
                    long m = n - o < 4096 ? n - o : 4096;
                    if (!zeroes(b + o, m)) RAW(SYS_pwrite64, to, b + o, m, d + o);
                }
            }
            d += n;
        }
        off = h;
    }
}
static void make_durable(int i)
{
    char a[160], b[160];
    side(a, "ino", i); side(b, "dur", i);
    int from = RAW(SYS_open, a, O_RDONLY), to = RAW(SYS_open, b, O_RDWR | O_CREAT | O_TRUNC, 0600);
    int64_t sz = fsize(from);
    RAW(SYS_ftruncate, to, sz);
    copy_range(from, to, 0, sz);
    RAW(SYS_close, from); RAW(SYS_close, to);
    F->ino[i].synced = true;
}
static uint64_t mixr(uint64_t *x)
{
    *x ^= *x << 13; *x ^= *x >> 7; *x ^= *x << 17;
    return *x;
}
/* writes in to what is left of inode i */
static void left_of(int i, int to, unsigned which)
{
    char a[160], b[160];
    side(a, "ino", i); side(b, "dur", i);
    int cur = RAW(SYS_open, a, O_RDONLY), dur = F->ino[i].synced ? RAW(SYS_open, b, O_RDONLY) : -1;
    int64_t cs = fsize(cur), ds = dur >= 0 ? fsize(dur) : 0;
    unsigned l[4], n = 0;
    for (unsigned k = 1; k <= 8; k <<= 1) if (which & k) l[n++] = k;
    unsigned w = l[sim_choose(ST_DISK, n)];
    switch (w) {
    case SIMFS_KEEP:
        RAW(SYS_ftruncate, to, cs);
        copy_range(cur, to, 0, cs);
        break;
    case SIMFS_LOSE:
        RAW(SYS_ftruncate, to, ds);
        if (dur >= 0) copy_range(dur, to, 0, ds);
        break;
    case SIMFS_PREFIX: {
        /* the synced part as it is now, then a part of what was added */
        int64_t keep = cs;
        if (cs > ds) keep = cs - (int64_t)sim_choose(ST_DISK, (uint32_t)(cs - ds) + 1);
        RAW(SYS_ftruncate, to, keep);
        copy_range(cur, to, 0, keep);
        break;
    }
    default: {
        uint64_t x = sim_rand64(ST_DISK) | 1;
        int64_t sz = sim_choose(ST_DISK, 2) ? ds : cs, blk = 512;
        RAW(SYS_ftruncate, to, sz);
        if (dur >= 0) copy_range(dur, to, 0, sz < ds ? sz : ds);
        /* every sector which differs is old or new */
        for (int64_t o = 0; o < sz; ) {
            static char c[1 << 16], p[1 << 16];
            int64_t d = RAW(SYS_lseek, cur, o, SEEK_DATA), e;
            e = dur >= 0 ? RAW(SYS_lseek, dur, o, SEEK_DATA) : -1;
            if (d < 0 || (e >= 0 && e < d)) d = e;
            if (d < 0 || d >= sz) break;
            d -= d % blk;
            if (d < o) d = o;
            memset(c, 0, sizeof(c)); memset(p, 0, sizeof(p));
            long n = sz - d < (int64_t)sizeof(c) ? (long)(sz - d) : (long)sizeof(c);
            RAW(SYS_pread64, cur, c, n, d);
            if (dur >= 0) RAW(SYS_pread64, dur, p, n, d);
            for (long k = 0; k < n; k += blk) {
                long m = n - k < blk ? n - k : blk;
                if (memcmp(c + k, p + k, m) && mixr(&x) % 2)
                    RAW(SYS_pwrite64, to, c + k, m, d + k);
            }
            o = d + n;
        }
        break;
    }
    }
    RAW(SYS_close, cur);
    if (dur >= 0) RAW(SYS_close, dur);
}

void simfs_power_loss(unsigned which)
{
    /* metadata is journaled: a prefix of the pending operations survives */
    int keep = F->npend;
    char l[PLEN + 160];
    if (which != SIMFS_KEEP) keep = F->npend - sim_choose(ST_DISK, F->npend + 1);
    if (simfs->dir_reorder && which != SIMFS_KEEP && sim_choose(ST_DISK, 2)) {
        /* no journal: any subset of them */
        uint64_t x = sim_rand64(ST_DISK) | 1;
        uint32_t odds = 1 + sim_choose(ST_DISK, 8);
        for (int i = 0; i < F->npend; i++) {
            if (mixr(&x) % 9 < odds) apply(i); else keep = 0;
        }
    } else for (int i = 0; i < keep; i++) apply(i);
    if (keep < F->npend) sim_fault("lost-directory-update");
    snprintf(l, sizeof(l), "%.*snew", F->rootlen - 3, F->root);
    rm_tree(l); RAW(SYS_mkdir, l, 0700);
    for (int i = 0; i < F->ndur; i++) {
        snprintf(l, sizeof(l), "%.*snew/%d", F->rootlen - 3, F->root, i);
        int to = RAW(SYS_open, l, O_RDWR | O_CREAT | O_TRUNC, 0644);
        left_of(F->dur[i].ino, to, which);
        RAW(SYS_close, to);
    }
    /* the old directory disappears, but its subdirectories stay */
    for (;;) {
        bool any = false;
        char d[4][PLEN] = { "" };
        for (int lv = 0; lv < 1; lv++) {
            DIR *dir = opendir(F->root);
            struct dirent *e;
            while (dir && (e = readdir(dir))) {
                char p[512];
                if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
                snprintf(p, sizeof(p), "%s/%s", F->root, e->d_name);
                if (e->d_type == DT_DIR) rm_tree(p); else RAW(SYS_unlink, p);
            }
            if (dir) closedir(dir);
        }
        (void)d;
        if (!any) break;
    }
    for (int i = 0; i < F->nino; i++) {
        char a[160];
        side(a, "ino", i); RAW(SYS_unlink, a);
        side(a, "dur", i); RAW(SYS_unlink, a);
    }
    F->nino = 0; F->npend = 0;
    for (int i = 0; i < F->ndur; i++) {
        char dst[PLEN + 160];
        snprintf(l, sizeof(l), "%.*snew/%d", F->rootlen - 3, F->root, i);
        snprintf(dst, sizeof(dst), "%s/%s", F->root, F->dur[i].path);
        RAW(SYS_rename, l, dst);
        int k = ino_of(AT_FDCWD, dst, -1);
        F->dur[i].ino = k;
        if (k >= 0) make_durable(k);
    }
    for (int i = 0; i < F->ndur; i++)
        if (F->dur[i].ino < 0) F->dur[i--] = F->dur[--F->ndur];       /* its directory is gone */
}
int64_t simfs_size(const char *p)
{
    struct stat st;
    return RAW(SYS_newfstatat, AT_FDCWD, p, &st, 0) < 0 ? -1 : st.st_size;
}

/* }}} */
/* {{{ system calls */

static bool fault(uint32_t p, const char *kind, int err)
{
    if (!simfs || simfs->off || !p || !sim_chance(ST_FAULT, p, 1000)) return false;
    sim_fault(kind);
    if (sim_verbose) sim_event("%s", kind);
    if (err != EINTR && err != EAGAIN) simfs->failed++;
    errno = err;
    return true;
}
void (*simfs_tick)(void), (*simfs_on_rename)(void);
static void point(void)
{
    if (!simfs || simfs->off) return;
    if (simfs_tick) simfs_tick();
    simfs->calls++;
    if (simfs->crash_in > 0 && --simfs->crash_in == 0) sim_crash();
}

void simfs_point(void) { point(); }
bool simfs_fault(uint32_t p, const char *kind, int err) { return fault(p, kind, err); }

int __wrap_openat(int dfd, const char *path, int fl, ...)
{
    va_list ap;
    mode_t mode = 0;
    char b[PLEN];
    if (fl & (O_CREAT | O_TMPFILE)) { va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
    const char *p = norm(dfd, path, b);
    if (!p) return RAW(SYS_openat, dfd, path, fl, mode);
    point();
    if (fault(simfs->open_fail, "open-failure", sim_choose(ST_FAULT, 2) ? EMFILE : ENOSPC)) return -1;
    struct stat st;
    bool existed = RAW(SYS_newfstatat, dfd, path, &st, 0) == 0;
    int fd = RAW(SYS_openat, dfd, path, fl, mode);
    if (fd >= 0 && fd < 1024) {
        int i = ino_of(dfd, path, fd);
        track[fd] = i >= 0 ? 1 + ((fl & O_ACCMODE) != O_RDONLY) : 0;
        if (simfs && !simfs->off) simfs->opens++;
        if (!existed && i >= 0) pend(D_CREATE, p, NULL, i);
    }
    return fd;
}
int __wrap_open(const char *path, int fl, ...)
{
    va_list ap;
    mode_t mode = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
    return __wrap_openat(AT_FDCWD, path, fl, mode);
}
int __wrap_mkstemp(char *tpl)
{
    size_t n = strlen(tpl);
    for (int t = 0; t < 100; t++) {
        for (int i = 0; i < 6; i++) tpl[n - 6 + i] = 'a' + sim_choose(ST_MISC, 26);
        int fd = __wrap_openat(AT_FDCWD, tpl, O_RDWR | O_CREAT | O_EXCL, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    return -1;
}
int __wrap_renameat(int ad, const char *a, int bd, const char *b)
{
    char ab[PLEN], bb[PLEN];
    const char *pa = norm(ad, a, ab), *pb = norm(bd, b, bb);
    if (!pa || !pb) return RAW(SYS_renameat, ad, a, bd, b);
    point();
    if (fault(simfs->rename_fail, "rename-failure", EIO)) return -1;
    int i = ino_of(ad, a, -1);
    if (simfs_on_rename) simfs_on_rename();
    int r = RAW(SYS_renameat, ad, a, bd, b);
    if (r == 0 && i >= 0) pend(D_RENAME, pa, pb, i);
    return r;
}
int __wrap_rename(const char *a, const char *b) { return __wrap_renameat(AT_FDCWD, a, AT_FDCWD, b); }
int __wrap_unlinkat(int d, const char *a, int fl)
{
    char ab[PLEN];
    const char *pa = norm(d, a, ab);
    if (!pa) return RAW(SYS_unlinkat, d, a, fl);
    point();
    if (fault(simfs->unlink_fail, "unlink-failure", EIO)) { simfs->unlink_failed++; return -1; }
    int i = ino_of(d, a, -1);
    int r = RAW(SYS_unlinkat, d, a, fl);
    if (r == 0 && i >= 0) pend(D_UNLINK, pa, NULL, i);
    return r;
}
int __wrap_unlink(const char *a) { return __wrap_unlinkat(AT_FDCWD, a, 0); }
int __wrap_linkat(int ad, const char *a, int bd, const char *b, int fl)
{
    char bb[PLEN];
    const char *pb = norm(bd, b, bb);
    if (!pb) return RAW(SYS_linkat, ad, a, bd, b, fl);
    point();
    int i = ino_of(ad, a, -1);
    int r = RAW(SYS_linkat, ad, a, bd, b, fl);
    if (r == 0 && i >= 0) pend(D_CREATE, pb, NULL, i);
    return r;
}
static int do_sync(int fd)
{
    struct stat st;
    if (!F || RAW(SYS_fstat, fd, &st) < 0) return F ? -1 : 0;
    point();
    if (fault(simfs->eio_sync, "sync-failure", EIO)) return -1;
    if (S_ISDIR(st.st_mode)) {
        char b[PLEN];
        if (!norm(fd, "x", b)) return 0;
        b[strlen(b) - 1] = 0;
        if (b[0]) b[strlen(b) - 1] = 0;
        for (int i = 0; i < F->npend; ) {
            if (in_dir(F->pend[i].a, b)) { apply(i); drop_pend(i); } else i++;
        }
        return 0;
    }
    int k = ino_of(-1, NULL, fd);
    if (k < 0) return 0;
    make_durable(k);
    if (simfs->fsync_entries) {
        /* the journal is committed as a whole */
        for (int i = 0; i < F->npend; i++) apply(i);
        F->npend = 0;
    }
    return 0;
}
int __wrap_fsync(int fd) { return do_sync(fd); }
int __wrap_fdatasync(int fd) { return do_sync(fd); }
int __wrap_ftruncate(int fd, off_t len)
{
    if (F && fd < 1024 && track[fd]) {
        point();
        if (fault(simfs->trunc_fail, "truncate-failure", EIO)) return -1;
        if (fault(simfs->eintr, "truncate-eintr", EINTR)) return -1;
    }
    return RAW(SYS_ftruncate, fd, len);
}
/* a write; zeroes at the end of a file make holes in it */
static ssize_t raw_write(int fd, const char *b, size_t l, int64_t off)
{
    if (l >= (1 << 18) && !(RAW(SYS_fcntl, fd, F_GETFL) & O_APPEND)) {
        int64_t at = off >= 0 ? off : RAW(SYS_lseek, fd, 0, SEEK_CUR);
        if (at >= fsize(fd) && RAW(SYS_ftruncate, fd, at + l) >= 0) {
            for (size_t o = 0; o < l; o += 4096) {
                size_t m = l - o < 4096 ? l - o : 4096;
                if (!zeroes(b + o, m)) RAW(SYS_pwrite64, fd, b + o, m, at + o);
            }
            if (off < 0) RAW(SYS_lseek, fd, at + l, SEEK_SET);
            return l;
        }
    }
    return off >= 0 ? RAW(SYS_pwrite64, fd, b, l, off) : RAW(SYS_write, fd, b, l);
}
static ssize_t do_wr(int fd, const struct iovec *v, int n, off_t off)
{
    size_t tot = 0;
    for (int i = 0; i < n; i++) tot += v[i].iov_len;
    if (simfs->off || !tot) return n == 1 ? raw_write(fd, v->iov_base, v->iov_len, off) : off >= 0 ? RAW(SYS_pwritev, fd, v, n, off, 0) : RAW(SYS_writev, fd, v, n);
    if (simfs_tick) simfs_tick();
    simfs->calls++;
    bool crash = simfs->crash_in > 0 && --simfs->crash_in == 0;
    size_t lim = tot;
    if (!crash) {
        if (fault(simfs->eintr, "disk-write-eintr", EINTR)) return -1;
        if (fault(simfs->eagain, "disk-write-eagain", EAGAIN)) return -1;
        if (fault(simfs->eio_wr, "disk-write-eio", EIO)) return -1;
        if (fault(simfs->enospc, "disk-full-transient", ENOSPC)) return -1;
        if (simfs->limited) {
            if (simfs->space <= 0) { sim_fault("disk-full"); simfs->failed++; errno = ENOSPC; return -1; }
            if ((int64_t)lim > simfs->space) { lim = simfs->space; sim_fault("disk-full-short-write"); }
        }
        if (tot > 1 && simfs->short_wr && sim_chance(ST_FAULT, simfs->short_wr, 1000)) {
            size_t l = 1 + sim_choose(ST_FAULT, tot - 1);
            if (l < lim) lim = l;
            sim_fault("disk-short-write");
        }
    } else {
        lim = sim_choose(ST_FAULT, tot + 1);          /* torn by the crash */
        sim_fault("torn-write");
    }
    ssize_t done = 0;
    for (int i = 0; i < n && (size_t)done < lim; i++) {
        size_t l = v[i].iov_len;
        if (l > lim - done) l = lim - done;
        ssize_t r = l ? raw_write(fd, v[i].iov_base, l, off >= 0 ? off + done : -1) : 0;
        if (r < 0) return done ? done : -1;
        done += r;
        if ((size_t)r < l) break;
    }
    if (simfs->limited) simfs->space -= done;
    if (crash) sim_crash();
    return done;
}
int simfs_is(int fd);
int __wrap_fstat(int fd, struct stat *st)
{
    if (simfs_is(fd) && fault(simfs->stat_fail, "stat-failure", EIO)) return -1;
    return RAW(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
}
int simfs_is(int fd) { return F && fd >= 0 && fd < 1024 && track[fd]; }
ssize_t simfs_writev(int fd, const struct iovec *v, int n) { return do_wr(fd, v, n, -1); }
static ssize_t do_rd(int fd, const struct iovec *v, int n, off_t off)
{
    if (!simfs->off) {
        point();
        if (fault(simfs->eintr, "disk-read-eintr", EINTR)) return -1;
        if (fault(simfs->eagain, "disk-read-eagain", EAGAIN)) return -1;
        if (fault(simfs->eio_rd, "disk-read-eio", EIO)) return -1;
        if (simfs->short_rd && n && v[0].iov_len > 1 && sim_chance(ST_FAULT, simfs->short_rd, 1000)) {
            struct iovec s = { v[0].iov_base, 1 + sim_choose(ST_FAULT, v[0].iov_len - 1) };
            sim_fault("disk-short-read");
            return off >= 0 ? RAW(SYS_pread64, fd, s.iov_base, s.iov_len, off) : RAW(SYS_read, fd, s.iov_base, s.iov_len);
        }
    }
    return off >= 0 ? RAW(SYS_preadv, fd, v, n, off, 0) : RAW(SYS_readv, fd, v, n);
}
ssize_t simfs_readv(int fd, const struct iovec *v, int n) { return do_rd(fd, v, n, -1); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o)
{
    struct iovec v = { (void *)b, n };
    return simfs_is(fd) ? do_wr(fd, &v, 1, o) : RAW(SYS_pwrite64, fd, b, n, o);
}
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o)
{
    struct iovec v = { b, n };
    return simfs_is(fd) ? do_rd(fd, &v, 1, o) : RAW(SYS_pread64, fd, b, n, o);
}
int simfs_close(int fd)
{
    point();
    bool wr = track[fd] == 2;
    track[fd] = 0;
    RAW(SYS_close, fd);
    if (wr && fault(simfs->close_fail, "close-failure", EIO)) { simfs->close_failed++; return -1; }
    return 0;
}

/* }}} */
/* {{{ stdio: its calls are made inside the libc, so give it our own */

#define NFILE 64
static struct { FILE *f; int fd; } files[NFILE];
static ssize_t ck_read(void *c, char *b, size_t n) { struct iovec v = { b, n }; return do_rd((int)(intptr_t)c, &v, 1, -1); }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    size_t done = 0;                 /* the libc loops until an error */
    while (done < n) {
        struct iovec v = { (char *)b + done, n - done };
        ssize_t r = do_wr((int)(intptr_t)c, &v, 1, -1);
        if (r < 0) break;
        done += r;
    }
    return done;
}
static int ck_seek(void *c, off64_t *o, int wh)
{
    off_t r = RAW(SYS_lseek, (int)(intptr_t)c, *o, wh);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close(void *c)
{
    int fd = (int)(intptr_t)c;
    for (int i = 0; i < NFILE; i++) if (files[i].f && files[i].fd == fd) files[i].f = NULL;
    return simfs_close(fd);
}
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *path, const char *m)
{
    char b[PLEN];
    if (!norm(AT_FDCWD, path, b)) return __real_fopen(path, m);
    int fl = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (m[0] == 'w') fl |= O_CREAT | O_TRUNC;
    if (m[0] == 'a') fl |= O_CREAT | O_APPEND;
    int fd = __wrap_openat(AT_FDCWD, path, fl, 0644);
    if (fd < 0) return NULL;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *f = fopencookie((void *)(intptr_t)fd, m, io);
    for (int i = 0; i < NFILE; i++) if (!files[i].f) { files[i].f = f; files[i].fd = fd; return f; }
    sim_violation("sim:simfs", "too many streams");
}
int __real_fileno(FILE *f);
int __wrap_fileno(FILE *f)
{
    for (int i = 0; i < NFILE; i++) if (files[i].f == f) return files[i].fd;
    return __real_fileno(f);
}

/* }}} */
