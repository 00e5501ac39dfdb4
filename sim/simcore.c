/* Core of the simulator: decisions, recording, run server. Never instrumented. */
#define _GNU_SOURCE
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/syscall.h>

/* real versions of wrapped calls used by the runner */
#include "simraw.h"
#define RAW(n, ...)  raw_syscall(n, ##__VA_ARGS__)

#define TAPE_MAX   (1u << 18)
#define CNT_MAX    96
#define STATE_MAX  (1u << 14)
#define MSG_MAX    4096

typedef struct { char name[44]; uint32_t kind; uint64_t n; } cnt_t;

typedef struct {
    /* result of one run, written by the run, read by the worker */
    int      status;              /* 0 not finished, 1 ok, 2 violation, 3 known */
    char     cls[160];
    char     msg[MSG_MAX];
    uint64_t hash;
    uint64_t ops, steps;
    int64_t  simns;
    uint32_t nb_cnt;
    cnt_t    cnt[CNT_MAX];
    uint32_t nb_state;
    uint64_t state[STATE_MAX];
    uint64_t prng_[ST_MAX];       /* shared by all the processes of a run */
    uint32_t len[ST_MAX];
    uint32_t replay_len[ST_MAX];
    uint32_t tape[ST_MAX][TAPE_MAX];
} run_t;

#define DEDUP  (1u << 22)
typedef struct {
    volatile uint64_t next_run;
    volatile uint64_t runs, evals, ops, steps, crashed, known, inconclusive;
    volatile uint64_t recheck, recheck_bad;
    volatile int64_t  simns;
    volatile uint64_t nstates, nhist;
    volatile int      nviol;
    double   max_cpu; uint64_t max_idx;
    volatile int      lock;
    uint32_t nb_cnt;
    cnt_t    cnt[CNT_MAX];
    char     known_ids[16][64];
    uint64_t known_n[16];
    uint64_t states[DEDUP];
    uint64_t hists[DEDUP];
} glob_t;

static run_t  *run;
static glob_t *gl;
int sim_verbose;
int sim_tier;
const char *sim_prop = "";
int64_t sim_now_ns = 1000 * SIM_S;
int64_t sim_real_off_ns = 1700000000ll * SIM_S;
static int replaying;
#define prng  (run->prng_)
static int sim_in_run;
static char scratch_prop[64];
static pid_t run_pid;

static void wr(int fd, const char *s, size_t n)
{
    while (n) {
        long r = RAW(SYS_write, fd, s, n);
        if (r <= 0) return;
        s += r; n -= r;
    }
}
static int outfd = 1;

/* {{{ decisions */

static uint64_t splitmix(uint64_t *x)
{
    uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static void seed_streams(uint64_t seed, uint64_t idx)
{
    for (int i = 0; i < ST_MAX; i++) {
        uint64_t s = seed * 0x9e3779b97f4a7c15ull ^ (idx + 1) * 0xd1342543de82ef95ull
            ^ (uint64_t)(i + 1) * 0xaf251af3b0f025b5ull;
        splitmix(&s);
        prng[i] = s;
        run->len[i] = 0;
    }
}

static uint32_t tape(int st, uint32_t n, int64_t v)
{
    uint32_t pos = run->len[st];
    uint32_t res;

    if (n <= 1)
        return 0;
    if (replaying) {
        res = pos < run->replay_len[st] ? run->tape[st][pos] : 0;
        if (res >= n) res = n - 1;
        run->len[st] = pos + 1;
    } else {
        res = v >= 0 ? (uint32_t)v : (uint32_t)(((splitmix(&prng[st]) >> 32) * n) >> 32);
        if (pos < TAPE_MAX) {
            run->tape[st][pos] = res;
            run->len[st] = pos + 1;
        } else {
            sim_violation("livelock", "the run does not terminate (more than %u decisions)", TAPE_MAX);
        }
    }
    return res;
}

uint32_t sim_choose(int st, uint32_t n) { return tape(st, n, -1); }
uint32_t sim_range(int st, uint32_t lo, uint32_t hi) { return lo + tape(st, hi - lo + 1, -1); }
bool sim_chance(int st, uint32_t num, uint32_t den)
{
    if (!num) return false;
    if (replaying) return tape(st, 2, -1);
    return tape(st, 2, ((splitmix(&prng[st]) >> 32) % den) < num);
}
uint64_t sim_rand64(int st)
{
    uint64_t hi = tape(st, 0x80000000u, -1), lo = tape(st, 0x80000000u, -1);
    return hi << 32 | lo << 1;
}
bool sim_exhausted(int st) { return replaying && run->len[st] > run->replay_len[st]; }
bool sim_replaying(void) { return replaying; }

/* }}} */
/* {{{ recording */

void sim_hash(uint64_t v)
{
    uint64_t h = run->hash ^ v;
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    run->hash = h;
}

static void hash_bytes(const char *s, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)s[i]) * 1099511628211ull;
    sim_hash(h);
}

void sim_event(const char *fmt, ...)
{
    char buf[512];
    va_list ap;
    int n;

    if (!run) return;
    va_start(ap, fmt);
    n = vsnprintf(buf, sizeof(buf) - 1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof(buf) - 2) n = sizeof(buf) - 2;
    hash_bytes(buf, n);
    sim_hash(sim_now_ns);
    if (sim_verbose) {
        char l[640];
        int m = snprintf(l, sizeof(l), "[%lld.%06lld t%d] %s\n",
                         (long long)(sim_now_ns / SIM_S), (long long)(sim_now_ns % SIM_S / 1000),
                         sim_self(), buf);
        wr(outfd, l, m);
    }
}

static void cnt_add(cnt_t *c, uint32_t *nb, const char *name, uint32_t kind, uint64_t n)
{
    for (uint32_t i = 0; i < *nb; i++) {
        if (c[i].kind == kind && !strcmp(c[i].name, name)) { c[i].n += n; return; }
    }
    if (*nb < CNT_MAX) {
        snprintf(c[*nb].name, sizeof(c->name), "%s", name);
        c[*nb].kind = kind;
        c[*nb].n = n;
        (*nb)++;
    }
}
void sim_fault(const char *k)
{
    cnt_add(run->cnt, &run->nb_cnt, k, 0, 1);
    if (sim_verbose > 1) sim_event("FAULT %s", k);
}
void sim_probe(const char *k) { cnt_add(run->cnt, &run->nb_cnt, k, 1, 1); }
void sim_state(uint64_t h)
{
    if (run->nb_state < STATE_MAX)
        run->state[run->nb_state++] = h | 1;
}
void sim_count_op(void) { run->ops++; }

static _Noreturn void run_exit(int st)
{
    run->steps = sim_steps();
    run->simns = sim_now_ns - 1000 * SIM_S;
    run->status = st;
    RAW(SYS_exit_group, 0);
    for (;;) ;
}
void sim_end_run(void)
{
    if (RAW(SYS_getpid) != run_pid)
        RAW(SYS_exit_group, 0);
    run_exit(1);
}

void sim_violation(const char *cls, const char *fmt, ...)
{
    va_list ap;
    if (run->status == 0) {
        snprintf(run->cls, sizeof(run->cls), "%s", cls);
        va_start(ap, fmt);
        vsnprintf(run->msg, sizeof(run->msg), fmt, ap);
        va_end(ap);
        sim_event("VIOLATION %s: %.400s", run->cls, run->msg);
        run->steps = sim_steps();
        run->simns = sim_now_ns - 1000 * SIM_S;
        run->status = 2;
    }
    RAW(SYS_exit_group, 66);
    for (;;) ;
}
static char arg_known[512];
void sim_known_finding(const char *id)
{
    char pat[200];
    snprintf(pat, sizeof(pat), ",%s,", id);
    if (!strstr(arg_known, pat)) sim_violation(id, "%s", id);
    snprintf(run->cls, sizeof(run->cls), "%s", id);
    run_exit(3);
}

/* assertion failures and aborts of the code under test are violations */
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    char cls[160];
    const char *b = strrchr(f, '/');
    snprintf(cls, sizeof(cls), "assert:%s:%.60s:%.60s", b ? b + 1 : f, fn ? fn : "", e);
    sim_violation(cls, "assertion failed: %s (%s:%u, %s)", e, f, l, fn ? fn : "");
}

/* }}} */
/* {{{ event queue */

typedef struct { int64_t at; uint64_t seq; sim_cb_f *cb; void *a; uint64_t b; } ev_t;
static ev_t evq[8192];
static int nev;
static uint64_t evseq;
void sim_at(int64_t when, sim_cb_f *cb, void *a, uint64_t b)
{
    if (nev >= 8192) sim_violation("sim:event-queue-overflow", "too many simulated events");
    int i = nev++;
    ev_t e = { when, ++evseq, cb, a, b };
    while (i && (evq[(i - 1) / 2].at > e.at
                 || (evq[(i - 1) / 2].at == e.at && evq[(i - 1) / 2].seq > e.seq))) {
        evq[i] = evq[(i - 1) / 2];
        i = (i - 1) / 2;
    }
    evq[i] = e;
}
static ev_t ev_pop(void)
{
    ev_t top = evq[0], e = evq[--nev];
    int i = 0;
    for (;;) {
        int c = 2 * i + 1;
        if (c >= nev) break;
        if (c + 1 < nev && (evq[c + 1].at < evq[c].at
                            || (evq[c + 1].at == evq[c].at && evq[c + 1].seq < evq[c].seq)))
            c++;
        if (evq[c].at > e.at || (evq[c].at == e.at && evq[c].seq > e.seq)) break;
        evq[i] = evq[c];
        i = c;
    }
    evq[i] = e;
    return top;
}
bool sim_next_event(int64_t *when)
{
    if (!nev) return false;
    *when = evq[0].at;
    return true;
}
void sim_run_due(void)
{
    while (nev && evq[0].at <= sim_now_ns) {
        ev_t e = ev_pop();
        e.cb(e.a, e.b);
    }
}
void sim_advance_to(int64_t t)
{
    while (nev && evq[0].at <= t) {
        ev_t e = ev_pop();
        if (e.at > sim_now_ns) sim_now_ns = e.at;
        e.cb(e.a, e.b);
    }
    if (t > sim_now_ns) sim_now_ns = t;
}

/* }}} */
/* {{{ run server */

static uint64_t arg_seed = 1, arg_runs = 1000000000;
static double arg_time = 10;
static int arg_workers = 1, arg_maxviol = 8;
static char arg_out[256], arg_replay[256], arg_prop[64];
static int arg_serve, arg_determ;
static int errfd = -1;

static double wall(void)
{
    struct timespec ts;
    RAW(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

void sim_cpu_limit(int secs)
{
    struct itimerval it = { .it_value = { .tv_sec = secs } };
    RAW(SYS_setitimer, ITIMER_PROF, &it, NULL);
}

/* names the frames of the first stack of an ASan report; the simulated
 * process cannot do it itself, its descriptors are simulated */
static void symbolise(const char *rep, char *fn, size_t fnl, char *trace, size_t tl)
{
    char cmd[1024], l[256];
    int n = snprintf(cmd, sizeof(cmd), "llvm-symbolizer-18 -f -C --no-inlines --obj=/proc/%d/exe", (int)RAW(SYS_getpid)), k = 0;
    const char *p = rep;
    for (; k < 10; k++) {
        char pat[16];
        unsigned long pc;
        snprintf(pat, sizeof(pat), "#%d 0x", k);
        if (!(p = strstr(p, pat)) || sscanf(strchr(p, ' '), "%lx", &pc) != 1) break;
        n += snprintf(cmd + n, sizeof(cmd) - n, " %#lx", pc);
    }
    FILE *f = k ? popen(cmd, "r") : NULL;
    size_t t = 0;
    fn[0] = 0;
    while (f && fgets(l, sizeof(l), f)) {
        char file[256] = "";
        l[strcspn(l, "\n")] = 0;
        if (!l[0] || !fgets(file, sizeof(file), f)) continue;
        file[strcspn(file, "\n")] = 0;
        const char *b = strrchr(file, '/');
        if (!fn[0] && strcmp(l, "??") && strncmp(l, "__asan", 6) && strncmp(l, "__interceptor", 13) && strncmp(l, "__sanitizer", 11) && strcmp(l, "memcpy") && strcmp(l, "memset") && strcmp(l, "memmove") && strcmp(l, "free"))
            snprintf(fn, fnl, "%s", l);
        if (t < tl - 200) t += snprintf(trace + t, tl - t, "%s(%s) ", l, b ? b + 1 : file);
    }
    if (f) pclose(f);
}

/* {{{ incarnations: see simfs.h */

static struct incar { int64_t now, off; int how, code; } *incar;
static int incar_depth;
static _Noreturn void incar_leave(int how, int code)
{
    incar->now = sim_now_ns; incar->off = sim_real_off_ns;
    incar->how = how; incar->code = code;
    RAW(SYS_exit_group, 0);
    for (;;) ;
}
void (*sim_crash_hook)(void);         /* a background process does not crash alone */
void sim_own_run(void) { run_pid = RAW(SYS_getpid); }
void sim_crash(void)
{
    if (sim_crash_hook) sim_crash_hook();
    sim_fault("process-crash");
    sim_event("crash");
    incar_leave(1, 0);
}
void sim_proc_exit(int code) { incar_leave(2, code); }
int sim_incarnate(void (*fn)(void *), void *arg, int *code)
{
    int wst;
    if (!incar)
        incar = (void *)RAW(SYS_mmap, NULL, sizeof(*incar), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    incar->how = -1;
    pid_t pid = _Fork();
    if (pid < 0) sim_violation("sim:fork", "fork: %s", strerror(errno));
    if (pid == 0) {
        RAW(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0);
        run_pid = RAW(SYS_getpid);
        incar_depth++;
        sim_cpu_limit(20);
        fn(arg);
        incar_leave(0, 0);
    }
    while (RAW(SYS_wait4, pid, &wst, 0, NULL) < 0 && errno == EINTR) ;
    if (incar->how < 0 || wst) {
        /* ended (status set), or died: so do we */
        if (WIFSIGNALED(wst)) {
            struct sigaction sa = { .sa_handler = SIG_DFL };
            extern int __real_sigaction(int, const struct sigaction *, struct sigaction *);
            __real_sigaction(WTERMSIG(wst), &sa, NULL);
            pid_t me = RAW(SYS_getpid);
            RAW(SYS_kill, me, WTERMSIG(wst));
        }
        RAW(SYS_exit_group, WIFEXITED(wst) ? WEXITSTATUS(wst) : 99);
    }
    sim_now_ns = incar->now; sim_real_off_ns = incar->off;
    if (code) *code = incar->code;
    return incar->how;
}
__attribute__((weak)) void simfs_cleanup(void);

/* }}} */

static double run_cpu;
static void one_run(void)
{
    int wst;
    struct rusage ru = { 0 };
    run->status = 0;
    run->cls[0] = run->msg[0] = 0;
    run->hash = 0;
    run->ops = run->steps = 0;
    run->simns = 0;
    run->nb_cnt = run->nb_state = 0;
    if (errfd >= 0) { RAW(SYS_ftruncate, errfd, 0); RAW(SYS_lseek, errfd, 0, SEEK_SET); }

    pid_t pid = _Fork();
    if (pid == 0) {
        run_pid = RAW(SYS_getpid);
        RAW(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0);
        RAW(SYS_setpgid, 0, 0);
        if (errfd >= 0) { RAW(SYS_dup2, errfd, 2); if (!sim_verbose) RAW(SYS_dup2, errfd, 1); }
        sim_cpu_limit(20);
        sim_in_run = 1;
        sim_threads_start();
        harness_run();
        sim_end_run();
    }
    if (pid < 0) { perror("fork"); _exit(9); }
    while (RAW(SYS_wait4, pid, &wst, 0, &ru) < 0 && errno == EINTR) ;
    run_cpu = ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1e6;
    if (run->status == 0 || (run->status == 1 && wst != 0)) {
        /* crashed */
        char tail[3000];
        long n = 0;
        tail[0] = 0;
        if (errfd >= 0) {
            long sz = RAW(SYS_lseek, errfd, 0, SEEK_END);
            long off = sz > 20000 ? sz - (long)sizeof(tail) + 1 : 0;   /* reports start with the useful part */
            n = RAW(SYS_pread64, errfd, tail, sizeof(tail) - 1, off);
            if (n < 0) n = 0;
            tail[n] = 0;
        }
        char *as = strstr(tail, "ERROR: AddressSanitizer:"), trace[1500] = "";
        if (as) {
            char kind[64] = "", fn[64] = "";
            sscanf(as + 24, " %60s", kind);
            symbolise(as, fn, sizeof(fn), trace, sizeof(trace));
            snprintf(run->cls, sizeof(run->cls), "asan:%s:%s", kind, fn);
        } else if (WIFSIGNALED(wst)) {
            if (WTERMSIG(wst) == SIGPROF)
                snprintf(run->cls, sizeof(run->cls), "hang:cpu");
            else {
                /* panics say where they come from */
                char *f = WTERMSIG(wst) == SIGABRT ? strstr(tail, "fatal: ") : NULL, fn[64];
                if (f && sscanf(f, "fatal: %*[^:]:%*[0-9]:%60[^:]", fn) == 1)
                    snprintf(run->cls, sizeof(run->cls), "panic:%s", fn);
                else
                    snprintf(run->cls, sizeof(run->cls), "signal:%s", strsignal(WTERMSIG(wst)));
            }
        } else {
            snprintf(run->cls, sizeof(run->cls), "exit:%d", WEXITSTATUS(wst));
        }
        snprintf(run->msg, sizeof(run->msg), "run died (wait status %#x); %s stderr: %s", wst, trace, tail);
        run->status = 2;
    }
    /* kill whatever the run left behind in its process group */
    RAW(SYS_kill, -pid, SIGKILL);
    while (RAW(SYS_wait4, -1, &wst, WNOHANG, NULL) > 0) ;
    if (simfs_cleanup) simfs_cleanup();
}

static void save_tape(const char *path, uint64_t idx)
{
    static char buf[1 << 16];
    int fd = RAW(SYS_open, path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    int n = snprintf(buf, sizeof(buf), "property %s\nharness %s\nseed %llu run %llu\nclass %s\nhash %016llx\n",
                     arg_prop, harness_name, (unsigned long long)arg_seed, (unsigned long long)idx, run->cls,
                     (unsigned long long)run->hash);
    wr(fd, buf, n);
    for (int s = 0; s < ST_MAX; s++) {
        uint32_t len = run->len[s];
        if (replaying && len > run->replay_len[s]) len = run->replay_len[s];
        n = snprintf(buf, sizeof(buf), "stream %d %u", s, len);
        for (uint32_t i = 0; i < len; i++) {
            n += snprintf(buf + n, sizeof(buf) - n, " %u", run->tape[s][i]);
            if (n > (int)sizeof(buf) - 64) { wr(fd, buf, n); n = 0; }
        }
        buf[n++] = '\n';
        wr(fd, buf, n);
    }
    n = snprintf(buf, sizeof(buf), "message %s\n", run->msg);
    for (int i = 8; i < n - 1; i++) if (buf[i] == '\n') buf[i] = '|';
    wr(fd, buf, n);
    RAW(SYS_close, fd);
}

static char filebuf[8 << 20];
static int load_tape(const char *path)
{
    int fd = RAW(SYS_open, path, O_RDONLY);
    long n = 0, r;
    if (fd < 0) return -1;
    while (n < (long)sizeof(filebuf) - 1 && (r = RAW(SYS_read, fd, filebuf + n, sizeof(filebuf) - 1 - n)) > 0) n += r;
    RAW(SYS_close, fd);
    filebuf[n] = 0;
    for (int s = 0; s < ST_MAX; s++) run->replay_len[s] = run->len[s] = 0;
    char *p = filebuf;
    while (p && *p) {
        char *e = strchr(p, '\n');
        if (!strncmp(p, "stream ", 7)) {
            char *c = p + 7;
            long s = strtol(c, &c, 10), len = strtol(c, &c, 10);
            if (s < 0 || s >= ST_MAX || len > TAPE_MAX) return -1;
            for (long i = 0; i < len; i++) run->tape[s][i] = strtoul(c, &c, 10);
            run->replay_len[s] = len;
        }
        p = e ? e + 1 : NULL;
    }
    return 0;
}

static int jesc(char *d, int max, const char *s)
{
    int n = 0;
    for (; *s && n < max - 8; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { d[n++] = '\\'; d[n++] = c; }
        else if (c < 32 || c > 126) n += sprintf(d + n, "\\u%04x", c);
        else d[n++] = c;
    }
    d[n] = 0;
    return n;
}

static void print_result(void)
{
    static char b[1 << 15], e[1 << 14];
    int n;
    jesc(e, 8000, run->msg);
    n = snprintf(b, sizeof(b), "{\"status\": %d, \"cls\": \"", run->status);
    n += jesc(b + n, 600, run->cls);
    n += snprintf(b + n, sizeof(b) - n, "\", \"hash\": \"%016llx\", \"steps\": %llu, \"ops\": %llu, \"simns\": %lld, \"len\": [",
                  (unsigned long long)run->hash, (unsigned long long)run->steps,
                  (unsigned long long)run->ops, (long long)run->simns);
    for (int i = 0; i < ST_MAX; i++) n += snprintf(b + n, sizeof(b) - n, "%s%u", i ? "," : "", run->len[i]);
    n += snprintf(b + n, sizeof(b) - n, "], \"msg\": \"%s\"}\n", e);
    wr(outfd, b, n);
}

static void glock(void) { while (__sync_lock_test_and_set(&gl->lock, 1)) RAW(SYS_sched_yield); }
static void gunlock(void) { __sync_lock_release(&gl->lock); }
static int dedup(uint64_t *t, uint64_t h)
{
    uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 42;
    for (int k = 0; k < 64; k++, i = (i + 1) & (DEDUP - 1)) {
        if (t[i] == h) return 0;
        if (!t[i]) { t[i] = h; return 1; }
    }
    return 0;
}

static void worker(int w)
{
    double end = wall() + arg_time;
    char path[512];
    cpu_set_t cs;
    int ncpu = RAW(SYS_sched_getaffinity, 0, sizeof(cs), &cs) > 0 ? CPU_COUNT(&cs) : 1;
    if (ncpu > 1) {
        int k = w % ncpu;
        for (int c = 0; c < CPU_SETSIZE; c++) {
            if (CPU_ISSET(c, &cs) && k-- == 0) {
                CPU_ZERO(&cs); CPU_SET(c, &cs);
                RAW(SYS_sched_setaffinity, 0, sizeof(cs), &cs);
                break;
            }
        }
    }
    errfd = RAW(SYS_memfd_create, "err", 0);
    run = (void *)RAW(SYS_mmap, NULL, sizeof(*run), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (;;) {
        uint64_t idx = __sync_fetch_and_add(&gl->next_run, 1);
        if (idx >= arg_runs || wall() > end || gl->nviol >= arg_maxviol) break;
        seed_streams(arg_seed, idx);
        one_run();
        uint64_t h1 = run->hash;
        int st1 = run->status;
        bool re = arg_determ ? true : idx % 64 == 5;
        if (re && st1 != 2 && st1 != 4) {
            /* determinism sample: same decisions, same history */
            seed_streams(arg_seed, idx);
            one_run();
            __sync_fetch_and_add(&gl->recheck, 1);
            if (run->hash != h1 || run->status != st1) {
                __sync_fetch_and_add(&gl->recheck_bad, 1);
                snprintf(path, sizeof(path), "%s/nondet.%d", arg_out, (int)(gl->recheck_bad));
                save_tape(path, idx);
            }
        }
        __sync_fetch_and_add(&gl->runs, 1);
        if (run->status == 4) { __sync_fetch_and_add(&gl->inconclusive, 1); continue; }
        glock();
        if (run_cpu > gl->max_cpu) { gl->max_cpu = run_cpu; gl->max_idx = idx; }
        gl->ops += run->ops; gl->steps += run->steps; gl->simns += run->simns;
        for (uint32_t i = 0; i < run->nb_cnt; i++)
            cnt_add(gl->cnt, &gl->nb_cnt, run->cnt[i].name, run->cnt[i].kind, run->cnt[i].n);
        for (uint32_t i = 0; i < run->nb_state; i++) gl->nstates += dedup(gl->states, run->state[i]);
        gl->nhist += dedup(gl->hists, run->hash | 1);
        if (run->status == 3) {
            gl->known++;
            for (int i = 0; i < 16; i++) {
                if (!gl->known_ids[i][0] || !strcmp(gl->known_ids[i], run->cls)) {
                    snprintf(gl->known_ids[i], 64, "%s", run->cls);
                    gl->known_n[i]++;
                    break;
                }
            }
        }
        int nv = 0;
        if (run->status == 2) nv = ++gl->nviol;
        gunlock();
        if (nv && nv <= arg_maxviol) {
            snprintf(path, sizeof(path), "%s/viol.%d", arg_out, nv);
            save_tape(path, idx);
        }
    }
    _exit(0);
}

static void print_global(double dt)
{
    static char b[1 << 16];
    int n = snprintf(b, sizeof(b),
        "{\"runs\": %llu, \"ops\": %llu, \"steps\": %llu, \"simns\": %lld, \"states\": %llu, \"histories\": %llu, "
        "\"violations\": %d, \"known\": %llu, \"inconclusive\": %llu, \"recheck\": %llu, \"recheck_bad\": %llu, \"wall\": %.3f, \"max_cpu\": %.3f, \"max_cpu_run\": %llu, \"faults\": {",
        (unsigned long long)gl->runs, (unsigned long long)gl->ops, (unsigned long long)gl->steps,
        (long long)gl->simns, (unsigned long long)gl->nstates, (unsigned long long)gl->nhist, gl->nviol,
        (unsigned long long)gl->known, (unsigned long long)gl->inconclusive,
        (unsigned long long)gl->recheck, (unsigned long long)gl->recheck_bad, dt, gl->max_cpu, (unsigned long long)gl->max_idx);
    for (int k = 0; k < 2; k++) {
        int first = 1;
        if (k) n += snprintf(b + n, sizeof(b) - n, "}, \"probes\": {");
        for (uint32_t i = 0; i < gl->nb_cnt; i++) {
            if ((int)gl->cnt[i].kind != k) continue;
            n += snprintf(b + n, sizeof(b) - n, "%s\"%s\": %llu", first ? "" : ", ", gl->cnt[i].name,
                          (unsigned long long)gl->cnt[i].n);
            first = 0;
        }
    }
    n += snprintf(b + n, sizeof(b) - n, "}, \"known_ids\": {");
    for (int i = 0; i < 16 && gl->known_ids[i][0]; i++)
        n += snprintf(b + n, sizeof(b) - n, "%s\"%s\": %llu", i ? ", " : "", gl->known_ids[i],
                      (unsigned long long)gl->known_n[i]);
    n += snprintf(b + n, sizeof(b) - n, "}}\n");
    wr(outfd, b, n);
}

static const char *fixed_env[] = {
    "PATH=/usr/bin:/bin", "TZ=UTC", "LANG=C", "LC_ALL=C", "HOME=/nonexistent",
    "THR_MAX_PARALLELISM=4", "SIM_STAGE=2",
    "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=67:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=4:print_legend=0:symbolize=0:detect_odr_violation=0",
    NULL
};
#define ARGFD 900

int main(int argc, char **argv)
{
    if (!getenv("SIM_STAGE") || strcmp(getenv("SIM_STAGE"), "2")) {
        /* normalise everything the address space depends on, then re-exec */
        personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
        struct rlimit rl = { 8 << 20, 8 << 20 };
        setrlimit(RLIMIT_STACK, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        int fd = RAW(SYS_memfd_create, "args", 0);
        for (int i = 1; i < argc; i++) wr(fd, argv[i], strlen(argv[i]) + 1);
        RAW(SYS_dup2, fd, ARGFD);
        RAW(SYS_close, fd);
        int exe = RAW(SYS_open, "/proc/self/exe", O_RDONLY | O_CLOEXEC);
        char *av[] = { (char *)"sim", NULL };
        RAW(SYS_execveat, exe, "", av, fixed_env, AT_EMPTY_PATH);
        perror("execveat");
        return 9;
    }
    static char args[8192];
    static char *av[64];
    int ac = 0;
    long n = RAW(SYS_pread64, ARGFD, args, sizeof(args) - 1, 0);
    RAW(SYS_close, ARGFD);
    for (long i = 0; i < n && ac < 63; i += strlen(args + i) + 1) av[ac++] = args + i;
    strcpy(arg_out, "/tmp");
    for (int i = 0; i < ac; i++) {
        const char *a = av[i], *v = i + 1 < ac ? av[i + 1] : "";
        if (!strcmp(a, "--seed")) arg_seed = strtoull(v, NULL, 0), i++;
        else if (!strcmp(a, "--runs")) arg_runs = strtoull(v, NULL, 0), i++;
        else if (!strcmp(a, "--time")) arg_time = atof(v), i++;
        else if (!strcmp(a, "--workers")) arg_workers = atoi(v), i++;
        else if (!strcmp(a, "--maxviol")) arg_maxviol = atoi(v), i++;
        else if (!strcmp(a, "--out")) snprintf(arg_out, sizeof(arg_out), "%s", v), i++;
        else if (!strcmp(a, "--prop")) snprintf(arg_prop, sizeof(arg_prop), "%s", v), i++;
        else if (!strcmp(a, "--replay")) snprintf(arg_replay, sizeof(arg_replay), "%s", v), i++;
        else if (!strcmp(a, "--known")) snprintf(arg_known, sizeof(arg_known), ",%s,", v), i++;
        else if (!strcmp(a, "--serve")) arg_serve = 1;
        else if (!strcmp(a, "--determ")) arg_determ = 1;
        else if (!strcmp(a, "--thorough")) sim_tier = 1;
        else if (!strcmp(a, "-v")) sim_verbose++;
        else { fprintf(stderr, "bad arg %s\n", a); return 9; }
    }
    snprintf(scratch_prop, sizeof(scratch_prop), "%s", arg_prop);
    sim_prop = scratch_prop;
    RAW(SYS_prctl, PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    gl = (void *)RAW(SYS_mmap, NULL, sizeof(*gl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    harness_init();
    outfd = RAW(SYS_dup, 1);
    if (arg_replay[0] || arg_serve) {
        run = (void *)RAW(SYS_mmap, NULL, sizeof(*run), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        replaying = 1;
        errfd = RAW(SYS_memfd_create, "err", 0);
        if (arg_replay[0]) {
            if (load_tape(arg_replay) < 0) { fprintf(stderr, "cannot load %s\n", arg_replay); return 9; }
            one_run();
            print_result();
            return run->status == 2 ? 1 : 0;
        }
        static char line[512];
        int pos = 0;
        while (RAW(SYS_read, 0, line + pos, 1) == 1) {
            if (line[pos] != '\n') { if (pos < 510) pos++; continue; }
            line[pos] = 0; pos = 0;
            if (load_tape(line) < 0) { wr(outfd, "{}\n", 3); continue; }
            one_run();
            print_result();
        }
        return 0;
    }
    double t0 = wall();
    for (int w = 0; w < arg_workers; w++) {
        if (_Fork() == 0) {
            RAW(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0);
            worker(w);
        }
    }
    int st;
    while (RAW(SYS_wait4, -1, &st, 0, NULL) > 0 || errno == EINTR) ;
    print_global(wall() - t0);
    return gl->nviol ? 1 : 0;
}

/* }}} */
