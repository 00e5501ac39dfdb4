/* C20: loggers under threads. */
#include "hthr.h"
#include <lib-common/log.h>
#include <lib-common/log-iop.h>
#undef snprintf                         /* of the libc: not a scheduling point */
#undef sprintf
const char *harness_name = "h_log";

#define MAXL 7                          /* 0 is the root */
#define MAXVER 40
#define MAXT 6
#define MAXMSG 24
typedef struct mlog_t { int parent, dflt; unsigned dflags; bool lazy; char name[12], full[64]; logger_t *l; bool known; } mlog_t;
typedef struct def_t { int level; unsigned flags; } def_t;      /* level -3: not defined */
typedef struct ver_t { def_t d[MAXL]; uint64_t s, e; } ver_t;
typedef struct msg_t { int level, lg; bool handled, optional; char txt[160]; } msg_t;
typedef struct frame_t { bool use_handler; int level; msg_t m[MAXMSG]; int n; bool full; } frame_t;
typedef struct tctx_t { msg_t got[MAXMSG]; int ngot; bool silent[MAXMSG]; char lname[MAXMSG][64]; frame_t fr[4]; int nfr; logger_t *priv; int priv_parent; char priv_name[16]; int count; } tctx_t;
static mlog_t lg[MAXL]; static int nlg, nthr, ops_per, ncfg;
static ver_t ver[MAXVER]; static int nver;
static tctx_t tc[MAXT];
static __thread int me; static bool with_priv;
static uint64_t seq, hist;

ORACLE static uint32_t rnd(uint32_t n) { return sim_choose(ST_OPS, n); }
ORACLE static void o_pause(void) { uint32_t r = rnd(5); if (r == 1) sim_sleep_until(sim_now_ns + sim_range(ST_OPS, 1, 20) * SIM_MS); else if (r == 2) sim_yield(); }
ORACLE static uint64_t o_seq(void) { return ++seq; }

/* {{{ model */
/* lg: index, or MAXL for a private logger below parent pp */
ORACLE static int eff(const ver_t *v, int i, bool *spread)
{
    const mlog_t *m = &lg[i]; const def_t *d = &v->d[i];
    bool psp; int pl;
    if (d->level >= 0) { *spread = d->flags & LOG_RECURSIVE; return d->level; }
    if (i == 0) { *spread = false; return m->dflt; }
    pl = eff(v, m->parent, &psp);
    if (psp) { *spread = true; return pl; }
    *spread = false;
    return m->dflt == LOG_INHERITS ? pl : m->dflt;
}
ORACLE static int efflevel(const ver_t *v, int i, int pp) { bool s; int l = eff(v, i == MAXL ? pp : i, &s); if (i == MAXL && !s && tc[me].priv) l = tc[me].priv->default_level == LOG_INHERITS ? l : tc[me].priv->default_level; return l; }
ORACLE static bool effsilent(const ver_t *v, int i) { if (i == MAXL) return false; return (v->d[i].level >= 0 ? v->d[i].flags : lg[i].dflags) & LOG_SILENT; }
ORACLE static bool cand(int v, uint64_t s) { return v == nver - 1 || ver[v + 1].e > s; }
/* what the configurations in force since s say: bit 0 may be off, bit 1 may be on */
ORACLE static int may(int i, int pp, int level, uint64_t s) { int r = 0; for (int v = 0; v < nver; v++) if (cand(v, s)) r |= MAX(efflevel(&ver[v], i, pp), LOG_CRIT) >= level ? 2 : 1; return r; }
ORACLE static void o_cfg_start(int i, int level, unsigned flags) { ver_t *v; if (nver == MAXVER) sim_end_run(); v = &ver[nver]; *v = ver[nver - 1]; v->s = ++seq; v->e = UINT64_MAX; v->d[i] = (def_t){ level, flags }; nver++; sim_event("set %s level %d flags %x", lg[i].full, level, flags); }
ORACLE static void o_cfg_done(int i) { ver[nver - 1].e = ++seq; sim_count_op(); hist = hist * 31 + i; }
ORACLE static void o_got(const log_ctx_t *c, const char *txt, int len)
{
    tctx_t *t = &tc[me]; msg_t *m;
    if (t->ngot == MAXMSG) sim_violation("log:extra", "more messages than lines logged");
    m = &t->got[t->ngot];
    m->level = c->level; t->silent[t->ngot] = c->is_silent;
    snprintf(m->txt, sizeof(m->txt), "%s", txt);
    snprintf(t->lname[t->ngot], 64, "%.*s", c->logger_name.len, c->logger_name.s);
    t->ngot++;
}
static void handler(const log_ctx_t *ctx, const char *fmt, va_list va)
{
    char buf[256];
    int n = vsnprintf(buf, sizeof(buf), fmt, va);
    o_got(ctx, buf, n);
}
ORACLE static void o_begin(void) { tc[me].ngot = 0; }
ORACLE static const char *fullname(int i) { static char b[96]; if (i < MAXL) return lg[i].full; if (tc[me].priv_parent) snprintf(b, 96, "%s/%s", lg[tc[me].priv_parent].full, tc[me].priv_name); else snprintf(b, 96, "%s", tc[me].priv_name); return b; }
/* the lines of one call: all or none of them */
ORACLE static void o_logged(int i, int pp, int level, uint64_t s, const char lines[][160], int nl)
{
    tctx_t *t = &tc[me]; int c = may(i, pp, level, s);
    frame_t *f = t->nfr ? &t->fr[t->nfr - 1] : NULL;
    bool to_handler = !f || (f->use_handler && level <= f->level), to_buf = f && level <= f->level;
    bool judge_handler = !f || level <= f->level || !f->use_handler;
    bool on;
    if (t->ngot && !to_handler && judge_handler) sim_violation("log:leaked", "a message of %s reached the handler while buffered", fullname(i));
    if (t->ngot && !(c & 2)) sim_violation("log:unwanted", "a message of level %d of %s was logged while its level was lower all along", level, fullname(i));
    if (!t->ngot && c == 2 && to_handler && nl) sim_violation("log:lost", "a message of level %d of %s was not logged while its level allowed it all along", level, fullname(i));
    if (t->ngot && t->ngot != nl) sim_violation("log:lines", "%d lines of %s logged out of %d", t->ngot, fullname(i), nl);
    for (int k = 0; k < t->ngot; k++) {
        bool ok = false;
        if (strcmp(t->got[k].txt, lines[k])) sim_violation("log:text", "`%s` was logged instead of `%s`", t->got[k].txt, lines[k]);
        if (t->got[k].level != level) sim_violation("log:ctx", "level %d instead of %d", t->got[k].level, level);
        if (strcmp(t->lname[k], fullname(i))) sim_violation("log:ctx", "logger name %s instead of %s", t->lname[k], fullname(i));
        for (int v = 0; v < nver && !ok; v++) ok = cand(v, s) && effsilent(&ver[v], i) == t->silent[k];
        if (!ok) sim_violation("log:silent", "a message of %s is %ssilent while the logger never was", fullname(i), t->silent[k] ? "" : "not ");
    }
    on = to_handler ? t->ngot > 0 : c == 2;
    if (to_buf && (on || (!to_handler && (c & 2)))) {
        for (int k = 0; k < nl; k++) {
            if (f->n == MAXMSG) { f->full = true; break; }
            f->m[f->n] = (msg_t){ .level = level, .lg = i, .optional = !on };
            snprintf(f->m[f->n].txt, 160, "%s", lines[k]);
            f->n++;
        }
    }
    sim_count_op();
    hist = hist * 37 + t->ngot * 8 + i;
    sim_event("%d line(s) of %s level %d: %d logged", nl, fullname(i), level, t->ngot);
}
ORACLE static void o_level(int i, int pp, uint64_t s, int got)
{
    for (int v = 0; v < nver; v++) if (cand(v, s) && MAX(efflevel(&ver[v], i, pp), LOG_CRIT) == got) return;
    sim_violation("log:level", "the level of %s is %d, which no configuration in force gives", fullname(i), got);
}
ORACLE static void o_stopped(const qv_t(log_buffer) *q)
{
    tctx_t *t = &tc[me]; frame_t *f = &t->fr[--t->nfr]; int j = 0;
    if (!q) sim_violation("log:buffer", "no buffer");
    if (f->full) return;
    /* optional ones may have been logged or not */
    for (int k = 0; k < q->len; k++) {
        const log_buffer_t *b = &q->tab[k];
        while (j < f->n && f->m[j].optional && (f->m[j].level != b->ctx.level || b->msg.len != (int)strlen(f->m[j].txt) || memcmp(b->msg.s, f->m[j].txt, b->msg.len))) j++;
        if (j >= f->n) sim_violation("log:buffer-extra", "buffered message `%.*s` was not logged in this buffer", b->msg.len, b->msg.s);
        if (f->m[j].level != b->ctx.level || b->msg.len != (int)strlen(f->m[j].txt) || memcmp(b->msg.s, f->m[j].txt, b->msg.len))
            sim_violation("log:buffer-text", "buffered message `%.*s` instead of `%s`", b->msg.len, b->msg.s, f->m[j].txt);
        j++;
    }
    for (; j < f->n; j++) if (!f->m[j].optional) sim_violation("log:buffer-lost", "`%s` is not in the buffer", f->m[j].txt);
    sim_count_op();
    sim_event("buffer of %d", q->len);
}
ORACLE static void o_started(bool h, int level) { tctx_t *t = &tc[me]; frame_t *f = &t->fr[t->nfr]; f->use_handler = h && (!t->nfr || t->fr[t->nfr - 1].use_handler); f->level = level; f->n = 0; f->full = false; t->nfr++; }
ORACLE static int o_nfr(void) { return tc[me].nfr; }
ORACLE static logger_t *o_logger(int i) { return i == MAXL ? tc[me].priv : lg[i].l; }
ORACLE static int o_pick(void) { if (tc[me].priv && rnd(3) == 1) return MAXL; return rnd(nlg); }
ORACLE static void o_text(char *out) { tctx_t *t = &tc[me]; int n = sprintf(out, "t%d.%d ", me, t->count++); int l = rnd(3) == 1 ? rnd(120) : rnd(6); for (int i = 0; i < l; i++) out[n++] = " ab%c{}"[rnd(7)]; out[n] = 0; }
ORACLE static void o_known(bool *k) { for (int i = 0; i < nlg; i++) k[i] = lg[i].known; }
ORACLE static void o_know(int i) { while (i > 0 && i < MAXL && !lg[i].known) { lg[i].known = true; i = lg[i].parent; } }
/* }}} */
static void log_op(void)
{
    char ln[4][160]; int i = o_pick(); logger_t *l = o_logger(i); int level = LOG_ERR + rnd(LOG_DEBUG - LOG_ERR + 1); uint64_t s; int pp = tc[me].priv_parent, res;
    if (rnd(4) != 1) {
        o_text(ln[0]); o_begin(); s = o_seq();
        switch (rnd(3)) {
          case 0: res = logger_log(l, level, "%s", ln[0]); break;
          case 1: level = LOG_ERR; res = logger_error(l, "%s", ln[0]); break;
          default: level = LOG_INFO; res = logger_info(l, "%s", ln[0]); break;
        }
        o_logged(i, pp, level, s, ln, 1);
        if ((res < 0) != (level <= LOG_WARNING)) sim_violation("log:result", "logging at level %d returned %d", level, res);
    } else {
        int nl = 1 + rnd(3); logger_t *x;
        for (int k = 0; k < nl; k++) o_text(ln[k]);
        o_begin(); s = o_seq();
        x = __logger_log_start(l, level,);
        for (int k = 0; k < nl; k++) {
            int cut = rnd(strlen(ln[k]) + 1);
            logger_cont("%.*s", cut, ln[k]);
            if (rnd(2)) o_pause();
            logger_cont(k < nl - 1 ? "%s\n" : "%s", ln[k] + cut);
        }
        logger_end(x);
        o_logged(i, pp, level, s, ln, nl);
    }
}
static void level_op(void)
{
    int i = o_pick(); logger_t *l = o_logger(i); uint64_t s = o_seq(); int r = logger_get_level(l);
    o_level(i, tc[me].priv_parent, s, r);
    o_know(i);
}
/* the list of loggers is a picture of one configuration */
ORACLE static void o_listed(const core__logger_configuration__t *c, int n, uint64_t s, const bool *known)
{
    int at[MAXL];
    for (int i = 0; i < nlg; i++) {
        at[i] = -1;
        for (int k = 0; k < n; k++) {
            if ((int)strlen(lg[i].full) != c[k].full_name.len || memcmp(lg[i].full, c[k].full_name.s, c[k].full_name.len)) continue;
            if (at[i] >= 0) sim_violation("log:list-twice", "%s is listed twice", lg[i].full);
            at[i] = k;
        }
        if (at[i] < 0 && known[i]) sim_violation("log:list-missing", "%s is not listed", lg[i].full);
    }
    for (int v = 0; v < nver; v++) {
        bool ok = cand(v, s);
        for (int i = 0; ok && i < nlg; i++) {
            if (at[i] < 0) continue;
            ok = c[at[i]].level == MAX(efflevel(&ver[v], i, 0), LOG_CRIT) && !!c[at[i]].is_silent == effsilent(&ver[v], i);
        }
        if (ok) { sim_count_op(); return; }
    }
    sim_violation("log:list", "the levels listed together match none of the configurations in force");
}
static void list_op(void)
{
    qv_t(logger_conf) q; bool known[MAXL]; uint64_t s;
    qv_init(&q);
    o_known(known); s = o_seq();
    logger_get_all_configurations(LSTR_NULL_V, &q);
    o_listed(q.tab, q.len, s, known);
    qv_wipe(&q);
}
static void buffer_op(void)
{
    int n = o_nfr();
    if (n && (n == 3 || rnd(2))) o_stopped(log_stop_buffering());
    else if (rnd(3) == 1) { int lv = LOG_ERR + rnd(6); bool h = rnd(2); log_start_buffering_filter(h, lv); o_started(h, lv); }
    else { bool h = rnd(2); log_start_buffering(h); o_started(h, INT32_MAX); }
}
static void priv_op(void)
{
    tctx_t *t = &tc[me];
    if (!with_priv) { list_op(); return; }
    if (t->priv) { logger_delete(&t->priv); return; }
    t->priv_parent = rnd(nlg);
    snprintf(t->priv_name, 16, "p%d", me);
    t->priv = logger_new(t->priv_parent || rnd(2) ? lg[t->priv_parent].l : NULL, LSTR(t->priv_name), rnd(2) ? LOG_INHERITS : LOG_ERR + rnd(5), 0);
}
static void *worker(void *arg)
{
    me = (int)(intptr_t)arg;
    for (int i = 0; i < ops_per; i++) {
        switch (rnd(8)) {
          case 1: level_op(); break;
          case 2: buffer_op(); break;
          case 3: priv_op(); break;
          default: log_op(); break;
        }
        o_pause();
    }
    while (o_nfr()) o_stopped(log_stop_buffering());
    if (tc[me].priv) logger_delete(&tc[me].priv);
    return NULL;
}
static void cfg_op(void)
{
    int i = rnd(nlg), level; unsigned flags = 0;
    if (rnd(3) == 1) {
        o_cfg_start(i, LOG_UNDEFINED, 0);
        logger_reset_level(LSTR(lg[i].full));
    } else {
        level = LOG_CRIT + rnd(LOG_TRACE + 1 - LOG_CRIT + 1);
        if (rnd(3) == 1) flags |= LOG_RECURSIVE;
        if (rnd(4) == 1) flags |= LOG_SILENT;
        o_cfg_start(i, level, flags);
        logger_set_level(LSTR(lg[i].full), level, flags);
    }
    /* others are told once it is over: stores are visible by then */
    atomic_thread_fence(memory_order_seq_cst);
    o_cfg_done(i);
}
static void *configurer(void *arg)
{
    for (int i = 0; i < ncfg; i++) { cfg_op(); o_pause(); }
    return NULL;
}
static logger_t *mk_static(int i)
{
    mlog_t *m = &lg[i];
    logger_t *l = p_new(logger_t, 1);
    l->is_static = true; l->parent = m->parent || sim_choose(ST_CFG, 2) ? lg[m->parent].l : NULL; l->name = LSTR(m->name);
    l->level = l->defined_level = LOG_UNDEFINED; l->default_level = m->dflt; l->level_flags = l->default_level_flags = m->dflags;
    return l;
}
void harness_init(void) {}
void harness_run(void)
{
    pthread_t t[MAXT + 1]; int n = 0, rounds;
    log_set_handler(&handler);
    nlg = 2 + sim_choose(ST_CFG, MAXL - 1);
    nthr = 1 + sim_choose(ST_CFG, MAXT - 1);
    ops_per = 1 + sim_choose(ST_CFG, 12);
    ncfg = sim_choose(ST_CFG, 8);
    with_priv = sim_chance(ST_CFG, 1, 2);
    rounds = 1 + sim_choose(ST_CFG, 2);
    nver = 1; ver[0].s = ver[0].e = 0;
    lg[0] = (mlog_t){ .parent = -1, .dflt = logger_get_level(logger_get_root()), .l = logger_get_root() };
    for (int i = 0; i < MAXL; i++) ver[0].d[i].level = LOG_UNDEFINED;
    for (int i = 1; i < nlg; i++) {
        mlog_t *m = &lg[i]; static const int dl[] = { LOG_INHERITS, LOG_INHERITS, LOG_ERR, LOG_NOTICE, LOG_DEBUG, LOG_WARNING };
        m->parent = sim_choose(ST_CFG, i); m->dflt = dl[sim_choose(ST_CFG, 6)]; m->dflags = sim_chance(ST_CFG, 1, 5) ? LOG_SILENT : 0;
        snprintf(m->name, sizeof(m->name), "n%d", i);
        if (m->parent) snprintf(m->full, sizeof(m->full), "%s/%s", lg[m->parent].full, m->name); else snprintf(m->full, sizeof(m->full), "%s", m->name);
        m->lazy = lg[m->parent].lazy || sim_chance(ST_CFG, 1, 2);
        if (!m->lazy && sim_chance(ST_CFG, 1, 4)) { o_cfg_start(i, LOG_CRIT + sim_choose(ST_CFG, 5), 0); logger_set_level(LSTR(m->full), ver[nver - 1].d[i].level, 0); o_cfg_done(i); }
        if (m->lazy) m->l = mk_static(i);
        else m->l = logger_new(m->parent || sim_choose(ST_CFG, 2) ? lg[m->parent].l : NULL, LSTR(m->name), m->dflt, m->dflags);
    }
    for (int r = 0; r < rounds; r++) {
        sim_sched_config(1);
        n = 0;
        for (int i = 0; i < nthr; i++) thr_create(&t[n++], NULL, worker, (void *)(intptr_t)i);
        if (ncfg) thr_create(&t[n++], NULL, configurer, NULL);
        for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
        sim_sched_off();
        /* at rest, every level is the one of the last configuration */
        me = 0;
        for (int i = 0; i < nlg; i++) { uint64_t s = o_seq(); o_level(i, 0, s, logger_get_level(lg[i].l)); }
        for (int i = 0; i < ncfg; i++) { cfg_op(); level_op(); log_op(); list_op(); }
    }
    sim_state(hist);
}
