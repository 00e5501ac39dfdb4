/* C19: metrics of the Prometheus client under threads. */
#include "hthr.h"
#include <math.h>
#include <lib-common/prometheus-client.h>
#include <lib-common/prometheus-client/priv.h>
const char *harness_name = "h_prom";
extern int64_t sim_real_off_ns;

enum { COUNTER, GAUGE, HISTO };
static const char *type_names[] = { "counter", "gauge", "histogram" };
#define MAXM 6
#define MAXV 4                          /* label values of a run */
#define MAXC 16
#define MAXB 6
#define MAXW 256
typedef struct write_t { double v; uint64_t s, e; } write_t;
typedef struct child_t {
    bool started, done, was;            /* labels() called, returned */
    void *ptr;
    /* counters and gauges used with additions */
    double cp, sp, cn, sn;              /* completed/started, pos/neg */
    double floor;                       /* highest value read so far */
    /* gauges used with set() in this phase */
    write_t w[MAXW]; int nw;
    uint64_t rfloor;
    /* histograms: per class of value */
    int64_t cb[MAXB + 1], sb[MAXB + 1];
    int64_t fb[MAXB + 1];               /* cumulative, highest read so far */
    int seen;                           /* in the scrape under way */
    double row[MAXB + 1], sum, count; int rows; bool has_sum, has_count;
} child_t;
typedef struct met_t {
    int type, nl, nb; bool setmode, alive;
    char name[24], doc[32];
    prom_metric_t *m;
    double bound[MAXB], val[MAXB + 1];
    child_t c[MAXC];
} met_t;
static met_t mets[MAXM];
static int nmets, nvals, order[MAXM], norder;
static const char *vals[MAXV];
static uint64_t seq, hist;
static int ops_per, nthr;
static const char *pool[] = { "a", "b", "ab", "", "x\\", "l1\nl2", "q\"t", "a,b", "} 3", "\\n", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "\xc3\xa9" };
static const char *docs[] = { "doc", "two\nlines", "back\\slash", "a \"quoted\" one" };
static const char *lnames[] = { "lab", "_l2" };

ORACLE static uint32_t rnd(uint32_t n) { return sim_choose(ST_OPS, n); }
ORACLE static int nchild(const met_t *m) { return m->nl == 0 ? 1 : m->nl == 1 ? nvals : nvals * nvals; }
ORACLE static void o_pause(void) { uint32_t r = rnd(6); if (r == 1) sim_sleep_until(sim_now_ns + sim_range(ST_OPS, 1, 30) * SIM_MS); else if (r == 2) sim_yield(); }

/* {{{ the model's view of operations */
ORACLE static uint64_t o_seq(void) { return ++seq; }
ORACLE static void o_label_start(child_t *c) { c->started = true; sim_count_op(); }
ORACLE static void o_label_done(met_t *m, child_t *c, void *p)
{
    if (!p) sim_violation("prom:null", "labels() of %s returned nothing", m->name);
    if (c->done && c->ptr != p)
        sim_violation("prom:two-children", "labels() of %s returned two different children for the same label values", m->name);
    for (int i = 0; i < nchild(m); i++)
        if (&m->c[i] != c && m->c[i].done && m->c[i].ptr == p)
            sim_violation("prom:shared-child", "labels() of %s returned the same child for different label values", m->name);
    c->done = true; c->ptr = p;
}
ORACLE static void o_add_start(child_t *c, double v) { if (v >= 0) c->sp += v; else c->sn -= v; }
ORACLE static void o_add_done(child_t *c, double v) { if (v >= 0) c->cp += v; else c->cn -= v; sim_count_op(); hist = hist * 31 + (uint64_t)(v * 4); }
ORACLE static int o_set_start(child_t *c, double v) { if (c->nw == MAXW) return -1; c->w[c->nw] = (write_t){ v, ++seq, UINT64_MAX }; return c->nw++; }
ORACLE static void o_set_done(child_t *c, int i) { c->w[i].e = ++seq; sim_count_op(); hist = hist * 37 + i; }
ORACLE static void o_obs_start(child_t *c, int k) { c->sb[k]++; }
ORACLE static void o_obs_done(child_t *c, int k) { c->cb[k]++; sim_count_op(); hist = hist * 41 + k; }

typedef struct snap_t { double cp, cn, floor; uint64_t s, rfloor; bool done; int64_t cb[MAXB + 1], fb[MAXB + 1]; } snap_t;
ORACLE static void o_snap(child_t *c, snap_t *s)
{
    *s = (snap_t){ .cp = c->cp, .cn = c->cn, .floor = c->floor, .s = ++seq, .rfloor = c->rfloor, .done = c->done };
    memcpy(s->cb, c->cb, sizeof(s->cb)); memcpy(s->fb, c->fb, sizeof(s->fb));
}
ORACLE static void o_value(met_t *m, child_t *c, const snap_t *s, double v, const char *how)
{
    if (m->setmode) {
        uint64_t last = 0;              /* latest start among writes over before the read */
        for (int i = 0; i < c->nw; i++)
            if (c->w[i].e < s->s && c->w[i].s > last) last = c->w[i].s;
        for (int i = 0; i < c->nw; i++) {
            write_t *w = &c->w[i];
            if (w->v == v && w->e >= last && w->e >= s->rfloor) {
                if (w->s > c->rfloor) c->rfloor = w->s;
                return;
            }
        }
        sim_violation("prom:stale-set", "%s of gauge %s gave %g, which is not the value of a set() in force then", how, m->name, v);
    }
    if (!(v >= s->cp - c->sn && v <= c->sp - s->cn))
        sim_violation("prom:value", "%s of %s %s gave %.17g: between %.17g and %.17g was expected", how, type_names[m->type], m->name, v, s->cp - c->sn, c->sp - s->cn);
    if (m->type == COUNTER) {
        if (v < s->floor) sim_violation("prom:backwards", "%s of counter %s gave %.17g after %.17g was read", how, m->name, v, s->floor);
        if (v > c->floor) c->floor = v;
    }
}
ORACLE static void o_get(met_t *m, child_t *c, const snap_t *s, double v) { o_value(m, c, s, v, "get_value()"); sim_count_op(); }
/* }}} */
/* {{{ reading an exposition */
static __thread struct { const char *p, *e; } T;
typedef struct scrape_t { snap_t s[MAXM][MAXC]; } scrape_t;
ORACLE static void bad(const char *what)
{
    char line[120]; int n = 0;
    for (const char *p = T.p; p < T.e && n < 110 && *p != '\n'; p++) line[n++] = *p;
    line[n] = 0;
    sim_violation("prom:format", "exposition: %s at `%s`", what, line);
}
ORACLE static bool lit(const char *s) { size_t n = strlen(s); if ((size_t)(T.e - T.p) >= n && !memcmp(T.p, s, n)) { T.p += n; return true; } return false; }
ORACLE static void ident(char *out, size_t n) { size_t i = 0; while (T.p < T.e && (isalnum((unsigned char)*T.p) || *T.p == '_' || *T.p == ':')) { if (i + 1 < n) out[i++] = *T.p; T.p++; } out[i] = 0; if (!i) bad("name expected"); }
ORACLE static void escaped(char *out, size_t n, char stop)
{
    size_t i = 0;
    for (;;) {
        char c;
        if (T.p >= T.e) { if (stop == '\n') break; bad("unterminated string"); }
        c = *T.p;
        if (c == stop) break;
        if (c == '\n') bad("line feed in a label value");
        T.p++;
        if (c == '\\') {
            if (T.p >= T.e) bad("truncated escape");
            c = *T.p++;
            if (c == 'n') c = '\n';
            else if (c != '\\' && !(c == '"' && stop == '"')) bad("unknown escape");
        }
        if (i + 1 < n) out[i++] = c;
    }
    out[i] = 0;
}
ORACLE static double number(void)
{
    char b[64]; int n = 0; char *e; double d;
    while (T.p < T.e && *T.p != '\n' && n < 63) b[n++] = *T.p++;
    b[n] = 0;
    d = strtod(b, &e);
    if (!n || *e) bad("number expected");
    return d;
}
ORACLE static int vindex(const char *s) { for (int i = 0; i < nvals; i++) if (!strcmp(vals[i], s)) return i; return -1; }
ORACLE static void o_scrape_start(scrape_t *sc) { for (int i = 0; i < MAXM; i++) for (int j = 0; j < MAXC; j++) o_snap(&mets[i].c[j], &sc->s[i][j]); sim_event("scrape starts"); }
ORACLE static void o_scrape(scrape_t *sc, const char *txt, int len)
{
    int cur = -1, pos = -1, typed = -1;
    T.p = txt; T.e = txt + len;
    for (int i = 0; i < nmets; i++) for (int j = 0; j < MAXC; j++) { child_t *c = &mets[i].c[j]; c->seen = c->rows = 0; c->has_sum = c->has_count = false; }
    if (memchr(txt, 0, len)) sim_violation("prom:format", "NUL byte in the exposition");
    while (T.p < T.e) {
        char nm[64];
        if (*T.p == '\n') { T.p++; continue; }
        if (lit("# HELP ")) {
            char d[64]; int i;
            ident(nm, sizeof(nm));
            for (i = 0; i < norder && strcmp(mets[order[i]].name, nm); i++) ;
            if (i == norder) bad("HELP of an unknown metric");
            if (i <= pos) bad("metric listed twice or out of order");
            pos = i; cur = order[i]; typed = -1;
            if (!lit(" ")) bad("blank expected");
            escaped(d, sizeof(d), '\n');
            if (strcmp(d, mets[cur].doc)) sim_violation("prom:help", "HELP of %s is `%s` instead of `%s`", nm, d, mets[cur].doc);
        } else if (lit("# TYPE ")) {
            char ty[32];
            ident(nm, sizeof(nm));
            if (cur < 0 || strcmp(nm, mets[cur].name)) bad("TYPE out of place");
            if (typed >= 0) bad("two TYPE lines");
            if (!lit(" ")) bad("blank expected");
            ident(ty, sizeof(ty));
            if (strcmp(ty, type_names[mets[cur].type])) bad("wrong TYPE");
            typed = mets[cur].type;
        } else {
            met_t *m; child_t *c; snap_t *s; char lv[2][64], le[64]; int nlab = 0; bool hle = false; const char *suf; double v;
            if (typed < 0) bad("sample without a TYPE");
            m = &mets[cur];
            ident(nm, sizeof(nm));
            if (strncmp(nm, m->name, strlen(m->name))) bad("sample in the wrong family");
            suf = nm + strlen(m->name);
            if (lit("{")) {
                while (!lit("}")) {
                    char ln[32];
                    if ((nlab || hle) && !lit(",")) bad("comma expected");
                    ident(ln, sizeof(ln));
                    if (!lit("=\"")) bad("=\" expected");
                    if (!strcmp(ln, "le")) { if (hle) bad("two le"); escaped(le, sizeof(le), '"'); hle = true; }
                    else {
                        if (nlab >= m->nl || strcmp(ln, lnames[nlab])) bad("unexpected label");
                        escaped(lv[nlab++], 64, '"');
                    }
                    if (!lit("\"")) bad("quote expected");
                }
            }
            if (nlab != m->nl) bad("labels missing");
            if (!lit(" ")) bad("blank expected");
            v = number();
            {
                int i0 = m->nl > 0 ? vindex(lv[0]) : 0, i1 = m->nl > 1 ? vindex(lv[1]) : 0;
                if (i0 < 0 || i1 < 0) sim_violation("prom:labels", "sample of %s with label values nobody used: %s", m->name, m->nl ? lv[i0 < 0 ? 0 : 1] : "");
                c = &m->c[m->nl > 1 ? i0 * nvals + i1 : i0];
            }
            if (!c->started) sim_violation("prom:ghost", "sample of %s for a child which does not exist", m->name);
            s = &sc->s[cur][c - m->c];
            if (m->type != HISTO) {
                if (*suf || hle) bad("unexpected sample");
                if (c->seen++) sim_violation("prom:dup", "two samples of %s for the same labels", m->name);
                o_value(m, c, s, v, "a scrape");
                continue;
            }
            c->seen = 1;
            if (!strcmp(suf, "_bucket")) {
                double b; char *e;
                if (!hle) bad("bucket without le");
                b = strtod(le, &e);
                if (!*le || *e) bad("le is not a number");
                if (c->has_sum || c->has_count) bad("bucket after the sum");
                if (isinf(b)) {
                    if (c->rows != m->nb && s->done) sim_violation("prom:buckets", "%d buckets of %s out of %d", c->rows, m->name, m->nb);
                    if (c->rows != m->nb) for (int k = 0; k < m->nb; k++) c->row[k] = 0;
                    c->row[m->nb] = v; c->rows = m->nb + 1;
                } else {
                    if (c->rows >= m->nb || b != m->bound[c->rows]) bad("unexpected bucket");
                    c->row[c->rows++] = v;
                }
            } else if (!strcmp(suf, "_sum") && !c->has_sum) { c->sum = v; c->has_sum = true; }
            else if (!strcmp(suf, "_count") && !c->has_count) { c->count = v; c->has_count = true; }
            else bad("unexpected sample");
        }
        if (T.p < T.e && *T.p != '\n') bad("end of line expected");
    }
    for (int i = 0; i < norder; i++) {
        met_t *m = &mets[order[i]];
        for (int j = 0; j < nchild(m); j++) {
            child_t *c = &m->c[j]; snap_t *s = &sc->s[order[i]][j];
            int64_t lo = 0, hi = 0; double prev = 0, sum = 0;
            if (!c->seen) { if (s->done) sim_violation("prom:missing", "no sample of %s for a child which existed before the scrape", m->name); continue; }
            if (m->type != HISTO) continue;
            if (c->rows != m->nb + 1 || !c->has_sum || !c->has_count) sim_violation("prom:incomplete", "histogram %s lacks some of its samples", m->name);
            if (c->row[m->nb] != c->count) sim_violation("prom:inf", "histogram %s: the +Inf bucket says %g, the count %g", m->name, c->row[m->nb], c->count);
            for (int k = 0; k <= m->nb; k++) {
                lo += s->cb[k]; hi += c->sb[k];
                if (!(c->row[k] >= lo && c->row[k] <= hi))
                    sim_violation("prom:bucket", "bucket %d of histogram %s has %g observations, between %lld and %lld were expected", k, m->name, c->row[k], (long long)lo, (long long)hi);
                if (c->row[k] < s->fb[k]) sim_violation("prom:backwards", "bucket %d of histogram %s went back from %lld to %g", k, m->name, (long long)s->fb[k], c->row[k]);
                if (c->row[k] < prev) sim_violation("prom:cumulative", "buckets of histogram %s are not cumulative", m->name);
                sum += (c->row[k] - prev) * m->val[k];
                prev = c->row[k];
                if (c->row[k] > c->fb[k]) c->fb[k] = c->row[k];
            }
            if (c->sum != sum) sim_violation("prom:sum", "histogram %s: the sum is %.17g while its buckets tell %.17g", m->name, c->sum, sum);
        }
    }
    sim_event("scrape of %d bytes", len);
    sim_count_op();
}
/* }}} */
/* {{{ operations */
static void scrape(void)
{
    SB_8k(sb);
    scrape_t *sc = malloc(sizeof(*sc));
    o_scrape_start(sc);
    prom_collector_bridge(&prom_collector_g, &sb);
    o_scrape(sc, sb.data, sb.len);
    free(sc);
}
static prom_metric_t *labels_of(met_t *m, int j, child_t *c)
{
    const char *l[2];
    qv_t(cstr) qv;
    prom_metric_t *p;
    if (!m->nl) { o_label_start(c); o_label_done(m, c, m->m); return m->m; }
    l[0] = vals[m->nl > 1 ? j / nvals : j]; l[1] = vals[j % nvals];
    qv_init_static(&qv, l, m->nl);
    o_label_start(c);
    p = obj_vcall(m->m, labels, &qv);
    o_label_done(m, c, p);
    return p;
}
static double amounts(bool big)
{
    static const double a[] = { 1, 0, 0.5, 3, 100, 0.25, 1234567, 33554432.5 };
    return a[rnd(big ? 8 : 6)];
}
static bool big;
static __thread prom_metric_t *kept; static __thread int kept_m, kept_j;
ORACLE static child_t *o_child(int i, int j) { return &mets[i].c[j]; }
ORACLE static met_t *o_met(int i) { return &mets[i]; }
ORACLE static int o_pick(void) { return order[rnd(norder)]; }
ORACLE static int o_pickc(int i) { return rnd(nchild(&mets[i])); }
static void one_op(bool solo)
{
    int i, j; met_t *m; child_t *c; prom_metric_t *p;
    if (rnd(7) == 1) { scrape(); return; }
    if (kept && rnd(3) == 1) { i = kept_m; j = kept_j; m = o_met(i); c = o_child(i, j); p = kept; }
    else { i = o_pick(); j = o_pickc(i); m = o_met(i); c = o_child(i, j); p = labels_of(m, j, c); kept = p; kept_m = i; kept_j = j; }
    switch (m->type) {
      case COUNTER: {
        prom_counter_t *x = obj_vcast(prom_counter, p);
        if (rnd(5) == 1) { snap_t s; double v; o_snap(c, &s); v = obj_vcall(x, get_value); o_get(m, c, &s, v); }
        else if (rnd(2)) { o_add_start(c, 1); obj_vcall(x, inc); o_add_done(c, 1); }
        else { double v = amounts(big); o_add_start(c, v); obj_vcall(x, add, v); o_add_done(c, v); }
      } break;
      case GAUGE: {
        prom_gauge_t *x = obj_vcast(prom_gauge, p);
        if (rnd(5) == 1) { snap_t s; double v; o_snap(c, &s); v = obj_vcall(x, get_value); o_get(m, c, &s, v); }
        else if (m->setmode) {
            double v = (double)o_seq() * (rnd(2) ? 1 : -0.5) + (big ? 1e7 : 0);
            int k = o_set_start(c, v);
            if (k >= 0) { obj_vcall(x, set, v); o_set_done(c, k); }
        } else switch (rnd(4)) {
          case 0: o_add_start(c, 1); obj_vcall(x, inc); o_add_done(c, 1); break;
          case 1: o_add_start(c, -1); obj_vcall(x, dec); o_add_done(c, -1); break;
          case 2: { double v = amounts(big) * (rnd(3) == 1 ? -1 : 1); o_add_start(c, v); obj_vcall(x, add, v); o_add_done(c, v); } break;
          default: { double v = amounts(big) * (rnd(3) == 1 ? -1 : 1); o_add_start(c, -v); obj_vcall(x, sub, v); o_add_done(c, -v); } break;
        }
      } break;
      default: {
        int k = rnd(m->nb + 1);
        o_obs_start(c, k);
        obj_vcall(obj_vcast(prom_histogram, p), observe, m->val[k]);
        o_obs_done(c, k);
      } break;
    }
}
static void *worker(void *arg)
{
    kept = NULL;
    for (int i = 0; i < ops_per; i++) { one_op(false); o_pause(); }
    return NULL;
}
static void *scraper(void *arg)
{
    for (int i = 0; i < 3; i++) { scrape(); o_pause(); }
    return NULL;
}
static void forget(child_t *c) { p_clear(c, 1); c->nw = 1; }
static void new_metric(int i)
{
    met_t *m = &mets[i]; int t;
    p_clear(m, 1);
    m->type = sim_choose(ST_CFG, 3);
    m->nl = sim_choose(ST_CFG, 3);
    snprintf(m->name, sizeof(m->name), sim_chance(ST_CFG, 1, 2) ? "m_%d" : "a:b%d", i);
    snprintf(m->doc, sizeof(m->doc), "%s", docs[sim_choose(ST_CFG, 4)]);
    if (m->type == COUNTER) m->m = prom_metric_new(obj_class(prom_counter), m->name, m->doc, lnames, m->nl);
    if (m->type == GAUGE) m->m = prom_metric_new(obj_class(prom_gauge), m->name, m->doc, lnames, m->nl);
    if (m->type == HISTO) {
        prom_histogram_t *h;
        m->m = prom_metric_new(obj_class(prom_histogram), m->name, m->doc, lnames, m->nl);
        h = obj_vcast(prom_histogram, m->m);
        m->nb = 1 + sim_choose(ST_CFG, MAXB);
        t = sim_choose(ST_CFG, 3);
        if (t == 0) {
            for (int k = 0; k < m->nb; k++) m->bound[k] = -1.5 + 0.5 * k;
            prom_histogram_set_linear_buckets(h, -1.5, 0.5, m->nb);
        } else if (t == 1) {
            for (int k = 0; k < m->nb; k++) m->bound[k] = k ? m->bound[k - 1] * 4 : 0.125;
            prom_histogram_set_exponential_buckets(h, 0.125, 4, m->nb);
        } else {
            qv_t(double) qv;
            double x = -4;
            for (int k = 0; k < m->nb; k++) { x += 0.25 * (1 + sim_choose(ST_CFG, 40)); m->bound[k] = x; }
            if (big) m->bound[m->nb - 1] = 4000001.5;
            qv_init_static(&qv, m->bound, m->nb);
            obj_vcall(h, set_buckets, &qv);
        }
        for (int k = 0; k <= m->nb; k++) {
            double hi = k < m->nb ? m->bound[k] : m->bound[k - 1] + 2.5;
            double lo = k ? m->bound[k - 1] : m->bound[0] - 8;
            m->val[k] = k < m->nb && sim_chance(ST_CFG, 1, 2) ? hi : lo + (hi - lo) / 2;
            if (k == m->nb) m->val[k] = hi;
        }
    }
    if (!m->nl) { m->c[0].started = m->c[0].done = true; m->c[0].ptr = m->m; }
    m->alive = true;
    order[norder++] = i;
}
static void del_order(int i) { int k = 0; for (int j = 0; j < norder; j++) if (order[j] != i) order[k++] = order[j]; norder = k; }
static void solo_phase(void)
{
    int n = sim_range(ST_OPS, 0, 8);
    kept = NULL;
    for (int o = 0; o < n; o++) {
        int i = order[rnd(norder)]; met_t *m = &mets[i];
        switch (rnd(8)) {
          case 1: if (m->nl) { /* remove, whether it exists or not */
            int j = rnd(nchild(m)); const char *l[2]; qv_t(cstr) qv;
            l[0] = vals[m->nl > 1 ? j / nvals : j]; l[1] = vals[j % nvals];
            qv_init_static(&qv, l, m->nl);
            if (m->c[j].done && rnd(2)) obj_vcall(m->m, remove, &((prom_metric_t *)m->c[j].ptr)->label_values);
            else obj_vcall(m->m, remove, &qv);
            sim_event("remove %s/%d", m->name, j);
            forget(&m->c[j]); kept = NULL;
          } break;
          case 2: if (m->nl && rnd(3) == 1) { obj_vcall(m->m, clear); sim_event("clear %s", m->name); for (int j = 0; j < nchild(m); j++) forget(&m->c[j]); kept = NULL; } break;
          case 3: if (norder > 1 && rnd(3) == 1) {
            sim_event("unregister %s", m->name);
            if (rnd(2)) obj_vcall(m->m, unregister);
            obj_delete(&m->m); m->alive = false; del_order(i); kept = NULL;
            if (rnd(2)) { new_metric(i); sim_event("new %s", m->name); }
          } break;
          case 4: case 5: scrape(); break;
          default: one_op(true);
        }
    }
    scrape();
}
static void start_phase(void)
{
    for (int i = 0; i < nmets; i++) {
        met_t *m = &mets[i];
        bool was = m->setmode;
        if (m->type != GAUGE) continue;
        m->setmode = sim_chance(ST_OPS, 1, 2);
        for (int j = 0; j < MAXC; j++) {
            child_t *c = &m->c[j];
            double v = 0;
            if (c->done && m->alive) {
                /* read at rest, checked in the mode of the phase before */
                snap_t s; bool now = m->setmode;
                m->setmode = was;
                if (was && !c->nw) { c->w[0] = (write_t){ 0, 0, 0 }; c->nw = 1; }
                o_snap(c, &s); v = obj_vcall(obj_vcast(prom_gauge, (prom_metric_t *)c->ptr), get_value); o_value(m, c, &s, v, "get_value() at rest");
                m->setmode = now;
            }
            c->cp = c->sp = v > 0 ? v : 0; c->cn = c->sn = v < 0 ? -v : 0;
            c->nw = 1; c->w[0] = (write_t){ v, 0, 0 }; c->rfloor = 0;
        }
    }
}
/* }}} */
/* {{{ a timer's observation is the time that went by */
static prom_histogram_t *th; static double tlo, thi; static int tn;
ORACLE static double o_real(void) { return (double)((sim_now_ns + sim_real_off_ns) / 1000); }
ORACLE static void o_timed(double lo, double hi) { tlo += lo; thi += hi; tn++; sim_count_op(); }
static void *timer_thr(void *arg)
{
    for (int i = 0; i < ops_per; i++) {
        double a = o_real(), b, c, d;
        prom_histogram_timer_ctx_t ctx = prom_histogram_timer_start(th);
        b = o_real();
        o_pause();
        c = o_real();
        prom_histogram_timer_finish(&ctx);
        d = o_real();
        o_timed(c - b - 2, d - a + 2);
    }
    return NULL;
}
/* }}} */
void harness_init(void) { MODULE_REQUIRE(prometheus_client); for (int i = 0; i < 40; i++) { t_scope; SB_1k(sb); sb_addf(&sb, "%g", 1.0 / (i + 3)); sb_reset(&sb); t_new(char, 1000); } }
void harness_run(void)
{
    pthread_t t[16];
    int n, nphases, nscr; bool timed;
    int64_t live;

    nvals = 1 + sim_choose(ST_CFG, MAXV);
    { int at = sim_choose(ST_CFG, countof(pool)); for (int i = 0; i < nvals; i++) { vals[i] = pool[at % countof(pool)]; at += 1 + sim_choose(ST_CFG, 2); } }
    big = sim_chance(ST_CFG, 1, 4);
    nmets = 1 + sim_choose(ST_CFG, MAXM);
    nphases = 1 + sim_choose(ST_CFG, 3);
    nthr = 1 + sim_choose(ST_CFG, 4);
    nscr = sim_choose(ST_CFG, 3);
    ops_per = 1 + sim_choose(ST_CFG, 10);
    timed = sim_chance(ST_CFG, 1, 8);
    live = sim_heap_live();
    for (int i = 0; i < nmets; i++) new_metric(i);
    {
        /* long expositions: fewer of them */
        int size = 0;
        for (int i = 0; i < nmets; i++) size += nchild(&mets[i]) * (1 + mets[i].nb);
        if (size > 30 && ops_per > 3) ops_per = 3;
        if (size > 30) nphases = 1;
        if (size > 60) { if (nthr > 3) nthr = 3; if (nscr > 1) nscr = 1; }
    }
    for (int ph = 0; ph < nphases; ph++) {
        start_phase();
        sim_sched_config(1);
        n = 0;
        for (int i = 0; i < nthr; i++) thr_create(&t[n++], NULL, worker, NULL);
        for (int i = 0; i < nscr; i++) thr_create(&t[n++], NULL, scraper, NULL);
        for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
        sim_sched_off();
        scrape();
        solo_phase();
    }
    start_phase();
    sim_state(hist);
    for (int i = 0; i < nmets; i++) if (mets[i].alive) obj_delete(&mets[i].m);
    norder = 0;
    if (!dlist_is_empty(&prom_collector_g)) sim_violation("prom:registered", "deleted metrics are still in the collector");
    if (sim_heap_live() != live) sim_violation("prom:leak", "%lld bytes left by deleted metrics", (long long)(sim_heap_live() - live));
    if (timed) {
        static const char *none[1];
        th = (prom_histogram_t *)prom_metric_new(obj_class(prom_histogram), "timed", "doc", none, 0);
        prom_histogram_set_linear_buckets(th, 10, 1, 1);
        sim_sched_config(1);
        n = 0;
        for (int i = 0; i < nthr; i++) thr_create(&t[n++], NULL, timer_thr, NULL);
        for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
        sim_sched_off();
        if (th->count != tn) sim_violation("prom:timer-count", "%d timers finished, %g observed", tn, th->count);
        if (th->sum * 1e6 < tlo - 1 || th->sum * 1e6 > thi + 1) sim_violation("prom:timer-sum", "timers: the sum is %.9g s instead of %.9g to %.9g", th->sum, tlo / 1e6, thi / 1e6);
        obj_delete(&th);
    }
}
