/* C21: life of modules: seeded graphs and histories of requirements, releases and methods, made from outside or
 * from within constructors, destructors and methods, with constructors and destructors that fail. */
#include <lib-common/core.h>
#include <lib-common/log.h>
#include "sim.h"
#include "simio.h"
const char *harness_name = "h_mod";
#define V(cls, ...)  sim_violation(cls, __VA_ARGS__)
static uint32_t rnd(uint32_t n) { return sim_choose(ST_OPS, n); }

#define NM 12
#define NMETH 5
typedef struct mod_t {
    module_t *m; char name[16]; bool reg;
    int ndep, dep[8];                   /* duplicates allowed */
    bool meth[NMETH];
    int manual;                         /* requirements from outside, or from other constructors */
    bool up, in_ctor, in_dtor;
    int nested;                         /* module its constructor requires, -1: none */
    bool nested_on, frail_ctor, frail_dtor, run_ctor, run_dtor;
    void *arg;
    int inits, stops;
} mod_t;
static mod_t M[NM]; static int nm, nreg; static bool dying, ending; static uint64_t hist;
static int depth;

static const module_method_t meth_a = { METHOD_VOID, MODULE_DEPS_BEFORE }, meth_b = { METHOD_VOID, MODULE_DEPS_AFTER },
    meth_c = { METHOD_INT, MODULE_DEPS_AFTER }, meth_d = { METHOD_GENERIC, MODULE_DEPS_BEFORE };
extern const module_method_t on_term_method;
static const module_method_t *meth[NMETH];
static bool before(int k) { return meth[k]->order == MODULE_DEPS_BEFORE; }

/* {{{ model */
static bool dependson(int a, int b) { for (int i = 0; i < M[a].ndep; i++) if (M[a].dep[i] == b || dependson(M[a].dep[i], b)) return true; return false; }
static bool direct(int a, int b) { for (int i = 0; i < M[a].ndep; i++) if (M[a].dep[i] == b) return true; return false; }
static void noop(const char *what, int i) { if (dying) V("mod:after-failure", "%s of %s called after a constructor failed", what, M[i].name); }
static void queries(void)
{
    for (int i = 0; i < nm; i++) {
        if (!M[i].reg) continue;
        if (module_is_initializing(M[i].m) && !M[i].in_ctor && !depth) V("mod:state", "%s is said to be initializing", M[i].name);
        if (M[i].in_ctor && !module_is_initializing(M[i].m)) V("mod:state", "%s is not said to be initializing", M[i].name);
        if (M[i].in_dtor && !module_is_shutting_down(M[i].m)) V("mod:state", "%s is not said to be shutting down", M[i].name);
        if (M[i].up && !M[i].in_dtor && !module_is_loaded(M[i].m)) V("mod:state", "%s runs and is not said to be loaded", M[i].name);
        if (!M[i].up && module_is_loaded(M[i].m)) V("mod:state", "%s does not run and is said to be loaded", M[i].name);
    }
}
static void at_rest(const char *after)
{
    for (int i = nm - 1; i >= 0; i--) {
        bool want = M[i].manual > 0;
        if (!M[i].reg) continue;
        for (int j = i + 1; j < nm; j++) want |= M[j].reg && M[j].up && direct(j, i);
        if (want != M[i].up) V(want ? "mod:down" : "mod:leaked", "%s is %s after %s, while it is %srequired", M[i].name, M[i].up ? "up" : "down", after, want ? "" : "not ");
    }
    queries();
    sim_count_op();
}
/* }}} */
/* {{{ methods */
static void require(int i);
static void release(int i);
static int owned(int i);
typedef struct run_t { struct run_t *up; int k, n, arg, who[64]; bool must[NM], moved[NM]; } run_t;
static run_t *run; static int nruns; static bool moving;
static void moved(int i) { for (run_t *r = run; r; r = r->up) r->must[i] = false, r->moved[i] = true; }
static void run_method(int k);
static void called(int i, int k, int arg)
{
    run_t *r = run;
    noop("method", i);
    if (!r || r->k != k) V("mod:method", "method %d of %s was called while method %d runs", k, M[i].name, r ? r->k : -1);
    if (!M[i].meth[k]) V("mod:method", "%s does not implement method %d", M[i].name, k);
    if (arg != r->arg) V("mod:method-arg", "argument %d instead of %d", arg, r->arg);
    if (!M[i].up || M[i].in_ctor) V("mod:method-down", "method %d of %s is called while it is not started", k, M[i].name);
    for (int j = 0; j < r->n; j++) {
        int o = r->who[j];
        if (r->moved[i] || r->moved[o]) continue;
        if (o == i) V("mod:method-twice", "method %d of %s is called twice", k, M[i].name);
        if (before(k) ? dependson(o, i) : dependson(i, o)) V("mod:method-order", "method %d of %s is called before the one of %s", k, M[o].name, M[i].name);
    }
    if (r->n < 64) r->who[r->n++] = i;
    switch (rnd(16)) {
      case 1: queries(); break;
      case 2: if (nruns < 3) run_method(rnd(NMETH)); break;
      case 3: case 4: {
        /* modules come and go while methods run */
        int o = rnd(nreg);
        if (!moving || depth || M[o].in_dtor) break;
        if (rnd(2)) require(o); else if (owned(o) > 0) release(o);
        break;
      }
    }
}
static void run_method(int k)
{
    run_t r = { .up = run, .k = k };
    run = &r; nruns++;
    for (int i = 0; i < nm; i++) r.must[i] = M[i].reg && M[i].up && !M[i].in_ctor && !M[i].in_dtor && M[i].meth[k];
    r.arg = meth[k]->type == METHOD_VOID ? 0 : (int)rnd(100000);
    sim_event("run method %d", k);
    if (k == 4) module_on_term(r.arg);
    else module_run_method(meth[k], (data_t){ .u32 = r.arg });
    for (int i = 0; i < nm; i++) {
        bool got = false;
        for (int j = 0; j < r.n; j++) got |= r.who[j] == i;
        if (r.must[i] && !got) V("mod:method-lost", "method %d of %s was not called", k, M[i].name);
    }
    hist = hist * 31 + r.n;
    run = r.up; nruns--;
    sim_event("method %d was run by %d modules", k, r.n);
    sim_count_op();
}
/* }}} */
static int ctor(int i, void *arg)
{
    mod_t *m = &M[i]; bool wanted = m->manual > 0;
    noop("constructor", i);
    sim_event("constructor of %s", m->name);
    if (ending) V("mod:late-start", "%s is started at the end", m->name);
    if (m->up || m->in_ctor) V("mod:start-twice", "%s is started twice", m->name);
    for (int j = 0; j < m->ndep; j++) if (!M[m->dep[j]].up || M[m->dep[j]].in_dtor || M[m->dep[j]].in_ctor) V("mod:start-order", "%s is started before its dependency %s", m->name, M[m->dep[j]].name);
    for (int j = i + 1; j < nm && !wanted; j++) wanted = M[j].reg && direct(j, i) && module_is_initializing(M[j].m);
    if (!wanted) V("mod:start-unwanted", "%s is started while nothing requires it", m->name);
    if (arg != m->arg) V("mod:arg", "the constructor of %s gets another argument than the one provided", m->name);
    if (module_get_arg(m->m) != m->arg) V("mod:arg", "the argument of %s is not the one provided", m->name);
    m->in_ctor = true; m->inits++; depth++;
    queries();
    if (m->run_ctor) run_method(rnd(NMETH));
    if (m->nested >= 0) { m->nested_on = true; require(m->nested); }
    if (m->run_ctor && rnd(2)) run_method(rnd(NMETH));
    depth--; m->in_ctor = false;
    if (m->frail_ctor && sim_chance(ST_FAULT, 1, 6)) { sim_fault("constructor-fails"); sim_event("constructor of %s fails", m->name); dying = true; return -1; }
    m->up = true; moved(i);
    hist = hist * 37 + i;
    return rnd(2);
}
static int dtor(int i)
{
    mod_t *m = &M[i]; int res = 0;
    noop("destructor", i);
    sim_event("destructor of %s", m->name);
    if (!m->up || m->in_dtor) V("mod:stop-twice", "%s is stopped while it is not up", m->name);
    if (m->manual > 0 && !ending) V("mod:stop-needed", "%s is stopped while it is required", m->name);
    for (int j = i + 1; j < nm; j++) if (M[j].reg && M[j].up && direct(j, i)) V("mod:stop-order", "%s is stopped before %s which depends on it", m->name, M[j].name);
    for (int j = 0; j < m->ndep; j++) if (!M[m->dep[j]].up) V("mod:stop-order", "%s, which %s depends on, is stopped before it", M[m->dep[j]].name, m->name);
    m->in_dtor = true; moved(i); m->stops++; depth++;
    m->manual = 0;
    queries();
    if (m->run_dtor) run_method(rnd(NMETH));
    if (m->nested_on) { m->nested_on = false; release(m->nested); }
    if (m->run_dtor && rnd(2)) run_method(rnd(NMETH));
    if (m->frail_dtor && sim_chance(ST_FAULT, 1, 3)) { sim_fault("destructor-fails"); sim_event("destructor of %s fails", m->name); res = -1; }
    depth--; m->in_dtor = false; m->up = false; moved(i);
    hist = hist * 41 + i;
    return res;
}
#define F(N) static int c##N(void *a) { return ctor(N, a); } static int d##N(void) { return dtor(N); } \
    static void a##N(void) { called(N, 0, 0); } static void b##N(void) { called(N, 1, 0); } static void x##N(int v) { called(N, 2, v); } static void g##N(data_t v) { called(N, 3, v.u32); } static void t##N(int v) { called(N, 4, v); }
F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11)
#define R(p) { p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9, p##10, p##11 }
static int (*cf[NM])(void *) = R(c); static int (*df[NM])(void) = R(d);
static void (*af[NM])(void) = R(a); static void (*bf[NM])(void) = R(b); static void (*xf[NM])(int) = R(x); static void (*gf[NM])(data_t) = R(g); static void (*tf[NM])(int) = R(t);

static void require(int i)
{
    mod_t *m = &M[i];
    sim_event("require %s", m->name);
    m->manual++;
    module_require(m->m);
    if (dying) V("mod:failure-ignored", "requiring %s returned although a constructor failed", m->name);
    if (!m->up) V("mod:not-started", "%s is not up once required", m->name);
}
static void release(int i)
{
    mod_t *m = &M[i];
    sim_event("release %s", m->name);
    m->manual--;
    module_release(m->m);
}
/* requirements that can be released from outside */
static int owned(int i) { int n = M[i].manual; for (int j = 0; j < nm; j++) n -= M[j].nested_on && M[j].nested == i; return n; }
static void add_module(void)
{
    int i = nreg; mod_t *m = &M[i]; int first = -1, want = rnd(4);
    static const char *const nmz[NM] = { "omega", "a", "zed", "m3", "kilo", "b5", "x6", "q", "eighth", "n9", "m10", "m11" };
    snprintf(m->name, sizeof(m->name), "v_%s", nmz[i]);
    m->nested = -1;
    m->m = module_register(LSTR(m->name));
    m->reg = true;
    if (i && want && rnd(2)) { first = rnd(i); m->dep[m->ndep++] = first; }
    module_implement(m->m, cf[i], df[i], first >= 0 ? M[first].m : rnd(2) ? MODULE(log) : NULL);
    for (int k = 0; i && k < want; k++) {
        int d = rnd(i);
        if (direct(i, d) && rnd(4)) continue;
        m->dep[m->ndep++] = d;
        module_add_dep(m->m, M[d].m);
    }
    for (int k = 0; k < NMETH; k++) {
        if (!(m->meth[k] = rnd(3) != 0)) continue;
        switch (k) {
          case 0: module_implement_method_void(m->m, meth[0], af[i]); break;
          case 1: module_implement_method_void(m->m, meth[1], bf[i]); break;
          case 2: module_implement_method_int(m->m, meth[2], xf[i]); break;
          case 3: module_implement_method_generic(m->m, meth[3], gf[i]); break;
          default: module_implement_method_int(m->m, meth[4], tf[i]); break;
        }
    }
    if (i && sim_chance(ST_CFG, 1, 4)) m->nested = rnd(i);
    m->frail_ctor = sim_chance(ST_CFG, 1, 12); m->frail_dtor = sim_chance(ST_CFG, 1, 4);
    m->run_ctor = sim_chance(ST_CFG, 1, 4); m->run_dtor = sim_chance(ST_CFG, 1, 4);
    sim_event("module %s, %d dependencies%s", m->name, m->ndep, m->nested >= 0 ? ", requires another by hand" : "");
    nreg++;
}
/* a dependency added by the one it helps: MODULE_NEEDED_BY */
static void add_dep(void)
{
    int i = rnd(nreg), d;
    if (!i || M[i].up || M[i].ndep == 8 || M[i].stops) return;
    d = rnd(i);
    M[i].dep[M[i].ndep++] = d;
    module_add_dep(M[i].m, M[d].m);
    sim_event("%s now depends on %s", M[i].name, M[d].name);
}
static void no_deps(void)
{
    module_t *t[4]; int n = 1 + rnd(4), ix[4]; bool coll = false; lstr_t c = LSTR_NULL_V;
    for (int k = 0; k < n; k++) { ix[k] = rnd(nreg); t[k] = M[ix[k]].m; }
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) coll |= dependson(ix[a], ix[b]);
    if ((module_check_no_dependencies(t, n, &c) < 0) != coll) V("mod:collision", "modules said to %scollide", coll ? "not " : "");
    if (coll) {
        bool ok = false;
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) ok |= dependson(ix[a], ix[b]) && lstr_equal(c, LSTR(M[ix[b]].name));
        if (!ok) V("mod:collision", "%.*s is not a dependency of the others", c.len, c.s);
    }
    sim_count_op();
}
static void handler(const log_ctx_t *ctx, const char *fmt, va_list va)
{
    if (ctx->level > LOG_CRIT) return;
    if (!dying) { char b[200]; vsnprintf(b, sizeof(b), fmt, va); V("mod:fatal", "%s", b); }
    sim_state(hist);
    sim_probe("stopped-by-failure");
    sim_end_run();
}
void harness_init(void) { }
void harness_run(void)
{
    int ops, hand = 0; bool nested = false;
    log_set_handler(&handler);
    meth[0] = &meth_a; meth[1] = &meth_b; meth[2] = &meth_c; meth[3] = &meth_d; meth[4] = &on_term_method;
    nm = 2 + sim_choose(ST_CFG, NM - 1); ops = 5 + sim_choose(ST_CFG, 50); moving = sim_chance(ST_CFG, 1, 2);
    for (int i = 0; i < NM; i++) M[i].nested = -1;
    { int n = 1 + sim_choose(ST_CFG, nm); while (nreg < n) add_module(); }
    for (int o = 0; o < ops; o++) {
        int i = rnd(nreg);
        switch (rnd(10)) {
          case 0: case 1: case 2: require(i); at_rest("a requirement"); break;
          case 3: case 4: case 5: {
            if (owned(i) > 0) { release(i); at_rest("a release"); }
            break;
          }
          case 6: case 7: run_method(rnd(NMETH)); at_rest("a method"); break;
          case 8: if (nreg < nm) add_module(); else if (rnd(2)) add_dep(); else no_deps(); break;
          default:
            if (!M[i].up && !M[i].arg && rnd(3) == 1) { M[i].arg = &M[i]; module_provide(M[i].m, M[i].arg); }
            else no_deps();
            break;
        }
    }
    for (int i = 0; i < nm; i++) nested |= M[i].nested_on;
    if (nested || rnd(2)) {
        /* everything is released, in any order */
        for (;;) {
            int c[NM], n = 0, i;
            for (i = 0; i < nreg; i++) {
                if (owned(i) > 0) c[n++] = i;
            }
            if (!n) break;
            i = c[rnd(n)]; release(i); at_rest("a release");
        }
    } else {
        for (int i = 0; i < nm; i++) hand += M[i].up;
        if (hand) sim_probe("forced-shutdown");
    }
    ending = true;
    module_destroy_all();
    for (int i = 0; i < nm; i++) {
        if (M[i].up) V("mod:not-stopped", "%s is still up at the end", M[i].name);
        if (M[i].inits != M[i].stops) V("mod:not-stopped", "%s was started %d times and stopped %d times", M[i].name, M[i].inits, M[i].stops);
    }
    sim_state(hist);
}
