/* RPC channels (C09, C10): real ichannels over the simulated network.
 *
 * Clients (TCP or UNIX), servers accepting them, socket pairs, a proxy and a
 * local channel live in one process and one event loop. Every query is a
 * ledger entry telling what its handler will do; completions are judged
 * against it.
 */
#include <lib-common/iop-rpc.h>
#include <lib-common/el.h>
#include "vrpc.iop.h"
#include "sim.h"
#include "simio.h"
#include "simthr.h"

const char *harness_name = "h_rpc";
#define VIOL(cls, ...) sim_violation(cls, __VA_ARGS__)
static uint32_t rnd(uint32_t n) { return sim_choose(ST_OPS, n); }
static uint32_t rdat(uint32_t n) { return sim_choose(ST_DATA, n); }
static bool one_in(uint32_t n) { return rnd(n) == n - 1; }

/* {{{ state */

typedef struct end_t {
    ichannel_t *ic;
    int      id;
    enum { E_TCP, E_UNIX, E_PAIR, E_SRV, E_LOCAL, E_PROXIED, E_RAW } kind;
    bool     gone;               /* deleted */
    bool     up;                 /* CONNECTED seen, no DISCONNECTED since */
    bool     bye;                /* either side said bye */
    bool     noact;
    int      ncon, ndis, nact;
    bool     want;               /* should reconnect by itself */
    struct end_t *peer;          /* socket pairs */
    int64_t  up_at;
    bool     px;                 /* upstream of the proxy */
} end_t;
static end_t *E[256]; static int NE;

enum { R_ECHO, R_SMALL, R_NOPE, R_FIRE, R_MAX };
enum { H_REPLY, H_THROW, H_ERR, H_LATER, H_LATER_THROW, H_LATER_ERR, H_NEVER, H_MAX };
typedef struct {
    int      id, rpc, iface, how, prio;
    end_t   *from;
    size_t   len, rlen;
    int64_t  at; uint32_t timeout;
    bool     hdr, cancel, canceled_now, fdpass, proxied;
    ic_msg_t *msg;
    int      handled, done, errst, posts, pres;
    ic_status_t st;
    bool     answered;           /* the handler produced its answer */
    uint64_t slot; bool pend;
    bool     sub;
} q_t;
static q_t *Q[600]; static int NQ;
typedef struct { end_t *to; end_t *from; int prio, last; } ord_t;
static ord_t ords[1024]; static int nords;

static qm_t(ic_cbs) impl, impl_px;
static end_t *px_end;
static bool faulty, any_bye, f_disc, in_cb, hooks, no_never, quiet_cb;
static int wa_soft, wa_hard;
static el_t lel[3];
static int64_t part_from = -1, part_to, max_slack_ms;
static bool px_broken;
static int raw_seen;
static bool wild, plain;            /* the peer lies; no header, no descriptor */

/* }}} */
/* {{{ contents */

static void fill(uint8_t *p, size_t n, uint32_t id)
{
    uint64_t x = id * 0x9E3779B97F4A7C15ull + 7;
    for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; p[i] = x >> 24; }
}
static size_t total;
static size_t pick_len1(void);
static size_t pick_len(void)
{
    size_t n = pick_len1(), cap = sim_io.short_wr || sim_io.short_rd || sim_io.split ? 300000 : 3000000;
    if (total + n > cap && n > 100) n = n % 100;
    total += n;
    return n;
}
static size_t pick_len1(void)
{
    switch (rdat(10)) {
      case 0: return 0;
      case 1: case 2: case 3: case 4: return rdat(60);
      case 5: case 6: return rdat(2000);
      case 7: return 65536 - 60 + rdat(80);
      case 8: return rdat(30000);
      default: return rdat(5) ? rdat(500) : 60000 + rdat(150000);
    }
}
static uint8_t scratch[1 << 18], scratch2[1 << 18];
static vrpc__info__t mk_info(uint64_t id, size_t len, uint32_t salt, uint8_t *buf)
{
    static int nums[8];
    static char tag[2][32];
    vrpc__info__t v;
    iop_init(vrpc__info, &v);
    fill(buf, len, id * 2 + salt);
    v.id = id;
    v.data = LSTR_DATA_V(buf, len);
    snprintf(tag[salt & 1], 32, "tag%d-%d", (int)id, salt);
    if (id % 3) v.tag = LSTR(tag[salt & 1]);
    for (int i = 0; i < 8; i++) nums[i] = id * i + salt;
    v.nums.tab = nums; v.nums.len = id % 8;
    return v;
}
static void check_info(const char *who, const vrpc__info__t *v, uint64_t id, size_t len, uint32_t salt)
{
    vrpc__info__t r = mk_info(id, len, salt, scratch2);
    if (v->id != id) VIOL("mixed-up", "%s %d got the contents of %d", who, (int)id, (int)v->id);
    if (!iop_equals(vrpc__info, v, &r)) VIOL("corrupted", "%s %d: contents differ (%d bytes, %zu were sent)", who, (int)id, (int)v->data.len, len);
}
/* }}} */
/* {{{ completions */

static q_t *send_query(end_t *e, bool sub);
static void on_event(ichannel_t *ic, ic_event_t evt);
static end_t *end_of(ichannel_t *ic) { return ic->priv; }

static void do_disconnect(end_t *e)
{
    if (e->px) return;
    sim_event("end %d: ic_disconnect", e->id);
    sim_fault("user-disconnect");
    e->want = false;
    ic_disconnect(e->ic);
}

static void complete(ichannel_t *ic, ic_msg_t *msg, ic_status_t st)
{
    q_t *q = *(q_t **)msg->priv;
    sim_event("query %d: %s", q->id, ic_status_to_string(st));
    sim_hash(q->id * 16 + st);
    if (q->done++) VIOL("completed-twice", "query %d completes again (%s after %s)", q->id, ic_status_to_string(st), ic_status_to_string(q->st));
    if (ic != q->from->ic) VIOL("wrong-channel", "query %d completes on another channel", q->id);
    q->st = st;
    q->msg = NULL;
    if (wild) goto judged;
    switch (st) {
      case IC_MSG_OK:
        if (!q->answered || (q->how != H_REPLY && q->how != H_LATER)) VIOL("false-answer", "query %d gets OK, its handler did not answer so", q->id);
        break;
      case IC_MSG_EXN:
        if (!q->answered || (q->how != H_THROW && q->how != H_LATER_THROW)) VIOL("false-answer", "query %d gets an exception, its handler did not throw", q->id);
        break;
      case IC_MSG_SERVER_ERROR: case IC_MSG_INVALID:
        if (!q->answered || q->errst != (int)st) VIOL("false-answer", "query %d gets %s, its handler did not answer so", q->id, ic_status_to_string(st));
        break;
      case IC_MSG_UNIMPLEMENTED:
        if (q->rpc != R_NOPE && q->errst != (int)st && !wild) VIOL("false-answer", "query %d gets UNIMPLEMENTED", q->id);
        break;
      case IC_MSG_TIMEDOUT:
        if (!q->timeout) VIOL("false-timeout", "query %d has no timeout but times out", q->id);
        if (sim_now_ns < q->at + q->timeout * SIM_MS - SIM_MS) VIOL("early-timeout", "query %d times out after %d ms instead of %u", q->id, (int)((sim_now_ns - q->at) / SIM_MS), q->timeout);
        break;
      case IC_MSG_CANCELED:
        if (!q->canceled_now) VIOL("false-cancel", "query %d is reported as cancelled", q->id);
        break;
      case IC_MSG_PROXY_ERROR:
        if (!q->proxied || !(faulty || any_bye)) VIOL("false-error", "query %d gets PROXY_ERROR", q->id);
        break;
      case IC_MSG_RETRY:
        if (!any_bye && q->errst != (int)st) VIOL("false-error", "query %d gets RETRY although nobody said bye", q->id);
        break;
      case IC_MSG_ABORT:
        if (!faulty && !any_bye) VIOL("false-abort", "query %d is aborted although nothing went wrong", q->id);
        if (!q->proxied && ic->elh && !ic->is_closing) VIOL("false-abort", "query %d is aborted although the channel is connected", q->id);
        break;
      default:
        VIOL("false-answer", "query %d gets status %d", q->id, st);
    }
  judged:
    if (quiet_cb || q->from->gone) return;
    if (st != IC_MSG_ABORT && one_in(12) && ic_is_ready(ic) && NQ < 300) { send_query(q->from, true); }
    else if (f_disc && st != IC_MSG_ABORT && one_in(40) && ic->elh && (!ic->is_spawned || ic->no_autodel)) { sim_probe("disconnect-in-callback"); do_disconnect(q->from); }
}
#define CBS(ifc)                                                              \
    static void IOP_RPC_CB(vrpc__mod, ifc, echo)                              \
    {                                                                         \
        q_t *q = *(q_t **)msg->priv;                                          \
        if (status == IC_MSG_OK) { check_info("answer of query", &res->info, q->id, q->rlen, 1); if (res->extra != 3 + q->id % 2) VIOL("corrupted", "answer of query %d: extra is %d", q->id, res->extra); } \
        if (status == IC_MSG_EXN) { char w[32]; snprintf(w, sizeof(w), "why %d", q->id); if ((int)exn->id != q->id || !lstr_equal(exn->why, LSTR(w))) VIOL("mixed-up", "query %d gets the exception of %d", q->id, (int)exn->id); } \
        complete(ic, msg, status);                                            \
    }                                                                         \
    static void IOP_RPC_CB(vrpc__mod, ifc, small) { complete(ic, msg, status); } \
    static void IOP_RPC_CB(vrpc__mod, ifc, nope) { complete(ic, msg, status); }
CBS(first)
CBS(second)

/* }}} */
/* {{{ handlers */

static void answer(q_t *q, ichannel_t *ic)
{
    uint64_t slot = q->slot;
    q->pend = false;
    q->answered = true;
    sim_event("handler answers query %d", q->id);
    switch (q->how) {
      case H_THROW: case H_LATER_THROW: {
        char w[32];
        snprintf(w, sizeof(w), "why %d", q->id);
        if (q->iface) ic_throw(ic, slot, vrpc__mod, second, echo, .id = q->id, .why = LSTR(w));
        else ic_throw(ic, slot, vrpc__mod, first, echo, .id = q->id, .why = LSTR(w));
      } break;
      case H_ERR: case H_LATER_ERR:
        q->errst = q->id % 2 ? IC_MSG_SERVER_ERROR : IC_MSG_INVALID;
        ic_reply_err(ic, slot, q->errst);
        break;
      default:
        if (q->rpc == R_SMALL) {
            if (q->iface) ic_reply(ic, slot, vrpc__mod, second, small); else ic_reply(ic, slot, vrpc__mod, first, small);
        } else {
            vrpc__info__t v = mk_info(q->id, q->rlen, 1, scratch);
            if (q->iface) ic_reply(ic, slot, vrpc__mod, second, echo, .info = v, .extra = 3 + q->id % 2);
            else ic_reply(ic, slot, vrpc__mod, first, echo, .info = v, .extra = 3 + q->id % 2);
        }
    }
}
static void handle(ichannel_t *ic, uint64_t slot, uint64_t id, int rpc, int iface, const vrpc__info__t *info, const ic__hdr__t *hdr)
{
    end_t *e = end_of(ic);
    sim_count_op();
    if (id >= 1000000) { raw_seen++; if (!ic_slot_is_async(slot)) ic_reply_err(ic, slot, IC_MSG_SERVER_ERROR); return; }
    if (id >= (uint64_t)NQ) VIOL("corrupted", "a handler is called for unknown query %d", (int)id);
    q_t *q = Q[id];
    sim_event("end %d: handler of query %d", e->id, q->id);
    if (q->handled++) VIOL("handled-twice", "query %d is delivered twice", q->id);
    if (q->rpc != rpc || q->iface != iface) VIOL("wrong-handler", "query %d reaches the handler of another RPC", q->id);
    if (q->canceled_now && !q->answered && q->done && q->st == IC_MSG_CANCELED && q->cancel) { /* already on its way */ }
    if (info) check_info("handler of query", info, q->id, q->len, 0);
    if (q->hdr) {
        char lg[32];
        snprintf(lg, sizeof(lg), "login-%d", q->id);
        if (!hdr || !IOP_UNION_IS(ic__hdr, hdr, simple) || !lstr_equal(hdr->simple.login, LSTR(lg))) VIOL("corrupted", "handler of query %d: header differs", q->id);
    } else if (hdr) VIOL("corrupted", "handler of query %d: unexpected header", q->id);
    int fd = ic_get_fd(ic);
    if (q->fdpass && fd < 0 && !q->proxied) VIOL("fd-lost", "query %d comes without its descriptor", q->id);
    if (!q->fdpass && fd >= 0) VIOL("fd-wrong", "query %d comes with a descriptor that is not its own", q->id);
    if (fd >= 0) {
        int k; ssize_t n;
        for (int t = 0; t < 200 && (n = read(fd, &k, sizeof(k))) < 0; t++) ;
        if (n != sizeof(k) || k != q->id) VIOL("fd-wrong", "query %d comes with the descriptor of another (%d)", q->id, n == sizeof(k) ? k : -1);
        close(fd);
    }
    /* in the order of the calls, at each priority */
    int o;
    for (o = 0; o < nords && !(ords[o].to == e && ords[o].from == q->from && ords[o].prio == q->prio); o++) ;
    if (o == nords && nords < 1024) { nords++; ords[o].to = e; ords[o].from = q->from; ords[o].prio = q->prio; ords[o].last = -1; }
    if (o < nords && !q->proxied) {
        if (q->id < ords[o].last) VIOL("order", "query %d is delivered after query %d, sent later on the same channel at the same priority", q->id, ords[o].last);
        ords[o].last = q->id;
    }
    if (rpc == R_FIRE) { if (!ic_slot_is_async(slot)) VIOL("async", "async query %d has a slot", q->id); q->answered = true; return; }
    q->slot = slot;
    if (!quiet_cb && NQ < 300 && one_in(15) && ic_is_ready(ic)) send_query(e, true);
    switch (q->how) {
      case H_REPLY: case H_THROW: case H_ERR: answer(q, rnd(2) ? ic : NULL); break;
      case H_NEVER: break;
      default: q->pend = true;
    }
    if (f_disc && !quiet_cb && one_in(50) && e->kind != E_LOCAL && ic->elh && (!ic->is_spawned || ic->no_autodel)) { sim_probe("disconnect-in-handler"); do_disconnect(e); }
}
#define IMPLS(ifc, n)                                                         \
    static void IOP_RPC_IMPL(vrpc__mod, ifc, echo) { handle(ic, slot, arg->info.id, R_ECHO, n, &arg->info, hdr); } \
    static void IOP_RPC_IMPL(vrpc__mod, ifc, fire) { handle(ic, slot, arg->info.id, R_FIRE, n, &arg->info, hdr); } \
    static void IOP_RPC_IMPL(vrpc__mod, ifc, small) { handle(ic, slot, arg->id, R_SMALL, n, NULL, hdr); }
IMPLS(first, 0)
IMPLS(second, 1)

static int pres, posts;
static void pre_hook(ichannel_t *ic, uint64_t slot, ic__hdr__t *hdr, data_t arg, bool *mod)
{
    (void)ic; (void)hdr; (void)arg; (void)mod;
    pres++;
    ic_hook_ctx_t *c = ic_hook_ctx_new(slot, sizeof(int));
    memcpy(c->data, &pres, sizeof(int));
}
static int last_post;
static uint8_t posted[4096];
static void post_hook(ichannel_t *ic, ic_status_t st, ic_hook_ctx_t *ctx, data_t arg, const iop_struct_t *s, const void *v)
{
    (void)ic; (void)st; (void)arg; (void)s; (void)v;
    int k; memcpy(&k, ctx->data, sizeof(int));
    posts++;
    last_post = k;
    if (k <= 0 || k > pres || (k < 4096 && posted[k]++)) VIOL("post-hook", "post hook %d called twice", k);
}
static ic_dynproxy_t dyn(ic__hdr__t *hdr, void *priv)
{
    (void)hdr; (void)priv;
    if (px_end && px_end->ic && ic_is_ready(px_end->ic)) return IC_DYNPROXY(px_end->ic);
    return IC_DYNPROXY_NULL;
}
/* }}} */
/* {{{ queries */

static q_t *send_query(end_t *e, bool sub)
{
    if (NQ >= countof(Q) || e->gone) return NULL;
    q_t *q = Q[NQ] = p_new(q_t, 1);
    q->id = NQ++;
    q->from = e;
    q->sub = sub;
    q->rpc = rdat(8); q->rpc = q->rpc < 5 ? R_ECHO : q->rpc == 5 ? R_SMALL : q->rpc == 6 ? R_FIRE : R_NOPE;
    q->iface = rdat(3) == 2;
    q->how = rdat(H_MAX + 4); if (q->how >= H_MAX) q->how = q->how & 1 ? H_LATER : H_REPLY;
    if (q->how == H_NEVER && no_never) q->how = H_LATER;
    if (q->rpc == R_SMALL && q->how == H_THROW) q->how = H_REPLY;
    if (q->rpc == R_SMALL && q->how == H_LATER_THROW) q->how = H_LATER;
    if (sub && rdat(2)) q->how = H_REPLY;
    q->len = pick_len(); q->rlen = pick_len();
    static const uint8_t pr[] = { EV_PRIORITY_NORMAL, EV_PRIORITY_NORMAL, EV_PRIORITY_NORMAL, EV_PRIORITY_LOW, EV_PRIORITY_HIGH };
    q->prio = pr[rdat(5)];
    q->proxied = e->kind == E_PROXIED;
    if (rdat(4) == 3) { q->timeout = rdat(3) ? 1 + rdat(400) : 500 + rdat(3000); if (e->kind == E_LOCAL && e->ic->is_local_async) q->timeout = 0; }
    q->hdr = !plain && rdat(4) == 3;
    int fd = -1;
    if ((e->kind == E_UNIX || e->kind == E_PAIR || (e->kind == E_SRV && e->ic->is_unix)) && rdat(5) == 4) {
        int p[2];
        IGNORE(pipe(p));
        for (int t = 0; t < 200 && write(p[1], &q->id, sizeof(int)) < 0; t++) ;
        close(p[1]);
        fd = p[0];
        q->fdpass = true;
    }
    q->at = sim_now_ns;
    ic_msg_t *m = ic_msg_new_fd(fd, sizeof(q_t *));
    *(q_t **)m->priv = q;
    if (q->timeout) ic_msg_set_timeout(m, q->timeout);
    ic_msg_set_priority(m, q->prio);
    char lg[32];
    ic__hdr__t hdr;
    if (q->hdr) {
        snprintf(lg, sizeof(lg), "login-%d", q->id);
        hdr = IOP_UNION(ic__hdr, simple, { .payload = -1 });
        iop_init(ic__simple_hdr, &hdr.simple);
        hdr.simple.login = LSTR(lg);
        hdr.simple.host = LSTR("10.1.2.3");
        m->hdr = &hdr;
    }
    q->msg = m;
    sim_event("query %d on end %d: rpc %d iface %d how %d, %zu/%zu bytes, prio %d, timeout %u%s%s", q->id, e->id, q->rpc, q->iface, q->how, q->len, q->rlen, q->prio, q->timeout, q->hdr ? ", header" : "", q->fdpass ? ", fd" : "");
    vrpc__info__t v = mk_info(q->id, q->len, 0, scratch);
    if (e->kind == E_LOCAL && e->ic->is_local_async == false) m->force_pack = rdat(2);
#define SEND(ifc) do { switch (q->rpc) { \
      case R_ECHO:  ic_query2(e->ic, m, vrpc__mod, ifc, echo, .info = v); break; \
      case R_SMALL: ic_query2(e->ic, m, vrpc__mod, ifc, small, .id = q->id); break; \
      case R_NOPE:  ic_query2(e->ic, m, vrpc__mod, ifc, nope, .info = v); break; \
      default:      q->msg = NULL; ic_query2(e->ic, m, vrpc__mod, ifc, fire, .info = v); break; \
    } } while (0)
    if (q->iface) SEND(second); else SEND(first);
    return q;
}
static void later(bool all)
{
    int k = 0;
    for (int i = 0; i < NQ; i++) k += Q[i]->pend;
    if (!k) return;
    int pick = rnd(k);
    for (int i = 0, n = NQ; i < n; i++) {
        if (!Q[i]->pend) continue;
        if (!all && pick-- != 0) continue;
        answer(Q[i], NULL);
        if (!all) break;
    }
}
static void do_cancel(void)
{
    int k = 0;
    for (int i = 0; i < NQ; i++) k += Q[i]->msg && Q[i]->from->kind != E_LOCAL;
    if (!k) return;
    k = rnd(k);
    for (int i = 0; i < NQ; i++) {
        q_t *q = Q[i];
        if (!q->msg || q->from->kind == E_LOCAL || k-- != 0) continue;
        sim_event("cancel query %d", q->id);
        sim_fault("user-cancel");
        q->canceled_now = q->cancel = true;
        ic_msg_cancel(q->msg);
        if (!q->done) VIOL("cancel", "query %d is not completed by its cancellation", q->id);
        break;
    }
}
/* }}} */
/* {{{ channels */

static void on_wipe(ichannel_t *ic) { end_t *e = end_of(ic); e->gone = true; e->up = false; e->ic = NULL; }
static void on_event(ichannel_t *ic, ic_event_t evt)
{
    end_t *e = end_of(ic);
    static const char *n[] = { "CONNECTED", "DISCONNECTED", "ACT", "NOACT" };
    sim_event("end %d: %s", e->id, n[evt]);
    switch (evt) {
      case IC_EVT_CONNECTED:
        if (e->up) VIOL("events", "end %d: CONNECTED twice", e->id);
        e->up = true; e->ncon++; e->up_at = sim_now_ns;
        if (!quiet_cb && one_in(3) && NQ < 300) send_query(e, true);
        break;
      case IC_EVT_DISCONNECTED:
        if (!faulty && !any_bye) VIOL("false-disconnect", "end %d is disconnected although nothing went wrong", e->id);
        if (!e->up && e->kind == E_PAIR) VIOL("events", "end %d: DISCONNECTED twice", e->id);
        e->up = false; e->ndis++; e->nact = 0; e->noact = false;
        for (int i = 0; i < NQ; i++)
            if (Q[i]->from == e && !Q[i]->done && Q[i]->rpc != R_FIRE) VIOL("left-pending", "query %d is still pending after the disconnection of its channel", i);
        if (e->ic && ic_queue_len(ic) != 0) VIOL("queue-len", "end %d reports %d pending queries after a disconnection", e->id, ic_queue_len(ic));
        break;
      case IC_EVT_ACT:
        if (e->nact++ && !e->noact) VIOL("events", "end %d: ACT without NOACT before", e->id);
        e->noact = false;
        break;
      case IC_EVT_NOACT:
        if (e->noact) VIOL("events", "end %d: NOACT twice", e->id);
        e->noact = true;
        break;
    }
}
static end_t *mk_end(int kind)
{
    if (NE >= countof(E)) sim_end_run();
    end_t *e = E[NE] = p_new(end_t, 1);
    e->id = NE++;
    e->kind = kind;
    e->ic = ic_new();
    e->ic->priv = e;
    e->ic->on_event = on_event;
    e->ic->on_wipe = on_wipe;
    e->ic->impl = kind == E_PROXIED ? &impl : &impl;
    return e;
}
static void su_of(int which, sockunion_t *su)
{
    p_clear(su, 1);
    if (which == 1) {
        su->sunix.sun_family = AF_UNIX;
        strcpy(su->sunix.sun_path, "/nonexistent-sim-dir/sock");
    } else {
        su->sin.sin_family = AF_INET; su->sin.sin_port = htons(which ? 9001 : 9000); su->sin.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    }
}
static bool srv_autodel;
static int spawn_it(int fd, bool px)
{
    end_t *e = mk_end(E_SRV);
    e->ic->no_autodel = !srv_autodel;
    e->px = px;
    if (px) e->ic->impl = &impl_px;
    sim_event("end %d: accepted", e->id);
    if (wa_soft || wa_hard) { e->ic->wa_soft = wa_soft; e->ic->wa_hard = wa_hard; }
    e->ic->tls_required = false;
    ic_spawn(e->ic, fd, NULL);
    return 0;
}
static int on_accept(el_t ev, int fd) { (void)ev; return spawn_it(fd, false); }
static int on_accept_px(el_t ev, int fd) { (void)ev; return spawn_it(fd, true); }
static void do_listen(int which)
{
    sockunion_t su;
    su_of(which, &su);
    lel[which] = ic_listento(&su, which == 1 ? SOCK_SEQPACKET : SOCK_STREAM, 0, which == 2 ? on_accept_px : on_accept);
    if (!lel[which]) VIOL("listen", "cannot listen");
}
static end_t *mk_client(int kind)
{
    end_t *e = mk_end(kind);
    su_of(kind == E_UNIX ? 1 : kind == E_PROXIED ? 2 : 0, &e->ic->su);
    e->ic->tls_required = false;
    e->ic->retry_delay = 100 + rdat(2) * 900;
    if (wa_soft || wa_hard) { e->ic->wa_soft = wa_soft; e->ic->wa_hard = wa_hard; }
    e->want = true;
    sim_event("end %d: client kind %d", e->id, kind);
    if (ic_connect(e->ic) < 0) {
        if (!faulty && !sim_io.eintr) VIOL("connect", "cannot connect");
        ic_mark_disconnected(e->ic);
    }
    return e;
}
static void mk_pair(bool seq)
{
    int sv[2];
    socketpair(AF_UNIX, (seq ? SOCK_SEQPACKET : SOCK_STREAM) | SOCK_NONBLOCK, 0, sv);
    end_t *a = mk_end(E_PAIR), *b = mk_end(E_PAIR);
    a->peer = b; b->peer = a;
    a->ic->no_autodel = b->ic->no_autodel = true;
    a->ic->auto_reconn = b->ic->auto_reconn = false;
    if (wa_soft || wa_hard) { a->ic->wa_soft = b->ic->wa_soft = wa_soft; a->ic->wa_hard = b->ic->wa_hard = wa_hard; }
    sim_event("ends %d and %d: socket pair%s", a->id, b->id, seq ? " (seqpacket)" : "");
    ic_spawn(a->ic, sv[0], NULL);
    ic_spawn(b->ic, sv[1], NULL);
}
static int open_queries(void) { int n = 0; for (int i = 0; i < NQ; i++) n += !Q[i]->done && Q[i]->rpc != R_FIRE; return n; }
static void checks(void)
{
    for (int i = 0; i < NQ; i++) {
        q_t *q = Q[i];
        if (q->done || q->rpc == R_FIRE || !q->timeout) continue;
        int64_t lim = q->timeout + (q->timeout >= 500 ? q->timeout / 10 : 0) + max_slack_ms;
        if (sim_now_ns - q->at > lim * SIM_MS) VIOL("late-timeout", "query %d is still pending %d ms after being sent, its timeout is %u", i, (int)((sim_now_ns - q->at) / SIM_MS), q->timeout);
    }
    for (int i = 0; i < NE; i++) {
        end_t *e = E[i];
        if (e->gone) continue;
        int n = 0;
        for (int j = 0; j < NQ; j++) n += Q[j]->from == e && !Q[j]->done && Q[j]->rpc != R_FIRE;
        if (ic_queue_len(e->ic) != n && e->kind != E_LOCAL && !e->px) VIOL("queue-len", "end %d reports %d pending queries, %d are", e->id, ic_queue_len(e->ic), n);
        if (part_from >= 0 && wa_hard > 0 && e->up && (e->kind == E_TCP || e->kind == E_PROXIED || (e->kind == E_SRV && !e->ic->is_unix))) {
            int64_t t = (part_from > e->up_at ? part_from : e->up_at) + (wa_hard + wa_hard / 10 + 200 + sim_io.delay_max_us / 1000) * SIM_MS;
            if (sim_now_ns > t) VIOL("undetected-silence", "end %d: the peer has been silent for %d ms, %d were allowed", e->id, (int)((sim_now_ns - part_from) / SIM_MS), wa_hard);
        }
    }
}
static void turn(int ms)
{
    if (part_from >= 0 && sim_now_ns >= part_to) part_from = -1;
    el_loop_timeout(ms);
    if (part_from >= 0 && sim_now_ns >= part_to) part_from = -1;
    checks();
}
static void settle(int turns, bool stop)
{
    int64_t t = sim_now_ns + turns * 10 * SIM_MS;
    for (int i = 0; (i < turns || sim_now_ns < t) && (!stop || open_queries()); i++) { later(true); turn(10); }
}
static end_t *pick_end(bool (*ok)(end_t *))
{
    int k = 0;
    for (int i = 0; i < NE; i++) k += !E[i]->gone && ok(E[i]);
    if (!k) return NULL;
    k = rnd(k);
    for (int i = 0; i < NE; i++) if (!E[i]->gone && ok(E[i]) && k-- == 0) return E[i];
    return NULL;
}
static bool ok_send(end_t *e) { return e->kind == E_LOCAL || (ic_is_ready(e->ic) && !e->px); }
static bool ok_cli(end_t *e) { return e->kind == E_TCP || e->kind == E_UNIX || e->kind == E_PROXIED; }
static bool ok_conn(end_t *e) { return e->kind != E_LOCAL && e->ic->elh && (!e->ic->is_spawned || e->ic->no_autodel); }
static bool ok_bye(end_t *e) { return e->kind != E_LOCAL && e->up && !e->ic->is_closing; }
static bool ok_down(end_t *e) { return ok_cli(e) && !e->ic->elh && !e->want && !e->ic->timer; }


static void run_main(bool c10)
{
    no_never = !sim_choose(ST_CFG, 3);
    faulty = sim_choose(ST_CFG, 3) != 0 || c10;
    if (c10 && sim_choose(ST_CFG, 4) == 3) faulty = false;
    hooks = sim_choose(ST_CFG, 4) == 3;
    srv_autodel = sim_choose(ST_CFG, 2);
    bool f_rst = faulty && sim_choose(ST_CFG, 2), f_part = faulty && sim_choose(ST_CFG, c10 ? 2 : 4) == 1;
    bool f_stop = faulty && sim_choose(ST_CFG, 3) == 2, f_refuse = faulty && sim_choose(ST_CFG, 4) == 3, f_bh = faulty && sim_choose(ST_CFG, 4) == 3;
    bool f_bye = sim_choose(ST_CFG, 4) == 3, f_del = faulty && sim_choose(ST_CFG, 3) == 2;
    bool f_cancel = sim_choose(ST_CFG, 3) == 2;
    f_disc = faulty && sim_choose(ST_CFG, 3) == 2;
    if (sim_choose(ST_CFG, c10 ? 2 : 4) == 1) {
        wa_hard = 3000 + sim_choose(ST_CFG, 4) * 1000;
        if (sim_choose(ST_CFG, 2)) wa_soft = wa_hard / 2;
    } else if (sim_choose(ST_CFG, 6) == 5) wa_soft = 2000;
    if (wa_hard || wa_soft) { if (sim_io.delay_max_us > 50000) sim_io.delay_max_us = 50000; }
    max_slack_ms = 250 + sim_io.late_wake_us / 1000;
    /* slow writers are not silent ones */
    if (wa_hard && sim_io.sndbuf < 65536) sim_io.sndbuf = 65536;
    qm_init(ic_cbs, &impl); qm_init(ic_cbs, &impl_px);
    if (hooks) {
        ic_register_pre_post_hook(&impl, vrpc__mod, first, echo, pre_hook, post_hook, (data_t){ .ptr = NULL }, (data_t){ .ptr = NULL });
    } else ic_register(&impl, vrpc__mod, first, echo);
    ic_register(&impl, vrpc__mod, first, fire);
    ic_register(&impl, vrpc__mod, first, small);
    ic_register(&impl, vrpc__mod, second, echo);
    ic_register(&impl, vrpc__mod, second, fire);
    ic_register(&impl, vrpc__mod, second, small);
    el_loop_timeout(0);
    int nb0 = sim_nb_open();
    do_listen(0); do_listen(1);
    bool proxy = sim_choose(ST_CFG, 4) == 3;
    if (proxy) {
        px_end = mk_client(E_TCP); px_end->px = true;
        ic_register_proxy_p(&impl_px, vrpc__mod, first, echo, &px_end->ic);
        ic_register_proxy_p(&impl_px, vrpc__mod, first, fire, &px_end->ic);
        ic_register_dynproxy(&impl_px, vrpc__mod, first, small, dyn, NULL);
        ic_register_dynproxy(&impl_px, vrpc__mod, second, echo, dyn, NULL);
        ic_register_proxy_p(&impl_px, vrpc__mod, second, fire, &px_end->ic);
        ic_register_proxy_p(&impl_px, vrpc__mod, second, small, &px_end->ic);
        do_listen(2);
    }
    int nc = 1 + sim_choose(ST_CFG, 3);
    for (int i = 0; i < nc; i++) {
        int k = sim_choose(ST_CFG, 6);
        if (k < 2) mk_client(E_TCP);
        else if (k == 2) mk_client(E_UNIX);
        else if (k == 3) mk_pair(sim_choose(ST_CFG, 2));
        else if (k == 4) { end_t *e = mk_end(E_LOCAL); ic_set_local(e->ic, sim_choose(ST_CFG, 2)); }
        else if (proxy) mk_client(E_PROXIED); else mk_client(E_TCP);
    }
    int steps = sim_range(ST_CFG, 10, sim_tier ? 500 : 200);
    for (int s = 0; s < steps && !sim_exhausted(ST_OPS); s++) {
        end_t *e;
        switch (rnd(12)) {
          case 0: case 1: case 2: case 3:
            if ((e = pick_end(ok_send)) && NQ < 300) for (int k = one_in(6) ? 6 : 1; k-- && !e->gone && ok_send(e); ) send_query(e, false);
            break;
          case 4: later(false); break;
          case 5: case 6: case 7: turn(0); break;
          case 8: turn(1 + rnd(100)); break;
          case 9: if (f_cancel) do_cancel(); break;
          case 10: if (one_in(5)) turn(100), turn(100), turn(100); break;
          default:
            switch (rnd(9)) {
              case 0: if (f_rst && one_in(3)) { int n = sim_net_nb_conns(); if (n) { sim_event("reset"); sim_net_reset_conn(rnd(n)); } } break;
              case 1:
                if (f_part && one_in(2)) {
                    if (part_from < 0) {
                        static const int d[] = { 100, 500, 2000, 5000, 9000, 20000 };
                        int ms = d[rnd(6)];
                        sim_event("partition for %d ms", ms);
                        part_from = sim_now_ns; part_to = sim_now_ns + ms * SIM_MS;
                        sim_net_partition(part_to);
                    }
                }
                break;
              case 2:
                if (f_stop && one_in(2)) {
                    int w = rnd(2);
                    if (lel[w]) {
                        sim_event("server %d stops", w); sim_fault("server-stop");
                        el_unregister(&lel[w]);
                        for (int i = 0; i < NE; i++) if (!E[i]->gone && E[i]->kind == E_SRV && E[i]->ic->is_unix == w) { ichannel_t *ic = E[i]->ic; ic_delete(&ic); }
                    } else do_listen(w);
                }
                break;
              case 3: if (f_refuse && one_in(2)) { static bool r; r = !r; sim_event("refuse %d", r); sim_net_refuse(r); } break;
              case 4: if (f_bh && one_in(2)) { static bool r; r = !r; sim_event("blackhole %d", r); sim_net_blackhole(r); } break;
              case 5: if (f_bye && one_in(3) && (e = pick_end(ok_bye))) { sim_event("end %d: bye", e->id); sim_fault("user-bye"); any_bye = true; e->bye = true; e->want = false; ic_bye(e->ic); } break;
              case 6: if (f_disc && one_in(3) && (e = pick_end(ok_conn))) do_disconnect(e); break;
              case 7:
                if (f_del && one_in(4) && (e = pick_end(ok_cli)) && !e->px) {
                    int kind = e->kind;
                    sim_event("end %d: deleted", e->id); sim_fault("user-delete");
                    ichannel_t *ic = e->ic; ic_delete(&ic);
                    mk_client(kind);
                } break;
              default:
                if ((e = pick_end(ok_down))) { sim_event("end %d: connects again", e->id); e->want = true; e->ic->auto_reconn = true; if (ic_connect(e->ic) < 0) ic_mark_disconnected(e->ic); }
            }
        }
        checks();
    }
    /* faults stop */
    sim_event("faults stop");
    while (part_from >= 0) turn(100);
    sim_net_refuse(false); sim_net_blackhole(false);
    uint32_t dm = sim_io.delay_max_us;
    memset(&sim_io, 0, sizeof(sim_io));
    sim_io.sndbuf = 1 << 18;
    sim_io.whole_first = 1;
    (void)dm;
    for (int w = 0; w < (proxy ? 3 : 2); w++) if (!lel[w]) do_listen(w);
    f_disc = false;
    settle(50, false);
    int64_t lim = sim_now_ns + 8 * SIM_S + wa_hard * SIM_MS;
    while (sim_now_ns < lim) {
        bool all = true;
        for (int i = 0; i < NE; i++) if (!E[i]->gone && E[i]->want && !E[i]->up) all = false;
        if (all) break;
        later(true);
        turn(100);
    }
    for (int i = 0; i < NE; i++) if (!E[i]->gone && E[i]->want && !E[i]->up) VIOL("no-reconnection", "end %d does not reconnect after the faults", E[i]->id);
    /* everything whose handler answers completes */
    int64_t t6 = sim_now_ns + 6 * SIM_S;
    for (int k = 0; k < 600 || sim_now_ns < t6; k++) {
        int n = 0;
        for (int i = 0; i < NQ; i++) n += (Q[i]->rpc == R_FIRE && k < 100 && !Q[i]->handled) || (!Q[i]->done && Q[i]->rpc != R_FIRE && !(Q[i]->how == H_NEVER && Q[i]->handled));
        if (!n) break;
        later(true);
        turn(10);
    }
    bool was_bye = any_bye;
    for (int i = 0; i < NQ; i++) {
        q_t *q = Q[i];
        if (q->rpc == R_FIRE) { if (!faulty && !was_bye && !q->timeout && q->handled != 1) VIOL("not-delivered", "async query %d is never delivered", i); continue; }
        if (q->done != 1 && !(q->how == H_NEVER && q->handled)) VIOL("no-completion", "query %d never completes (%s)", i, !q->handled ? "not delivered" : !q->answered ? "not answered" : "answered");
        if (q->done && (q->st == IC_MSG_OK || q->st == IC_MSG_EXN || q->st == IC_MSG_SERVER_ERROR) && q->handled != 1) VIOL("false-answer", "query %d is answered, delivered %d times", i, q->handled);
        if (!faulty && !was_bye && q->done && !q->timeout && !q->cancel) {
            ic_status_t w = q->rpc == R_NOPE ? IC_MSG_UNIMPLEMENTED : q->how == H_THROW || q->how == H_LATER_THROW ? IC_MSG_EXN : q->how == H_ERR || q->how == H_LATER_ERR ? (ic_status_t)q->errst : IC_MSG_OK;
            if (q->st != w) VIOL("false-answer", "query %d gets %s, expected %s", i, ic_status_to_string(q->st), ic_status_to_string(w));
        }
    }
    /* still usable */
    int n0 = NQ;
    for (int i = 0, n = NE; i < n; i++) {
        end_t *e = E[i];
        if (e->gone || !e->up || e->ic->is_closing || e->px) continue;
        if (e->kind == E_SRV && e->ic->is_closing) continue;
        q_t *q = send_query(e, false);
        if (q && q->how == H_NEVER) q->how = H_LATER;
    }
    bool was_faulty = faulty;
    settle(100, true);
    for (int i = n0; i < NQ; i++) {
        q_t *q = Q[i];
        if (q->rpc == R_FIRE || q->sub) continue;
        if (q->how == H_NEVER && q->handled && !q->done) continue;
        if (q->done != 1) VIOL("no-completion", "query %d, sent after the faults, never completes", i);
        if (!any_bye && (q->st == IC_MSG_ABORT || q->st == IC_MSG_RETRY || q->st == IC_MSG_PROXY_ERROR)) VIOL("unusable", "query %d, sent after the faults, fails (%s)", i, ic_status_to_string(q->st));
    }
    /* graceful or abrupt end */
    quiet_cb = true;
    if (sim_choose(ST_CFG, 2)) {
        int nb = NQ, k0 = NQ;
        for (int i = 0, n = NE; i < n; i++) if (!E[i]->gone && E[i]->kind != E_LOCAL && E[i]->up && !E[i]->ic->is_closing && !E[i]->px)
            for (int k = rnd(3); k--; ) { q_t *q = send_query(E[i], false); if (q && q->how == H_NEVER) q->how = H_LATER; }
        nb = NQ;
        if (rnd(2)) turn(0);
        any_bye = true;
        bool said[256] = { false };
        for (int i = 0; i < NE; i++) {
            end_t *e = E[i];
            if (e->gone || !(ok_cli(e) || (e->kind == E_PAIR && e->id % 2)) || !e->up || e->ic->is_closing || e->px) continue;
            sim_event("end %d: final bye", e->id);
            e->want = false; said[i] = true;
            ic_bye(e->ic);
        }
        settle(300, false);
        for (int i = k0; i < nb; i++) {
            q_t *q = Q[i];
            if (q->rpc == R_FIRE || q->proxied) continue;
            if (!q->done) VIOL("no-completion", "query %d, sent before a bye, never completes", i);
            if (said[q->from->id] && q->answered && (q->st == IC_MSG_ABORT || q->st == IC_MSG_RETRY)) VIOL("bye-lost", "query %d, sent before its sender said bye, fails (%s)", i, ic_status_to_string(q->st));
        }
        int nv = 0;
        for (int i = 0; i < NQ; i++) nv += Q[i]->how == H_NEVER && Q[i]->handled;
        if (!nv) for (int i = 0; i < NE; i++) {
            if (said[i] && !E[i]->gone && E[i]->ic->elh) VIOL("bye-stuck", "end %d is still connected long after its bye (%d pending, %d queued)", i, E[i]->ic->pending, E[i]->ic->queue_len);
        }
    }
    (void)was_faulty;
    any_bye = true; faulty = true;
    for (int w = 0; w < 3; w++) el_unregister(&lel[w]);
    for (int i = 0; i < NE; i++) if (!E[i]->gone && E[i]->kind == E_SRV && srv_autodel && !E[i]->ic->elh) VIOL("zombie", "accepted channel %d is not deleted although it got disconnected", i);
    for (int i = 0; i < NE; i++) if (!E[i]->gone) { ichannel_t *ic = E[i]->ic; sim_event("end %d: final delete", i); ic_delete(&ic); }
    for (int i = 0; i < NQ; i++) if (Q[i]->rpc != R_FIRE && Q[i]->done != 1) VIOL("no-completion", "query %d is still pending after the deletion of its channel", i);
    for (int i = 0; i < NQ; i++) if (Q[i]->pend) answer(Q[i], NULL);
    for (int i = 0; i < 5; i++) el_loop_timeout(1000);
    if (sim_nb_open() > nb0) VIOL("leak-fd", "%d descriptor(s) are left open", sim_nb_open() - nb0);
    int sent = NQ, ok = 0;
    for (int i = 0; i < NQ; i++) ok += Q[i]->done && Q[i]->st == IC_MSG_OK;
    sim_state(sent * 1000 + ok);
}
/* }}} */
/* {{{ a scripted peer, that may lie */

static struct { int fd; uint8_t in[1 << 20]; size_t n; bool bye; uint32_t last; } rp;
static struct { uint32_t slot; q_t *q; bool used; } rs[600]; static int nrs;
static struct { int want, got; } rq[400]; static int nrq;
static uint32_t cmd_of(int iface, int rpc) { static const int t[] = { 1, 4, 3, 2 }; return (uint32_t)(iface + 1) << 16 | t[rpc]; }

static void r_bytes(const void *b, size_t n)
{
    const uint8_t *p = b;
    while (n) {
        size_t k = n;
        if (rnd(3) == 0 && n > 1) k = 1 + rnd(n - 1 < 64 ? n - 1 : 64);
        if (sim_peer_write(rp.fd, p, k) < 0) return;
        p += k; n -= k;
        if (n && rnd(3) == 0) turn(0);
    }
}
static void r_msg(uint32_t slot, uint32_t cmd, const void *b, size_t n)
{
    static uint8_t buf[1 << 18];
    put_unaligned_le32(buf, slot); put_unaligned_le32(buf + 4, cmd); put_unaligned_le32(buf + 8, n);
    if (n) memcpy(buf + 12, b, n);
    r_bytes(buf, 12 + n);
}
static void r_pack(uint32_t slot, uint32_t cmd, const iop_struct_t *st, const void *v)
{
    t_scope;
    lstr_t l = t_iop_bpack_struct(st, v);
    r_msg(slot, cmd, l.s, l.len);
}
static void r_read(void)
{
    ssize_t k;
    while (rp.n < sizeof(rp.in) && (k = sim_peer_read(rp.fd, rp.in + rp.n, sizeof(rp.in) - rp.n)) > 0) rp.n += k;
    size_t at = 0;
    while (rp.n - at >= 12) {
        uint32_t slot = get_unaligned_le32(rp.in + at), cmd = get_unaligned_le32(rp.in + at + 4), dl = get_unaligned_le32(rp.in + at + 8);
        if (dl > sizeof(rp.in)) VIOL("framing", "the channel sends a length of %u", dl);
        if (rp.n - at < 12 + dl) break;
        pstream_t ps = ps_init(rp.in + at + 12, dl);
        slot &= IC_MSG_SLOT_MASK;
        at += 12 + dl;
        if (cmd == 0x80000000u) { if (slot == 1) rp.bye = true; continue; }
        if ((int)cmd <= 0) {
            if (slot >= (uint32_t)nrq || !rq[slot].want) VIOL("framing", "the channel answers an unknown query %u", slot);
            if (rq[slot].got++) VIOL("answered-twice", "query %u of the peer is answered twice", slot);
            if (rq[slot].want != -(int)cmd) VIOL("false-answer", "query %u of the peer gets status %d instead of %d", slot, -(int)cmd, rq[slot].want);
            continue;
        }
        int iface = (cmd >> 16) - 1, tag = cmd & 0xffff, rpc = tag == 1 ? R_ECHO : tag == 2 ? R_FIRE : tag == 3 ? R_NOPE : tag == 4 ? R_SMALL : -1;
        t_scope;
        uint64_t id;
        if (rpc == R_SMALL) {
            vrpc__iface__small_args__t a;
            if (t_iop_bunpack_ps(&vrpc__iface__small_args__s, &a, ps, false) < 0) VIOL("framing", "the channel sends an undecodable query");
            id = a.id;
        } else {
            vrpc__iface__echo_args__t a;
            if (rpc < 0 || t_iop_bunpack_ps(&vrpc__iface__echo_args__s, &a, ps, false) < 0) VIOL("framing", "the channel sends an undecodable query (%x)", cmd);
            id = a.info.id;
            if (id < (uint64_t)NQ) check_info("peer of query", &a.info, id, Q[id]->len, 0);
        }
        if (id >= (uint64_t)NQ || Q[id]->rpc != rpc || Q[id]->iface != iface) VIOL("framing", "the channel sends an unknown query");
        q_t *q = Q[id];
        if (q->handled++) VIOL("handled-twice", "query %d is delivered twice", q->id);
        if (rpc == R_FIRE) { if (slot) VIOL("async", "async query %d has a slot", q->id); continue; }
        if (!slot) VIOL("framing", "query %d has no slot", q->id);
        for (int i = 0; i < nrs; i++) if (rs[i].slot == slot && !rs[i].used) VIOL("framing", "slot %u is used by queries %d and %d", slot, rs[i].q->id, q->id);
        if (nrs < 600) { rs[nrs].slot = rp.last = slot; rs[nrs].q = q; rs[nrs++].used = false; }
    }
    memmove(rp.in, rp.in + at, rp.n - at);
    rp.n -= at;
}
static void r_answer(void)
{
    int k = 0;
    for (int i = 0; i < nrs; i++) k += !rs[i].used;
    if (!k) return;
    k = rnd(k);
    int i;
    for (i = 0; i < nrs; i++) if (!rs[i].used && k-- == 0) break;
    q_t *q = rs[i].q;
    rs[i].used = true;
    q->answered = true;
    char w[32];
    int kind = rnd(7);
    if (q->rpc != R_ECHO && (kind < 2 || kind == 5)) kind = q->rpc == R_SMALL ? 6 : 2;
    sim_event("peer answers query %d (%d)", q->id, kind);
    switch (kind) {
      case 1: {
        snprintf(w, sizeof(w), "why %d", q->id);
        vrpc__iface__echo_exn__t e = { .id = q->id, .why = LSTR(w) };
        q->how = H_THROW;
        r_pack(rs[i].slot, -IC_MSG_EXN, &vrpc__iface__echo_exn__s, &e);
      } break;
      case 2: q->how = H_ERR; q->errst = IC_MSG_SERVER_ERROR; r_msg(rs[i].slot, -q->errst, NULL, 0); break;
      case 3: q->how = H_ERR; q->errst = IC_MSG_INVALID; r_msg(rs[i].slot, -q->errst, "oops", 5); break;
      case 4: q->how = H_ERR; q->errst = rnd(2) ? IC_MSG_UNIMPLEMENTED : IC_MSG_RETRY; r_msg(rs[i].slot, -q->errst, NULL, 0); break;
      case 5:                             /* not an answer of that RPC */
        q->how = H_ERR; q->errst = IC_MSG_INVALID;
        r_msg(rs[i].slot, rnd(2) && q->rpc == R_ECHO ? -IC_MSG_EXN : -IC_MSG_OK, "\xff\xff\xff", 3);
        break;
      default:
        q->how = H_REPLY;
        if (q->rpc == R_SMALL) { r_msg(rs[i].slot, -IC_MSG_OK, NULL, 0); break; }
        if (q->rpc == R_NOPE) { q->how = H_ERR; q->errst = IC_MSG_SERVER_ERROR; r_msg(rs[i].slot, -q->errst, NULL, 0); break; }
        vrpc__iface__echo_res__t r = { .info = mk_info(q->id, q->rlen, 1, scratch), .extra = 3 + q->id % 2 };
        r_pack(rs[i].slot, -IC_MSG_OK, &vrpc__iface__echo_res__s, &r);
    }
}
static void run_raw(void)
{
    plain = true;
    no_never = true;
    faulty = false; hooks = false;
    qm_init(ic_cbs, &impl);
    ic_register(&impl, vrpc__mod, first, echo); ic_register(&impl, vrpc__mod, first, fire); ic_register(&impl, vrpc__mod, first, small);
    ic_register(&impl, vrpc__mod, second, echo); ic_register(&impl, vrpc__mod, second, fire); ic_register(&impl, vrpc__mod, second, small);
    el_loop_timeout(0);
    int nb0 = sim_nb_open();
    srv_autodel = sim_choose(ST_CFG, 2);
    do_listen(0);
    rp.fd = sim_peer_connect(9000);
    nrq = 1;
    sim_event("scripted peer");
    for (int i = 0; i < 1000 && !NE; i++) el_loop_timeout(1);
    if (!NE) VIOL("accept", "a connection is never accepted");
    end_t *e = E[0];
    e->kind = E_RAW;
    el_unregister(&lel[0]);
    if (sim_choose(ST_CFG, 3)) mk_pair(sim_choose(ST_CFG, 2));
    bool bad = false, lies = sim_choose(ST_CFG, 2);
    int how = lies ? (int)sim_choose(ST_CFG, 9) : -1;
    int steps = sim_range(ST_CFG, 5, sim_tier ? 200 : 80), when = steps / 2 + rnd(steps / 2 + 1);
    uint8_t v[4] = { 1, 0, 0, 0 };
    if (how == 8) {                       /* no handshake but garbage */
        faulty = true; bad = true;
        uint8_t g[16]; for (int i = 0; i < 16; i++) g[i] = 0xf0 | rnd(16);
        r_bytes(g, 16);
        steps = 0;
    } else if (sim_choose(ST_CFG, 4)) r_msg(3, 0x80000000u, v, 4);
    else r_msg(2, 0x80000000u, NULL, 0);  /* version 0: no version message */
    for (int s = 0; s < steps && !bad && !sim_exhausted(ST_OPS); s++) {
        if (s == when && lies) {
            bad = true; faulty = true;
            sim_event("the peer misbehaves (%d)", how);
            sim_fault("peer-misbehaves");
            switch (how) {
              case 0: r_msg(rp.last + 70000, -(int)(rnd(2) ? IC_MSG_OK : IC_MSG_SERVER_ERROR), NULL, 0); break;
              case 1: { uint8_t h[12]; put_unaligned_le32(h, rnd(3)); put_unaligned_le32(h + 4, cmd_of(0, R_ECHO)); put_unaligned_le32(h + 8, rnd(2) ? 0xffffff00u : 0x80000000u); r_bytes(h, 12); } break;
              case 2: r_msg(1u << 24 | 1, cmd_of(0, R_SMALL), NULL, 0); break;
              case 3: r_msg(1u << 31 | 1, cmd_of(0, R_SMALL), NULL, 0); break;
              case 4: {
                int i;
                for (i = 0; i < nrs && !rs[i].used; i++) ;
                if (i < nrs) r_msg(rs[i].slot, -(int)IC_MSG_SERVER_ERROR, NULL, 0); else r_msg(77777, 0, NULL, 0);
              } break;
              case 5: wild = true; r_msg(rp.last + 1 + rnd(2), -(int)IC_MSG_SERVER_ERROR, NULL, 0); r_msg(rp.last + 70000, 0, NULL, 0); break;
              case 6: {                    /* close, maybe within a message */
                uint8_t h[12]; put_unaligned_le32(h, 0); put_unaligned_le32(h + 4, cmd_of(0, R_ECHO)); put_unaligned_le32(h + 8, 500);
                if (rnd(2)) r_bytes(h, 1 + rnd(12));
                sim_peer_close(rp.fd); rp.fd = -1;
              } break;
              default: {                   /* arguments that cannot be decoded */
                if (nrq < 400) { rq[nrq].want = IC_MSG_INVALID; r_msg(nrq++, cmd_of(rnd(2), R_ECHO), "\xff\xff\xff", 3); }
              }
            }
            break;
        }
        switch (rnd(8)) {
          case 0: case 1: if (ok_send(e) && NQ < 200) send_query(e, false); break;
          case 2: { end_t *o = pick_end(ok_send); if (o && NQ < 200) send_query(o, false); } break;
          case 3: r_read(); break;
          case 4: r_answer(); break;
          case 5: turn(rnd(2) ? 0 : rnd(50)); break;
          case 6:
            if (nrq < 400) {
                int k = rnd(3);
                sim_event("peer sends query %d (%d)", nrq, k);
                if (k == 0) { vrpc__iface__small_args__t a = { .id = 1000000 + nrq }; rq[nrq].want = IC_MSG_SERVER_ERROR; r_pack(nrq++, cmd_of(rnd(2), R_SMALL), &vrpc__iface__small_args__s, &a); }
                else if (k == 1) { rq[nrq].want = IC_MSG_UNIMPLEMENTED; r_msg(nrq++, cmd_of(rnd(2), R_NOPE), "whatever", rnd(9)); }
                else { vrpc__iface__echo_args__t a = { .info = mk_info(1000000 + nrq, rdat(300), 0, scratch) }; r_pack(0, cmd_of(rnd(2), R_FIRE), &vrpc__iface__echo_args__s, &a); }
            }
            break;
          default: if (one_in(3)) r_msg(2, 0x80000000u, NULL, 0); later(false); if (e->kind == E_RAW && one_in(4)) do_cancel();
        }
        if (!e->gone) checks();
    }
    memset(&sim_io, 0, sizeof(sim_io));
    sim_io.sndbuf = 1 << 18;
    quiet_cb = true;
    if (bad) {
        for (int i = 0; i < 100 && !e->gone && e->ic->elh; i++) { if (rp.fd >= 0) r_read(); turn(50); }
        if (!e->gone && e->ic->elh) VIOL("tolerated", "the channel stays connected although its peer misbehaves (%d)", how);
        if (!e->gone && !e->ic->no_autodel) VIOL("zombie", "an accepted channel is not deleted when it gets disconnected");
        for (int i = 0; i < NQ; i++) if (Q[i]->from == e && Q[i]->rpc != R_FIRE && Q[i]->done != 1) VIOL("no-completion", "query %d is still pending after the disconnection", i);
        if (rp.fd >= 0) { r_read(); }
    } else {
        for (int i = 0; i < 200; i++) {
            r_read(); later(true);
            r_answer();
            turn(i < 100 ? 1 : 50);
            int n = open_queries();
            for (int k = 0; k < nrq; k++) n += rq[k].want && !rq[k].got;
            if (!n && i > 5) break;
        }
        for (int i = 0; i < NQ; i++) if (Q[i]->rpc != R_FIRE && Q[i]->done != 1) VIOL("no-completion", "query %d never completes", i);
        for (int k = 0; k < nrq; k++) if (rq[k].want && !rq[k].got) VIOL("no-answer", "query %d of the peer is never answered", k);
        if (e->gone || !e->ic->elh) VIOL("false-disconnect", "disconnected from a well behaved peer");
    }
    settle(100, true);
    for (int i = 0; i < NQ; i++) if (Q[i]->from != e && Q[i]->rpc != R_FIRE && (Q[i]->done != 1 || Q[i]->st == IC_MSG_ABORT)) VIOL("disturbed", "query %d of another channel fails", i);
    any_bye = faulty = true;
    for (int i = 0; i < NE; i++) if (!E[i]->gone) { ichannel_t *ic = E[i]->ic; ic_delete(&ic); }
    if (rp.fd >= 0) sim_peer_close(rp.fd);
    for (int i = 0; i < 3; i++) el_loop_timeout(1000);
    if (sim_nb_open() > nb0) VIOL("leak-fd", "%d descriptor(s) are left open", sim_nb_open() - nb0);
    sim_state(NQ * 1000 + nrq);
}
/* }}} */

void harness_init(void)
{
    MODULE_REQUIRE(el);
    MODULE_REQUIRE(ic);
    IOP_REGISTER_PACKAGES(&vrpc__pkg);
    ic_set_tls_disabled(true);
}
void harness_run(void)
{
    sim_io_config_random();
    sim_io.whole_first = 1;
    sim_now_ns += sim_choose(ST_CFG, 1000) * 1000ll;
    bool c10 = !strcmp(sim_prop, "C10");
    if (!c10 && sim_choose(ST_CFG, 4) == 3) run_raw(); else run_main(c10);
}
