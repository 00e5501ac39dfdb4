/* RPCs over HTTP (C22): a real HTTP RPC channel, with one or two remotes,
 * against real HTTP servers exporting the RPCs, over the simulated network.
 *
 * Every query is a ledger entry telling what its handler will do; its
 * completion is judged against it.
 */
#include <lib-common/http.h>
#include <lib-common/iop-rpc.h>
#include <lib-common/iop-json.h>
#include <lib-common/el.h>
#include <zlib.h>
#include "vrpc.iop.h"
#include "sim.h"
#include "simio.h"
#include "simthr.h"

const char *harness_name = "h_ich";
#define VIOL(cls, ...) sim_violation(cls, __VA_ARGS__)
static uint32_t rnd(uint32_t n) { return sim_choose(ST_OPS, n); }
static uint32_t rdat(uint32_t n) { return sim_choose(ST_DATA, n); }
static bool one_in(uint32_t n) { return rnd(n) == n - 1; }

/* {{{ state */

enum { R_ECHO, R_SMALL, R_NOPE, R_FIRE };
enum { H_REPLY, H_THROW, H_ERR, H_LATER, H_LATER_THROW, H_LATER_ERR, H_MAX };
typedef struct {
    int      id, rpc, iface, how, chan;
    size_t   len, rlen;
    int64_t  at;
    bool     auth, may_fail, big_req, big_res, direct, from_cb, doomed;
    http_iop_msg_t *msg;
    int      handled, done, posts;
    ic_status_t st;
    bool     answered, pend;
    uint64_t slot;
} q_t;
static q_t *Q[400]; static int NQ;
typedef struct { httpd_cfg_t *cfg; httpd_trigger__ic_t *trig; el_t lel; int port; int wiped; } srv_t;
static srv_t S[2]; static int NS;
static http_iop_channel_t *ch; static int chan_no;
static core__httpc_cfg__t icfg;
static bool faulty, in_order, h2, quiet_cb, user_auth, all_fail;
static uint32_t ct_ms, resp_max, req_max, noact;
static int last_handled = -1, nreq, nreplies, nposts, nready, nerr;
static uint64_t nok;
/* }}} */
/* {{{ contents */

static uint8_t scratch[1 << 17], scratch2[1 << 17];
static void fill(uint8_t *p, size_t n, uint32_t id)
{
    uint64_t x = id * 0x9E3779B97F4A7C15ull + 7;
    for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; p[i] = x >> 24; }
}
static size_t total;
static size_t pick_len(void)
{
    size_t n;
    switch (rdat(8)) {
      case 0: n = 0; break;
      case 1: case 2: case 3: case 4: n = rdat(60); break;
      case 5: n = rdat(2000); break;
      case 6: n = rdat(20000); break;
      default: n = rdat(5) ? rdat(500) : 40000 + rdat(60000); break;
    }
    size_t cap = sim_io.short_wr || sim_io.short_rd || sim_io.split ? 200000 : 1000000;
    if (total + n > cap && n > 100) n = n % 100;
    total += n;
    return n;
}
static vrpc__info__t mk_info(uint64_t id, size_t len, uint32_t salt, uint8_t *buf)
{
    static int nums[8];
    static char tag[2][48];
    vrpc__info__t v;
    iop_init(vrpc__info, &v);
    fill(buf, len, id * 2 + salt);
    v.id = id;
    v.data = LSTR_DATA_V(buf, len);
    snprintf(tag[salt & 1], 48, "tag \"%d\"\\\n<%d>\xc3\xa9", (int)id, salt);
    if (id % 3) v.tag = LSTR(tag[salt & 1]);
    for (int i = 0; i < 8; i++) nums[i] = id * i + salt - 9;
    v.nums.tab = nums; v.nums.len = id % 8;
    return v;
}
static lstr_t why(int id)
{
    static char w[6000];
    int n = snprintf(w, sizeof(w), "why %d", id);
    for (int k = id % 4 ? 0 : id % 8 ? 800 : 5000; k > 0; k--) w[n++] = "abc \"'\\/"[(id + k) % 8];
    return LSTR_INIT_V(w, n);
}
static void check_info(const char *who, const vrpc__info__t *v, uint64_t id, size_t len, uint32_t salt)
{
    vrpc__info__t r = mk_info(id, len, salt, scratch2);
    if (v->id != id) VIOL("mixed-up", "%s %d got the contents of %d", who, (int)id, (int)v->id);
    if (!iop_equals(vrpc__info, v, &r)) VIOL("corrupted", "%s %d: contents differ (%d bytes, %zu were sent)", who, (int)id, (int)v->data.len, len);
}
/* }}} */
/* {{{ completions */

static void send_query(bool from_cb);
static void err_all(void);
static int64_t timer_slack_ms(void) { return ct_ms / 10 + 50; }
static void complete(http_iop_msg_t *msg, ic_status_t st, opt_http_code_t code, const void *res, const void *exn)
{
    q_t *q = *(q_t **)msg->priv;
    sim_event("query %d: %s (%d)", q->id, ic_status_to_string(st), OPT_ISSET(code) ? (int)OPT_VAL(code) : -1);
    sim_hash(q->id * 16 + st);
    if (q->done++) VIOL("completed-twice", "query %d completes again (%s after %s)", q->id, ic_status_to_string(st), ic_status_to_string(q->st));
    if (msg != q->msg) VIOL("mixed-up", "query %d completes with the message of another", q->id);
    q->st = st;
    q->msg = NULL;
    /* another status may still come with an answer read from a connection that
     * ended before the end of the last chunk: the status is what counts. */
    if ((st == IC_MSG_OK && (!res || exn)) || (st == IC_MSG_EXN && (!exn || res))) VIOL("answer-and-status", "query %d gets %s %s an answer and %s an exception", q->id, ic_status_to_string(st), res ? "with" : "without", exn ? "with" : "without");
    bool may_fail = q->may_fail || all_fail;
    switch (st) {
      case IC_MSG_OK:
        nok++;
        if (!q->answered || (q->how != H_REPLY && q->how != H_LATER)) VIOL("false-answer", "query %d gets OK, its handler did not answer so", q->id);
        if (!OPT_ISSET(code) || OPT_VAL(code) != HTTP_CODE_OK) VIOL("http-code", "query %d is OK without code 200", q->id);
        break;
      case IC_MSG_EXN:
        if (!q->answered || (q->how != H_THROW && q->how != H_LATER_THROW)) VIOL("false-answer", "query %d gets an exception, its handler did not throw", q->id);
        if (!OPT_ISSET(code) || OPT_VAL(code) != HTTP_CODE_INTERNAL_SERVER_ERROR) VIOL("http-code", "query %d gets an exception without code 500", q->id);
        break;
      case IC_MSG_INVALID:
        if (!may_fail && !(q->answered && (q->how == H_ERR || q->how == H_LATER_ERR)) && q->rpc != R_NOPE && q->rpc != R_FIRE && !q->big_req && !q->big_res)
            VIOL("false-error", "query %d gets INVALID although its handler answers it", q->id);
        break;
      case IC_MSG_TIMEDOUT:
        if (!may_fail && sim_now_ns - q->at < (int64_t)(ct_ms - 2) * SIM_MS) VIOL("early-timeout", "query %d times out after %d ms, %u are allowed", q->id, (int)((sim_now_ns - q->at) / SIM_MS), ct_ms);
        if (!may_fail && q->handled) VIOL("false-error", "query %d was delivered and nothing went wrong, it times out", q->id);
        break;
      case IC_MSG_ABORT: case IC_MSG_SERVER_ERROR:
        if (!may_fail && !q->big_req) VIOL("false-error", "query %d gets %s although nothing went wrong", q->id, ic_status_to_string(st));
        break;
      case IC_MSG_CANCELED:
        if (!may_fail && !q->big_res && !q->big_req) VIOL("false-error", "query %d is cancelled although nothing went wrong", q->id);
        break;
      default:
        VIOL("false-answer", "query %d gets status %d", q->id, st);
    }
    /* what is too large closes the connection */
    if ((q->big_req || q->big_res) && st != IC_MSG_OK) err_all();
    sim_state((uint64_t)q->rpc | q->how << 2 | (uint64_t)st << 6 | (uint64_t)q->handled << 10 | (uint64_t)q->direct << 12 | (uint64_t)q->from_cb << 13 | (uint64_t)NS << 14 | (uint64_t)(q->len >> 12) << 16 | (uint64_t)(q->rlen >> 12) << 24 | (uint64_t)h2 << 32 | (uint64_t)faulty << 33);
    if (!quiet_cb && ch && NQ < 300 && one_in(st == IC_MSG_OK ? 12 : 4)) { sim_probe("query-in-callback"); send_query(true); }
}
#define CBS(ifc)                                                              \
    static void cb_##ifc##_echo(IOP_HTTP_RPC_CB_ARGS(vrpc__mod, ifc, echo))    \
    {                                                                         \
        q_t *q = *(q_t **)msg->priv;                                          \
        if (res) { check_info("answer of query", &res->info, q->id, q->rlen, 1); if (res->extra != 3 + q->id % 2) VIOL("corrupted", "answer of query %d: extra is %d", q->id, res->extra); } \
        if (exn) { if ((int)exn->id != q->id || !lstr_equal(exn->why, why(q->id))) VIOL("mixed-up", "query %d gets the exception of %d", q->id, (int)exn->id); } \
        complete(msg, status, http_code, res, exn);                           \
    }                                                                         \
    static void cb_##ifc##_small(IOP_HTTP_RPC_CB_ARGS(vrpc__mod, ifc, small)) { complete(msg, status, http_code, res, exn); } \
    static void cb_##ifc##_nope(IOP_HTTP_RPC_CB_ARGS(vrpc__mod, ifc, nope)) { complete(msg, status, http_code, res, exn); }
CBS(first)
CBS(second)

/* }}} */
/* {{{ handlers */

static void answer(q_t *q)
{
    uint64_t slot = q->slot;
    q->pend = false;
    q->answered = true;
    sim_event("handler answers query %d", q->id);
    switch (q->how) {
      case H_THROW: case H_LATER_THROW:
        nreplies++;
        if (q->iface) ic_throw(NULL, slot, vrpc__mod, second, echo, .id = q->id, .why = why(q->id));
        else ic_throw(NULL, slot, vrpc__mod, first, echo, .id = q->id, .why = why(q->id));
        break;
      case H_ERR: case H_LATER_ERR: {
        static const ic_status_t e[] = { IC_MSG_SERVER_ERROR, IC_MSG_INVALID, IC_MSG_RETRY, IC_MSG_UNIMPLEMENTED };
        ic_reply_err(NULL, slot, e[q->id % 4]);
      } break;
      default:
        nreplies++;
        if (q->rpc == R_SMALL) {
            if (q->iface) ic_reply(NULL, slot, vrpc__mod, second, small); else ic_reply(NULL, slot, vrpc__mod, first, small);
        } else {
            vrpc__info__t v = mk_info(q->id, q->rlen, 1, scratch);
            if (q->iface) ic_reply(NULL, slot, vrpc__mod, second, echo, .info = v, .extra = 3 + q->id % 2);
            else ic_reply(NULL, slot, vrpc__mod, first, echo, .info = v, .extra = 3 + q->id % 2);
        }
    }
    if (q->rpc == R_ECHO && q->iface && q->posts != 1) VIOL("post-hook", "query %d is answered, its post hook ran %d times", q->id, q->posts);
}
static q_t *cur_pre;
#define RAW_ID 7000000
static int raw_seen; static bool raw_throw;
static void handle(ichannel_t *ic, uint64_t slot, uint64_t id, int rpc, int iface, const vrpc__info__t *info, const ic__hdr__t *hdr)
{
    sim_count_op();
    (void)ic;
    if (id == RAW_ID) {
        raw_seen++;
        if (rpc == R_ECHO && iface) { cur_pre = NULL; VIOL("wrong-handler", "a scripted query reaches the handler of another RPC"); }
        if (rpc == R_SMALL) {
            if (iface) ic_reply(NULL, slot, vrpc__mod, second, small); else ic_reply(NULL, slot, vrpc__mod, first, small);
        } else if (rpc == R_ECHO) {
            check_info("scripted query", info, RAW_ID, 5, 0);
            if (raw_throw) ic_throw(NULL, slot, vrpc__mod, first, echo, .id = RAW_ID, .why = LSTR("<because>"));
            else ic_reply(NULL, slot, vrpc__mod, first, echo, .info = mk_info(RAW_ID, 5, 1, scratch), .extra = 4);
        }
        if (rpc != R_FIRE) nreplies++;
        return;
    }
    if (id >= (uint64_t)NQ) VIOL("corrupted", "a handler is called for unknown query %d", (int)id);
    q_t *q = Q[id];
    sim_event("handler of query %d", q->id);
    if (q->handled++) VIOL("handled-twice", "query %d is delivered twice", q->id);
    if (q->rpc != rpc || q->iface != iface) VIOL("wrong-handler", "query %d reaches the handler of another RPC", q->id);
    if (info) check_info("handler of query", info, q->id, q->len, 0);
    if (!hdr || !IOP_UNION_IS(ic__hdr, hdr, simple)) VIOL("header", "query %d comes without header", q->id);
    char lg[32], pw[32];
    snprintf(lg, sizeof(lg), q->auth ? "login-%d" : user_auth ? "chan" : "", q->id);
    snprintf(pw, sizeof(pw), q->auth ? "pw:%d" : user_auth ? "s:cret" : "", q->id);
    if (hdr->simple.login.len != (int)strlen(lg) || memcmp(hdr->simple.login.s ?: "", lg, strlen(lg)) || hdr->simple.password.len != (int)strlen(pw) || memcmp(hdr->simple.password.s ?: "", pw, strlen(pw)))
        VIOL("header", "query %d comes with login '%.*s' instead of '%s'", q->id, (int)hdr->simple.login.len, hdr->simple.login.s, lg);
    if (!lstr_equal(hdr->simple.source, LSTR("webservice"))) VIOL("header", "query %d: source", q->id);
    if (in_order && q->id < last_handled) VIOL("order", "query %d is delivered after query %d, made later", q->id, last_handled);
    last_handled = q->id;
    ichttp_query_t *iq = ichttp_slot_to_query(slot);
    int sv = container_of(iq->trig_cb, httpd_trigger__ic_t, cb) == S[0].trig ? 0 : 1;
    if (q->direct && sv != 0) VIOL("failover", "query %d goes to the second remote although the first was ready", q->id);
    if (rpc == R_FIRE) { q->answered = true; return; }
    q->slot = slot;
    if (rpc == R_ECHO && iface) {
        if (!cur_pre) VIOL("pre-hook", "query %d: the pre hook did not run", q->id);
        cur_pre = NULL;
        ic_hook_ctx_t *c = ic_hook_ctx_get(slot);
        if (!c) VIOL("pre-hook", "query %d: the context of its hook is lost", q->id);
        else memcpy(c->data, &q, sizeof(q));
    }
    switch (q->how) {
      case H_REPLY: case H_THROW: case H_ERR: answer(q); break;
      default: q->pend = true;
    }
}
#define IMPLS(ifc, n)                                                         \
    static void IOP_RPC_IMPL(vrpc__mod, ifc, echo) { handle(ic, slot, arg->info.id, R_ECHO, n, &arg->info, hdr); } \
    static void IOP_RPC_IMPL(vrpc__mod, ifc, fire) { handle(ic, slot, arg->info.id, R_FIRE, n, &arg->info, hdr); } \
    static void IOP_RPC_IMPL(vrpc__mod, ifc, small) { handle(ic, slot, arg->id, R_SMALL, n, NULL, hdr); }
IMPLS(first, 0)
IMPLS(second, 1)
static void pre_hook(ichannel_t *ic, uint64_t slot, ic__hdr__t *hdr, data_t arg, bool *mod)
{
    (void)ic; (void)hdr; (void)arg; (void)mod;
    ic_hook_ctx_new(slot, sizeof(q_t *));
    cur_pre = (q_t *)1;
}
static void post_hook(ichannel_t *ic, ic_status_t st, ic_hook_ctx_t *ctx, data_t arg, const iop_struct_t *s, const void *v)
{
    (void)ic; (void)arg; (void)s; (void)v;
    q_t *q;
    memcpy(&q, ctx->data, sizeof(q));
    nposts++;
    if (q->posts++) VIOL("post-hook", "the post hook of query %d runs twice", q->id);
    bool t = q->how == H_THROW || q->how == H_LATER_THROW, e = q->how == H_ERR || q->how == H_LATER_ERR;
    if (e ? st == IC_MSG_OK || st == IC_MSG_EXN : t ? st != IC_MSG_EXN : st != IC_MSG_OK) VIOL("post-hook", "the post hook of query %d is told %s", q->id, ic_status_to_string(st));
}
static int nonreply;
static void on_reply(const httpd_trigger__ic_t *t, const ichttp_query_t *q, size_t sz, http_code_t code) { (void)t; (void)q; (void)sz; (void)code; nonreply++; }
static void s_wipe(httpd_query_t *q) { (void)q; S[0].wiped++; }
/* }}} */
/* {{{ queries */

static size_t wire_len(size_t n) { return (n + 2) / 3 * 4; }
static int open_queries(void) { int n = 0; for (int i = 0; i < NQ; i++) n += !Q[i]->done; return n; }
static void err_all(void) { for (int i = 0; i < NQ; i++) if (!Q[i]->done) Q[i]->may_fail = true; }
static void send_query(bool from_cb)
{
    if (NQ >= countof(Q)) return;
    q_t *q = Q[NQ] = p_new(q_t, 1);
    q->id = NQ++;
    q->chan = chan_no;
    q->from_cb = from_cb;
    q->rpc = rdat(8); q->rpc = q->rpc < 5 ? R_ECHO : q->rpc == 5 ? R_SMALL : q->rpc == 6 ? R_FIRE : R_NOPE;
    q->iface = rdat(3) == 2;
    q->how = rdat(H_MAX + 4); if (q->how >= H_MAX) q->how = q->how & 1 ? H_LATER : H_REPLY;
    if (q->rpc == R_SMALL) q->how = q->how == H_THROW ? H_REPLY : q->how == H_LATER_THROW ? H_LATER : q->how;
    if (q->rpc == R_FIRE) q->how = H_REPLY;
    q->len = pick_len(); q->rlen = pick_len();
    q->auth = rdat(5) == 4;
    q->may_fail = faulty;
    if (q->rpc != R_SMALL) q->big_req = wire_len(q->len) + 300 > req_max;
    if (q->rpc == R_ECHO) q->big_res = wire_len(q->rlen) + 400 > resp_max;
    if (q->rpc == R_NOPE || q->how == H_ERR || q->how == H_LATER_ERR || q->how == H_THROW || q->how == H_LATER_THROW) q->big_res = resp_max < 10000;
    q->at = sim_now_ns;
    q->direct = httpc_pool_has_ready(&ch->remotes.tab[0]->pool);
    http_iop_msg_t *m = http_iop_msg(q_t *, q);
    q->msg = m;
    if (q->auth) { m->user = lstr_fmt("login-%d", q->id); m->password = lstr_fmt("pw:%d", q->id); }
    sim_event("query %d: rpc %d how %d len %zu/%zu%s%s", q->id, q->rpc, q->how, q->len, q->rlen, q->direct ? " direct" : "", from_cb ? " (from a callback)" : "");
    vrpc__info__t v = mk_info(q->id, q->len, 0, scratch);
#define SEND(ifc)                                                             \
    switch (q->rpc) {                                                         \
      case R_ECHO: http_iop_query_cb(ch, m, cb_##ifc##_echo, vrpc__mod, ifc, echo, .info = v); break; \
      case R_SMALL: http_iop_query_cb(ch, m, cb_##ifc##_small, vrpc__mod, ifc, small, .id = q->id); break; \
      case R_NOPE: http_iop_query_cb(ch, m, cb_##ifc##_nope, vrpc__mod, ifc, nope, .info = v); break; \
      default:                                                                \
        m->cb = complete_raw;                                                 \
        m->iface_alias = vrpc__mod__##ifc##__alias;                           \
        m->rpc = IOP_RPC(vrpc__mod, ifc, fire);                               \
        { vrpc__iface__fire_args__t a = { .info = v }; http_iop_query_(ch, m, &a); } \
    }
    extern void complete_raw(http_iop_msg_t *, ic_status_t, opt_http_code_t, void *, void *);
    if (q->iface) { SEND(second); } else { SEND(first); }
}
void complete_raw(http_iop_msg_t *msg, ic_status_t st, opt_http_code_t code, void *res, void *exn);
void complete_raw(http_iop_msg_t *msg, ic_status_t st, opt_http_code_t code, void *res, void *exn) { complete(msg, st, code, res, exn); }

static void later(bool all)
{
    int k = 0, pick;
    for (int i = 0; i < NQ; i++) k += Q[i]->pend;
    if (!k) return;
    pick = all ? 0 : rnd(k);
    for (int i = 0; i < NQ; i++) {
        if (!Q[i]->pend) continue;
        if (!all && pick-- != 0) continue;
        answer(Q[i]);
        if (!all) break;
    }
}
static void checks(void)
{
    for (int i = 0; i < NQ; i++) {
        q_t *q = Q[i];
        if (q->done || !q->msg || q->msg->query.owner) continue;
        if (q->doomed) VIOL("not-cancelled", "the last connection could not be established, query %d still waits for it", i);
        if (sim_now_ns - q->at > (int64_t)(ct_ms + timer_slack_ms() + 250 + sim_io.late_wake_us / 1000) * SIM_MS)
            VIOL("late-timeout", "query %d still waits for a connection after %d ms, %u are allowed", i, (int)((sim_now_ns - q->at) / SIM_MS), ct_ms);
    }
}
static void turn(int ms) { el_loop_timeout(ms); checks(); }
static void settle(int n, bool stop) { for (int i = 0; i < n && (!stop || open_queries()); i++) { later(true); turn(10); } }
/* }}} */
/* {{{ set-up */

static void s_listen(srv_t *s)
{
    sockunion_t su;
    p_clear(&su, 1);
    su.sin.sin_family = AF_INET; su.sin.sin_port = htons(s->port); su.sin.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    s->lel = httpd_listen(&su, s->cfg);
    if (!s->lel) VIOL("listen", "cannot listen");
}
static void s_start(srv_t *s, int port)
{
    s->port = port;
    s->cfg = httpd_cfg_new();
    static const uint16_t pd[] = { 32, 1, 2, 5 };
    s->cfg->pipeline_depth = pd[sim_choose(ST_CFG, 4)];
    if (h2) s->cfg->mode = HTTP_MODE_USE_HTTP2_ONLY;
    s->trig = httpd_trigger__ic_new(&vrpc__mod__mod, "http://sim.example/vrpc", req_max);
    s->trig->on_reply = on_reply;
    s->trig->cb.on_query_wipe = s_wipe;
    ichttp_register(s->trig, vrpc__mod, first, echo);
    ichttp_register(s->trig, vrpc__mod, first, small);
    ichttp_register(s->trig, vrpc__mod, first, fire);
    ichttp_register_pre_post_hook_p(s->trig, vrpc__mod, second, echo, pre_hook, post_hook, NULL, NULL);
    ichttp_register(s->trig, vrpc__mod, second, small);
    ichttp_register(s->trig, vrpc__mod, second, fire);
    httpd_trigger_register(s->cfg, POST, "iop", &s->trig->cb);
    s_listen(s);
}
/* requests written by hand, whole or cut anywhere */
static void raw_one(void)
{
    static const struct { const char *path, *ctype, *hdrs, *body; int code, seen; const char *has; bool thr, gz; } T[] = {
        { "/iop/first/small", "application/json", "", "{\"id\":7000000}", 200, 1, "{" },
        { "/iop/second/small", "application/json; charset=utf-8", "", " { id = 7000000; } ", 200, 1, "{" },
        { "/iop/first/small/more/of/it", "APPLICATION/json", "", "{\"id\":7000000}", 200, 1, "{" },
        { "/iop/first/small", "application/json", "", "{\"id\":7000000", 400, 0, "" },
        { "/iop/first/small", "application/json", "", "{\"idd\":7000000}", 400, 0, "" },
        { "/iop/first/small", "application/json", "", "{}", 400, 0, "" },
        { "/iop/first/small", "application/json", "", "", 400, 0, "" },
        { "/iop/first/small", "text/plain", "", "{\"id\":7000000}", 406, 0, "" },
        { "/iop/first/absent", "application/json", "", "{\"id\":7000000}", 404, 0, "" },
        { "/iop/third/small", "application/json", "", "{\"id\":7000000}", 404, 0, "" },
        { "/iop/first", "application/json", "", "{\"id\":7000000}", 404, 0, "" },
        { "/iop/first/nope", "application/json", "", "{\"info\":{\"id\":7000000,\"data\":\"\",\"nums\":[]}}", 404, 0, "" },
        { "/iop/first/fire", "application/json", "", "{\"info\":{\"id\":7000000,\"data\":\"@\",\"nums\":[]}}", 202, 1, "" },
        { "/iop/first/small", "application/json", "Accept-Encoding: gzip\r\n", "{\"id\":7000000}", 200, 1, "{", false, true },
        { "/iop/first/echo", "application/json", "", "{\"info\":@}", 200, 1, "\"id\":7000000" },
        { "/iop/first/echo", "application/json", "Accept-Encoding: compress\r\n", "{\"info\":@}", 200, 1, "\"id\":7000000" },
        { "/iop/first/echo", "application/json", "Accept-Encoding: deflate, gzip;q=0\r\n", "{\"info\":@}", 200, 1, "\"extra\":4", false, true },
        { "/iop/first/echo", "application/json", "", "{\"info\":@}", 500, 1, "\"why\":\"<because>\"", true },
        { "/iop", "text/xml", "", "<s:Envelope xmlns:s=\"http://schemas.xmlsoap.org/soap/envelope/\"><s:Body><first.smallReq><id>7000000</id></first.smallReq></s:Body></s:Envelope>", 200, 1, "first.smallRes" },
        { "/iop/", "text/xml", "", "<s:Envelope xmlns:s=\"e\"><s:Header><a>1</a></s:Header><s:Body><first.echoReq><info>@</info></first.echoReq></s:Body></s:Envelope>", 200, 1, "<extra>4</extra></n:first.echoRes>" },
        { "/iop", "text/xml", "", "<s:Envelope xmlns:s=\"e\"><s:Body><first.echoReq><info>@</info></first.echoReq></s:Body></s:Envelope>", 500, 1, "<why>&lt;because&gt;</why></n:first.echo.Fault>", true },
        { "/iop", "text/xml", "Accept-Encoding: gzip\r\n", "<s:Envelope xmlns:s=\"e\"><s:Body><first.echoReq><info>@</info></first.echoReq></s:Body></s:Envelope>", 200, 1, "<id>7000000</id>", false, true },
        { "/iop", "text/xml", "", "<s:Envelope xmlns:s=\"e\"><s:Body><first.absentReq><id>7000000</id></first.absentReq></s:Body></s:Envelope>", 500, 0, "unknown rpc" },
        { "/iop", "text/xml", "", "<s:Envelope xmlns:s=\"e\"><s:Body><first.smallReq><id>7000000</id></first.smallReq></s:Body>", 500, 0, "Fault" },
        { "/iop", "text/xml", "", "<s:Envelope xmlns:s=\"e\"><s:Body><first.smallReq></first.smallReq></s:Body></s:Envelope>", 500, 0, "Fault" },
        { "/iop", "text/xml", "", "", 500, 0, "Fault" },
    };
    int k = rdat(countof(T));
    SB_8k(body); SB_8k(out); SB_8k(in);
    bool xml = !strcmp(T[k].ctype, "text/xml");
    for (const char *p = T[k].body; *p; p++) {
        if (*p != '@' || T[k].seen == 0) { sb_addc(&body, *p); continue; }
        if (!strcmp(T[k].path, "/iop/first/fire")) continue;
        vrpc__info__t v = mk_info(RAW_ID, 5, 0, scratch);
        if (xml) iop_xpack_flags(&body, &vrpc__info__s, &v, 0); else iop_sb_jpack(&body, &vrpc__info__s, &v, 0);
    }
    if (!strcmp(T[k].path, "/iop/first/fire")) {
        vrpc__info__t v = mk_info(RAW_ID, 5, 0, scratch);
        sb_reset(&body); sb_adds(&body, "{\"info\":"); iop_sb_jpack(&body, &vrpc__info__s, &v, 0); sb_adds(&body, "}");
    }
    if ((uint32_t)body.len > req_max) return;
    sb_addf(&out, "POST %s HTTP/1.1\r\nHost: sim.example\r\nContent-Type: %s\r\n%sContent-Length: %d\r\n\r\n", T[k].path, T[k].ctype, T[k].hdrs, body.len);
    sb_addsb(&out, &body);
    raw_seen = 0; raw_throw = T[k].thr;
    int fd = sim_peer_connect(8080);
    if (fd < 0) VIOL("listen", "cannot connect");
    sim_event("scripted request %d", k);
    int off = 0;
    while (off < out.len) {
        int n = rdat(3) ? out.len - off : 1 + (int)rdat(out.len - off);
        n = sim_peer_write(fd, out.data + off, n);
        if (n > 0) off += n;
        turn(rdat(2));
    }
    const char *e = NULL; int clen = -1;
    for (int i = 0; i < 200; i++) {
        char b[4096];
        ssize_t n = sim_peer_read(fd, b, sizeof(b));
        if (n > 0) sb_add(&in, b, n);
        if ((e = strstr(in.data, "\r\n\r\n"))) {
            const char *c = strcasestr(in.data, "content-length:");
            clen = c && c < e ? atoi(c + 15) : 0;
            if (in.data + in.len - (e + 4) >= clen) break;
        }
        if (n < 0) break;
        turn(1);
    }
    int code = 0;
    if (!e || sscanf(in.data, "HTTP/1.1 %d", &code) != 1) VIOL("no-completion", "scripted request %d gets no reply", k);
    if (raw_seen != T[k].seen) VIOL(raw_seen ? "handled" : "not-handled", "scripted request %d (%s) is delivered %d time(s)", k, T[k].path, raw_seen);
    nreplies += xml && T[k].code == 500 && !T[k].seen;
    if (code != T[k].code) VIOL("http-code", "scripted request %d (%s) gets code %d instead of %d", k, T[k].path, code, T[k].code);
    const char *rb = e + 4; int rl = in.data + in.len - rb;
    if (rl != clen) VIOL("length", "scripted request %d: %d bytes of body, %d are announced", k, rl, clen);
    SB_8k(pl);
    bool enc = strcasestr(in.data, "content-encoding:") && strcasestr(in.data, "content-encoding:") < e;
    if (enc) {
        if (!T[k].gz) VIOL("encoding", "scripted request %d gets a compressed reply", k);
        bool gz = !strncasecmp(strcasestr(in.data, "content-encoding:") + 17, " gzip", 5);
        if (rl < 2 || gz != ((uint8_t)rb[0] == 0x1f && (uint8_t)rb[1] == 0x8b)) VIOL("encoding", "scripted request %d: the reply is not encoded as announced", k);
        if (strstr(T[k].hdrs, "gzip;q=0") && gz) VIOL("encoding", "scripted request %d gets an encoding it refuses", k);
        z_stream z = { .zalloc = NULL };
        inflateInit2(&z, 15 + 32);
        z.next_in = (void *)rb; z.avail_in = rl; z.next_out = (void *)sb_grow(&pl, 8000); z.avail_out = 8000;
        if (inflate(&z, Z_FINISH) != Z_STREAM_END) VIOL("encoding", "scripted request %d: the reply does not decompress", k);
        __sb_fixlen(&pl, (char *)z.next_out - pl.data);
        inflateEnd(&z);
    } else sb_add(&pl, rb, rl);
    SB_8k(flat);
    for (int i = 0; i < pl.len; i++) if (!isspace((unsigned char)pl.data[i])) sb_addc(&flat, pl.data[i]);
    SB_1k(has);
    for (const char *p = T[k].has; *p; p++) if (!isspace((unsigned char)*p)) sb_addc(&has, *p);
    if (!strstr(flat.data, has.data)) VIOL("corrupted", "scripted request %d gets '%.200s'", k, pl.data);
    sim_state(1ull << 50 | k);
    sim_peer_close(fd);
    turn(1);
}
static void on_ready(http_iop_channel_t *c) { if (c != ch) VIOL("ready", "ready callback of an unknown channel"); nready++; }
static void on_conn_err(http_iop_channel_remote_t *r, int errnum)
{
    sim_event("connection error %d on port %d", errnum, r->url.port);
    nerr++;
    if (r->channel != ch) VIOL("connect", "error callback of an unknown channel");
    int n = -1;
    tab_for_each_entry(o, &ch->remotes) n += o->pool.len;
    if (n <= 0) for (int i = 0; i < NQ; i++) if (!Q[i]->done && Q[i]->msg && !Q[i]->msg->query.owner) Q[i]->doomed = true;
    if (!faulty) VIOL("connect", "a connection fails (%d) although nothing went wrong", errnum);
}
static void ch_new(void)
{
    static lstr_t urls[2];
    SB_1k(err);
    static bool enc;
    enc = rdat(2);
    urls[0] = enc ? LSTR("http://127.0.0.1:8080/iop") : LSTR("http://127.0.0.1:8080/iop");
    urls[1] = LSTR("http://127.0.0.1:8081/iop");
    http_iop_channel_cfg_t c = {
        .name = LSTR("sim"), .iop_cfg = &icfg,
        .on_connection_error_cb = on_conn_err, .on_ready_cb = on_ready,
    };
    c.urls.tab = urls; c.urls.len = NS;
    OPT_SET(c.max_connections, 1 + rdat(3));
    if (in_order) OPT_SET(c.max_connections, 1);
    OPT_SET(c.connection_timeout_msec, ct_ms);
    OPT_SET(c.response_max_size, resp_max);
    OPT_SET(c.encode_url, enc);
    if (user_auth) { c.user = LSTR("chan"); c.password = LSTR("s:cret"); }
    ch = http_iop_channel_create(&c, &err);
    if (!ch) VIOL("create", "cannot create the channel: %s", err.data);
    chan_no++;
}
static void ch_del(void)
{
    sim_event("channel deleted");
    all_fail = true;
    bool old = quiet_cb;
    quiet_cb = true;
    http_iop_channel_delete(&ch);
    quiet_cb = old;
    all_fail = false;
    for (int i = 0; i < NQ; i++) if (Q[i]->done != 1) VIOL("no-completion", "the channel is deleted, query %d never completes", i);
}
/* }}} */

static void run(void)
{
    faulty = sim_choose(ST_CFG, 3) != 0;
    NS = 1 + (sim_choose(ST_CFG, 3) == 2);
    h2 = sim_choose(ST_CFG, 5) == 4;
    static const uint32_t cts[] = { 10000, 1000, 300, 50 };
    ct_ms = cts[sim_choose(ST_CFG, 4)];
    static const uint32_t mx[] = { 1 << 20, 1 << 20, 1 << 20, 4000, 500 };
    resp_max = mx[sim_choose(ST_CFG, 5)];
    req_max = mx[sim_choose(ST_CFG, 4)];
    user_auth = sim_choose(ST_CFG, 3) == 2;
    iop_init(core__httpc_cfg, &icfg);
    static const uint16_t pd[] = { 32, 1, 2, 5 };
    icfg.pipeline_depth = pd[sim_choose(ST_CFG, 4)];
    static const uint32_t mq[] = { 1024, 1024, 1, 3, 10 };
    icfg.max_queries = mq[sim_choose(ST_CFG, 5)];
    static const uint32_t th[] = { 16384, 1, 100, 4096 };
    icfg.on_data_threshold = th[sim_choose(ST_CFG, 4)];
    if (h2) { icfg.use_http2 = true; }
    static const uint32_t na[] = { 30000, 3000 };
    noact = icfg.noact_delay = na[sim_choose(ST_CFG, 2)];
    in_order = !faulty && NS == 1 && !h2 && icfg.max_queries == 1024 && req_max == 1 << 20 && resp_max == 1 << 20 && sim_choose(ST_CFG, 2);
    bool f_rst = faulty && sim_choose(ST_CFG, 2), f_part = faulty && sim_choose(ST_CFG, 3) == 2, f_stop = faulty && sim_choose(ST_CFG, 3) == 2;
    bool f_refuse = faulty && sim_choose(ST_CFG, 4) == 3, f_bh = faulty && sim_choose(ST_CFG, 4) == 3, f_close = faulty && sim_choose(ST_CFG, 3) == 2, f_del = faulty && sim_choose(ST_CFG, 3) == 2;
    /* a slow network is not a silent one */
    el_loop_timeout(0);
    int nb0 = sim_nb_open();
    for (int i = 0; i < NS; i++) s_start(&S[i], 8080 + i);
    ch_new();
    bool refuse = false, bh = false;
    int steps = sim_range(ST_CFG, 10, sim_tier ? 400 : 200);
    for (int s = 0; s < steps && !sim_exhausted(ST_OPS); s++) {
        switch (rnd(12)) {
          case 0: case 1: case 2: for (int k = one_in(5) ? 6 : 1; k-- && NQ < 250; ) send_query(false); break;
          case 3: case 4: later(false); break;
          case 5: case 6: case 7: turn(0); break;
          case 8: turn(1 + rnd(60)); break;
          case 9: if (one_in(3)) turn(1 + rnd(500)); break;
          default:
            switch (rnd(8)) {
              case 0: if (f_rst && one_in(2)) { int n = sim_net_nb_conns(); if (n) { sim_event("reset"); sim_fault("net-reset"); sim_net_reset_conn(rnd(n)); } } break;
              case 1: if (f_part && one_in(2)) { int ms = rnd(3) ? 100 + rnd(1000) : 5000 + rnd(30000); sim_event("partition for %d ms", ms); sim_fault("net-partition"); sim_net_partition(sim_now_ns + ms * SIM_MS); } break;
              case 2: if (f_stop) {
                  srv_t *v = &S[rnd(NS)];
                  if (v->lel) {
                      sim_event("server %d stops", v->port); sim_fault("server-stop"); httpd_unlisten(&v->lel);
                      if (rnd(2)) dlist_for_each_entry(httpd_t, w, &v->cfg->httpd_list, httpd_link) httpd_close_gently(w);
                  } else s_listen(v);
              } break;
              case 3: if (f_refuse) { refuse = !refuse; sim_event("refuse %d", refuse); sim_net_refuse(refuse); } break;
              case 4: if (f_bh) { bh = !bh; sim_event("blackhole %d", bh); sim_net_blackhole(bh); } break;
              case 5: if (f_close && one_in(2)) { sim_event("close clients"); sim_fault("user-close"); http_iop_channel_close_clients(ch); checks(); } break;
              case 6: if (f_del && one_in(4)) { sim_fault("user-delete"); ch_del(); ch_new(); } break;
              default: break;
            }
        }
    }
    memset(&sim_io, 0, sizeof(sim_io));
    sim_io.sndbuf = 1 << 18;
    sim_net_partition(0); sim_net_refuse(false); sim_net_blackhole(false);
    for (int i = 0; i < NS; i++) if (!S[i].lel) s_listen(&S[i]);
    /* sometimes the channel goes with whatever it has under way */
    if (sim_choose(ST_CFG, 4) == 3) { ch_del(); faulty = true; ch_new(); }
    quiet_cb = true;
    settle(3000, true);
    if (faulty) for (int k = 0; k < 4 && open_queries(); k++) { sim_advance_to(sim_now_ns + 31 * SIM_S); settle(200, true); }
    else if (open_queries()) { sim_advance_to(sim_now_ns + ct_ms * SIM_MS); settle(300, true); }
    for (int i = 0; i < NQ; i++) if (Q[i]->done != 1) VIOL("no-completion", "query %d never completes (%s)", i, !Q[i]->handled ? "not delivered" : !Q[i]->answered ? "not answered" : "answered");
    /* faults have stopped: new queries are served */
    if (faulty) { sim_advance_to(sim_now_ns + 61 * SIM_S); settle(100, false); }
    faulty = false;
    if (ct_ms >= 300) {
        bool ok = false;
        for (int k = 0; k < 6 && !ok; k++) {
            int n = NQ;
            if (NQ >= countof(Q)) break;
            send_query(false);
            Q[n]->may_fail |= k < 4;
            settle(300, true);
            if (Q[n]->done != 1) VIOL("no-completion", "query %d, made after the faults, never completes", n);
            ok = Q[n]->handled || Q[n]->rpc == R_NOPE || Q[n]->big_req;
        }
        if (!ok && NQ < countof(Q)) VIOL("stuck", "no query is delivered any more once the faults have stopped");
    }
    if (!h2) for (int i = sim_choose(ST_CFG, 4); i > 0; i--) raw_one();
    faulty = true;
    /* nobody to connect to: the query does not wait for its timeout */
    if (!h2 && ct_ms >= 10000 && noact <= 3000 && NQ < countof(Q)) {
        http_iop_channel_close_clients(ch);
        settle(20, false);
        sim_net_blackhole(true);
        int n = NQ, e = nerr;
        send_query(false);
        settle(450, true);
        if (nerr == e) VIOL("connect", "the connection cannot be established, nobody is told");
        if (!Q[n]->done) VIOL("not-cancelled", "the last connection could not be established, query %d still waits for it", n);
        sim_net_blackhole(false);
    }
    for (int i = 0; i < 3 && NQ < countof(Q); i++) send_query(false);
    ch_del();
    for (int i = 0; i < NS; i++) httpd_unlisten(&S[i].lel);
    settle(100, false);
    for (int i = 0; i < 3; i++) { sim_advance_to(sim_now_ns + 61 * SIM_S); settle(50, false); }
    if (nonreply != nreplies) VIOL("on-reply", "%d answers were given, %d are reported", nreplies, nonreply);
    for (int i = 0; i < NS; i++) if (S[i].cfg->nb_conns) VIOL("leak-conn", "%u connection(s) survive the end", S[i].cfg->nb_conns);
    if (sim_nb_open() > nb0) VIOL("leak-fd", "%d descriptor(s) are left open", sim_nb_open() - nb0);
    for (int i = 0; i < NS; i++) httpd_cfg_delete(&S[i].cfg);
    sim_state(nok);
}

void harness_init(void)
{
    MODULE_REQUIRE(el);
    MODULE_REQUIRE(http);
    MODULE_REQUIRE(ic);
}
void harness_run(void)
{
    sim_io_config_random();
    sim_now_ns += sim_choose(ST_CFG, 1000) * 1000ll;
    run();
}
