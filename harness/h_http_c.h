/* {{{ setting C: real client pool against the real server, HTTP/1.1 or HTTP/2 */

typedef struct {
    httpc_query_t q;
    int      id, fmt, rfmt, code, mode;
    http_method_t m;
    uint8_t *body; size_t blen, boff;
    uint8_t *rbody; size_t rlen, roff;
    bool     sending, own_data, errs;
    sb_t     got;
    int      done, hdrs; httpc_status_t st;
    bool     may_fail; int nbig;
    /* server side */
    sb_t     sgot; int handled, sdone, wiped; bool started, pend, replied;
    httpd_query_t *sq;
} xq_t;
static xq_t *X[200]; static int NX;
static httpc_pool_t *xp;
static bool x_h2, x_faulty, x_big;
static int x_ready;

static void x_err_all(void) { for (int i = 0; i < NX; i++) if (!X[i]->done) X[i]->may_fail = true; }

/* over HTTP/2 the code only supports replies and requests of known or patched
 * length, in the flat part of the output buffer (asserts, "TODO") */
static void x_add(outbuf_t *ob, const void *p, size_t n)
{
    if (x_h2) { int old; sb_t *sb = outbuf_sb_start(ob, &old); sb_add(sb, p, n); outbuf_sb_end(ob, old); }
    else if (n && rdat(3) == 1) ob_add_memchunk(ob, p_dup(p, n), n, false);
    else ob_add(ob, p, n);
}
/* header sections past the size of a frame */
static int x_nbig(void) { return !x_big || rdat(6) ? 0 : rdat(3) ? 1 + (int)rdat(4) : 30 + (int)rdat(18); }
static void x_big_val(xq_t *x, int i, char *v, size_t max)
{
    size_t n = x->nbig > 20 ? max - 1 - (x->id + i) % 7 : (x->id * 7 + i * 31) % 300;
    for (size_t k = 0; k < n; k++) v[k] = "Z&*,;XZ&"[(k + i + x->id) & 7];
    v[n] = 0;
}
static void x_reply(xq_t *x, bool all)
{
    httpd_query_t *q = x->sq;
    if (!x->started) {
        outbuf_t *ob = httpd_reply_hdrs_start(q, x->code, false);
        ob_addf(ob, "X-Id: %d\r\n", x->id);
        for (int i = 0; i < x->nbig; i++) { char v[600]; x_big_val(x, i, v, sizeof(v)); ob_addf(ob, "X-Big%d: %s\r\n", i, v); }
        x->started = true;
        switch (x->rfmt) {
          case 0: httpd_reply_hdrs_done(q, x->rlen, false); break;
          case 1: httpd_reply_hdrs_done(q, -1, true); break;
          default: httpd_reply_hdrs_done(q, -1, false); break;
        }
    }
    if (x->rfmt == 2 || x_h2) all = true;
    do {
        outbuf_t *ob = httpd_get_ob(q);
        size_t n = x->rlen - x->roff;
        if (!all && n) n = 1 + rdat(n);
        if (x->rfmt == 1) httpd_reply_chunk_start(q, ob);
        x_add(ob, x->rbody + x->roff, n);
        if (x->rfmt == 1) httpd_reply_chunk_done(q, ob);
        x->roff += n;
    } while (all && x->roff < x->rlen);
    if (x->roff == x->rlen) {
        x->replied = true; x->pend = false; x->sq = NULL;
        httpd_reply_done(q);
    } else {
        x->pend = true;
        httpd_signal_write(q);
    }
}
static void xs_on_data(httpd_query_t *q, pstream_t ps)
{
    xq_t *x = q->priv;
    if (x->sdone) VIOL("server:data-after-done", "request %d gets data after its end", x->id);
    sb_add(&x->sgot, ps.s, ps_len(&ps));
}
static void xs_on_done(httpd_query_t *q)
{
    xq_t *x = q->priv;
    if (x->sdone++) VIOL("server:done-twice", "request %d completed twice", x->id);
    if (q->on_data != xs_on_data) { sb_reset(&x->sgot); sb_add(&x->sgot, q->payload.data, q->payload.len); }
    if (x->sgot.len != (int)x->blen || memcmp(x->sgot.data, x->body, x->blen))
        VIOL("server:body", "request %d: the handler got %d body bytes, the client sent %zu%s", x->id, x->sgot.len, x->blen, x->sgot.len == (int)x->blen ? " (contents differ)" : "");
    sim_event("request %d handled", x->id);
    if (x->mode == 0) x_reply(x, true);
    else if (x->mode == 1) x_reply(x, x->rfmt != 1 || rnd(2));
    else x->pend = true;
}
static void xs_cb(httpd_trigger_t *t, httpd_query_t *q, const httpd_qinfo_t *qi)
{
    int id = 0;
    (void)t;
    for (const char *s = qi->query.s + 1; s < qi->query.s_end; s++) id = id * 10 + *s - '0';
    if (id >= NX) VIOL("server:path", "handler called for unknown path '%.*s'", (int)ps_len(&qi->query), qi->query.s);
    xq_t *x = X[id];
    sim_count_op();
    if (x->handled++) VIOL("server:twice", "request %d delivered twice", x->id);
    if (qi->method != x->m) VIOL("server:method", "request %d has method %s", id, http_method_str[qi->method].s);
    if (!ps_memequal(&qi->host, "sim.example", 11)) VIOL("server:host", "request %d: host '%.*s'", id, (int)ps_len(&qi->host), qi->host.s);
    httpd_qinfo_t *dup = httpd_qinfo_dup(qi);
    int f = 0; char ref[32];
    snprintf(ref, sizeof(ref), "v %d", id);
    for (int j = 0; j < dup->hdrs_len; j++)
        if (ps_strcaseequal(&dup->hdrs[j].key, "x-req")) { f++; if (!ps_strequal(&dup->hdrs[j].val, ref)) VIOL("server:header", "request %d: X-Req is '%.*s'", id, (int)ps_len(&dup->hdrs[j].val), dup->hdrs[j].val.s); }
    httpd_qinfo_delete(&dup);
    if (f != 1) VIOL("server:header", "request %d: X-Req found %d times", id, f);
    q->priv = x; x->sq = q;
    q->on_done = xs_on_done;
    if (rnd(2)) q->on_data = xs_on_data; else httpd_bufferize(q, 1 << 22);
}
static void xs_wipe(httpd_query_t *q)
{
    xq_t *x = q->priv;
    if (!x) return;
    if (x->wiped++) VIOL("server:wipe-twice", "query %d destroyed twice", x->id);
    if (x->pend) VIOL("server:wiped-unanswered", "query %d is destroyed although its answer is pending", x->id);
    x->sq = NULL;
}
static int xc_on_data(httpc_query_t *hq, pstream_t ps)
{
    xq_t *x = container_of(hq, xq_t, q);
    if (x->done) VIOL("client:data-after-done", "query %d", x->id);
    sb_add(&x->got, ps.s, ps_len(&ps));
    if (x->got.len > (int)x->rlen) VIOL("client:body", "query %d: more body bytes than the handler wrote (%d > %zu)", x->id, x->got.len, x->rlen);
    return 0;
}
static int xc_on_hdrs(httpc_query_t *hq)
{
    xq_t *x = container_of(hq, xq_t, q);
    if (x->hdrs++) VIOL("client:hdrs-twice", "query %d", x->id);
    if (!x->started) {
        VIOL("client:mixed-up", "query %d gets a response (%d) its handler did not give", x->id, hq->qinfo->code);
    }
    if ((int)hq->qinfo->code != x->code) VIOL("client:code", "query %d: code %d, %d was sent", x->id, hq->qinfo->code, x->code);
    bool f = false;
    for (int i = 0; i < hq->qinfo->hdrs_len; i++) {
        http_qhdr_t *h = &hq->qinfo->hdrs[i];
        if (ps_strcaseequal(&h->key, "x-id")) {
            f = true;
            if (ps_geti(&h->val) != x->id) VIOL("client:mixed-up", "query %d gets the response of another query", x->id);
        }
    }
    if (!f) VIOL("client:header", "query %d: a header of the response is missing", x->id);
    return 0;
}
static int x_open(void);
static void xc_on_done(httpc_query_t *hq, httpc_status_t st)
{
    xq_t *x = container_of(hq, xq_t, q);
    sim_event("query %d done: %d", x->id, st);
    if (x->done++) VIOL("client:done-twice", "query %d completed twice", x->id);
    sim_count_op();
    x->st = st;
    sim_state(3ull << 60 | x->fmt | x->rfmt << 4 | x->mode << 8 | (uint64_t)(st & 15) << 12 | (uint64_t)(xp ? xp->len : 0) << 16 | (uint64_t)minz(x_open(), 31) << 20 | (uint64_t)(x->handled + x->sdone + x->replied) << 28 | (uint64_t)minz(x->blen >> 14, 7) << 32 | (uint64_t)minz(x->rlen >> 14, 7) << 36 | (uint64_t)x_h2 << 40);
    x->sending = false;
    if (st == HTTPC_STATUS_OK) {
        nrep++;
        if (!x->replied) VIOL("client:false-ok", "query %d is reported OK, but its handler did not finish the reply", x->id);
        if (!x->hdrs) VIOL("client:header", "query %d completed without headers", x->id);
        sb_t *g = x->own_data ? &x->got : &hq->payload;
        if (g->len != (int)x->rlen || memcmp(g->data, x->rbody, x->rlen))
            VIOL("client:body", "query %d: %d bytes of body, the handler wrote %zu%s", x->id, g->len, x->rlen, g->len == (int)x->rlen ? " (contents differ)" : "");
    } else if (!x->may_fail) {
        VIOL("client:spurious-error", "query %d fails (%d) although nothing went wrong", x->id, st);
    }
}
static void x_more_body(xq_t *x, bool all)
{
    if (!x->sending || x->done) return;
    outbuf_t *ob = httpc_get_ob(&x->q);
    size_t n = x->blen - x->boff;
    if (!all && n) n = 1 + rdat(n);
    httpc_query_chunk_start(&x->q, ob);
    x_add(ob, x->body + x->boff, n);
    httpc_query_chunk_done(&x->q, ob);
    x->boff += n;
    if (x->boff == x->blen) { x->sending = false; httpc_query_done(&x->q); }
}
static bool x_open_on(httpc_t *w)
{
    for (int i = 0; i < NX; i++) if (X[i]->sending && !X[i]->done && X[i]->q.owner == w) return true;
    return false;
}
static size_t x_len(void)
{
    if (sim_tier == 0 ? rdat(12) == 11 : rdat(6) == 5) return 60000 + rdat(90000);       /* past the HTTP/2 windows */
    return body_len();
}
static bool x_query(bool simple)
{
    static const http_method_t ms[] = { HTTP_METHOD_GET, HTTP_METHOD_POST, HTTP_METHOD_PUT, HTTP_METHOD_DELETE, HTTP_METHOD_PATCH };
    if (NX >= countof(X)) return false;
    if (xp->len > xp->max_len) VIOL("client:pool-limit", "%d connections, %d allowed", xp->len, xp->max_len);
    httpc_t *w = httpc_pool_get(xp);
    if (xp->len > xp->max_len) VIOL("client:pool-limit", "%d connections, %d allowed", xp->len, xp->max_len);
    if (!w) return false;
    if (w->busy) VIOL("client:pool-busy", "the pool gave a busy connection");
    if (x_open_on(w)) return false;
    xq_t *x = X[NX] = p_new(xq_t, 1);
    httpc_query_init(&x->q);
    sb_init(&x->got); sb_init(&x->sgot);
    x->id = NX++;
    x->m = ms[rdat(5)];
    if (x->m != HTTP_METHOD_GET) x->blen = x_len();
    x->rlen = x_len();
    x->body = p_new_raw(uint8_t, x->blen + 1); fill(x->body, x->blen, x->id, rdat(2));
    x->rbody = p_new_raw(uint8_t, x->rlen + 1); fill(x->rbody, x->rlen, x->id + 9000, rdat(2));
    x->fmt = rdat(3); x->rfmt = rdat(3);
    if (x_h2) { x->fmt &= 2; x->rfmt &= 2; } x->mode = rdat(3);
    x->code = rdat(2) ? HTTP_CODE_OK : HTTP_CODE_CREATED;
    x->own_data = rdat(2);
    x->may_fail = x_faulty;
    x->q.on_hdrs = xc_on_hdrs;
    x->q.on_done = xc_on_done;
    if (x->own_data) x->q.on_data = xc_on_data; else httpc_bufferize(&x->q, 1 << 22);
    sim_event("query %d: %s, %zu bytes (%d) for %zu (%d)", x->id, http_method_str[x->m].s, x->blen, x->fmt, x->rlen, x->rfmt);
    httpc_query_attach(&x->q, w);
    char uri[32], hd[40];
    snprintf(uri, sizeof(uri), "/r/%d", x->id);
    httpc_query_start(&x->q, x->m, LSTR("sim.example"), LSTR(uri));
    snprintf(hd, sizeof(hd), "X-Req: v %d", x->id);
    httpc_query_hdrs_add(&x->q, LSTR(hd));
    x->nbig = x_nbig();
    for (int i = 0; i < x->nbig; i++) { char v[600], l[640]; x_big_val(x, i, v, sizeof(v)); snprintf(l, sizeof(l), "X-Big%d: %s", i, v); httpc_query_hdrs_add(&x->q, LSTR(l)); }
    switch (x->fmt) {
      case 0: httpc_query_hdrs_done(&x->q, x->blen, false); break;
      case 1: httpc_query_hdrs_done(&x->q, -1, true); break;
      default: httpc_query_hdrs_done(&x->q, -1, false); break;
    }
    x->sending = true;
    x_more_body(x, simple || !(x->fmt == 1 && rnd(2)) || (x_h2 && rnd(2)));
    return true;
}
static void x_answer(bool all)
{
    int k = 0, pick;
    for (int i = 0; i < NX; i++) k += X[i]->pend;
    if (!k) return;
    pick = rnd(k);
    for (int i = 0; i < NX; i++) {
        if (!X[i]->pend) continue;
        if (!all && pick-- != 0) continue;
        x_reply(X[i], all || rnd(2));
        if (!all) break;
    }
}
static void xp_ready(httpc_pool_t *p, httpc_t *w) { (void)p; (void)w; x_ready++; }
static void xp_err(const struct httpc_t *w, int errnum) { (void)w; sim_event("connect error %d", errnum); if (!x_faulty) VIOL("client:connect", "connection fails (%d) although nothing went wrong", errnum); }
static el_t x_lel;
static void x_listen(void)
{
    sockunion_t su;
    p_clear(&su, 1);
    su.sin.sin_family = AF_INET; su.sin.sin_port = htons(8080); su.sin.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    x_lel = httpd_listen(&su, scfg);
    if (!x_lel) VIOL("server:listen", "cannot listen");
    xp->su = su;
}
static int x_open(void) { int n = 0; for (int i = 0; i < NX; i++) n += !X[i]->done; return n; }
static void x_settle(int iters, bool stop)
{
    for (int it = 0; it < iters && (!stop || x_open()); it++) {
        for (int i = 0; i < NX; i++) x_more_body(X[i], true);
        x_answer(true);
        el_loop_timeout(1);
    }
}
static void run_c(bool h2)
{
    x_h2 = h2;
    a_setup();
    httpd_trigger_t *cb = httpd_trigger_new();
    cb->cb = xs_cb; cb->on_query_wipe = xs_wipe;
    static const http_method_t ms[] = { HTTP_METHOD_GET, HTTP_METHOD_POST, HTTP_METHOD_PUT, HTTP_METHOD_DELETE, HTTP_METHOD_PATCH };
    for (int i = 0; i < 5; i++) httpd_trigger_register_flags(&scfg->roots[ms[i]], "r", cb, true);
    el_loop_timeout(0);
    int nb0 = sim_nb_open();
    b_cfg();
    ccfg->httpc_cls = obj_class(httpc);
    if (h2) { ccfg->http_mode = HTTP_MODE_USE_HTTP2_ONLY; scfg->mode = HTTP_MODE_USE_HTTP2_ONLY; }
    int nofault = sim_choose(ST_CFG, 2);
    if (nofault) scfg->max_queries = 1024;
    x_faulty = !nofault;
    bool f_rst = !nofault && sim_choose(ST_CFG, 2), f_part = !nofault && sim_choose(ST_CFG, 4) == 3, f_listen = !nofault && sim_choose(ST_CFG, 4) == 3;
    bool f_gently = !nofault && !h2 && sim_choose(ST_CFG, 3) == 2;
    xp = httpc_pool_new();
    xp->cfg = httpc_cfg_retain(ccfg);
    xp->max_len = 1 + sim_choose(ST_CFG, 3);
    xp->on_ready = xp_ready; xp->on_connect_error = xp_err;
    x_listen();
    int steps = sim_range(ST_CFG, 10, sim_tier ? 400 : 200);
    for (int s = 0; s < steps && !sim_exhausted(ST_OPS); s++) {
        switch (rnd(9)) {
          case 0: case 1: x_query(false); break;
          case 2: x_answer(false); break;
          case 3: for (int i = 0, k = rnd(2); i < NX; i++) if (X[i]->sending && !X[i]->done && k-- == 0) x_more_body(X[i], rnd(2)); break;
          case 4: case 5: case 6: case 7: el_loop_timeout(rnd(3) ? 0 : 10); break;
          default:
            if (f_rst && one_in(10)) {
                int n = sim_net_nb_conns();
                if (n) { sim_event("reset"); sim_fault("net-reset"); x_err_all(); sim_net_reset_conn(rnd(n)); }
            } else if (f_part && one_in(15)) {
                int64_t d = rnd(3) ? 1 + rnd(5) : 20 + rnd(30);
                sim_event("partition for %d s", (int)d); sim_fault("net-partition"); sim_net_partition(sim_now_ns + d * SIM_S);
                if (d > 10) x_err_all();
                sim_advance_to(sim_now_ns + rnd(3) * SIM_S);
            } else if (f_listen && one_in(15)) {
                if (x_lel) { sim_event("unlisten"); sim_fault("server-stop"); x_err_all(); httpd_unlisten(&x_lel); } else x_listen();
            } else if (f_gently && one_in(15)) {
                dlist_t *l = &scfg->httpd_list;
                if (!dlist_is_empty(l)) { httpd_t *w = dlist_first_entry(l, httpd_t, httpd_link); sim_event("server closes gently"); sim_fault("close-gently"); x_err_all(); httpd_close_gently(w); }
            }
        }
    }
    memset(&sim_io, 0, sizeof(sim_io));
    sim_io.sndbuf = 1 << 18;
    sim_net_partition(0);
    if (!x_lel) x_listen();
    x_settle(3000, true);
    if (!nofault) {
        /* whatever hangs is released by the inactivity delays */
        for (int k = 0; k < 3 && x_open(); k++) { sim_advance_to(sim_now_ns + 31 * SIM_S); x_settle(200, true); }
    }
    for (int i = 0; i < NX; i++) if (X[i]->done != 1) VIOL("client:no-completion", "query %d never completes (%s)", i, !X[i]->handled ? "not delivered" : !X[i]->sdone ? "not fully received" : !X[i]->replied ? "not answered" : "answered");
    /* faults have stopped: the pool serves new queries */
    if (!nofault) { sim_advance_to(sim_now_ns + 31 * SIM_S); x_settle(100, false); }
    x_faulty = false;
    scfg->max_queries = 1024;
    if (NX < countof(X) - 3) {
        int n0 = NX;
        for (int it = 0; it < 400 && NX < n0 + 2; it++) { x_query(true); x_settle(2, false); }
        if (NX == n0) VIOL("client:stuck-pool", "the pool gives no connection any more");
        x_settle(2000, true);
        for (int i = n0; i < NX; i++) if (X[i]->done != 1) VIOL("client:no-completion", "query %d, made after the faults, never completes", i);
    }
    for (int i = 0; i < NX; i++) if (X[i]->st == HTTPC_STATUS_OK && X[i]->handled != 1) VIOL("client:false-ok", "query %d OK, delivered %d times", i, X[i]->handled);
    x_faulty = true;
    httpd_unlisten(&x_lel);
    httpc_pool_delete(&xp, true);
    httpc_cfg_delete(&ccfg);
    x_settle(100, false);
    sim_advance_to(sim_now_ns + 61 * SIM_S); x_settle(50, false);
    sim_advance_to(sim_now_ns + 61 * SIM_S); x_settle(50, false);
    for (int i = 0; i < NX; i++) if (X[i]->handled && !X[i]->wiped) VIOL("server:leak-query", "query %d is never destroyed", i);
    if (scfg->nb_conns) VIOL("server:leak-conn", "%u connection(s) survive the end", scfg->nb_conns);
    if (sim_nb_open() > nb0) VIOL("leak-fd", "%d descriptor(s) are left open", sim_nb_open() - nb0);
    httpd_cfg_delete(&scfg);
    for (int i = 0; i < NX; i++) httpc_query_wipe(&X[i]->q);
}
/* }}} */
