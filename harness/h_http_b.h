/* {{{ setting B: real client, scripted server */

enum { S_OK, S_BAD_LINE, S_SHORT_LINE, S_BAD_CODE, S_NO_COLON, S_BAD_CLEN, S_CHUNK_SIZE, S_CHUNK_TAIL, S_CHUNK_HUGE, S_TRUNC, S_TRUNC_HDR,
       S_GZIP_BAD, S_HDR_FOREVER, S_TOO_LARGE, S_UNKNOWN_TE, S_SILENT, S_NB };
static const char *sk_name[] = { "ok", "bad-line", "short-line", "bad-code", "no-colon", "bad-clen", "chunk-size", "chunk-tail", "chunk-huge", "truncated",
    "truncated-header", "gzip-bad", "hdr-forever", "too-large", "unknown-te", "silent" };
typedef struct {
    httpc_query_t q;
    int      id;
    char     uri[32];
    const char *method;
    uint8_t *body; size_t blen, boff; int fmt;        /* 0 clen 1 chunked 2 patched */
    bool     sending, expect, cont;
    bool     own_data;
    sb_t     got;
    int      done; httpc_status_t st; int hdrs;
    /* the response */
    int      kind; int code; uint8_t *rbody; size_t rlen;
    bool     rclose, runtil_close;
    bool     arrived;                                 /* the request reached the scripted server, intact */
    size_t   rend;                                    /* its response ends there in the stream */
    bool     made;
} cq_t;
static cq_t *Q[MAXQ]; static int NQ;
static httpc_t *bw; static httpc_cfg_t *ccfg;
static bool bw_gone;
static int bfd = -1;
static sb_t b_in, b_out; static size_t b_sent; static int b_nreq, b_nresp;
static bool b_stop;              /* the scripted server sends nothing any more */
static bool b_fin;               /* ... and then closes */
static bool b_refused, b_finsent, b_reset; static int cont_sent_for = -1;
static int b_fatal = -1;         /* index of the query whose response is bad */
static int b_lastok;

static int b_on_data(httpc_query_t *hq, pstream_t ps)
{
    cq_t *q = container_of(hq, cq_t, q);
    if (q->done) VIOL("client:data-after-done", "query %d", q->id);
    sb_add(&q->got, ps.s, ps_len(&ps));
    if (q->kind == S_TOO_LARGE && q->got.len > (int)q->rlen - 1) return HTTPC_STATUS_TOOLARGE;
    return 0;
}
static int b_on_hdrs(httpc_query_t *hq)
{
    cq_t *q = container_of(hq, cq_t, q);
    if (q->hdrs++) VIOL("client:hdrs-twice", "query %d", q->id);
    if (!q->made) VIOL("client:mixed-up", "query %d gets the response of another query", q->id);
    if ((int)hq->qinfo->code != q->code) VIOL("client:code", "query %d: code %d, %d was sent", q->id, hq->qinfo->code, q->code);
    bool f = false;
    for (int i = 0; i < hq->qinfo->hdrs_len; i++) {
        http_qhdr_t *h = &hq->qinfo->hdrs[i];
        if (ps_strcaseequal(&h->key, "x-id")) {
            f = true;
            if (ps_geti(&h->val) != q->id) VIOL("client:mixed-up", "query %d gets the response of another query", q->id);
        }
    }
    if (!f) VIOL("client:header", "query %d: a header of the response is missing", q->id);
    return 0;
}
static void b_on_done(httpc_query_t *hq, httpc_status_t st)
{
    cq_t *q = container_of(hq, cq_t, q);
    sim_event("query %d done: %d", q->id, st);
    if (q->done++) VIOL("client:done-twice", "query %d completed twice", q->id);
    sim_count_op();
    q->st = st;
    sim_state(2ull << 60 | q->kind | q->fmt << 8 | (uint64_t)(st & 15) << 12 | (uint64_t)minz(q->id, 15) << 16 | (uint64_t)(q->code & 511) << 20 | (uint64_t)q->own_data << 30 | (uint64_t)minz(NQ - q->id, 15) << 32);
    q->sending = false;
    if (st == HTTPC_STATUS_OK) {
        if (!q->made || q->kind != S_OK) VIOL("client:false-ok", "query %d is reported OK, but its response is %s", q->id, q->made ? sk_name[q->kind] : "not sent");
        if (!q->hdrs) VIOL("client:header", "query %d completed without headers", q->id);
        sb_t *g = q->own_data ? &q->got : &hq->payload;
        if (g->len != (int)q->rlen || memcmp(g->data, q->rbody, q->rlen))
            VIOL("client:body", "query %d: %d bytes of body, %zu were sent%s", q->id, g->len, q->rlen, g->len == (int)q->rlen ? " (contents differ)" : "");
    }
}
static void b_more_body(cq_t *q, bool all)
{
    if (!q->sending) return;
    outbuf_t *ob = httpc_get_ob(&q->q);
    size_t n = q->blen - q->boff;
    if (!all && n) n = 1 + rdat(n);
    httpc_query_chunk_start(&q->q, ob);
    if (n && rdat(2)) { ob_add_memchunk(ob, p_dup(q->body + q->boff, n), n, false); } else ob_add(ob, q->body + q->boff, n);
    httpc_query_chunk_done(&q->q, ob);
    q->boff += n;
    if (q->boff == q->blen) { q->sending = false; httpc_query_done(&q->q); }
}
static void b_on_100(httpc_query_t *hq)
{
    cq_t *q = container_of(hq, cq_t, q);
    if (q->cont++) VIOL("client:continue-twice", "query %d", q->id);
    q->sending = true;
    b_more_body(q, true);
}
static cq_t *b_last_open(void) { return NQ && (Q[NQ - 1]->sending || (Q[NQ - 1]->expect && !Q[NQ - 1]->cont && !Q[NQ - 1]->done)) ? Q[NQ - 1] : NULL; }
static void cq_fill(cq_t *q)
{
    static const http_method_t ms[] = { HTTP_METHOD_GET, HTTP_METHOD_POST, HTTP_METHOD_PUT, HTTP_METHOD_DELETE };
    http_method_t m = ms[rdat(4)];
    httpc_query_t *hq = &q->q;
    q->method = http_method_str[m].s;
    if (m != HTTP_METHOD_GET) q->blen = body_len();
    q->body = p_new_raw(uint8_t, q->blen + 1);
    fill(q->body, q->blen, q->id + 100, rdat(2));
    q->fmt = rdat(3);
    httpc_query_start(hq, m, LSTR("sim.example"), LSTR(q->uri));
    httpc_query_hdrs_add(hq, LSTR("X-Req: 1"));
    if (rdat(3) == 1) httpc_query_hdrs_add_auth(hq, LSTR("user"), LSTR("pass:word"));
    switch (q->fmt) {
      case 0: httpc_query_hdrs_done(hq, q->blen, false); break;
      case 1: httpc_query_hdrs_done(hq, -1, true); break;
      default: httpc_query_hdrs_done(hq, -1, false); break;
    }
}
static void b_query(void)
{
    if (NQ >= MAXQ || bw_gone || bw->busy || bw->max_queries == 0 || b_last_open()) return;
    int fly = 0;
    for (int i = 0; i < NQ; i++) fly += !Q[i]->done;
    if (fly >= ccfg->pipeline_depth) VIOL("client:pipeline", "%d queries are in flight and the connection is not busy (depth %d)", fly, ccfg->pipeline_depth);
    cq_t *q = Q[NQ] = p_new(cq_t, 1);
    httpc_query_init(&q->q);
    sb_init(&q->got);
    q->id = NQ++;
    snprintf(q->uri, sizeof(q->uri), "/q/%d", q->id);
    q->q.on_hdrs = b_on_hdrs;
    q->q.on_done = b_on_done;
    q->own_data = rdat(2);
    q->rlen = body_len();
    q->rbody = p_new_raw(uint8_t, q->rlen + 1);
    q->kind = b_fatal < 0 && rnd(10) == 9 ? 1 + rnd(S_NB - 1) : S_OK;
    if (q->kind == S_TOO_LARGE && q->rlen < 2) q->kind = S_OK;
    if (q->kind != S_OK) b_fatal = q->id;
    if (q->own_data) q->q.on_data = b_on_data; else httpc_bufferize(&q->q, q->kind == S_TOO_LARGE ? q->rlen - 1 : 1 << 20);
    httpc_query_attach(&q->q, bw);
    q->expect = rdat(8) == 7;
    q->q.expect100cont = q->expect;
    q->q.on_100cont = b_on_100;
    sim_event("query %d (%s)%s", q->id, sk_name[q->kind], q->expect ? " expects 100" : "");
    cq_fill(q);
    if (q->expect && !(q->fmt == 0 && q->blen)) { q->expect = q->q.expect100cont = false; /* announced, but not awaited */ }
    if (q->expect) { httpc_t *w = bw; el_fd_set_mask(w->ev, POLLINOUT); return; }
    q->sending = true;
    b_more_body(q, !(q->fmt == 1 && rnd(2)));
}
/* the response to query q, appended to the stream */
static void b_response(cq_t *q)
{
    sb_t *o = &b_out;
    bool last = q->kind != S_OK;
    int enc = 1 + rdat(2);
    q->code = rdat(2) ? 200 : 404;
    bool v10 = rdat(15) == 14;
    bool gz = rdat(4) == 3 && q->rlen;
    if (q->kind == S_CHUNK_SIZE || q->kind == S_CHUNK_TAIL || q->kind == S_CHUNK_HUGE) enc = 2;
    if (q->kind == S_GZIP_BAD) gz = true;
    if (q->kind == S_GZIP_BAD || q->kind == S_CHUNK_TAIL || q->kind == S_TRUNC) {
        if (q->rlen < 50) { p_delete(&q->rbody); q->rlen = 50; q->rbody = p_new_raw(uint8_t, 51); }
    }
    if (q->kind == S_TOO_LARGE) gz = false;
    fill(q->rbody, q->rlen, q->id + 5000, gz ? rdat(3) : rdat(2));
    if (q->kind == S_SILENT) { b_stop = true; q->made = true; return; }
    for (int k = rdat(6) == 5 ? 1 + rdat(2) : 0; k > 0; k--) sb_addf(o, "HTTP/1.1 %d Interim\r\nX-Foo: bar\r\n\r\n", rdat(2) ? 102 : 103);
    if (q->expect && !q->cont) { /* answered without 100: only errors are legal */ q->code = 417; }
    if (q->kind == S_BAD_CODE) q->code = 700;
    if (!q->expect && rdat(15) == 14) sb_adds(o, "HTTP/1.1 100 Continue\r\n\r\n");
    q->rclose = !last && b_lastok < 0 && (b_refused || rdat(20) == 19);
    q->runtil_close = (q->rclose || q->kind == S_OK) && b_fatal < 0 && b_lastok < 0 && !gz && rdat(25) == 24;
    if (q->kind == S_BAD_LINE) sb_adds(o, "HTPT/1.1 200 OK\r\n");
    else if (q->kind == S_SHORT_LINE) sb_adds(o, rdat(2) ? "HTTP/1.1\r\n" : "HTTP/1.1 200\r\n");
    else sb_addf(o, "HTTP/1.%d %d Some reason\r\n", !v10, q->code);
    sb_addf(o, "X-Id: %d\r\nX-Fold: a\r\n b\r\n", q->id);
    if (q->rclose || q->runtil_close) {
        if (q->rclose) sb_adds(o, "Connection: close\r\n");
        b_lastok = q->id;
    }
    if (q->kind == S_NO_COLON) sb_adds(o, "X-Bad\r\n");
    if (q->kind == S_UNKNOWN_TE) sb_adds(o, "Transfer-Encoding: zorglub\r\n");
    if (q->kind == S_HDR_FOREVER) { for (int i = 0; i < 2500; i++) sb_adds(o, "X-More: 012345678901234567890123456789012\r\n"); q->made = true; b_stop = true; return; }
    if (q->kind == S_TRUNC_HDR) { q->made = true; b_stop = b_fin = true; return; }
    if (gz) sb_adds(o, "Content-Encoding: gzip\r\n");
    sb_t eb; sb_init(&eb);
    if (gz) sbx_gzip(&eb, q->rbody, q->rlen, rdat(2)); else sb_add(&eb, q->rbody, q->rlen);
    if (q->kind == S_GZIP_BAD) { eb.data[0] ^= 0x5a; eb.data[1] ^= 0x77; }
    if (q->runtil_close) {
        sb_adds(o, "\r\n");
        sb_addsb(o, &eb);
        b_stop = b_fin = true;
    } else if (q->kind == S_OK && !q->rlen && q->code == 200 && rdat(3) == 1) {
        q->code = 204;
        char *c = o->data + o->len - 8; while (memcmp(c, "200 Some", 8)) c--; c[0] = '2'; c[2] = '4';
        sb_adds(o, "\r\n");
    } else if (enc == 1) {
        sb_addf(o, "Content-Length: %d%s\r\n\r\n", eb.len, q->kind == S_BAD_CLEN ? "-3" : "");
        sb_addsb(o, &eb);
    } else {
        if (q->kind == S_BAD_CLEN) sb_adds(o, "Content-Length: 1x\r\n");
        if (q->kind == S_OK && rdat(8) == 7) sb_addf(o, "Content-Length: %d\r\n", (int)rdat(60));
        sb_adds(o, "Transfer-Encoding: chunked\r\n\r\n");
        switch (q->kind) {
          case S_CHUNK_SIZE: sb_adds(o, rdat(2) ? "zz\r\nabc\r\n0\r\n\r\n" : "12345678901234567\r\nabc\r\n"); break;
          case S_CHUNK_HUGE: sb_addf(o, "%s\r\nabc", (const char *[]){ "80000000", "ffffffff", "fffffffffffffffe", "7fffffff0" }[rdat(4)]); break;
          case S_CHUNK_TAIL: sb_addf(o, "%zx\r\n", q->rlen); sb_add(o, q->rbody, q->rlen); sb_adds(o, "XY0\r\n\r\n"); break;
          default: sbx_chunked(o, (uint8_t *)eb.data, eb.len, rdat(2));
        }
    }
    if (q->kind == S_TRUNC) { sb_shrink(o, 1 + rdat(20)); b_stop = b_fin = true; }
    if (q->kind != S_OK) b_stop = true;
    if (q->rclose) b_stop = true;
    sb_wipe(&eb);
    q->made = true;
    q->rend = o->len;
}
static void b_serve(void)
{
    char tmp[8192];
    ssize_t n;
    static msg_t m;
    if (!m.body.data) sb_init(&m.body);
    while ((n = sim_peer_read(bfd, tmp, rnd(4) == 3 ? 1 + rnd(100) : sizeof(tmp))) > 0) sim_event("server got %d bytes", (int)n), sb_add(&b_in, tmp, n);
    while (b_in.len && !b_refused) {
        /* a request whose body waits for our 100 */
        cq_t *q = b_nreq < NQ ? Q[b_nreq] : NULL;
        const char *he = find_hdr_end(b_in.data, b_in.len);
        if (q && q->expect && he && !q->cont && b_nresp == b_nreq && !q->made && !b_stop) {
            if (rdat(4) == 3) { /* refused at once */
                b_refused = true; b_response(q); b_nresp++;
                b_stop = true; b_fin = true; b_lastok = b_lastok < 0 ? q->id : b_lastok;
                return;
            }
            ;
            if (cont_sent_for != q->id) { cont_sent_for = q->id; sb_adds(&b_out, "HTTP/1.1 100 Continue\r\n\r\n"); }
        }
        int r = msg_parse(b_in.data, b_in.len, false, false, &m);
        if (r < 0) VIOL("client:garbage", "the client sent something that is not HTTP: %.*s", (int)minz(b_in.len, 100), b_in.data);
        if (!r) break;
        if (!q) VIOL("client:extra", "a request that was not made: %s %s", m.method, m.target);
        if (strcmp(m.target, q->uri)) VIOL("client:order", "request %s where %s is due", m.target, q->uri);
        if (strcmp(m.method, q->method)) VIOL("client:method", "query %d: %s", q->id, m.method);
        if ((size_t)m.body.len != q->blen || memcmp(m.body.data, q->body, q->blen))
            VIOL("client:sent-body", "query %d: the server got %d bytes of body, %zu were given", q->id, m.body.len, q->blen);
        q->arrived = true;
        b_nreq++;
        sb_skip(&b_in, m.size);
    }
}
static void b_send(void)
{
    if (b_finsent || b_reset) return;
    if (b_sent == (size_t)b_out.len) {
        if (b_fin) { sim_peer_shutdown(bfd); b_finsent = true; sim_event("server closes"); }
        return;
    }
    size_t n = b_out.len - b_sent;
    switch (rnd(6)) {
      case 0: break;
      case 1: n = 1; break;
      case 2: n = minz(n, 1 + rnd(20)); break;
      case 3: n = minz(n, 1 + rnd(2000)); break;
      case 4: { int64_t d = 0; for (int i = 0; i < NQ; i++) if (Q[i]->rend > b_sent) { d = (int64_t)Q[i]->rend - b_sent + (int)rnd(9) - 4; break; }
                if (d > 0 && d < (int64_t)n) n = d; break; }
      default: n = minz(n, 1 + rnd(20000));
    }
    if (sim_peer_write(bfd, b_out.data + b_sent, n) < 0) { b_sent = b_out.len; return; }
    b_sent += n;
}
static int b_disc;
static void b_disconnect(httpc_t *w)
{
    bw_gone = true;
    b_disc++;
    super_call: ;
    httpc_class()->disconnect(w);
    if (0) goto super_call;
}
OBJ_CLASS(bhttpc, httpc, HTTPC_FIELDS, HTTPC_METHODS);
OBJ_VTABLE(bhttpc)
    bhttpc.disconnect = (void *)b_disconnect;
OBJ_VTABLE_END()

static void b_cfg(void)
{
    ccfg = httpc_cfg_new();
    static const uint32_t th[] = { 16384, 1, 0, 7, 100, 4096 };
    ccfg->on_data_threshold = th[sim_choose(ST_CFG, 6)];
    static const uint16_t pd[] = { 32, 1, 2, 5 };
    ccfg->pipeline_depth = pd[sim_choose(ST_CFG, 4)];
    static const uint32_t mq[] = { 1024, 1, 3, 10 };
    ccfg->max_queries = mq[sim_choose(ST_CFG, 4)];
    ccfg->httpc_cls = obj_class(bhttpc);
}
static void b_expect_final(cq_t *q);
static void run_b(void)
{
    int sv[2];
    b_cfg();
    b_lastok = -1;
    sb_init(&b_in); sb_init(&b_out);
    sim_socketpair_raw(sv);
    bfd = sv[0];
    bw = httpc_spawn(sv[1], ccfg, NULL);
    bool resets = sim_choose(ST_CFG, 4) == 3, stall = sim_choose(ST_CFG, 6) == 5;
    bool good = sim_choose(ST_CFG, 2);
    if (good) b_fatal = MAXQ;
    int steps = sim_range(ST_CFG, 10, 250);
    bool gently = false;
    for (int s = 0; s < steps && !sim_exhausted(ST_OPS); s++) {
        switch (rnd(10)) {
          case 0: case 1: b_query(); break;
          case 2: if (!b_reset) b_serve(); break;
          case 3: case 4: b_send(); break;
          case 5: if (!b_stop && !b_reset && b_nresp < b_nreq) { b_response(Q[b_nresp]); b_nresp++; } break;
          case 6: case 7: case 8: el_loop_timeout(rnd(3) ? 0 : 5); break;
          default:
            if (NQ && Q[NQ - 1]->sending && !bw_gone) b_more_body(Q[NQ - 1], rnd(2));
            else if (resets && one_in(15)) { sim_net_reset_conn(sim_net_conn_of_fd(bfd)); sim_fault("net-reset"); b_reset = true; sim_event("reset"); }
            else if (stall && one_in(15)) { b_stop = true; }
            else if (one_in(60) && !bw_gone && !b_last_open()) { sim_event("close gently"); httpc_close_gently(bw); gently = true; }
            break;
        }
    }
    memset(&sim_io, 0, sizeof(sim_io));
    sim_io.sndbuf = 1 << 18;
    for (int it = 0; it < 4000; it++) {
        if (NQ && Q[NQ - 1]->sending && !bw_gone) b_more_body(Q[NQ - 1], true);
        if (!b_reset) b_serve();
        if (!b_stop && !b_reset && b_nresp < b_nreq) { b_response(Q[b_nresp]); b_nresp++; }
        b_send();
        el_loop_timeout(1);
        int open = 0;
        for (int i = 0; i < NQ; i++) open += !Q[i]->done;
        if (!open && b_sent == (size_t)b_out.len) break;
    }
    bool silent = b_stop && !b_fin && !b_reset;
    if (silent) {
        /* nothing comes any more: the inactivity delay must release all queries */
        for (int k = 0; k < 3; k++) {
            sim_advance_to(sim_now_ns + 31 * SIM_S);
            for (int it = 0; it < 30; it++) { if (NQ && Q[NQ - 1]->sending && !bw_gone) b_more_body(Q[NQ - 1], true); b_serve(); el_loop_timeout(1); }
        }
    }
    for (int i = 0; i < NQ; i++) b_expect_final(Q[i]);
    if (silent) for (int i = 0; i < NQ; i++) if (Q[i]->st != HTTPC_STATUS_OK) {
        if (Q[i]->kind == S_SILENT && !(Q[i]->expect && !Q[i]->cont) && !gently && b_lastok < 0 && Q[i]->st != HTTPC_STATUS_TIMEOUT) VIOL("client:status", "query %d got no answer, its status is %d", i, Q[i]->st);
        break;
    }
    (void)gently;
    sim_advance_to(sim_now_ns + 31 * SIM_S);
    for (int it = 0; it < 30; it++) el_loop_timeout(1);
    if (!bw_gone) VIOL("client:idle", "an idle connection is not closed after the inactivity delay");
    for (int i = 0; i < NQ; i++) httpc_query_wipe(&Q[i]->q);
    httpc_cfg_delete(&ccfg);
}
static void b_expect_final(cq_t *q)
{
    if (q->done != 1) VIOL("client:no-completion", "query %d (%s) never completes%s", q->id, sk_name[q->kind], b_reset ? " after a reset" : "");
    bool err_ok = b_reset || (b_fatal >= 0 && q->id >= b_fatal) || (b_lastok >= 0 && q->id > b_lastok) || !q->made
               || (q->expect && !q->cont) || b_fin;
    if (q->st != HTTPC_STATUS_OK && !err_ok)
        VIOL("client:spurious-error", "query %d completed with error %d although its response is fine", q->id, q->st);
    if (q->st != HTTPC_STATUS_OK && b_fin && !b_reset && q->made && q->kind == S_OK && (b_fatal < 0 || q->id < b_fatal) && (b_lastok < 0 || q->id <= b_lastok) && !(q->expect && !q->cont))
        VIOL("client:spurious-error", "query %d completed with error %d although its response was sent before the close", q->id, q->st);
    nrep++;
}
/* }}} */
