/* HTTP/1.1 (C11): the real server and client code over simulated sockets.
 *
 * Three settings, drawn per run:
 *   A  real server, scripted client: every byte of the requests is made here,
 *      cut anywhere, pipelined, possibly malformed or cut off;
 *   B  real client, scripted server: the same for responses;
 *   C  real client pool against the real server.
 */
#include <lib-common/http.h>
#include <lib-common/iop-rpc.h>
#include <lib-common/el.h>
#include <zlib.h>
#include "sim.h"
#include "simio.h"
#include "simthr.h"

const char *harness_name = "h_http";
#define VIOL(cls, ...) sim_violation(cls, __VA_ARGS__)
#define MAXQ 40
static inline int64_t minz(int64_t a, int64_t b) { return a < b ? a : b; }

static uint32_t rnd(uint32_t n) { return sim_choose(ST_OPS, n); }
static uint32_t rdat(uint32_t n) { return sim_choose(ST_DATA, n); }
static bool one_in(uint32_t n) { return rnd(n) == n - 1; }

/* {{{ contents: every body is a function of (id, salt, len) */

typedef struct { uint8_t *p; size_t len; } buf_t;
static void fill(uint8_t *p, size_t n, uint32_t id, int kind)
{
    uint64_t x = id * 0x9E3779B97F4A7C15ull + 12345;
    for (size_t i = 0; i < n; i++) {
        switch (kind) {
          case 0:                                    /* incompressible */
            x ^= x << 13; x ^= x >> 7; x ^= x << 17; p[i] = x >> 24; break;
          case 1:                                    /* text, with CR LF and digits */
            x ^= x << 13; x ^= x >> 7; x ^= x << 17;
            p[i] = "\r\n0123abcdef:; HTTP/1.1 200\r\n\r\n"[(x >> 20) % 31]; break;
          default:                                   /* very compressible */
            p[i] = 'a' + ((i / 4096) + id) % 26; break;
        }
    }
}
static size_t body_len(void)
{
    switch (rdat(8)) {
      case 0: return 0;
      case 1: return 1 + rdat(4);
      case 2: return rdat(100);
      case 3: return 1000 + rdat(3000);
      case 4: return 16384 - 3 + rdat(6);
      case 5: return rdat(40000);
      default: return rdat(300);
    }
}
static void sbx_gzip(sb_t *out, const uint8_t *p, size_t n, bool gz)
{
    z_stream s = { .zalloc = NULL };
    deflateInit2(&s, 6, Z_DEFLATED, gz ? 15 + 16 : 15, 8, Z_DEFAULT_STRATEGY);
    size_t b = deflateBound(&s, n) + 64;
    s.next_in = (void *)p; s.avail_in = n;
    s.next_out = (void *)sb_grow(out, b); s.avail_out = b;
    deflate(&s, Z_FINISH);
    __sb_fixlen(out, (char *)s.next_out - out->data);
    deflateEnd(&s);
}
/* appends the chunked encoding of p */
static void sbx_chunked(sb_t *out, const uint8_t *p, size_t n, bool fancy)
{
    size_t off = 0;
    while (off < n) {
        size_t c = minz(n - off, rdat(3) == 0 ? 1 + rdat(10) : rdat(3) ? 1 + rdat(5000) : n - off);
        int k = fancy ? rdat(6) : 0;
        sb_addf(out, k == 1 ? "%zX" : k == 2 ? "00%zx" : k == 3 ? "%zx ; ext=\"a\"" : k == 4 ? "%zx;a=b;c" : "%zx", c);
        sb_adds(out, "\r\n");
        sb_add(out, p + off, c);
        sb_adds(out, "\r\n");
        off += c;
    }
    sb_adds(out, fancy && rdat(3) == 1 ? "000;last\r\n" : "0\r\n");
    if (fancy && rdat(3) == 1) sb_adds(out, "X-Trailer: one\r\nX-Other:\r\n");
    sb_adds(out, "\r\n");
}
/* }}} */
/* {{{ an independent, whole-buffer message parser used as the oracle */

typedef struct {
    int      code;               /* responses */
    char     method[16]; char target[256];
    int      minor;
    bool     close, chunked;
    int64_t  clen;
    char     xid[16];
    sb_t     body;
    size_t   size;               /* bytes of the whole message */
    bool     until_close;
    bool     gz;
} msg_t;

static const char *find_hdr_end(const char *p, size_t n)
{
    for (size_t i = 0; i + 4 <= n; i++) if (!memcmp(p + i, "\r\n\r\n", 4)) return p + i;
    return NULL;
}
/* 1: parsed, 0: need more, -1: garbage */
static int msg_parse(const char *p, size_t n, bool response, bool eof, msg_t *m)
{
    const char *end = find_hdr_end(p, n), *l = p;
    sb_reset(&m->body);
    m->clen = -1; m->close = m->chunked = m->until_close = m->gz = false; m->xid[0] = 0; m->code = 0;
    if (!end) return n > 200000 ? -1 : 0;
    const char *b = end + 4;
    const char *eol = memmem(l, end + 2 - l, "\r\n", 2);
    char line[512];
    if (eol - l >= (int)sizeof(line)) return -1;
    memcpy(line, l, eol - l); line[eol - l] = 0;
    int maj;
    if (response) { if (sscanf(line, "HTTP/%d.%d %d", &maj, &m->minor, &m->code) != 3 || maj != 1) return -1; }
    else { if (sscanf(line, "%15s %255s HTTP/%d.%d", m->method, m->target, &maj, &m->minor) != 4 || maj != 1) return -1; }
    l = eol + 2;
    while (l < end + 2) {
        eol = memmem(l, end + 2 - l, "\r\n", 2);
        const char *c = memchr(l, ':', eol - l);
        if (!c || c == l) return -1;
        size_t kl = c - l; const char *v = c + 1;
        while (v < eol && *v == ' ') v++;
        size_t vl = eol - v;
#define KEY(s) (kl == strlen(s) && !strncasecmp(l, s, kl))
        if (KEY("content-length")) { m->clen = 0; for (size_t i = 0; i < vl; i++) { if (v[i] < '0' || v[i] > '9') return -1; m->clen = m->clen * 10 + v[i] - '0'; } }
        else if (KEY("transfer-encoding")) m->chunked = vl == 7 && !strncasecmp(v, "chunked", 7);
        else if (KEY("connection")) m->close |= vl == 5 && !strncasecmp(v, "close", 5);
        else if (KEY("x-id")) { snprintf(m->xid, sizeof(m->xid), "%.*s", (int)vl, v); }
        else if (KEY("content-encoding")) m->gz = true;
        l = eol + 2;
    }
    size_t av = p + n - b;
    if (response && (m->code == 204 || (m->code >= 100 && m->code < 200))) { m->size = b - p; return 1; }
    if (m->chunked) {
        for (;;) {
            eol = memmem(b, p + n - b, "\r\n", 2);
            if (!eol) return 0;
            char *e; unsigned long len = strtoul(b, &e, 16);
            if (e == b || e != eol) return -1;
            b = eol + 2;
            if ((size_t)(p + n - b) < len + 2) return 0;
            if (len) sb_add(&m->body, b, len);
            b += len;
            if (memcmp(b, "\r\n", 2)) return -1;
            b += 2;
            if (!len) break;
        }
        m->size = b - p;
        return 1;
    }
    if (m->clen < 0) {
        if (!response) { m->size = b - p; return 1; }
        m->until_close = true;
        if (!eof) return 0;
        sb_add(&m->body, b, av);
        m->size = n;
        return 1;
    }
    if ((int64_t)av < m->clen) return 0;
    sb_add(&m->body, b, m->clen);
    m->size = b + m->clen - p;
    return 1;
}
/* }}} */
/* {{{ setting A: real server, scripted client(s) */

enum { RQ_OK, R_BAD_METHOD, R_BAD_VERSION, R_VERSION_2, R_NO_COLON, R_BAD_CLEN, R_NO_LENGTH, R_CHUNK_SIZE, R_CHUNK_TAIL,
       R_CHUNK_HUGE, R_HDR_FOREVER, R_GZIP_BAD, R_TRAILER_FOREVER, R_NO_SLASH, R_UNKNOWN_TE, R_EMPTY_NAME, R_NB };
static const char *r_name[] = { "ok", "bad-method", "bad-version", "version-2", "no-colon", "bad-clen", "no-length",
    "chunk-size", "chunk-tail", "chunk-huge", "hdr-forever", "gzip-bad", "trailer-forever", "no-slash", "unknown-te", "empty-name" };

enum { H_IMMEDIATE, H_ON_DONE, H_DEFERRED, H_REJECT, H_EARLY_DEFERRED };
typedef struct conn_s conn_s;
typedef struct {
    int      id, kind;
    conn_s  *c;
    const char *method;
    bool     v10, close, expect, known, too_large, trace;
    int      nhdr; char hk[6][24], hv[6][64];
    char     vars[32];
    uint8_t *body; size_t blen;
    bool     has_body_framing;
    size_t   hdr_end, end;       /* offsets in the connection's stream */
    /* what the server did */
    int      seen, done, wiped, status; bool got_hdrs_ok;
    sb_t     got;
    /* reply */
    int      how, fmt, rcode; uint8_t *rbody; size_t rlen, roff;
    httpd_query_t *q; bool pend, started, replied;
    bool     ack, cont;          /* reply, 100-continue seen by the scripted client */
} req_t;
struct conn_s {
    int   id, fd;
    req_t *r[MAXQ]; int nr;
    sb_t  out; size_t sent;
    sb_t  in; int nack;
    bool  eof, rst, dead, shut, rsteof; /* rsteof: closed by the server with our data unread, what it sent may be lost */
    int   last;                  /* index of the request after which the server must close, or -1 */
    bool  gently, idle;
};
static req_t *R[512]; static int NR;
static conn_s C[4]; static int NC;
static httpd_cfg_t *scfg;
static bool s_listen;
static uint32_t s_thr;
static int s_status_cancel, s_status_ans;
static uint64_t nrep;

static req_t *req_of(pstream_t q)
{
    /* "/<id>" */
    int id = 0;
    if (ps_len(&q) < 2 || q.s[0] != '/') return NULL;
    for (const char *s = q.s + 1; s < q.s_end; s++) { if (*s < '0' || *s > '9') return NULL; id = id * 10 + *s - '0'; }
    return id < NR ? R[id] : NULL;
}
static void reply_some(req_t *r, bool all);
static void s_on_ready(httpd_query_t *q);
static void reply_start(req_t *r)
{
    httpd_query_t *q = r->q;
    if (r->how == H_REJECT) {
        r->replied = true;
        r->pend = false;
        r->q = NULL;
        httpd_reject_(q, r->rcode, "id-%d-rejected", r->id);
        return;
    }
    outbuf_t *ob = httpd_reply_hdrs_start(q, r->rcode, false);
    ob_addf(ob, "X-Id: %d\r\n", r->id);
    r->started = true;
    switch (r->fmt) {
      case 0: httpd_reply_hdrs_done(q, r->rlen, false); break;
      case 1: httpd_reply_hdrs_done(q, -1, true); break;
      default: httpd_reply_hdrs_done(q, -1, false); break;
    }
    if (r->fmt == 1 && r->how != H_IMMEDIATE && r->how != H_EARLY_DEFERRED && rnd(2)) {
        q->on_ready = s_on_ready;
        q->ready_threshold = 1 + rdat(3) * 1000;
    }
}
static void s_on_ready(httpd_query_t *q)
{
    req_t *r = q->priv;
    if (r->replied) VIOL("server:ready-after-end", "request %d: asked for more data after its end", r->id);
    if (r->pend && r->started) reply_some(r, rnd(2));
}
/* fmt: 0 content-length, 1 chunked (may be streamed), 2 patched length */
static void reply_some(req_t *r, bool all)
{
    httpd_query_t *q = r->q;
    if (!r->started) { reply_start(r); if (r->replied) return; }
    if (r->fmt == 2) all = true;
    do {
        outbuf_t *ob = httpd_get_ob(q);
        size_t n = r->rlen - r->roff;
        if (!all && n) n = 1 + rdat(n);
        if (r->fmt == 1) httpd_reply_chunk_start(q, ob);
        switch (rdat(3)) {
          case 1: if (n) { ob_add_memcpy: { void *d = p_dup(r->rbody + r->roff, n); ob_add_memchunk(ob, d, n, false); } break; }
                  /* FALLTHROUGH */
          case 2: ob_add(ob, r->rbody + r->roff, n); break;
          default: { int old; sb_t *sb = outbuf_sb_start(ob, &old); sb_add(sb, r->rbody + r->roff, n); outbuf_sb_end(ob, old); }
        }
        if (r->fmt == 1) httpd_reply_chunk_done(q, ob);
        r->roff += n;
    } while (all && r->roff < r->rlen);
    if (r->roff == r->rlen) {
        r->replied = true;
        r->pend = false;
        r->q = NULL;
        httpd_reply_done(q);
    } else {
        httpd_signal_write(q);
    }
    if (0) goto ob_add_memcpy;
}
static void s_check_body(req_t *r)
{
    if (r->got.len != (int)r->blen || memcmp(r->got.data, r->body, r->blen))
        VIOL("server:body", "request %d (%s): the handler got %d body bytes, %zu were sent%s", r->id, r_name[r->kind], r->got.len, r->blen,
             r->got.len == (int)r->blen ? " (contents differ)" : "");
}
static void s_on_data(httpd_query_t *q, pstream_t ps)
{
    req_t *r = q->priv;
    if (r->done) VIOL("server:data-after-done", "request %d gets data after its end", r->id);
    sb_add(&r->got, ps.s, ps_len(&ps));
    if (r->kind == RQ_OK && (size_t)r->got.len > r->blen)
        VIOL("server:body", "request %d: more body bytes than sent (%d > %zu)", r->id, r->got.len, r->blen);
}
static void s_on_done(httpd_query_t *q)
{
    req_t *r = q->priv;
    if (r->done++) VIOL("server:done-twice", "request %d completed twice", r->id);
    if (r->kind != RQ_OK && r->kind != R_GZIP_BAD)
        VIOL("server:malformed-accepted", "request %d (%s) was completed", r->id, r_name[r->kind]);
    if (r->kind == RQ_OK) {
        if (q->on_data != s_on_data) { sb_reset(&r->got); sb_add(&r->got, q->payload.data, q->payload.len); }
        s_check_body(r);
    }
    if (r->how == H_ON_DONE || r->how == H_REJECT) { reply_some(r, !(r->how == H_ON_DONE && r->fmt == 1 && rnd(2))); if (!r->replied) r->pend = true; }
    else if (r->how == H_DEFERRED) r->pend = true;
}
static void s_cb(httpd_trigger_t *t, httpd_query_t *q, const httpd_qinfo_t *qi)
{
    req_t *r = req_of(qi->query);
    (void)t;
    if (!r) VIOL("server:path", "handler called for unknown path '%.*s'", (int)ps_len(&qi->query), qi->query.s);
    sim_count_op();
    if (r->seen++) VIOL("server:twice", "request %d delivered twice", r->id);
    conn_s *c = r->c;
    for (int i = 0; i < c->nr && c->r[i] != r; i++)
        if (c->r[i]->known && !c->r[i]->seen && c->r[i]->kind == RQ_OK) VIOL("server:order", "request %d delivered before request %d", r->id, c->r[i]->id);
    if (c->last >= 0 && r->id > c->r[c->last]->id) VIOL("server:after-close", "request %d is past the end of the connection (%d, %s%s%s)", r->id, c->r[c->last]->id, r_name[c->r[c->last]->kind], c->r[c->last]->v10 ? ", HTTP/1.0" : "", c->r[c->last]->close ? ", close" : "");
    if (!strequal(http_method_str[qi->method].s, r->method)) VIOL("server:method", "request %d has method %s", r->id, http_method_str[qi->method].s);
    if (ps_len(&qi->vars) != strlen(r->vars) || memcmp(qi->vars.s, r->vars, strlen(r->vars))) VIOL("server:vars", "request %d: variables '%.*s'", r->id, (int)ps_len(&qi->vars), qi->vars.s);
    if (qi->http_version != (r->v10 ? HTTP_1_0 : HTTP_1_1)) VIOL("server:version", "request %d", r->id);
    if (!ps_memequal(&qi->host, "sim.example", 11)) VIOL("server:host", "request %d: host '%.*s'", r->id, (int)ps_len(&qi->host), qi->host.s);
    httpd_qinfo_t *dup = httpd_qinfo_dup(qi);
    for (int k = 0; k < r->nhdr; k++) {
        int n = 0;
        for (int j = 0; j < dup->hdrs_len; j++) {
            if (!ps_strcaseequal(&dup->hdrs[j].key, r->hk[k])) continue;
            n++;
            if (!ps_strequal(&dup->hdrs[j].val, r->hv[k])) VIOL("server:header", "request %d: header %s is '%.*s', not '%s'", r->id, r->hk[k], (int)ps_len(&dup->hdrs[j].val), dup->hdrs[j].val.s, r->hv[k]);
        }
        if (n != 1) VIOL("server:header", "request %d: header %s found %d times", r->id, r->hk[k], n);
    }
    httpd_qinfo_delete(&dup);
    q->priv = r;
    r->q = q;
    q->on_done = s_on_done;
    if (r->how == H_IMMEDIATE) {
        r->done = r->kind == RQ_OK ? 0 : 0;
        q->on_done = NULL;
        reply_some(r, true);
        return;
    }
    if (r->how == H_EARLY_DEFERRED) {
        r->pend = true;
        obj_retain(q);
        if (r->fmt == 1 && rnd(3) == 2) {
            reply_some(r, false);
            if (r->replied) { obj_release(&q); return; }
        }
    }
    if (r->too_large) {
        r->how = H_ON_DONE;
        httpd_bufferize(q, r->blen - 1);
    } else if (rnd(2)) {
        q->on_data = s_on_data;
    } else {
        httpd_bufferize(q, 1 << 20);
    }
}
static void s_wipe(httpd_query_t *q)
{
    req_t *r = q->priv;
    if (!r) return;
    if (r->wiped++) VIOL("server:wipe-twice", "query %d destroyed twice", r->id);
    if (r->pend) VIOL("server:wiped-unanswered", "query %d is destroyed although its answer is pending", r->id);
    r->q = NULL;
}
static void s_on_status(httpd_t *w, const httpd_query_t *q, int status, const char *fmt, va_list va)
{
    (void)w; (void)fmt; (void)va;
    if (status == HTTPD_QUERY_STATUS_ANSWERED) s_status_ans++; else s_status_cancel++;
    req_t *r = q->priv;
    if (r && r->status++) VIOL("server:status-twice", "query %d: two final statuses", r->id);
}

static const char *tok(int i) { static const char *t[] = { "alpha", "x-y", "Z9", "a b", "q=1, b;c", "" }; return t[i]; }

static void mk_request(conn_s *c, int idx, bool allow_bad)
{
    req_t *r = R[NR] = p_new(req_t, 1);
    sb_t *o = &c->out;
    r->id = NR++;
    r->c = c;
    c->r[c->nr++] = r;
    sb_init(&r->got);
    r->kind = allow_bad && rnd(6) == 5 ? 1 + (int)rnd(R_NB - 1) : RQ_OK;
    static const char *meths[] = { "GET", "POST", "PUT", "DELETE", "PATCH" };
    r->method = meths[rdat(5)];
    r->known = rdat(12) != 11;
    r->trace = r->kind == RQ_OK && rdat(20) == 19;
    r->v10 = rdat(25) == 24;
    r->close = rdat(20) == 19;
    r->how = rnd(5);
    r->fmt = rnd(3);
    r->rcode = r->how == H_REJECT ? HTTP_CODE_FORBIDDEN : rdat(2) ? HTTP_CODE_OK : HTTP_CODE_CREATED;
    r->rlen = body_len();
    r->rbody = p_new_raw(uint8_t, r->rlen + 1);
    fill(r->rbody, r->rlen, r->id + 7777, rdat(2));

    bool needs = r->method[0] == 'P';
    int enc = needs ? 1 + rdat(2) : rdat(4) < 2 ? 0 : rdat(3);   /* 0 none, 1 clen, 2 chunked */
    if (r->kind == R_CHUNK_SIZE || r->kind == R_CHUNK_TAIL || r->kind == R_CHUNK_HUGE || r->kind == R_TRAILER_FOREVER) enc = 2;
    if (r->kind == R_NO_LENGTH) { r->method = "POST"; enc = 0; }
    if (r->kind == R_GZIP_BAD) { enc = 1 + rdat(2); r->how = H_ON_DONE; r->rcode = HTTP_CODE_OK; }
    if (r->trace) { r->method = "TRACE"; enc = 0; r->known = false; }
    if (r->kind != RQ_OK && !r->trace) r->known = true;
    if (r->kind == R_UNKNOWN_TE) enc = 0;
    r->has_body_framing = enc;
    if (enc) {
        r->blen = body_len();
        if (r->kind == R_GZIP_BAD) r->blen = MAX(r->blen, 50u);
        if (r->kind == R_CHUNK_TAIL) r->blen = MAX(r->blen, 1u);
    }
    r->body = p_new_raw(uint8_t, r->blen + 1);
    bool gz = enc && r->blen && (r->kind == R_GZIP_BAD || rdat(5) == 4);
    fill(r->body, r->blen, r->id, gz ? rdat(3) : rdat(2));
    r->too_large = r->kind == RQ_OK && r->known && !gz && r->blen > 2 && r->how != H_IMMEDIATE && r->how != H_EARLY_DEFERRED && rdat(10) == 9;
    r->expect = enc && r->blen && r->kind == RQ_OK && !r->v10 && rdat(10) == 9;

    for (int k = rdat(8) == 7 ? rdat(3) : 0; k > 0; k--) sb_adds(o, "\r\n");     /* robustness: empty lines before */
    if (r->vars[0] == 0 && rdat(3) == 1) snprintf(r->vars, sizeof(r->vars), "a=%d&b=%%20c", rdat(100));
    const char *meth = r->kind == R_BAD_METHOD ? "FROB" : r->method;
    sb_addf(o, "%s %s%s/%d%s%s HTTP/%s\r\n", meth, r->kind == R_NO_SLASH ? "x" : rdat(15) == 14 ? "http://sim.example" : "", r->known ? "/r" : "/none", r->id,
            r->vars[0] ? "?" : "", r->vars, r->kind == R_BAD_VERSION ? "x.1" : r->kind == R_VERSION_2 ? "2.0" : r->v10 ? "1.0" : "1.1");
    sb_adds(o, "Host: sim.example\r\n");
    r->nhdr = rdat(6);
    for (int k = 0; k < r->nhdr; k++) {
        snprintf(r->hk[k], sizeof(r->hk[k]), "X-H%d%s", k, rdat(2) ? "-Long-Name" : "");
        if (rdat(8) == 7) {
            /* folded value: the raw text between, line end included, is kept */
            snprintf(r->hv[k], sizeof(r->hv[k]), "v%d\r\n\tfolded", (int)rdat(9));
        } else {
            snprintf(r->hv[k], sizeof(r->hv[k]), "%s%d", tok(rdat(6)), (int)rdat(50));
        }
        sb_addf(o, "%s:%s%s%s\r\n", r->hk[k], rdat(3) ? " " : rdat(2) ? "" : " \t ", r->hv[k], rdat(6) == 5 ? "  " : "");
    }
    if (r->kind == R_NO_COLON) sb_adds(o, "X-Bad header line\r\n");
    if (r->kind == R_EMPTY_NAME) sb_adds(o, ": empty\r\n");
    if (r->close) sb_adds(o, rdat(2) ? "Connection: close\r\n" : "connection: foo, Close\r\n");
    if (gz) sb_adds(o, rdat(2) ? "Content-Encoding: gzip\r\n" : "Content-Encoding: x-gzip\r\n");
    if (r->expect) sb_adds(o, "Expect: 100-continue\r\n");
    if (r->kind == R_UNKNOWN_TE) sb_adds(o, "Transfer-Encoding: zorglub\r\n");
    if (r->kind == R_HDR_FOREVER) {
        for (int lim = o->len + 90000; o->len < lim; ) sb_adds(o, "X-More: 0123456789012345678901234567890123456789\r\n");
        r->hdr_end = r->end = o->len;
        return;
    }
    sb_t enc_body; sb_init(&enc_body);
    if (gz) sbx_gzip(&enc_body, r->body, r->blen, rdat(2)); else sb_add(&enc_body, r->body, r->blen);
    if (r->kind == R_GZIP_BAD) { enc_body.data[0] ^= 0x5a; enc_body.data[1] ^= 0x77; }
    if (enc == 1) sb_addf(o, "%s: %d%s\r\n", rdat(2) ? "Content-Length" : "content-length", enc_body.len, r->kind == R_BAD_CLEN ? "x" : "");
    else if (r->kind == R_BAD_CLEN) sb_adds(o, "Content-Length: 1z\r\n");
    /* the length is ignored when the body is chunked */
    bool both = enc == 2 && r->kind == RQ_OK && rdat(8) == 7;
    if (both && rdat(2)) { both = false; sb_addf(o, "Content-Length: %d\r\n", (int)rdat(60)); }
    if (enc == 2) sb_adds(o, "Transfer-Encoding: chunked\r\n");
    if (both) sb_addf(o, "Content-Length: %d\r\n", (int)rdat(60));
    sb_adds(o, "\r\n");
    r->hdr_end = o->len;
    if (enc == 1) sb_addsb(o, &enc_body);
    if (enc == 2) {
        switch (r->kind) {
          case R_CHUNK_SIZE: sb_adds(o, rdat(2) ? "zz\r\nabc\r\n0\r\n\r\n" : "12345678901234567\r\nabc\r\n"); break;
          case R_CHUNK_HUGE: sb_addf(o, "%s\r\nabc", (const char *[]){ "80000000", "ffffffff", "fffffffffffffffe", "7fffffff0" }[rdat(4)]); break;
          case R_CHUNK_TAIL: sb_addf(o, "%zx\r\n", r->blen); sb_add(o, r->body, r->blen); sb_adds(o, "XY0\r\n\r\n"); break;
          case R_TRAILER_FOREVER: sbx_chunked(o, r->body, r->blen, false); sb_shrink(o, 2); for (int i = 0; i < 3000; i++) sb_addc(o, 'T'); break;
          default: sbx_chunked(o, (uint8_t *)enc_body.data, enc_body.len, rdat(2));
        }
    }
    sb_wipe(&enc_body);
    r->end = o->len;
    (void)idx;
}

static void a_setup(void)
{
    scfg = httpd_cfg_new();
    static const uint32_t th[] = { 16384, 1, 0, 7, 100, 4096 };
    s_thr = scfg->on_data_threshold = th[sim_choose(ST_CFG, 6)];
    static const uint16_t pd[] = { 32, 1, 2, 5 };
    scfg->pipeline_depth = pd[sim_choose(ST_CFG, 4)];
    static const uint32_t mq[] = { 1024, 1, 3, 10 };
    scfg->max_queries = mq[sim_choose(ST_CFG, 4)];
    if (sim_choose(ST_CFG, 4) == 3) scfg->outbuf_max_size = 1000;
    httpd_trigger_t *cb = httpd_trigger_new();
    cb->cb = s_cb;
    cb->on_query_wipe = s_wipe;
    httpd_trigger_register(scfg, GET, "r", cb);
    httpd_trigger_register(scfg, POST, "r", cb);
    httpd_trigger_register(scfg, PUT, "r", cb);
    httpd_trigger_register(scfg, DELETE, "r", cb);
    httpd_trigger_register(scfg, PATCH, "r", cb);
}
static el_t a_lel;
static void a_read(conn_s *c);
static void s_accept_hook(httpd_t *w) { w->on_status = s_on_status; }
static void a_open(conn_s *c, int nreq, bool allow_bad)
{
    c->id = c - C;
    c->last = -1;
    sb_init(&c->out); sb_init(&c->in);
    for (int i = 0; i < nreq; i++) {
        mk_request(c, i, allow_bad);
        req_t *r = c->r[i];
        bool closes = r->v10 || r->close || (r->kind != RQ_OK) || (uint32_t)(i + 1) == scfg->max_queries;
        if (closes && c->last < 0) {
            c->last = i;
            /* sometimes more data follow: they must be ignored */
            if (rnd(3) || r->kind == R_HDR_FOREVER || r->kind == R_TRAILER_FOREVER) break;
        }
    }
    if (s_listen) {
        c->fd = sim_peer_connect(8080);
    } else {
        int sv[2];
        sim_socketpair_raw(sv);
        c->fd = sv[0];
        httpd_t *w = httpd_spawn(sv[1], scfg);
        s_accept_hook(w);
    }
}
static bool trailing(conn_s *c) { return c->last >= 0 && c->last < c->nr - 1; }
static void a_send(conn_s *c)
{
    if (c->dead || c->shut) return;
    /* a client that awaits 100-continue does not send the body before */
    size_t lim = c->out.len;
    for (int i = 0; i < c->nr; i++) {
        req_t *r = c->r[i];
        if (r->expect && !r->ack && !r->cont) { lim = r->hdr_end; break; }
    }
    if (c->sent >= lim) return;
    size_t n = lim - c->sent;
    switch (rnd(6)) {
      case 0: break;
      case 1: n = 1; break;
      case 2: n = minz(n, 1 + rnd(20)); break;
      case 3: n = minz(n, 1 + rnd(2000)); break;
      case 4: { /* up to a boundary, give or take */
          size_t b = 0;
          for (int i = 0; i < c->nr && b <= c->sent; i++) { b = c->r[i]->hdr_end; if (b <= c->sent) b = c->r[i]->end; }
          if (b > c->sent) { int64_t d = (int64_t)b - c->sent + (int)rnd(7) - 3; if (d > 0 && d < (int64_t)n) n = d; }
          break; }
      default: n = minz(n, 1 + rnd(20000));
    }
    if (sim_peer_write(c->fd, c->out.data + c->sent, n) < 0) { c->dead = true; return; }
    c->sent += n;
}
static void a_got(conn_s *c, msg_t *m)
{
    if (m->code == 100) {
        req_t *r = c->nack < c->nr ? c->r[c->nack] : NULL;
        if (!r || !r->expect) VIOL("server:continue", "unexpected 100 Continue");
        if (r->cont) VIOL("server:continue", "two 100 Continue for request %d", r->id);
        r->cont = true;
        return;
    }
    if (c->nack >= c->nr || (c->last >= 0 && c->nack > c->last)) VIOL("server:extra-reply", "a reply (%d) although every request has one", m->code);
    req_t *r = c->r[c->nack];
    nrep++;
    bool mine = !strcmp(m->xid, "") ? false : atoi(m->xid) == r->id;
    sim_event("conn %d: reply %d to request %d (%s)", c->id, m->code, r->id, r_name[r->kind]);
    if (m->xid[0] && !mine) VIOL("server:reply-order", "reply of request %s where the one of %d is due", m->xid, r->id);
    if (m->xid[0]) {
        if (!r->replied) VIOL("server:reply-early", "request %d: a complete reply came before the handler finished it", r->id);
        if (m->code != r->rcode) VIOL("server:reply-code", "request %d: code %d instead of %d", r->id, m->code, r->rcode);
        if ((size_t)m->body.len != r->rlen || memcmp(m->body.data, r->rbody, r->rlen))
            VIOL("server:reply-body", "request %d: reply body of %d bytes, %zu were written", r->id, m->body.len, r->rlen);
    } else if (r->how == H_REJECT && r->replied && r->seen && !r->too_large && r->kind == RQ_OK) {
        char ref[40];
        snprintf(ref, sizeof(ref), "id-%d-rejected<", r->id);
        if (m->code != r->rcode || !memmem(m->body.data, m->body.len, ref, strlen(ref))) VIOL("server:reply-reject", "request %d: unexpected rejection %d", r->id, m->code);
    } else {
        /* produced by the library */
        int want = r->trace ? 405 : !r->known ? 404 : r->too_large ? 413 : 0;
        if (r->kind == RQ_OK && !want) VIOL("server:spurious-error", "valid request %d was answered %d by the library: %.*s", r->id, m->code, (int)minz(m->body.len, 200), m->body.data);
        if (want && r->kind == RQ_OK && m->code != want && !(r->trace && m->code >= 400)) VIOL("server:error-code", "request %d: %d instead of %d", r->id, m->code, want);
        if (m->code < 400) VIOL("server:error-code", "request %d (%s) was answered %d", r->id, r_name[r->kind], m->code);
    }
    sim_state(1ull << 60 | r->kind | r->how << 8 | r->fmt << 12 | (uint64_t)(s_thr & 63) << 16 | (uint64_t)minz(c->nack, 15) << 24 | (uint64_t)(m->code & 511) << 28 | (uint64_t)(c->in.len > (int)m->size) << 40);
    r->ack = true;
    c->nack++;
    bool last = c->last == c->nack - 1;
    if (m->close && !last && !c->gently) VIOL("server:premature-close", "reply to request %d announces the end of the connection, but more requests were accepted", r->id);
    if (r->expect && c->sent <= r->hdr_end) { sim_peer_close(c->fd); c->fd = -1; c->dead = true; }
}
static void a_read(conn_s *c)
{
    char tmp[8192];
    ssize_t n;
    if (c->fd < 0) return;
    size_t want = rnd(4) == 3 ? 1 + rnd(100) : sizeof(tmp);
    while (!c->eof && (n = sim_peer_read(c->fd, tmp, want)) != 0) {
        if (n < 0) { c->eof = true; c->rsteof = sim_peer_was_reset(c->fd); break; }
        sb_add(&c->in, tmp, n);
        if (want != sizeof(tmp)) break;
    }
    static msg_t m;
    if (!m.body.data) sb_init(&m.body);
    while (c->in.len && c->fd >= 0) {
        int r = msg_parse(c->in.data, c->in.len, true, c->eof, &m);
        if (r < 0) VIOL("server:garbage", "the server sent something that is not HTTP: %.*s", (int)minz(c->in.len, 100), c->in.data);
        if (!r || (m.until_close && (c->rsteof || c->rst || c->idle))) break;
        a_got(c, &m);
        sb_skip(&c->in, m.size);
    }
}
static bool a_lost(conn_s *c) { return c->rst || c->dead || (c->idle && c->eof); }
static void a_answer(bool all)
{
    int k = 0, pick;
    for (int i = 0; i < NR; i++) k += R[i]->pend;
    if (!k) return;
    pick = rnd(k);
    for (int i = 0; i < NR; i++) {
        req_t *r = R[i];
        if (!r->pend) continue;
        if (!all && pick-- != 0) continue;
        httpd_query_t *q = r->q;
        if (r->how == H_EARLY_DEFERRED) {
            /* we hold a reference: the library may have answered meanwhile */
            /* or dropped it, with the connection, before its end was read */
            if (q->answered || (!q->owner && !q->parsed)) { r->pend = false; r->q = NULL; }
            else { httpd_query_t *k2 = q; reply_some(r, all || rnd(2)); q = k2; }
            if (!r->pend) { obj_release(&q); }
        } else {
            reply_some(r, all || rnd(2));
        }
        if (!all) break;
    }
}
static bool a_done(conn_s *c)
{
    if (a_lost(c)) return true;
    int nexp = c->last >= 0 ? c->last + 1 : c->nr;
    return c->nack >= nexp && (c->last < 0 || c->eof);
}
static void run_a(void)
{
    a_setup();
    s_listen = sim_choose(ST_CFG, 2);
    if (s_listen) {
        sockunion_t su;
        p_clear(&su, 1);
        su.sin.sin_family = AF_INET; su.sin.sin_port = htons(8080); su.sin.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        a_lel = httpd_listen(&su, scfg);
    }
    NC = 1 + sim_choose(ST_CFG, 3);
    bool allow_bad = sim_choose(ST_CFG, 2), resets = sim_choose(ST_CFG, 4) == 3, gently = !resets && sim_choose(ST_CFG, 6) == 5;
    for (int i = 0; i < NC; i++) a_open(&C[i], 1 + sim_choose(ST_CFG, sim_tier ? 24 : 12), allow_bad);
    int steps = sim_range(ST_CFG, 10, 200);
    for (int s = 0; s < steps && !sim_exhausted(ST_OPS); s++) {
        conn_s *c = &C[rnd(NC)];
        switch (rnd(9)) {
          case 0: case 1: a_send(c); break;
          case 2: a_read(c); break;
          case 3: a_answer(false); break;
          case 4: case 5: case 6: el_loop_timeout(rnd(3) ? 0 : 10); break;
          case 7:
            if (resets && one_in(12) && !c->dead) {
                int k = sim_net_conn_of_fd(c->fd);
                if (k >= 0) { sim_event("reset conn %d", c->id); sim_net_reset_conn(k); sim_fault("net-reset"); c->rst = true; }
            } else if (resets && one_in(12) && !c->dead) {
                sim_event("client %d goes away", c->id); sim_fault("peer-close"); sim_peer_close(c->fd); c->fd = -1; c->dead = true;
            }
            break;
          case 8:
            if (gently && one_in(20)) {
                dlist_for_each_entry(httpd_t, w, &scfg->httpd_list, httpd_link) { sim_event("close gently"); httpd_close_gently(w); break; }
                for (int i = 0; i < NC; i++) C[i].gently = true;
            }
            break;
        }
    }
    /* faults stop: everything must now complete */
    memset(&sim_io, 0, sizeof(sim_io));
    sim_io.sndbuf = 1 << 18;
    if (sim_choose(ST_CFG, 4) == 3) {
        /* answers that take longer than the inactivity delay: no connection is dropped while it awaits one */
        for (int it = 0; it < 400; it++) { for (int i = 0; i < NC; i++) { a_send(&C[i]); a_read(&C[i]); } el_loop_timeout(1); }
        for (int i = 0; i < NC; i++) {
            conn_s *c = &C[i];
            bool p = false;
            for (int k = 0; k < c->nr; k++) p |= c->r[k]->pend && c->r[k]->done && !c->r[k]->ack;
            if (!p || c->sent < (size_t)c->out.len) c->idle = true;
        }
        for (int k = 0; k < 2; k++) { sim_advance_to(sim_now_ns + 31 * SIM_S); for (int it = 0; it < 5; it++) el_loop_timeout(1); }
        sim_probe("slow-answers");
    }
    for (int it = 0; it < 6000; it++) {
        bool all = true;
        for (int i = 0; i < NC; i++) { a_send(&C[i]); a_read(&C[i]); all = all && a_done(&C[i]); }
        a_answer(true);
        el_loop_timeout(1);
        if (all) break;
    }
    for (int i = 0; i < NC; i++) {
        conn_s *c = &C[i];
        if (a_lost(c) || c->idle) continue;
        if (c->rsteof) {
            if (c->last < 0 && !c->gently) VIOL("server:closed", "connection %d was reset by the server for no reason", c->id);
            continue;
        }
        if (c->gently || (trailing(c) && c->eof)) {
            /* what the handlers saw has been answered */
            for (int k = 0; k < c->nr; k++) if (c->gently && c->r[k]->seen && !c->r[k]->ack && !c->rst && !(trailing(c)))
                VIOL("server:lost-reply", "request %d was processed but its reply was not sent before the close", c->r[k]->id);
            continue;
        }
        int nexp = c->last >= 0 ? c->last + 1 : c->nr;
        if (c->nack < nexp) VIOL("server:no-reply", "request %d (%s) of connection %d never gets its reply (%d of %d, sent %zu of %d bytes%s)", c->r[c->nack]->id, r_name[c->r[c->nack]->kind], c->id, c->nack, nexp, c->sent, c->out.len, c->eof ? ", connection closed" : "");
        if (c->last >= 0 && !c->eof) VIOL("server:not-closed", "connection %d should be closed after request %d (%s)", c->id, c->r[c->last]->id, r_name[c->r[c->last]->kind]);
        if (c->last < 0 && c->eof) VIOL("server:closed", "connection %d was closed by the server for no reason", c->id);
        for (int k = 0; k < nexp; k++) {
            req_t *r = c->r[k];
            if (r->kind == RQ_OK && r->known && !r->seen) VIOL("server:missed", "request %d was never delivered", r->id);
            if (r->kind == RQ_OK && r->known && !r->too_large && r->how != H_IMMEDIATE && r->how != H_EARLY_DEFERRED && r->done != 1) VIOL("server:missed", "request %d never completed", r->id);
        }
    }
    /* idle connections are dropped after the inactivity delay */
    sim_advance_to(sim_now_ns + 31 * SIM_S);
    for (int it = 0; it < 200; it++) { for (int i = 0; i < NC; i++) a_read(&C[i]); a_answer(true); el_loop_timeout(1); }
    sim_advance_to(sim_now_ns + 31 * SIM_S);
    for (int it = 0; it < 20; it++) el_loop_timeout(1);
    if (!dlist_is_empty(&scfg->httpd_list) || scfg->nb_conns) VIOL("server:leak-conn", "%u connection(s) survive inactivity", scfg->nb_conns);
    for (int i = 0; i < NR; i++) {
        req_t *r = R[i];
        if (r->q && r->seen && r->how == H_EARLY_DEFERRED && r->pend) continue;
        if (r->seen && !r->wiped) VIOL("server:leak-query", "query %d is never destroyed", r->id);
    }
    httpd_unlisten(&a_lel);
    httpd_cfg_delete(&scfg);
}
/* }}} */

#include "h_http_b.h"
#include "h_http_c.h"
#include "h_http_d.h"

void harness_init(void)
{
    MODULE_REQUIRE(el);
    MODULE_REQUIRE(http);
}
void harness_run(void)
{
    sim_io_config_random();
    sim_now_ns += sim_choose(ST_CFG, 1000) * 1000ll;
    if (!strcmp(sim_prop, "C12")) {
        switch (sim_choose(ST_CFG, 7)) {
          case 0: case 1: run_c(true); break;
          case 2: case 3: run_d(); break;
          case 4: run_f(); break;
          default: run_e(); break;
        }
    } else {
        switch (sim_choose(ST_CFG, 3)) {
          case 0: run_a(); break;
          case 1: run_b(); break;
          default: run_c(false); break;
        }
    }
    sim_state(nrep);
}
