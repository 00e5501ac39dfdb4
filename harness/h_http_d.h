/* {{{ settings D and E: a scripted HTTP/2 peer, with its own framing, HPACK
 *     and flow-control accounting, against the real server (D) or client (E) */
#include "h_hpack_ref.h"
#include <lib-common/unix.h>
#include <lib-common/net.h>

enum { F_DATA, F_HEADERS, F_PRIORITY, F_RST, F_SETTINGS, F_PUSH, F_PING, F_GOAWAY, F_WU, F_CONT };
enum { S2_TBL = 1, S2_PUSH, S2_MCS, S2_IW, S2_MFS, S2_MHL };
#define FL_EOS 1
#define FL_ACK 1
#define FL_EOH 4
#define FL_PAD 8
#define FL_PRI 32

/* {{{ HPACK, from the RFC */
typedef struct { char *k, *v; } hent_t;
typedef struct { hent_t e[300]; int n; size_t size, max; } htab_t;     /* newest first */
static struct { char k[64]; char v[600]; } H[60]; static int NH;

static void ht_evict(htab_t *t, size_t room)
{
    while (t->n && t->size + room > t->max) { hent_t *e = &t->e[--t->n]; t->size -= strlen(e->k) + strlen(e->v) + 32; p_delete(&e->k); p_delete(&e->v); }
}
static void ht_add(htab_t *t, const char *k, const char *v)
{
    size_t s = strlen(k) + strlen(v) + 32;
    ht_evict(t, s);
    if (s > t->max) return;
    memmove(t->e + 1, t->e, t->n * sizeof(hent_t));
    t->e[0].k = p_strdup(k); t->e[0].v = p_strdup(v);
    t->n++; t->size += s;
}
static void hp_int(sb_t *o, uint8_t mask, int bits, uint32_t v)
{
    uint32_t m = (1u << bits) - 1;
    if (v < m) { sb_addc(o, mask | v); return; }
    sb_addc(o, mask | m); v -= m;
    while (v >= 128) { sb_addc(o, 0x80 | (v & 127)); v >>= 7; }
    sb_addc(o, v);
}
static void hp_str(sb_t *o, const char *s)
{
    size_t n = strlen(s);
    if (rdat(2)) { hp_int(o, 0, 7, n); sb_add(o, s, n); return; }
    uint64_t bits = 0; int nb = 0; uint8_t tmp[4000]; size_t l = 0;
    for (size_t i = 0; i < n; i++) {
        uint8_t c = s[i];
        bits = bits << ref_huff[c].n | ref_huff[c].c; nb += ref_huff[c].n;
        while (nb >= 8) { tmp[l++] = bits >> (nb - 8); nb -= 8; bits &= (1ull << nb) - 1; }
    }
    if (nb) tmp[l++] = bits << (8 - nb) | ((1u << (8 - nb)) - 1);
    hp_int(o, 0x80, 7, l); sb_add(o, tmp, l);
}
static void hp_hdr(htab_t *t, sb_t *o, const char *k, const char *v)
{
    int idx = 0, kidx = 0;
    for (int i = 1; i < 62 && !idx; i++) if (!strcmp(ref_stbl[i].k, k)) { if (!kidx) kidx = i; if (!strcmp(ref_stbl[i].v, v)) idx = i; }
    for (int i = 0; i < t->n && !idx; i++) if (!strcmp(t->e[i].k, k)) { if (!kidx || rdat(2)) kidx = 62 + i; if (!strcmp(t->e[i].v, v)) idx = 62 + i; }
    if (idx && rdat(4)) { hp_int(o, 0x80, 7, idx); return; }
    if (rdat(4) == 0) kidx = 0;
    int form = rdat(4);
    if (form < 2) hp_int(o, 0x40, 6, kidx); else hp_int(o, form == 2 ? 0 : 0x10, 4, kidx);
    if (!kidx) hp_str(o, k);
    hp_str(o, v);
    if (form < 2) ht_add(t, k, v);
}
static bool hp_rint(const uint8_t **p, const uint8_t *e, int bits, uint32_t *v)
{
    uint32_t m = (1u << bits) - 1; int sh = 0;
    if (*p >= e) return false;
    *v = *(*p)++ & m;
    if (*v < m) return true;
    for (;;) { if (*p >= e || sh > 28) return false; uint8_t c = *(*p)++; *v += (uint32_t)(c & 127) << sh; sh += 7; if (!(c & 128)) return true; }
}
static bool hp_rstr(const uint8_t **p, const uint8_t *e, char *out, size_t max)
{
    if (*p >= e) return false;
    bool huf = **p & 0x80; uint32_t n; size_t l = 0;
    if (!hp_rint(p, e, 7, &n) || n > (size_t)(e - *p)) return false;
    const uint8_t *s = *p; *p += n;
    if (!huf) { if (n >= max) return false; memcpy(out, s, n); out[n] = 0; return true; }
    uint32_t acc = 0; int nb = 0;
    for (uint32_t i = 0; i < n; i++) for (int b = 7; b >= 0; b--) {
        acc = acc << 1 | ((s[i] >> b) & 1); nb++;
        if (nb > 30) return false;
        for (int c = 0; c < 256; c++) if (ref_huff[c].n == nb && ref_huff[c].c == acc) { if (l + 1 >= max) return false; out[l++] = c; acc = 0; nb = 0; break; }
    }
    if (nb > 7 || acc != (1u << nb) - 1) return false;
    out[l] = 0;
    return true;
}
/* NULL, or what is wrong */
static const char *hp_decode(htab_t *t, const uint8_t *p, size_t len, uint32_t maxtbl)
{
    const uint8_t *e = p + len; uint32_t v; bool first = true;
    NH = 0;
    while (p < e) {
        const char *k, *vv; uint8_t c = *p;
        if (NH >= countof(H)) return "too many headers";
        if ((c & 0xe0) == 0x20) {
            if (!first || !hp_rint(&p, e, 5, &v) || v > maxtbl) return "bad table size update";
            t->max = v; ht_evict(t, 0);
            continue;
        }
        if (first && t->max > maxtbl) return "the lowered HEADER_TABLE_SIZE is not followed by a size update";
        first = false;
        int bits = c & 0x80 ? 7 : c & 0x40 ? 6 : 4;
        if (!hp_rint(&p, e, bits, &v)) return "bad index";
        if (v >= 62u + t->n) return "index beyond the table";
        k = v >= 62 ? t->e[v - 62].k : ref_stbl[v].k;
        if (bits == 7) {
            if (!v) return "index 0";
            vv = v >= 62 ? t->e[v - 62].v : ref_stbl[v].v;
            snprintf(H[NH].k, sizeof(H[0].k), "%s", k); snprintf(H[NH].v, sizeof(H[0].v), "%s", vv);
        } else {
            if (v) snprintf(H[NH].k, sizeof(H[0].k), "%s", k);
            else if (!hp_rstr(&p, e, H[NH].k, sizeof(H[0].k))) return "bad name";
            if (!hp_rstr(&p, e, H[NH].v, sizeof(H[0].v))) return "bad value";
            if (bits == 6) ht_add(t, H[NH].k, H[NH].v);
        }
        NH++;
    }
    return NULL;
}
static const char *hget(const char *k) { for (int i = 0; i < NH; i++) if (!strcmp(H[i].k, k)) return H[i].v; return NULL; }
/* }}} */
/* {{{ the peer */
enum { SK_OK, SK_NO_PATH, SK_EXTRA_PSEUDO, SK_OVER, SK_UNDER, SK_WU0, SK_WUOVER, SK_CRLF, SK_UPPER, SK_CLEN_EOS, SK_NAME, SK_NB };
static const char *s2_name[] = { "ok", "no-path", "extra-pseudo", "more-data", "less-data", "wu-0", "wu-overflow", "line-break", "upper-case", "length-without-data", "bad-name" };
enum { CK_NONE, CK_BIG_FRAME, CK_DATA_IDLE, CK_EVEN, CK_PING7, CK_SET5, CK_WU0, CK_CONT, CK_NOT_CONT, CK_PAD, CK_HPACK, CK_DATA0, CK_SET_SID, CK_PUSH, CK_RST_IDLE,
       CK_OLD_ID, CK_IW, CK_EPUSH, CK_SELFDEP, CK_WUOVER, CK_ACK2, CK_RST3, CK_WU_IDLE, CK_GOAWAY3, CK_AFTER_EOS, CK_MFS, CK_IWOVER, CK_DTS_BIG, CK_DTS_MID, CK_EVICTED, CK_NB };
static const char *c2_name[] = { "none", "big-frame", "data-on-idle", "even-id", "ping-7", "settings-5", "wu-0", "continuation", "not-continuation", "padding", "hpack-index", "data-0",
    "settings-sid", "push", "rst-idle", "old-id", "initial-window", "enable-push", "self-dependency", "wu-overflow", "ack-twice", "rst-3", "wu-idle", "goaway-3", "data-after-end", "max-frame-size", "initial-window-overflow", "table-size", "table-size-late", "evicted-index" };
typedef struct {
    uint32_t id; xq_t *x; int64_t sw, rw; size_t off;
    bool hin, ein, hout, eout, rin, rout;
    sb_t body; int kind; int rst_ping; bool noclen, bad_sent, expect;
} st2_t;
typedef struct {
    int fd; sb_t in, out; size_t sent;
    int64_t csw, crw; uint32_t peer_iw;
    uint32_t iw, tbl, mcs;                          /* in force at the library */
    struct { uint32_t iw, tbl, mcs; } sq[64]; int sqh, sqt;
    uint32_t l_iw, l_tbl, l_mcs;                    /* last announced */
    htab_t enc, dec;
    st2_t *s[400]; int ns; uint32_t next_id;
    int np, npa; uint64_t pv[64];
    int reset_np; bool setin, set_acked, preface, eof, shut, goaway_in, goaway_err, may_reset, goaway_out; uint32_t goaway_last, my_goaway, my_last;
    int err; st2_t *err_s;                          /* the connection-level error committed */
    bool stingy;                                    /* gives credit when there is none left only */
    sb_t hb; uint32_t hsid; bool heos;
} p2_t;
static p2_t *P[20]; static int NP; static bool p2_server;     /* we play the server (E) */

static p2_t *p2_new(int fd)
{
    p2_t *p = P[NP++] = p_new(p2_t, 1);
    p->fd = fd; sb_init(&p->in); sb_init(&p->out); sb_init(&p->hb);
    p->csw = p->crw = p->iw = p->l_iw = p->peer_iw = 65535; p->mcs = p->l_mcs = UINT32_MAX;
    p->tbl = p->l_tbl = p->enc.max = p->dec.max = 4096;
    p->next_id = 1; p->stingy = rdat(3) == 2;
    return p;
}
static void p2_frame(p2_t *p, int type, int fl, uint32_t sid, const void *d, size_t n)
{
    sb_addc(&p->out, n >> 16); sb_addc(&p->out, n >> 8); sb_addc(&p->out, n);
    sb_addc(&p->out, type); sb_addc(&p->out, fl);
    sb_add_be32(&p->out, sid | (rdat(8) == 7 ? 1u << 31 : 0));     /* the reserved bit is ignored */
    sb_add(&p->out, d, n);
}
static void p2_32(p2_t *p, int type, uint32_t sid, uint32_t v) { if (type == F_WU && rdat(5) == 4) v |= 1u << 31; be32_t b = cpu_to_be32(v); p2_frame(p, type, 0, sid, &b, 4); }
static void p2_settings(p2_t *p, bool first)
{
    SB_1k(b);
    if (p->sqt >= countof(p->sq)) return;
    if (first ? rdat(3) : rdat(2)) {
        static const uint32_t v[] = { 65535, 0, 1, 100, 5000, 16384, 70000, 200000 };
        p->l_iw = v[rdat(8)];
        sb_add_be16(&b, S2_IW); sb_add_be32(&b, p->l_iw);
    }
    if (rdat(4) == 3) { static const uint32_t v[] = { 4096, 0, 64, 100, 300, 65536, 4095, 4070 }; p->l_tbl = v[rdat(8)]; sb_add_be16(&b, S2_TBL); sb_add_be32(&b, p->l_tbl); }
    if (p2_server && rdat(3) == 2) { p->l_mcs = 1 + rdat(3); sb_add_be16(&b, S2_MCS); sb_add_be32(&b, p->l_mcs); }
    if (rdat(4) == 3) { sb_add_be16(&b, S2_MFS); sb_add_be32(&b, 16384 + rdat(50000)); }
    if (rdat(4) == 3) { sb_add_be16(&b, 0x77); sb_add_be32(&b, rdat(1000)); }
    if (!p2_server && rdat(4) == 3) { sb_add_be16(&b, S2_PUSH); sb_add_be32(&b, 0); }
    p->sq[p->sqt].iw = p->l_iw; p->sq[p->sqt].tbl = p->l_tbl; p->sq[p->sqt++].mcs = p->l_mcs;
    sim_event("peer: SETTINGS iw %u tbl %u mcs %u", p->l_iw, p->l_tbl, p->l_mcs);
    p2_frame(p, F_SETTINGS, 0, 0, b.data, b.len);
}
/* a header block in one HEADERS and some CONTINUATION frames */
static void p2_block(p2_t *p, uint32_t sid, sb_t *blk, bool eos)
{
    SB_1k(f);
    int fl = eos ? FL_EOS : 0; size_t off = 0, n;
    int pad = rdat(4) == 3 ? (int)rdat(100) : -1;
    if (pad >= 0) { fl |= FL_PAD; sb_addc(&f, pad); }
    if (!p2_server && rdat(5) == 4) { fl |= FL_PRI; sb_add_be32(&f, (sid > 1 && rdat(2) ? sid - 2 : 0) | (rdat(3) == 2 ? 1u << 31 : 0)); sb_addc(&f, rdat(255)); }
    n = rdat(3) ? (size_t)blk->len : rdat(blk->len + 1);
    sb_add(&f, blk->data, n); off = n;
    for (int i = 0; i < pad; i++) sb_addc(&f, 0);
    p2_frame(p, F_HEADERS, fl | (off == (size_t)blk->len && rdat(6) ? FL_EOH : 0), sid, f.data, f.len);
    if (!(p->out.data[p->out.len - f.len - 5] & FL_EOH)) {
        do {
            n = minz(blk->len - off, rdat(3) ? 1 + rdat(30) : 0);
            if (rdat(4) == 0) n = blk->len - off;
            off += n;
            p2_frame(p, F_CONT, off == (size_t)blk->len ? FL_EOH : 0, sid, blk->data + off - n, n);
        } while (off < (size_t)blk->len);
    }
}
static void p2_tblupd(p2_t *p, sb_t *b)
{
    if (rdat(20)) return;
    p->enc.max = (uint32_t[]){ 4096, 0, 100, 500 }[rdat(4)];
    ht_evict(&p->enc, 0);
    hp_int(b, 0x20, 5, p->enc.max);
}
static void p2_bad_hdr(p2_t *p, st2_t *s, sb_t *b)
{
    if (s->kind == SK_CRLF) hp_hdr(&p->enc, b, rdat(3) ? "x-evil" : "x-req\r\nx-evil", (const char *[]){ "a\r\nX-Req: v 9999", "a\nX-Req: v 9999", "a\r", "\n" }[rdat(4)]);
    if (s->kind == SK_UPPER) hp_hdr(&p->enc, b, rdat(2) ? "X-Evil" : "x-eviL", "a");
    if (s->kind == SK_NAME) hp_hdr(&p->enc, b, (const char *[]){ "", "x-evil: 1\r\nx", "x evil", "x-evil:", "x\nevil" }[rdat(5)], "a");
}
/* one DATA frame, within the windows of the library */
static bool p2_data_out(p2_t *p, st2_t *s, const uint8_t *d, size_t len, bool force_all)
{
    size_t n = len - s->off; int pad = rdat(5) == 4 ? (int)rdat(60) : -1;
    if (s->eout || s->rout || s->rin || p->eof || p->shut || p->err) return false;
    int64_t room = minz(minz(s->sw, p->csw), 16384) - (pad >= 0 ? pad + 1 : 0);
    if (room < 0) { pad = -1; room = minz(minz(s->sw, p->csw), 16384); }
    if (n && room <= 0) return false;
    if (!force_all && n && rdat(3)) n = rdat(minz(n, 3000) + 1);
    n = minz(n, room);
    if (n < len - s->off && s->kind == SK_OK && !n && rdat(4)) return false;
    bool eos = n == len - s->off && (s->off + n == 0 || force_all || rdat(4));
    if (!eos && !n && force_all) return false;
    SB_8k(f);
    bool trail = eos && !s->kind && rdat(10) == 9;
    if (trail) eos = false;
    if (pad >= 0) sb_addc(&f, pad);
    sb_add(&f, d + s->off, n);
    for (int i = 0; i < pad; i++) sb_addc(&f, 0);
    p2_frame(p, F_DATA, (eos ? FL_EOS : 0) | (pad >= 0 ? FL_PAD : 0), s->id, f.data, f.len);
    s->sw -= f.len; p->csw -= f.len;
    s->off += n; s->eout = eos;
    if (trail) {
        SB_8k(b);
        p2_tblupd(p, &b);
        hp_hdr(&p->enc, &b, "x-trailer", "yes"); if (rdat(2)) hp_hdr(&p->enc, &b, "x-crc", "0123");
        p2_block(p, s->id, &b, s->eout = true); sim_probe("trailers");
    }
    return true;
}
static void p2_wu(p2_t *p, bool wide)
{
    uint32_t inc = wide ? 100000 : 1 + rdat(rdat(2) ? 100 : 30000);
    if (p->stingy) return;
    if (!p->ns || rdat(3) == 0) { if (p->crw < 1 << 28) { p2_32(p, F_WU, 0, inc); p->crw += inc; } return; }
    st2_t *s = p->s[rdat(p->ns)];
    if (s->ein || s->rin || s->rout || (!s->hin && p2_server) || s->rw > 1 << 28) return;
    p2_32(p, F_WU, s->id, inc); s->rw += inc;
}
static void p2_open_windows(p2_t *p)
{
    if (p->eof || p->err || p->shut) return;
    if (p->stingy) {
#define GRANT ((uint32_t[]){ 1, 2, 5000, 8191, 8192, 8193, 40000 }[rdat(7)])
        if (p->crw <= 0) { uint32_t g = GRANT; p2_32(p, F_WU, 0, g); p->crw += g; }
        for (int i = 0; i < p->ns; i++) { st2_t *s = p->s[i]; if (!s->ein && !s->rin && !s->rout && (s->hin || !p2_server) && s->rw <= 0) { uint32_t g = GRANT - s->rw; p2_32(p, F_WU, s->id, g); s->rw += g; } }
        return;
    }
    if (p->crw < 100000) { p2_32(p, F_WU, 0, 200000); p->crw += 200000; }
    for (int i = 0; i < p->ns; i++) { st2_t *s = p->s[i]; if (!s->ein && !s->rin && !s->rout && (s->hin || !p2_server) && s->rw < 50000) { p2_32(p, F_WU, s->id, 150000); s->rw += 150000; } }
}
static void p2_ping(p2_t *p)
{
    if (p->np >= countof(p->pv)) return;
    p->pv[p->np] = 0x1234567800ull + p->np * 77 + rdat(3);
    p2_frame(p, F_PING, 0, 0, &p->pv[p->np], 8); p->np++;
}
static void p2_misc(p2_t *p)
{
    uint8_t z[64] = { 0 };
    switch (rdat(4)) {
      case 0: p2_ping(p); break;
      case 1: p2_frame(p, 0x40 + rdat(100), rdat(255), rdat(2) ? rdat(9) : 0, z, rdat(60)); break;       /* unknown: ignored */
      case 2: { uint32_t id = p2_server ? (p->ns ? p->s[rdat(p->ns)]->id : 0) : 1 + 2 * rdat(20); if (id) { put_unaligned_be32(z, rdat(2) ? 0 : 1u << 31); z[4] = rdat(255); p2_frame(p, F_PRIORITY, 0, id, z, 5); } break; }
      default: p2_frame(p, F_PING, FL_ACK, 0, z, 8); break;
    }
}
static st2_t *p2_find(p2_t *p, uint32_t id) { for (int i = 0; i < p->ns; i++) if (p->s[i]->id == id) return p->s[i]; return NULL; }
static st2_t *p2_add(p2_t *p, uint32_t id, xq_t *x)
{
    st2_t *s = p->s[p->ns++] = p_new(st2_t, 1);
    s->id = id; s->x = x; s->sw = p->peer_iw; s->rw = p->iw; s->rst_ping = -1;
    sb_init(&s->body);
    return s;
}
static void p2_rst(p2_t *p, st2_t *s)
{
    sim_event("peer: RST_STREAM %u (query %d)", s->id, s->x ? s->x->id : -1);
    sim_fault("h2-rst-stream");
    p2_32(p, F_RST, s->id, (uint32_t[]){ 8, 7, 2, 0 }[rdat(4)]);
    s->rout = true; s->rst_ping = p->np; p2_ping(p);
    if (s->x) s->x->may_fail = true;
}
static void e_headers(p2_t *p, st2_t *s, bool eos);
static void p2_end(p2_t *p, st2_t *s)
{
    xq_t *x = s->x;
    if (p2_server) {
        if (s->body.len != (int)x->blen || memcmp(s->body.data, x->body, x->blen)) VIOL("client:sent-body", "query %d: %d bytes of body arrive, %zu were given", x->id, s->body.len, x->blen);
        x->sdone++;
    } else {
        if (!x->replied) VIOL("server:reply-early", "request %d: a complete reply came before the handler finished it", x->id);
        if (s->body.len != (int)x->rlen || memcmp(s->body.data, x->rbody, x->rlen)) VIOL("server:reply-body", "request %d: reply body of %d bytes, %zu were written", x->id, s->body.len, x->rlen);
        if (x->done++) VIOL("server:reply-twice", "request %d", x->id);
        nrep++;
        sim_state(4ull << 60 | minz(x->rlen >> 12, 31) | (uint64_t)minz(x->blen >> 12, 31) << 8 | x->mode << 16 | (uint64_t)minz(p->ns, 31) << 20 | (uint64_t)s->noclen << 28 | (uint64_t)minz(p->sqt, 7) << 30);
    }
}
static void p2_big_check(xq_t *x, const char *cls)
{
    char ref[600], k[20]; const char *v;
    for (int i = 0; i < x->nbig; i++) {
        x_big_val(x, i, ref, sizeof(ref)); snprintf(k, sizeof(k), "x-big%d", i);
        if (!(v = hget(k)) || strcmp(v, ref)) VIOL(cls, "request %d: header %s is %s", x->id, k, v ? "altered" : "lost");
    }
}
static void p2_headers(p2_t *p)
{
    const char *w = hp_decode(&p->dec, (void *)p->hb.data, p->hb.len, p->tbl), *v;
    if (w) VIOL(p2_server ? "client:hpack" : "server:hpack", "stream %u: undecodable header block (%s)", p->hsid, w);
    st2_t *s = p2_find(p, p->hsid);
    if (p2_server) {
        if (s) VIOL("client:frames", "a second HEADERS on stream %u", p->hsid);
        if (!(p->hsid & 1) || p->hsid < p->next_id) VIOL("client:frames", "a stream is opened with identifier %u after %u", p->hsid, p->next_id);
        p->next_id = p->hsid + 2;
        s = p2_add(p, p->hsid, NULL);
        s->hin = true;
        e_headers(p, s, p->heos);
    } else {
        xq_t *x = s->x; char ref[40];
        if ((v = hget(":status")) && *v == '1') {
            if (p->heos) VIOL("server:interim", "request %d: the interim response %s ends the stream", x->id, v);
            if (!s->expect || strcmp(v, "100")) VIOL("server:interim", "request %d: unexpected interim response %s", x->id, v);
            s->expect = false;
            sim_probe("interim-response");
            return;
        }
        if (s->hin) VIOL("server:frames", "two replies on stream %u", s->id);
        s->hin = true;
        if (!x->started) VIOL("server:mixed-up", "request %d gets a reply its handler did not give", x->id);
        snprintf(ref, sizeof(ref), "%d", x->code);
        if (!(v = hget(":status")) || strcmp(v, ref)) VIOL("server:reply-code", "request %d: status %s instead of %s", x->id, v ?: "none", ref);
        snprintf(ref, sizeof(ref), "%d", x->id);
        if (!(v = hget("x-id")) || strcmp(v, ref)) VIOL("server:mixed-up", "request %d gets the reply of %s", x->id, v ?: "nobody");
        snprintf(ref, sizeof(ref), "%zu", x->rlen);
        if ((v = hget("content-length")) && strcmp(v, ref)) VIOL("server:header", "request %d: content-length %s, the body has %zu bytes", x->id, v, x->rlen);
        if (x->nbig) p2_big_check(x, "server:header");
        for (int i = 0; i < NH; i++) for (char *c = H[i].k; *c; c++) if (*c >= 'A' && *c <= 'Z') VIOL("server:header", "upper case header name '%s'", H[i].k);
    }
    if (p->heos) { s->ein = true; p2_end(p, s); }
}
static void p2_got(p2_t *p, int type, int fl, uint32_t sid, const uint8_t *d, size_t n)
{
    const char *cs = p2_server ? "client" : "server"; char cls[40];
#define BAD(what, ...) ({ snprintf(cls, sizeof(cls), "%s:%s", cs, what); VIOL(cls, __VA_ARGS__); })
    st2_t *s = sid ? p2_find(p, sid) : NULL;
    if (!p->setin && (type != F_SETTINGS || (fl & FL_ACK))) BAD("frames", "the first frame has type %d", type);
    if (p->goaway_err && !(type == F_GOAWAY)) BAD("frames", "a frame of type %d after the abortive GOAWAY", type);
    if (n > 16384) BAD("frame-size", "frame of %zu bytes", n);
    if (p->hb.len && type != F_CONT) BAD("frames", "type %d inside a header block", type);
    if (s && s->rst_ping >= 0 && p->npa > s->rst_ping && (type == F_DATA || type == F_HEADERS || type == F_CONT || type == F_RST))
        BAD("after-reset", "a frame of type %d on stream %u after the peer's reset was processed", type, sid);
    if (s && (s->ein || s->rin) && (type == F_DATA || type == F_HEADERS)) BAD("frames", "a frame of type %d on stream %u after its end", type, sid);
    switch (type) {
      case F_SETTINGS:
        if (sid) BAD("frames", "SETTINGS on stream %u", sid);
        if (fl & FL_ACK) {
            if (n || p->sqh == p->sqt) BAD("settings-ack", "unexpected SETTINGS ack");
            int64_t delta = (int64_t)p->sq[p->sqh].iw - p->iw;
            for (int i = 0; i < p->ns; i++) p->s[i]->rw += delta;
            p->iw = p->sq[p->sqh].iw; p->tbl = p->sq[p->sqh].tbl; p->mcs = p->sq[p->sqh++].mcs;
            if (delta < 0) sim_probe("window-shrunk");
            break;
        }
        p->setin = true;
        for (size_t i = 0; i + 6 <= n; i += 6) { uint32_t v = get_unaligned_be32(d + i + 2); if (get_unaligned_be16(d + i) == S2_IW) { for (int k = 0; k < p->ns; k++) p->s[k]->sw += (int64_t)v - p->peer_iw; p->peer_iw = v; } }
        p2_frame(p, F_SETTINGS, FL_ACK, 0, NULL, 0); p->set_acked = true;
        break;
      case F_WU: {
        uint32_t inc = n == 4 ? get_unaligned_be32(d) & 0x7fffffff : 0;
        if (!inc) BAD("window-update", "WINDOW_UPDATE of 0, or of %zu bytes", n);
        if (!sid) p->csw += inc; else if (s) s->sw += inc; else BAD("frames", "WINDOW_UPDATE on idle stream %u", sid);
        if (!p->err && (p->csw > INT32_MAX || (s && s->sw > INT32_MAX))) BAD("window-update", "the window of %s overflows", sid ? "a stream" : "the connection");
        break; }
      case F_PING:
        if (!(fl & FL_ACK)) { p2_frame(p, F_PING, FL_ACK, 0, d, n); break; }
        if (n != 8 || p->npa >= p->np || memcmp(d, &p->pv[p->npa], 8)) BAD("ping", "unexpected PING ack");
        p->npa++;
        break;
      case F_HEADERS: {
        size_t o = 0, pad = 0;
        if (fl & FL_PAD) { pad = d[0]; o = 1; }
        if (fl & FL_PRI) o += 5;
        if (!s && !p2_server) BAD("frames", "HEADERS on unknown stream %u", sid);
        if (o + pad > n) BAD("frames", "padding");
        sb_reset(&p->hb); sb_add(&p->hb, d + o, n - o - pad);
        p->hsid = sid; p->heos = fl & FL_EOS;
        if (fl & FL_EOH) { p2_headers(p); sb_reset(&p->hb); }
        else if (!p->hb.len) BAD("frames", "empty header fragment");
        break; }
      case F_CONT:
        if (!p->hb.len || sid != p->hsid) BAD("frames", "stray CONTINUATION");
        sb_add(&p->hb, d, n);
        if (fl & FL_EOH) { p2_headers(p); sb_reset(&p->hb); }
        break;
      case F_DATA:
        if (!s || !s->hin) BAD("frames", "DATA on stream %u before its headers", sid);
        p->crw -= n; s->rw -= n;
        if (n && p->crw < 0) BAD("flow-control", "the connection window is exceeded by %jd bytes", (intmax_t)-p->crw);
        if (n && s->rw < 0) BAD("flow-control", "the window of stream %u is exceeded by %jd bytes (%zu sent)", sid, (intmax_t)-s->rw, n);
        if (fl & FL_PAD) { if (!n || d[0] >= n) BAD("frames", "padding"); n -= 1 + d[0]; d++; }
        sb_add(&s->body, d, n);
        if (s->body.len > (int)(p2_server ? s->x->blen : s->x->rlen)) BAD("body", "stream %u carries more than the body", sid);
        if (fl & FL_EOS) { s->ein = true; p2_end(p, s); }
        break;
      case F_RST:
        if (!s) BAD("frames", "RST_STREAM on unknown stream %u", sid);
        if (s->rin) BAD("frames", "two RST_STREAM on stream %u", sid);
        s->rin = true;
        sim_event("library resets stream %u", sid);
        if (s->kind == SK_OK && !s->rout && !(p2_server ? s->eout : s->ein) && !(s->x && s->x->may_fail))
            BAD("spurious-reset", "stream %u is reset (%u) although its messages are fine", sid, get_unaligned_be32(d));
        break;
      case F_GOAWAY: {
        uint32_t last = get_unaligned_be32(d) & 0x7fffffff, code = get_unaligned_be32(d + 4);
        sim_event("library: GOAWAY %u code %u %.*s", last, code, (int)minz(n - 8, 80), d + 8);
        if (code && !p->err) BAD("spurious-goaway", "GOAWAY with error %u (%.*s) although the peer behaves", code, (int)minz(n - 8, 100), d + 8);
        if (!p2_server) for (int i = 0; i < p->ns; i++) if (p->s[i]->id > last && p->s[i]->x->handled) BAD("goaway-last", "request %d was delivered, GOAWAY says it was not", p->s[i]->x->id);
        p->goaway_in = true; p->goaway_err = code != 0; p->goaway_last = last;
        break; }
      default:
        BAD("frames", "frame of type %d", type);
    }
}
static void p2_read(p2_t *p)
{
    char tmp[8192]; ssize_t n;
    size_t want = rnd(4) == 3 ? 1 + rnd(100) : sizeof(tmp);
    while (!p->eof && (n = sim_peer_read(p->fd, tmp, want)) != 0) {
        if (n < 0) { p->eof = true; p->reset_np = NP; break; }
        sb_add(&p->in, tmp, n);
        if (want != sizeof(tmp)) break;
    }
    if (p2_server && !p->preface) {
        if (p->in.len < 24) return;
        if (memcmp(p->in.data, "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", 24)) VIOL("client:preface", "wrong preface");
        sb_skip(&p->in, 24); p->preface = true;
    }
    while (p->in.len >= 9) {
        uint8_t *d = (uint8_t *)p->in.data; size_t l = d[0] << 16 | d[1] << 8 | d[2];
        if ((size_t)p->in.len < 9 + l) break;
        p2_got(p, d[3], d[4], get_unaligned_be32(d + 5) & 0x7fffffff, d + 9, l);
        sb_skip(&p->in, 9 + l);
    }
}
static void p2_send(p2_t *p)
{
    size_t n = p->out.len - p->sent;
    if (!n || p->eof || p->shut) return;
    switch (rnd(5)) { case 0: n = 1; break; case 1: n = minz(n, 1 + rnd(30)); break; case 2: n = minz(n, 1 + rnd(2000)); break; default: break; }
    if (sim_peer_write(p->fd, p->out.data + p->sent, n) < 0) { p->sent = p->out.len; return; }
    p->sent += n;
}
/* commits a connection-level error */
static void p2_break(p2_t *p, int k)
{
    uint8_t z[32] = { 0 }; static uint8_t big[20000]; st2_t *s = NULL;
    for (int i = 0; i < p->ns; i++) if (!p->s[i]->rout && !p->s[i]->rin) s = p->s[i];
    switch (k) {
      case CK_BIG_FRAME: p2_frame(p, rdat(2) ? F_DATA : 0x55, 0, p->ns ? p->s[0]->id : 1, big, 16385 + rdat(3000)); break;
      case CK_DATA_IDLE: p2_frame(p, F_DATA, 0, p2_server ? 99991 : p->next_id + 2 * rdat(5), z, 5); break;
      case CK_EVEN: z[0] = 0x82; p2_frame(p, F_HEADERS, FL_EOH | FL_EOS, 2 + 2 * rdat(4), z, 1); break;
      case CK_PING7: p2_frame(p, F_PING, 0, 0, z, rdat(2) ? 7 : 9); break;
      case CK_SET5: p2_frame(p, F_SETTINGS, 0, 0, z, rdat(2) ? 5 : 7); break;
      case CK_WU0: p2_32(p, F_WU, 0, rdat(2) ? 0 : 0x80000000); break;
      case CK_CONT: p2_frame(p, F_CONT, FL_EOH, p->ns ? p->s[0]->id : 1, z, 0); break;
      case CK_NOT_CONT: if (p2_server && !s) return; z[0] = 0x82; p2_frame(p, F_HEADERS, 0, p2_server ? s->id : p->next_id, z, 1); if (rdat(2)) p2_frame(p, F_PING, 0, 0, z, 8); else p2_frame(p, F_CONT, FL_EOH, p->next_id + 2, z, 0); break;
      case CK_PAD: if (p2_server ? !s || s->eout : 0) return; z[0] = 9; p2_frame(p, F_HEADERS, FL_EOH | FL_PAD, p2_server ? s->id : p->next_id, z, 1 + rdat(8)); break;
      case CK_HPACK: if (p2_server ? !s || s->eout : 0) return; z[0] = 0xff; z[1] = 0xff; z[2] = rdat(2) ? 0x20 : 0xff; z[3] = z[4] = z[5] = z[6] = z[2]; p2_frame(p, F_HEADERS, FL_EOH, p2_server ? s->id : p->next_id, z, 7); break;
      case CK_DATA0: p2_frame(p, rdat(2) ? F_DATA : F_RST, 0, 0, z, 4); break;
      case CK_SET_SID: p2_frame(p, rdat(2) ? F_SETTINGS : F_GOAWAY, 0, 1, z, rdat(2) ? 0 : 12); break;
      case CK_PUSH: if (p2_server) return; z[3] = 2; p2_frame(p, F_PUSH, FL_EOH, 1, z, 5); break;
      case CK_RST_IDLE: p2_32(p, F_RST, p2_server ? 99991 : p->next_id + 2 * rdat(5), 8); break;
      case CK_OLD_ID: if (p2_server || p->next_id < 7) return; { uint32_t id = p->next_id - 4; if (p2_find(p, id)) return; z[0] = 0x82; p2_frame(p, F_HEADERS, FL_EOH, id, z, 1); } break;
      case CK_IW: { SB_1k(b); sb_add_be16(&b, S2_IW); sb_add_be32(&b, 0x80000000u + rdat(9)); p2_frame(p, F_SETTINGS, 0, 0, b.data, b.len); break; }
      case CK_MFS: { SB_1k(b); sb_add_be16(&b, S2_MFS); sb_add_be32(&b, rdat(2) ? 16383 : 1 << 24); p2_frame(p, F_SETTINGS, 0, 0, b.data, b.len); break; }
      case CK_EPUSH: { SB_1k(b); sb_add_be16(&b, S2_PUSH); sb_add_be32(&b, 2); p2_frame(p, F_SETTINGS, 0, 0, b.data, b.len); break; }
      case CK_SELFDEP: put_unaligned_be32(z, 5); p2_frame(p, F_PRIORITY, 0, 5, z, 5); break;
      case CK_WUOVER: p2_32(p, F_WU, 0, 0x7fffffff); p2_32(p, F_WU, 0, 0x7fffffff); break;
      case CK_ACK2: if (!p->set_acked) return; p2_frame(p, F_SETTINGS, FL_ACK, 0, NULL, 0); break;
      case CK_RST3: if (!s) return; p2_frame(p, F_RST, 0, s->id, z, 3); break;
      case CK_WU_IDLE: p2_32(p, F_WU, p2_server ? 99991 : p->next_id + 2 * rdat(5), 100); break;
      case CK_GOAWAY3: p2_frame(p, F_GOAWAY, 0, 0, z, 3 + rdat(5)); break;
      case CK_IWOVER: {
        if (!s || s->ein || (!s->hin && p2_server) || p->sqh < p->sqt || s->rw > 1 << 28) return;
        SB_1k(b); sb_add_be16(&b, S2_IW); sb_add_be32(&b, 0x7fffffff);
        p2_32(p, F_WU, s->id, 0x3fffffff); p2_frame(p, F_SETTINGS, 0, 0, b.data, b.len); p->err_s = s;
        break; }
      case CK_DTS_BIG: { if (p2_server ? !s || s->eout : 0) return; SB_1k(b); hp_int(&b, 0x20, 5, 4097 + rdat(3) * 4000); sb_addc(&b, 0x88); p2_frame(p, F_HEADERS, FL_EOH, p2_server ? s->id : p->next_id, b.data, b.len); break; }
      case CK_DTS_MID: { if (p2_server ? !s || s->eout : 0) return; SB_1k(b); sb_addc(&b, p2_server ? 0x88 : 0x82); hp_int(&b, 0x20, 5, rdat(4000)); p2_frame(p, F_HEADERS, FL_EOH, p2_server ? s->id : p->next_id, b.data, b.len); break; }
      case CK_EVICTED: { if (p2_server ? !s || s->eout : 0) return; SB_1k(b); if (rdat(2)) { p->enc.max = (uint32_t[]){ 0, 100, 1000 }[rdat(3)]; ht_evict(&p->enc, 0); hp_int(&b, 0x20, 5, p->enc.max); } hp_int(&b, 0x80, 7, 62 + p->enc.n); p2_frame(p, F_HEADERS, FL_EOH, p2_server ? s->id : p->next_id, b.data, b.len); break; }
      case CK_AFTER_EOS: if (!s || !s->eout || s->x->may_fail) return; p2_frame(p, F_DATA, 0, s->id, z, 3); break;
    }
    p->err = k;
    sim_event("peer: connection error %s", c2_name[k]); sim_fault("h2-malformed");
    for (int i = 0; i < NX; i++) if (!X[i]->done) X[i]->may_fail = true;
}
/* }}} */
/* {{{ D: scripted client */
static bool d_bad_used, d_stream_bad;
static void d_open(p2_t *p)
{
    static const http_method_t ms[] = { HTTP_METHOD_GET, HTTP_METHOD_POST, HTTP_METHOD_PUT, HTTP_METHOD_DELETE, HTTP_METHOD_PATCH };
    if (NX >= countof(X) || p->ns >= countof(p->s) || p->err || p->eof || p->shut || p->goaway_in || p->goaway_out) return;
    xq_t *x = X[NX] = p_new(xq_t, 1);
    char v[640];
    sb_init(&x->got); sb_init(&x->sgot);
    x->id = NX++;
    x->m = ms[rdat(5)];
    if (x->m != HTTP_METHOD_GET) x->blen = x_len();
    x->rlen = x_len();
    x->body = p_new_raw(uint8_t, x->blen + 1); fill(x->body, x->blen, x->id, rdat(2));
    x->rbody = p_new_raw(uint8_t, x->rlen + 1); fill(x->rbody, x->rlen, x->id + 9000, rdat(2));
    x->rfmt = rdat(2) * 2; x->mode = rdat(3);
    x->code = rdat(2) ? HTTP_CODE_OK : HTTP_CODE_CREATED;
    x->nbig = x_nbig();
    if (rdat(8) == 7) p->next_id += 2 * rdat(4);
    st2_t *s = p2_add(p, p->next_id, x);
    p->next_id += 2;
    if (d_stream_bad && !d_bad_used && rdat(6) == 5) {
        s->kind = 1 + rdat(SK_NB - 1);
        if ((s->kind == SK_OVER || s->kind == SK_UNDER) && x->blen < 2) s->kind = SK_NO_PATH;
        d_bad_used = true; x->may_fail = true;
        sim_fault("h2-malformed-stream");
    }
    if (s->kind == SK_CLEN_EOS) { x->blen = 0; if (x->m == HTTP_METHOD_GET) x->m = HTTP_METHOD_POST; }
    s->noclen = s->kind != SK_CLEN_EOS && x->m != HTTP_METHOD_GET && x->m != HTTP_METHOD_DELETE && s->kind != SK_OVER && s->kind != SK_UNDER && rdat(3) == 2;
    SB_8k(b);
    p2_tblupd(p, &b);
    hp_hdr(&p->enc, &b, ":method", http_method_str[x->m].s);
    hp_hdr(&p->enc, &b, ":scheme", "http");
    snprintf(v, sizeof(v), "/r/%d", x->id);
    if (s->kind != SK_NO_PATH) hp_hdr(&p->enc, &b, ":path", v);
    int host = rdat(8);                             /* :authority, or Host, or both */
    if (host != 6) hp_hdr(&p->enc, &b, ":authority", "sim.example");
    if (s->kind == SK_EXTRA_PSEUDO) hp_hdr(&p->enc, &b, ":status", "200");
    snprintf(v, sizeof(v), "v %d", x->id);
    for (int k = rdat(12) ? rdat(4) : 8 + rdat(20); k > 0; k--) { char k2[20], v2[400]; size_t l = rdat(3) ? rdat(30) : rdat(300); snprintf(k2, sizeof(k2), "x-h%u", rdat(20)); for (size_t i = 0; i < l; i++) v2[i] = 33 + rdat(90); v2[l] = 0; hp_hdr(&p->enc, &b, k2, v2); }
    p2_bad_hdr(p, s, &b);
    if (x->m != HTTP_METHOD_GET && rdat(6) == 5) { hp_hdr(&p->enc, &b, "expect", "100-continue"); s->expect = true; }
    if (host >= 6) hp_hdr(&p->enc, &b, "host", "sim.example");
    hp_hdr(&p->enc, &b, "x-req", v);
    if (!s->noclen && (x->m != HTTP_METHOD_GET)) { snprintf(v, sizeof(v), "%zu", x->blen - (s->kind == SK_OVER) + (s->kind == SK_UNDER) + (s->kind == SK_CLEN_EOS ? 1 + rdat(9) : 0)); hp_hdr(&p->enc, &b, "content-length", v); }
    bool eos = !x->blen && (x->m == HTTP_METHOD_GET || s->kind == SK_CLEN_EOS || rdat(2));
    p2_block(p, s->id, &b, eos);
    s->hout = true; s->eout = eos;
    sim_event("peer: request %d on stream %u: %s, %zu bytes%s for %zu (%s)", x->id, s->id, http_method_str[x->m].s, x->blen, s->noclen ? " (no length)" : "", x->rlen, s2_name[s->kind]);
    if (s->kind == SK_WU0) { p2_32(p, F_WU, s->id, 0); }
    if (s->kind == SK_WUOVER) { p2_32(p, F_WU, s->id, 0x7fffffff); p2_32(p, F_WU, s->id, 0x7fffffff); }
}
static void d_more(p2_t *p, bool all)
{
    int k = 0, pick;
    for (int i = 0; i < p->ns; i++) k += !p->s[i]->eout && !p->s[i]->rout && !p->s[i]->rin;
    if (!k) return;
    pick = rnd(k);
    for (int i = 0; i < p->ns; i++) {
        st2_t *s = p->s[i];
        if (s->eout || s->rout || s->rin) continue;
        if (!all && pick-- != 0) continue;
        p2_data_out(p, s, s->x->body, s->x->blen, all);
    }
}
static bool d_settled(p2_t *p)
{
    if (p->eof) return true;
    if (p->err) return false;
    if (p->sqh < p->sqt || p->npa < p->np) return false;
    for (int i = 0; i < p->ns; i++) { st2_t *s = p->s[i]; if (!s->rout && !s->rin && (!s->ein || !s->eout)) return false; }
    return true;
}
static void d_connect(void)
{
    int fd = sim_peer_connect(8080);
    if (fd < 0) VIOL("server:connect", "cannot connect");
    p2_t *p = p2_new(fd);
    sb_adds(&p->out, "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n");
    p2_settings(p, true);
}
static void run_d(void)
{
    x_h2 = true; x_faulty = true; x_big = true;
    a_setup();
    scfg->max_queries = 1024;
    scfg->mode = HTTP_MODE_USE_HTTP2_ONLY;
    httpd_trigger_t *cb = httpd_trigger_new();
    cb->cb = xs_cb; cb->on_query_wipe = xs_wipe;
    static const http_method_t ms[] = { HTTP_METHOD_GET, HTTP_METHOD_POST, HTTP_METHOD_PUT, HTTP_METHOD_DELETE, HTTP_METHOD_PATCH };
    for (int i = 0; i < 5; i++) httpd_trigger_register_flags(&scfg->roots[ms[i]], "r", cb, true);
    el_loop_timeout(0);
    int nb0 = sim_nb_open();
    sockunion_t su;
    p_clear(&su, 1);
    su.sin.sin_family = AF_INET; su.sin.sin_port = htons(8080); su.sin.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    x_lel = httpd_listen(&su, scfg);
    d_stream_bad = sim_choose(ST_CFG, 3) == 2;
    bool rsts = sim_choose(ST_CFG, 3) == 2, cbad = sim_choose(ST_CFG, 3) == 2, nres = sim_choose(ST_CFG, 5) == 4;
    int nc = 1 + sim_choose(ST_CFG, 2);
    for (int i = 0; i < nc; i++) d_connect();
    int steps = sim_range(ST_CFG, 10, sim_tier ? 500 : 250);
    for (int st = 0; st < steps && !sim_exhausted(ST_OPS); st++) {
        p2_t *p = P[rnd(NP)];
        bool live = !p->err && !p->eof && !p->shut;
        switch (rnd(16)) {
          case 0: case 1: d_open(p); break;
          case 2: case 3: if (live) d_more(p, rnd(2)); break;
          case 4: case 5: p2_send(p); break;
          case 6: p2_read(p); break;
          case 7: x_answer(false); break;
          case 8: case 9: case 10: case 11: el_loop_timeout(rnd(3) ? 0 : 5); break;
          case 12: if (live) p2_wu(p, false); break;
          case 13: if (live && one_in(3)) p2_settings(p, false); else if (live) p2_misc(p); break;
          case 14: if (live && rsts && one_in(4) && p->ns) { st2_t *s = p->s[rnd(p->ns)]; if (!s->rout && !s->rin && !(s->ein && s->eout)) p2_rst(p, s); } break;
          default:
            if (live && cbad && one_in(25)) p2_break(p, 1 + rnd(CK_NB - 1));
            else if (nres && one_in(25) && live) { sim_event("reset"); sim_fault("net-reset"); sim_net_reset_conn(sim_net_conn_of_fd(p->fd)); p->eof = p->may_reset = true; }
            else if (nres && one_in(25) && live && p->sent == (size_t)p->out.len) { sim_event("peer closes"); sim_fault("peer-close"); sim_peer_shutdown(p->fd); p->shut = p->may_reset = true; }
        }
    }
    memset(&sim_io, 0, sizeof(sim_io));
    sim_io.sndbuf = 1 << 18;
    for (int it = 0; it < 4000; it++) {
        bool all = true;
        for (int i = 0; i < NP; i++) { p2_t *p = P[i]; p2_open_windows(p); d_more(p, true); p2_send(p); p2_read(p); all = all && (p->may_reset || d_settled(p)); }
        x_answer(true);
        el_loop_timeout(1);
        if (all) break;
    }
    for (int i = 0; i < NP; i++) {
        p2_t *p = P[i];
        if (p->may_reset) continue;
        if (p->err) {
            if (p->err_s && p->err_s->ein && !p->goaway_err) continue;
            if (!p->eof && !p->goaway_err) VIOL("server:not-rejected", "connection error '%s' has no consequence", c2_name[p->err]);
            if (!p->goaway_err && !sim_peer_was_reset(p->fd)) VIOL("server:no-goaway", "connection error '%s': closed without GOAWAY", c2_name[p->err]);
            continue;
        }
        if (p->goaway_in || p->eof) VIOL("server:closed", "the connection is closed for no reason");
        if (p->sqh < p->sqt) VIOL("server:settings-ack", "SETTINGS are not acknowledged");
        if (p->npa < p->np) VIOL("server:ping", "a PING is not answered");
        for (int k = 0; k < p->ns; k++) {
            st2_t *s = p->s[k];
            if (s->rout) continue;
            if (s->kind != SK_OK) { if (!s->rin && !s->ein) { VIOL("server:not-rejected", "malformed request %d (%s) has no consequence", s->x->id, s2_name[s->kind]); } continue; }
            if (!s->ein) VIOL("server:no-reply", "request %d never gets its reply (%s, stream window %jd, connection %jd)", s->x->id, !s->x->handled ? "not delivered" : !s->x->sdone ? "not fully received" : !s->x->replied ? "not answered" : s->hin ? "answered, headers got" : "answered", (intmax_t)s->rw, (intmax_t)p->crw);
            if (s->x->handled != 1 || s->x->sdone != 1) VIOL("server:missed", "request %d", s->x->id);
        }
    }
    /* a malformed request never reaches the end of its handler */
    for (int i = 0; i < NP; i++) for (int k = 0; k < P[i]->ns; k++) { st2_t *s = P[i]->s[k]; if ((s->kind == SK_UNDER || s->kind == SK_OVER || s->kind == SK_NO_PATH || s->kind == SK_EXTRA_PSEUDO || s->kind >= SK_CRLF) && s->x->sdone) VIOL("server:accepted", "malformed request %d (%s) is completed", s->x->id, s2_name[s->kind]); }
    for (int i = 0; i < NP; i++) if (P[i]->fd >= 0) sim_peer_close(P[i]->fd);
    httpd_unlisten(&x_lel);
    for (int k = 0; k < 3; k++) { sim_advance_to(sim_now_ns + 61 * SIM_S); for (int it = 0; it < 50; it++) { x_answer(true); el_loop_timeout(1); } }
    for (int i = 0; i < NX; i++) if (X[i]->handled && !X[i]->wiped) VIOL("server:leak-query", "query %d is never destroyed", i);
    if (scfg->nb_conns) VIOL("server:leak-conn", "%u connection(s) survive the end", scfg->nb_conns);
    if (sim_nb_open() > nb0) VIOL("leak-fd", "%d descriptor(s) are left open", sim_nb_open() - nb0);
    httpd_cfg_delete(&scfg);
}
/* }}} */
/* {{{ E: scripted server */
static int e_lfd; static bool e_bad_used, e_sbad;
/* a connection is going away and the client may not know it yet */
static bool e_fragile(void)
{
    for (int i = 0; i < NP; i++) {
        p2_t *p = P[i]; bool ga = p->goaway_out || p->goaway_in || p->err;
        if ((p->may_reset || ga || p->shut) && (!p->eof || NP <= p->reset_np)) return true;
    }
    return false;
}
static void e_headers(p2_t *p, st2_t *s, bool eos)
{
    const char *v = hget(":path"); char ref[40]; int id = -1;
    if (!v || sscanf(v, "/r/%d", &id) != 1 || id < 0 || id >= NX) VIOL("client:header", "path '%s'", v ?: "");
    xq_t *x = s->x = X[id];
    if (x->handled++) VIOL("client:sent-twice", "query %d is sent twice", id);
    if (!(v = hget(":method")) || strcmp(v, http_method_str[x->m].s)) VIOL("client:header", "query %d: method '%s'", id, v ?: "");
    if (!(v = hget(":authority")) || strcmp(v, "sim.example")) VIOL("client:header", "query %d: authority '%s'", id, v ?: "");
    if (!(v = hget(":scheme")) || strcmp(v, "http")) VIOL("client:header", "query %d: scheme '%s'", id, v ?: "");
    snprintf(ref, sizeof(ref), "v %d", id);
    if (!(v = hget("x-req")) || strcmp(v, ref)) VIOL("client:header", "query %d: x-req '%s'", id, v ?: "");
    if (x->nbig) p2_big_check(x, "client:header");
    snprintf(ref, sizeof(ref), "%zu", x->blen);
    if ((v = hget("content-length")) && strcmp(v, ref)) VIOL("client:header", "query %d: content-length %s", id, v);
    if (p->my_goaway && p->npa >= (int)(p->my_goaway >> 16)) VIOL("client:after-goaway", "query %d opens a stream on a connection whose GOAWAY was processed", id);
    if (p->goaway_out) { x->may_fail = true; if (s->id > p->my_last) { s->rout = true; s->rst_ping = -1; } }
    uint32_t open = 0;
    for (int i = 0; i < p->ns; i++) { st2_t *t = p->s[i]; open += t != s && !t->rout && !t->rin && !(t->ein && t->eout); }
    if (open + 1 > p->mcs) VIOL("client:concurrency", "%u streams are open, the server allows %u", open + 1, p->mcs);
    sim_state(5ull << 60 | minz(open, 31) | (uint64_t)minz(p->mcs, 15) << 8 | (uint64_t)minz(p->ns, 63) << 16 | (uint64_t)NP << 24);
    s->noclen = rdat(3) == 2;
    if (e_sbad && !e_bad_used && rdat(6) == 5) { s->kind = rdat(2) ? SK_UNDER : SK_OVER; if (x->rlen < 2) s->kind = SK_NO_PATH; if (rdat(4) == 0) s->kind = SK_EXTRA_PSEUDO; if (rdat(4) == 0) s->kind = rdat(2) ? SK_WU0 : SK_WUOVER; if (rdat(3) == 0) s->kind = SK_CRLF + rdat(SK_NB - SK_CRLF); if (s->kind == SK_CLEN_EOS) x->rlen = 0; e_bad_used = true; x->may_fail = true; s->noclen = false; sim_fault("h2-malformed-stream"); }
    sim_event("peer: got query %d on stream %u (%s)", id, s->id, s2_name[s->kind]);
}
/* one step of the reply to a request that has fully arrived (or not, sometimes) */
static void e_step(p2_t *p, st2_t *s, bool all)
{
    xq_t *x = s->x; char v[400];
    if (s->eout || s->rout || s->rin || p->err || p->eof || p->shut) return;
    if (!s->ein && !(x->errs && !all)) return;
    if (!s->hout) {
        SB_8k(b);
        if (rdat(8) == 7 && !s->kind) {
            p2_tblupd(p, &b);
            hp_hdr(&p->enc, &b, ":status", rdat(2) ? "103" : "100"); if (rdat(2)) hp_hdr(&p->enc, &b, "link", "</x>");
            p2_block(p, s->id, &b, false); sim_probe("interim-response");
            return;
        }
        if ((s->kind == SK_WU0 || s->kind == SK_WUOVER)) {
            if (!s->ein) { p2_32(p, F_WU, s->id, s->kind == SK_WU0 ? 0 : 0x7fffffff); if (s->kind == SK_WUOVER) p2_32(p, F_WU, s->id, 0x7fffffff); s->bad_sent = true; s->rout = true; return; }
            s->kind = SK_OK;
        }
        p2_tblupd(p, &b);
        if (s->kind != SK_NO_PATH) { snprintf(v, sizeof(v), "%d", x->code); hp_hdr(&p->enc, &b, ":status", v); }
        if (s->kind == SK_EXTRA_PSEUDO) hp_hdr(&p->enc, &b, ":path", "/");
        for (int k = rdat(12) ? rdat(4) : 8 + rdat(20); k > 0; k--) { char k2[20]; size_t l = rdat(3) ? rdat(30) : 1 + rdat(300); snprintf(k2, sizeof(k2), "x-h%u", rdat(20)); for (size_t i = 0; i < l; i++) v[i] = 33 + rdat(90); v[l] = 0; hp_hdr(&p->enc, &b, k2, v); }
        p2_bad_hdr(p, s, &b);
        snprintf(v, sizeof(v), "%d", x->id); hp_hdr(&p->enc, &b, "x-id", v);
        if (!s->noclen) { snprintf(v, sizeof(v), "%zu", x->rlen - (s->kind == SK_OVER) + (s->kind == SK_UNDER) + (s->kind == SK_CLEN_EOS ? 1 + rdat(9) : 0)); hp_hdr(&p->enc, &b, "content-length", v); }
        bool eos = !x->rlen && (s->kind == SK_CLEN_EOS || rdat(2));
        p2_block(p, s->id, &b, eos);
        s->hout = x->started = true; s->eout = eos;
    } else p2_data_out(p, s, x->rbody, x->rlen, all);
    if (s->eout && s->kind == SK_OK) x->replied = true;
}
static void e_steps(p2_t *p, bool all)
{
    if (!p->ns) return;
    if (all) { for (int i = 0; i < p->ns; i++) e_step(p, p->s[i], true); return; }
    for (int k = 0; k < 6; k++) e_step(p, p->s[rnd(p->ns)], false);
}
static void e_accept(void)
{
    int fd = acceptx(e_lfd, O_NONBLOCK);
    if (fd < 0 || NP >= countof(P)) { if (fd >= 0) close(fd); return; }
    sim_event("peer: accepts connection %d", NP);
    p2_t *p = p2_new(fd);
    p2_settings(p, true);
}
static void e_kill(p2_t *p) { for (int k = 0; k < NX; k++) if (!X[k]->done) X[k]->may_fail = true; p->may_reset = true; p->reset_np = NP; }
static void e_goaway(p2_t *p)
{
    SB_1k(b); uint32_t last = p->ns && rdat(4) ? p->s[rdat(p->ns)]->id : rdat(2) && p->ns ? p->s[p->ns - 1]->id : 0;
    bool err = rdat(3) == 2;
    if (p->goaway_out) return;
    if (rdat(3) == 2) { sb_add_be32(&b, 0x7fffffff); sb_add_be32(&b, 0); p2_frame(p, F_GOAWAY, 0, 0, b.data, b.len); return; }   /* a warning only */
    sim_event("peer: GOAWAY %u%s", last, err ? " with an error" : ""); sim_fault("h2-goaway");
    sb_add_be32(&b, last | (rdat(3) == 2 ? 1u << 31 : 0)); sb_add_be32(&b, err ? 2 : 0); if (rdat(2)) sb_adds(&b, "bye");
    p2_frame(p, F_GOAWAY, 0, 0, b.data, b.len);
    p->goaway_out = true; p->my_last = last;
    for (int i = 0; i < NX; i++) if (!X[i]->done && (err || !X[i]->handled)) X[i]->may_fail = true;
    for (int i = 0; i < p->ns; i++) { st2_t *s = p->s[i]; if (s->id > last || err) { s->x->may_fail = true; s->rout = true; s->rst_ping = p->np; } }
    if (!err) { p->my_goaway = (uint32_t)(p->np + 1) << 16; p2_ping(p); }
    else { p->err = CK_NB; }
}
static bool e_open(void) { for (int i = 0; i < NX; i++) if (!X[i]->done) return true; return false; }
static void e_settle(int iters)
{
    for (int it = 0; it < iters && e_open(); it++) {
        e_accept();
        for (int i = 0; i < NP; i++) { p2_t *p = P[i]; p2_open_windows(p); e_steps(p, true); p2_send(p); p2_read(p); if (p->eof && p->fd >= 0) { sim_peer_close(p->fd); p->fd = -1; } }
        for (int i = 0; i < NX; i++) x_more_body(X[i], true);
        el_loop_timeout(1);
    }
}
static void e_conn_err(const struct httpc_t *w, int errnum) { if (!e_fragile()) xp_err(w, errnum); }
static void run_e(void)
{
    x_h2 = true; p2_server = true; x_big = true;
    sockunion_t su;
    p_clear(&su, 1);
    su.sin.sin_family = AF_INET; su.sin.sin_port = htons(8080); su.sin.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    el_loop_timeout(0);
    int nb0 = sim_nb_open();
    e_lfd = listenx(-1, &su, 1, SOCK_STREAM, IPPROTO_TCP, O_NONBLOCK);
    b_cfg();
    ccfg->httpc_cls = obj_class(httpc);
    ccfg->http_mode = HTTP_MODE_USE_HTTP2_ONLY;
    xp = httpc_pool_new();
    xp->cfg = httpc_cfg_retain(ccfg);
    xp->max_len = 1 + sim_choose(ST_CFG, 6);
    xp->on_ready = xp_ready; xp->on_connect_error = e_conn_err;
    xp->su = su;
    e_sbad = sim_choose(ST_CFG, 3) == 2;
    bool rsts = sim_choose(ST_CFG, 3) == 2, goaways = sim_choose(ST_CFG, 3) == 2, cbad = sim_choose(ST_CFG, 4) == 3, nres = sim_choose(ST_CFG, 5) == 4, early = sim_choose(ST_CFG, 4) == 3;
    int steps = sim_range(ST_CFG, 10, sim_tier ? 500 : 250);
    for (int st = 0; st < steps && !sim_exhausted(ST_OPS); st++) {
        p2_t *p = NP ? P[NP > 1 && rnd(4) == 3 ? rnd(NP) : (uint32_t)NP - 1] : NULL;
        bool live = p && !p->err && !p->eof && !p->shut;
        switch (rnd(16)) {
          case 0: case 1: if (x_query(false)) { if (early) X[NX - 1]->errs = rdat(2); if (e_fragile()) X[NX - 1]->may_fail = true; } break;
          case 2: case 3: if (live) e_steps(p, rnd(2)); break;
          case 4: case 5: if (p) p2_send(p); break;
          case 6: e_accept(); for (int i = 0; i < NP; i++) if (P[i]->fd >= 0) p2_read(P[i]); break;
          case 7: for (int i = 0, k = rnd(2); i < NX; i++) if (X[i]->sending && !X[i]->done && k-- == 0) x_more_body(X[i], rnd(2)); break;
          case 8: case 9: case 10: case 11: el_loop_timeout(rnd(3) ? 0 : 5); break;
          case 12: if (live) p2_wu(p, false); break;
          case 13: if (live && one_in(3)) p2_settings(p, false); else if (live) p2_misc(p); break;
          case 14: if (live && rsts && one_in(4) && p->ns) { st2_t *s = p->s[rnd(p->ns)]; if (!s->rout && !s->rin && !(s->ein && s->eout)) p2_rst(p, s); } break;
          default:
            if (live && goaways && one_in(15)) e_goaway(p);
            else if (live && cbad && one_in(25)) p2_break(p, 1 + rnd(CK_NB - 1));
            else if (nres && one_in(25) && live) { sim_event("reset"); sim_fault("net-reset"); e_kill(p); sim_net_reset_conn(sim_net_conn_of_fd(p->fd)); p->eof = true; }
            else if (nres && one_in(25) && live) { sim_event("peer closes"); sim_fault("peer-close"); e_kill(p); sim_peer_shutdown(p->fd); p->shut = true; }
        }
    }
    memset(&sim_io, 0, sizeof(sim_io));
    sim_io.sndbuf = 1 << 18;
    e_settle(4000);
    for (int k = 0; k < 3 && e_open(); k++) {
        for (int i = 0; i < NX; i++) if (!X[i]->done && !X[i]->may_fail) VIOL("client:no-completion", "query %d never completes (%s)", i, !X[i]->handled ? "not sent" : !X[i]->sdone ? "not fully sent" : X[i]->replied ? "answered" : "not answered");
        sim_advance_to(sim_now_ns + 61 * SIM_S); e_settle(200);
    }
    for (int i = 0; i < NX; i++) if (X[i]->done != 1) VIOL("client:no-completion", "query %d never completes, even with an error (%s)", i, !X[i]->handled ? "not sent" : !X[i]->sdone ? "not fully sent" : X[i]->replied ? "answered" : "not answered");
    for (int i = 0; i < NP; i++) if (P[i]->err && P[i]->err != CK_NB && !P[i]->eof && !P[i]->goaway_err && !P[i]->may_reset && !P[i]->goaway_out) {
        for (int it = 0; it < 3000 && !P[i]->eof && !P[i]->goaway_err; it++) { p2_send(P[i]); el_loop_timeout(1); p2_read(P[i]); }
        if (P[i]->err_s && P[i]->err_s->ein) continue;
        if (!P[i]->eof && !P[i]->goaway_err && P[i]->sent == (size_t)P[i]->out.len) VIOL("client:not-rejected", "connection error '%s' has no consequence", c2_name[P[i]->err]);
    }
    for (int it = 0; it < 30; it++) { for (int i = 0; i < NP; i++) if (P[i]->fd >= 0) { p2_send(P[i]); p2_read(P[i]); } el_loop_timeout(1); }
    for (int i = 0; i < NP; i++) {
        p2_t *p = P[i];
        if (p->err || p->eof || p->shut || p->may_reset || p->goaway_out || p->goaway_in || p->sent != (size_t)p->out.len) continue;
        for (int k = 0; k < p->ns; k++) { st2_t *s = p->s[k]; if (!s->rin && !s->rout && !(s->ein && s->eout)) VIOL("client:stream-left-open", "query %d is completed, its stream %u is neither ended (%d/%d) nor reset", s->x->id, s->id, s->ein, s->eout); }
    }
    x_faulty = true;
    for (int i = 0; i < NP; i++) e_kill(P[i]);
    httpc_pool_delete(&xp, true);
    httpc_cfg_delete(&ccfg);
    for (int k = 0; k < 3; k++) { for (int i = 0; i < NP; i++) if (P[i]->fd >= 0) { p2_read(P[i]); if (P[i]->eof) { sim_peer_close(P[i]->fd); P[i]->fd = -1; } } for (int it = 0; it < 50; it++) el_loop_timeout(1); sim_advance_to(sim_now_ns + 61 * SIM_S); }
    for (int i = 0; i < NP; i++) if (P[i]->fd >= 0) { sim_peer_close(P[i]->fd); P[i]->fd = -1; }
    close(e_lfd);
    for (int it = 0; it < 20; it++) el_loop_timeout(1);
    if (sim_nb_open() > nb0) VIOL("leak-fd", "%d descriptor(s) are left open", sim_nb_open() - nb0);
    for (int i = 0; i < NX; i++) httpc_query_wipe(&X[i]->q);
}
/* }}} */
/* }}} */
/* {{{ F: the two ends of an HPACK stream */
#include <lib-common/http.h>
#include <src/net/hpack.h>
typedef struct { char k[64], v[600]; } fh_t;
static fh_t f_pool[40]; static int f_np, f_nv[40]; static char f_vals[40][6][600];
/* decodes with the library; -1: refused, else the number of headers in G */
static fh_t G[70];
static int f_lib_decode(hpack_dec_dtbl_t *dec, const void *d, size_t n)
{
    uint8_t *cp = malloc(n + !n); int nh = 0, rc;
    memcpy(cp, d, n);
    pstream_t in = ps_init(cp, n);
    while ((rc = hpack_decoder_read_dts_update(dec, &in)) != 0) if (rc < 0) { nh = -1; goto end; }
    while (!ps_done(&in)) {
        hpack_xhdr_t xh; int kl, l = hpack_decoder_extract_hdr(dec, &in, &xh);
        if (l < 0) { nh = -1; break; }
        byte *out = malloc(l + 4);
        int w = hpack_decoder_write_hdr(dec, &xh, out, &kl);
        if (w > l + 4) VIOL("hpack:buffer", "a header of %d bytes is written, %d were announced", w, l + 4);
        if (w < 0 || nh >= countof(G)) { free(out); nh = -1; break; }
        if (kl < 0 || w < kl + 4 || out[kl] != ':' || out[kl + 1] != ' ' || out[w - 2] != '\r' || out[w - 1] != '\n') VIOL("hpack:line", "the decoded line is not 'key: value'");
        snprintf(G[nh].k, sizeof(G[0].k), "%.*s", kl, out); snprintf(G[nh].v, sizeof(G[0].v), "%.*s", w - kl - 4, out + kl + 2);
        nh++; free(out);
    }
  end:
    free(cp);
    return nh;
}
static void run_f(void)
{
    uint32_t max = 4096, low, want = 4096; bool resized = false;     /* what the decoder accepts; what the encoder knows */
    uint32_t pendq[20]; int npend = 0;
    htab_t renc, rdec; hpack_enc_dtbl_t enc; hpack_dec_dtbl_t dec;
    static const uint32_t sizes[] = { 0, 40, 64, 100, 200, 500, 1000, 4096, 4096, 8192 };
    p_clear(&renc, 1); p_clear(&rdec, 1); renc.max = rdec.max = 4096;
    hpack_enc_dtbl_init(&enc); hpack_enc_dtbl_init_settings(&enc, 4096);
    hpack_dec_dtbl_init(&dec); hpack_dec_dtbl_init_settings(&dec, 4096);
    low = max;
    f_np = 4 + sim_choose(ST_CFG, 30);
    for (int i = 0; i < f_np; i++) {
        int st = rdat(3);
        if (st == 2) snprintf(f_pool[i].k, 64, "%s", ref_stbl[1 + rdat(61)].k); else { int l = 2 + rdat(rdat(4) ? 10 : 50); for (int k = 0; k < l; k++) f_pool[i].k[k] = "abcdefghijklmnopqrstuvwxyz-0123456789_"[rdat(38)]; f_pool[i].k[l] = 0; f_pool[i].k[0] = 'x'; }
        for (int j = 0; j < i; j++) if (!strcmp(f_pool[j].k, f_pool[i].k)) { snprintf(f_pool[i].k, 64, "u%d", i); break; }
        f_nv[i] = 1 + rdat(5);
        for (int j = 0; j < f_nv[i]; j++) { int l = rdat(3) ? rdat(20) : rdat(300); for (int k = 0; k < l; k++) f_vals[i][j][k] = rdat(5) ? 32 + rdat(95) : 128 + rdat(127); f_vals[i][j][l] = 0; for (int m = 0; m < j; m++) if (!strcmp(f_vals[i][m], f_vals[i][j])) { snprintf(f_vals[i][j], 20, "dup %d", j); break; } if (rdat(8) == 0) for (int m = 1; m < 62; m++) if (!strcmp(ref_stbl[m].k, f_pool[i].k) && *ref_stbl[m].v && j == 0) snprintf(f_vals[i][0], 600, "%s", ref_stbl[m].v); }
    }
    int steps = sim_range(ST_CFG, 5, sim_tier ? 400 : 150);
    bool dirty = sim_choose(ST_CFG, 3) == 2;
    for (int st = 0; st < steps && !sim_exhausted(ST_OPS); st++) {
        sim_count_op();
        switch (rnd(8)) {
          case 0:                                   /* the decoder announces another size */
            if (npend < countof(pendq)) { pendq[npend] = sizes[rnd(10)]; sim_event("decoder announces %u", pendq[npend]); npend++; sim_fault("hpack-resize"); }
            break;
          case 1: case 2: if (npend) {              /* it reaches the encoder, and is acknowledged */
            want = pendq[0]; npend--; memmove(pendq, pendq + 1, npend * sizeof(*pendq));
            sim_event("encoder learns %u", want);
            enc.tbl_size_max = want;
            if (enc.tbl_size_limit > want || one_in(2)) { byte o[HPACK_BUFLEN_INT]; hpack_encoder_write_dts_update(&enc, want, o); resized = true; low = MIN(low, want); }
            max = want;
            break; }
          /* FALLTHROUGH */
          default: {
            bool lib = rnd(3) != 0; SB_8k(b); int n = 1 + rdat(rdat(6) ? 6 : 30), picked[40][2];
            if (lib) {
                if (resized) {
                    byte o[HPACK_BUFLEN_INT]; int l;
                    if (low < enc.tbl_size_limit) { uint32_t fin = enc.tbl_size_limit; l = hpack_encoder_write_dts_update(&enc, low, o); sb_add(&b, o, l); l = hpack_encoder_write_dts_update(&enc, fin, o); sb_add(&b, o, l); }
                    else { l = hpack_encoder_write_dts_update(&enc, enc.tbl_size_limit, o); sb_add(&b, o, l); }
                    resized = false; low = UINT32_MAX;
                } else if (one_in(8)) {
                    byte o[HPACK_BUFLEN_INT]; uint32_t z = rdat(enc.tbl_size_max + 1);
                    int l = hpack_encoder_write_dts_update(&enc, z, o); sb_add(&b, o, l);
                }
            }
            for (int i = 0; i < n; i++) {
                int k = picked[i][0] = rdat(f_np), j = picked[i][1] = rdat(f_nv[k]);
                if (lib) {
                    static const unsigned fl[] = { 0, HPACK_FLG_LWR_KEY, HPACK_FLG_ZIP_STR, HPACK_FLG_NOZIP_STR, HPACK_FLG_SKIP_STBL, HPACK_FLG_SKIP_DTBL, HPACK_FLG_SKIP_VAL, HPACK_FLG_NOADD_DTBL, HPACK_FLG_NVRADD_DTBL, HPACK_FLG_ADD_DTBL, HPACK_FLG_SKIP_TBLS, HPACK_FLG_ADD_DTBL | HPACK_FLG_SKIP_VAL };
                    lstr_t key = LSTR(f_pool[k].k), val = LSTR(f_vals[k][j]); unsigned f = fl[rdat(2) ? 0 : rdat(countof(fl))];
                    bool ids = rdat(3); int bl = hpack_buflen_to_write_hdr(key, val, f); byte *o = malloc(bl);
                    int l = hpack_encoder_write_hdr(&enc, key, val, ids ? k + 1 : 0, ids && rdat(5) ? j + 1 : 0, f, o);
                    if (l <= 0 || l > bl) VIOL("hpack:buffer", "%d bytes written in a buffer of %d", l, bl);
                    sb_add(&b, o, l); free(o);
                }
            }
            if (lib) {                              /* library -> reference */
                const char *w = hp_decode(&rdec, (void *)b.data, b.len, max);
                if (w) VIOL("hpack:encoder", "the encoder writes an undecodable block (%s)", w);
                if (NH != n) VIOL("hpack:encoder", "%d headers, %d were encoded", NH, n);
                for (int i = 0; i < n; i++) if (strcasecmp(H[i].k, f_pool[picked[i][0]].k) || strcmp(H[i].v, f_vals[picked[i][0]][picked[i][1]])) VIOL("hpack:encoder", "header %d: '%s: %.40s' decodes as '%s: %.40s'", i, f_pool[picked[i][0]].k, f_vals[picked[i][0]][picked[i][1]], H[i].k, H[i].v);
                if (enc.tbl_size > enc.tbl_size_limit) VIOL("hpack:encoder", "the table holds %u bytes, its limit is %u", enc.tbl_size, enc.tbl_size_limit);
            } else {                                /* reference -> library */
                if (one_in(6)) { renc.max = rdat(2) ? 4096 : rdat(4097); ht_evict(&renc, 0); hp_int(&b, 0x20, 5, renc.max); }
                for (int i = 0; i < n; i++) hp_hdr(&renc, &b, f_pool[picked[i][0]].k, f_vals[picked[i][0]][picked[i][1]]);
                if (dirty && one_in(12)) {          /* damaged in transit: refused or not, it is not the contents of anything else */
                    sim_fault("hpack-corrupt");
                    for (int i = 1 + rdat(3); i > 0 && b.len; i--) b.data[rdat(b.len)] ^= 1 << rdat(8);
                    if (rdat(2) && b.len > 1) sb_shrink(&b, 1 + rdat(b.len - 1));
                    f_lib_decode(&dec, b.data, b.len);
                    st = steps;
                    break;
                }
                int g = f_lib_decode(&dec, b.data, b.len);
                if (g < 0) VIOL("hpack:decoder", "a valid block is refused");
                if (g != n) VIOL("hpack:decoder", "%d headers, %d were encoded", g, n);
                for (int i = 0; i < n; i++) if (strcmp(G[i].k, f_pool[picked[i][0]].k) || strcmp(G[i].v, f_vals[picked[i][0]][picked[i][1]])) VIOL("hpack:decoder", "header %d: '%s: %.40s' decodes as '%s: %.40s'", i, f_pool[picked[i][0]].k, f_vals[picked[i][0]][picked[i][1]], G[i].k, G[i].v);
                if (dec.tbl_size > dec.tbl_size_limit) VIOL("hpack:decoder", "the table holds %u bytes, its limit is %u", dec.tbl_size, dec.tbl_size_limit);
            }
            sim_state(6ull << 60 | lib | (uint64_t)minz(rdec.n, 60) << 1 | (uint64_t)minz(renc.n, 60) << 8 | (uint64_t)minz(max / 64, 127) << 16 | (uint64_t)minz(n, 31) << 24);
          }
        }
    }
    hpack_enc_dtbl_wipe(&enc); hpack_dec_dtbl_wipe(&dec);
    renc.max = rdec.max = 0; ht_evict(&renc, 1); ht_evict(&rdec, 1);
}
/* }}} */
