// A connection to the TLS web server: handshake first, then the tunnel or HTTP, chosen by the record's magic alone.
#include "vf.h"
#include "http_req.h"
#include "webser.h"
#include "dns.h"
#include "tls_tunnel_s.h"
const char vf_keep[] = "log_print";
const char vf_props[] = "P03 P11 P12 P37";
static con_t con; static ev_t ev; static ssl_con_t tls; static web_req_t req;
static unsigned char head[40]; static int right; // what the peer sends first, and whether it is a record
static int closed, armed, timed, live, shaken, tunnel, web, eof, secret; static long got;
int ov_ssl_create_connection(con_t *c, unsigned int f)
{
    vf_check(c == &con && !c->ssl, "P03 P05: a connection gets one TLS object");
    if (vf_choice(2)) return -1;
    tls.f_handshaked = 0; tls.f_err = 0; c->ssl = &tls;
    return 0;
}
int ov_ssl_handshake(con_t *c)
{
    vf_check(!closed && c->ssl && !shaken, "P03 P05: a handshake is made on a connection that has none");
    switch (vf_choice(3)) { case 0: return -11; case 1: c->ssl->f_err = 1; return -1; }
    c->ssl->f_handshaked = 1; shaken = 1;
    return 0;
}
int ov_ssl_read(con_t *c, unsigned char *b, int n)
{
    long k, i;
    vf_check(!closed && shaken, "P03: bytes are read after the handshake");
    vf_check(n > 0 && c->meta && b >= c->meta->start && b + n <= c->meta->end, "P11 P12: bytes are read into the connection's buffer");
    vf_check(b == c->meta->start + got, "P11 P29: bytes are read behind those received before");
    switch (eof ? 1 : vf_choice(3)) { case 0: return -11; case 1: eof = 1; return -1; }
    vf_data(b, n); k = (long)sizeof(tls_tunnel_auth_t) - got; // pieces around the record's end
    switch (vf_choice(6)) { case 0: k -= 1; break; case 1: break; case 2: k += 1; break; case 3: k = 4; break; case 4: k = n; break; case 5: k = 3; }
    vf_assume(k >= 1 && k <= n);
    for (i = 0; i < k && got + i < 40; i++) b[i] = head[got + i];
    got += k;
    return k;
}
int ov_ssl_write(con_t *c, unsigned char *b, int n) { return -1; }
int ov_ssl_write_chain(con_t *c, meta_t *m) { return -1; }
static int plainR(con_t *c, unsigned char *b, int n) { vf_check(0, "P03: nothing is read outside TLS"); return -1; }
static int plainW(con_t *c, unsigned char *b, int n) { vf_check(0, "P03: nothing is written outside TLS"); return -1; }
static int plainC(con_t *c, meta_t *m) { vf_check(0, "P03: nothing is written outside TLS"); return -1; }
static int same(con_t *c) { int i; for (i = 0; i < got && i < 40; i++) if (c->meta->pos[i] != head[i]) return 0; return 1; }
int ov_tls_tunnel_s_start(con_t *c)
{
    vf_check(secret && shaken && !closed && c == &con, "P01 P03 P37: the tunnel is reached after the handshake, where it is configured");
    vf_check(c->meta && got >= sizeof(tls_tunnel_auth_t) && c->meta->pos == c->meta->start && c->meta->last == c->meta->start + got, "P01 P11 P37: the tunnel gets every byte received");
    vf_check(right, "P01 P37: the tunnel gets records with the right magic");
    vf_check(same(c), "P37 P11: the tunnel gets the bytes as they were received");
    vf_check(c->recv == ssl_read && c->send == ssl_write && c->send_chain == ssl_write_chain, "P03: the tunnel talks TLS");
    tunnel = 1; timed = 1;
    return 0;
}
static int begin(con_t *c, web_req_t *r)
{
    vf_check(shaken && !closed && c->recv == ssl_read && c->send == ssl_write && c->send_chain == ssl_write_chain, "P03: HTTP over TLS talks TLS");
    vf_check(c->meta && c->meta->pos == c->meta->start && c->meta->last == c->meta->start + got, "P29 P37: HTTP gets every byte received");
    vf_check(!secret || !right, "P01 P37: the tunnel gets records with the right magic");
    vf_check(same(c), "P37 P29: HTTP gets the bytes as they were received");
    web = 1;
    return vf_choice(2) ? -11 : -1;
}
web_req_t *ov_web_req_alloc(void) { if (vf_choice(2)) return NULL; req.cb = begin; live++; return &req; }
void ov_web_req_free(web_req_t *r) { live--; }
int ov_ezhash_add(void *h, void *k, int n, void *v, int m) { return 0; }
int ov_ezhash_create(void **h, int n) { *h = &closed; return 0; }
static int quiet = 1;
void *ov_mem_pool_alloc(int n) { void *p; if (!quiet && vf_choice(2)) return NULL; p = calloc(1, n); vf_assume(p != NULL); live++; return p; }
int ov_mem_pool_free(void *p) { if (p) live--; free(p); return 0; }
int ov_ev_opt(con_t *c, int op) { vf_check(!closed, "P05: a closed connection is left alone"); if (op && vf_choice(2)) return -1; armed = op; return 0; }
int ov_tm_add(ev_timer_t *t, timer_cb cb, void *d, int ms) { timed = t == &ev.timer && d == &con && ms > 0; return 0; }
int ov_tm_del(ev_timer_t *t) { timed = 0; return 0; }
int ov_net_free(con_t *c)
{
    vf_check(!closed, "P05: a connection is closed once"); closed = 1; timed = 0;
    if (c->data_cb) c->data_cb(c->data);
    meta_free(c->meta); c->meta = NULL;
    return 0;
}
void drv_webtls(void)
{
    int i;
    if (webser_init()) return;
    live = 0; quiet = 0;
    secret = vf_choice(2);
    config_get()->s5_mode = secret ? TLS_TUNNEL_S_SCRECT : vf_choice(2);
    con.ev = &ev; con.recv = plainR; con.send = plainW; con.send_chain = plainC; con.fd = 5; armed = EV_R;
    for (i = 0; i < 40; i++) head[i] = i * 5;
    i = vf_choice(6); right = i == 0; // the magic, one byte of it wrong, or a request
    if (i < 5) { head[0] = 0xa0; head[1] = 0x01; head[2] = 0xbe; head[3] = 0xef; if (i) head[i - 1] ^= 1 << 2 * i - 2; } else { head[0] = 'G'; head[1] = 'E'; head[2] = 'T'; head[3] = ' '; }
    webser_accept_cb_ssl(&con);
    for (i = 0; i < 4 && !closed && !tunnel && !web; i++) {
        vf_check(timed, "P07: a connection that waits has a deadline");
        vf_check(!shaken || got < 4 || (secret && right), "P37: a web client is not kept waiting for a record");
        if (!shaken) { vf_check(tls.handshake_cb != NULL, "P08: a blocked handshake has a continuation"); tls.handshake_cb(&con); }
        else { vf_check(ev.read_cb && (armed & EV_R), "P08: a connection that waits for input has a reader"); ev.read_cb(&con); }
    }
    vf_note(tunnel ? "connections handed to the tunnel" : web ? "connections handed to HTTP" : "connections refused");
    if (closed) { vf_check(live == 0, "P06: everything a connection used is released"); return; }
    vf_check(timed, "P07: a connection that waits has a deadline");
    if (tunnel) return;
    if (web) { vf_check(ev.read_cb != NULL && (armed & EV_R), "P08: a connection that waits for input has a reader"); }
}
