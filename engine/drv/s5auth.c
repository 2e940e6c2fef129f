// A tunnel client's session up to relaying: where it connects, what it presents, what it keeps meanwhile.
#include "vf.h"
#include "dns.h"
#include "tls_tunnel_c.h"
#include "tls_tunnel_s.h"
#include "text.h"
const char vf_keep[] = "log_print memcpy memset";
const char vf_props[] = "P33 P03 P11";
const char vf_full[] = "";
static con_t con; static ev_t ev, evup; static ssl_con_t tls;
static unsigned char out[80]; static char key[40]; static int outN, keyN, closed, upGone, relaying, tried, upOk, failed, shaken, err_, hold, inN, kept; static con_t *up;
void *ov_mem_pool_alloc(int n) { void *p = calloc(1, n); vf_assume(p != NULL); return p; }
int ov_mem_pool_free(void *p) { free(p); return 0; }
int ov_ev_opt(con_t *c, int op) { return 0; }
int ov_ev_alloc(ev_t **e) { *e = &evup; return 0; }
int ov_tm_add(ev_timer_t *t, timer_cb cb, void *d, int ms) { return 0; }
int ov_tm_del(ev_timer_t *t) { return 0; }
int *ov___errno_location(void) { return &err_; }
int ov_net_free(con_t *c)
{
    if (c == &con) { vf_check(!closed, "P05: the client connection is closed once"); closed = 1; if (c->data_cb) c->data_cb(c->data); }
    else { vf_check(c && !upGone, "P05: the upstream connection is closed once"); upGone = 1; }
    return 0;
}
int ov_socket(int d, int t, int p) { return 9; }
int ov_fcntl(int fd, int c, ...) { return 0; }
int ov_setsockopt(int fd, int l, int o, const void *v, unsigned n) { return 0; }
static int ripe; // a pending connect shows no error and no result before it is decided
int ov_getsockopt(int fd, int l, int o, void *v, unsigned *n) { *(int *)v = 0; if (fd == 9 && !upOk && ripe) { if (vf_choice(2)) { failed = 1; *(int *)v = ECONNREFUSED; } else upOk = 1; } return 0; }
unsigned ov_inet_addr(const char *s) { vf_check(s[0] == '1' && s[1] == '.' && s[7] == '4' && !s[8], "P33: the server's configured address is used"); return 0x04030201; }
int ov_connect(int fd, const struct sockaddr *a, unsigned n)
{
    const struct sockaddr_in *s = (const void *)a; const unsigned char *p = (const void *)&s->sin_port;
    vf_check(fd == 9 && s->sin_family == AF_INET && s->sin_addr.s_addr == 0x04030201, "P33: a session connects to the configured server");
    vf_check(p[0] == 0x1f && p[1] == 0x91, "P33: a session connects to the configured port");
    vf_check(!tried, "P33: a session connects once"); tried = 1;
    switch (vf_choice(3)) { case 0: upOk = 1; return 0; case 1: err_ = EINPROGRESS; return -1; }
    failed = 1; err_ = ENETUNREACH;
    return -1;
}
int ov_ssl_create_connection(con_t *c, int f)
{
    vf_check(c != &con && upOk && !c->ssl && f == L_SSL_CLIENT, "P03 P33: the tunnel leg becomes a TLS client when it is connected");
    c->ssl = &tls; up = c;
    return 0;
}
int ov_ssl_handshake(con_t *c)
{
    vf_check(c == up && !upGone && !shaken, "P03: a handshake is made once");
    switch (vf_choice(3)) { case 0: return -11; case 1: c->ssl->f_err = 1; failed = 1; return -1; }
    c->ssl->f_handshaked = 1; shaken = 1;
    return 0;
}
int ov_ssl_write(con_t *c, unsigned char *b, int n)
{
    int i;
    vf_check(shaken && c == up && !upGone, "P03: bytes are sent after the handshake");
    vf_check(n > 0 && outN + n <= 36, "P33: one authentication record is sent");
    if (hold) { hold--; if (hold & 1) return -11; n = n > 7 ? 7 : n; }
    for (i = 0; i < n; i++) out[outN++] = b[i];
    return n;
}
int ov_ssl_read(con_t *c, unsigned char *b, int n) { return -11; }
static int plainR(con_t *c, unsigned char *b, int n)
{
    int i, k;
    if (c != &con) { vf_check(0, "P03: nothing is read outside TLS"); return -1; }
    k = inN < n ? inN : n; inN -= k; if (!k) return -11;
    for (i = 0; i < k; i++) b[i] = 'A' + (kept + i) % 26;
    kept += k;
    return k;
}
int ov_recvs(con_t *c, unsigned char *b, int n) { return plainR(c, b, n); }
int ov_sends(con_t *c, unsigned char *b, int n) { vf_check(c == &con, "P03 P33: nothing is sent outside TLS"); return n; }
int ov_send_chains(con_t *c, meta_t *m) { vf_check(c == &con, "P03 P33: nothing is sent outside TLS"); return -1; }
int ov_tls_tunnel_traffic_proc(con_t *c)
{
    int i, ok = 1; meta_t *m = con.meta; static const unsigned char magic[] = { 0xa0, 0x01, 0xbe, 0xef };
    vf_check(shaken && !closed && !upGone && c == &con, "P33: relaying begins on a live session");
    vf_check(outN == 36, "P33: relaying begins after the whole authentication record");
    for (i = 0; i < 4; i++) ok &= out[i] == magic[i];
    vf_check(ok, "P33: the record carries the agreed magic");
    for (ok = 1, i = 0; i < 16; i++) ok &= out[4 + i] == (i < keyN ? (unsigned char)key[i] : 0);
    vf_check(ok, "P33: the record carries the configured key");
    vf_check(up->send == ssl_write && up->recv == ssl_read && up->send_chain == ssl_write_chain, "P03 P33: the tunnel leg is left talking TLS");
    vf_check(m->pos == m->start && m->last - m->pos == kept, "P33 P15: what the client sent meanwhile is kept");
    for (ok = 1, i = 0; i < kept; i++) ok &= m->pos[i] == 'A' + i % 26;
    vf_check(ok, "P33 P15: what the client sent meanwhile is kept unchanged");
    relaying = 1;
    return 0;
}
static void more(void) { if (!closed && !relaying && vf_choice(2)) { inN = 5; if (ev.read_cb) ev.read_cb(&con); } }
void drv_s5auth(void)
{
    static const int lens[] = { 1, 9, 15, 16, 22 };
    int i;
    keyN = lens[vf_choice(5)];
    for (i = 0; i < keyN; i++) config_get()->s5_local_auth[i] = key[i] = (char)(i % 3 ? 'k' + i : 200 + i);
    config_get()->s5_local_serv_port = 8081;
    ov_strncpy(config_get()->s5_local_serv_ip, "1.22.3.4", 9);
    con.ev = &ev; con.recv = plainR; con.send = ov_sends; con.send_chain = ov_send_chains; con.fd = 5;
    hold = vf_choice(5);
    inN = vf_choice(2) ? 3 : 0;
    tls_tunnel_c_accept(&con);
    more();
    if (!closed && !failed && !upOk) { vf_check(evup.write_cb != NULL, "P08: a pending connect is followed up"); ripe = 1; evup.write_cb(((tls_tunnel_session_t *)con.data)->cup); }
    for (i = 0; i < 3 && !closed && !failed && !shaken; i++) { more(); vf_check(tls.handshake_cb != NULL, "P08: a blocked handshake has a continuation"); tls.handshake_cb(up); }
    if (!closed && !failed && !shaken) return;
    for (i = 0; i < 8 && !closed && !relaying && !failed; i++) { if (i < 2) more(); if (evup.write_cb) evup.write_cb(up); }
    if (failed) { vf_check(closed && !relaying && upGone && !outN, "P33 P06: a session whose server cannot be reached is closed"); vf_note("sessions refused"); }
    else { vf_check(relaying || closed, "P33: a session whose server answers is relayed"); vf_check(relaying, "P33: a session whose server answers is kept"); vf_note("sessions started"); }
}
