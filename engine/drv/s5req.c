// One SOCKS session from its greeting to the start of relaying: any piece-wise arrival, every kind of request, every outcome.
#include "vf.h"
#include "dns.h"
#include "tls_tunnel_s.h"
#include "socks5.h"
#include "text.h"
const char vf_keep[] = "log_print memcpy";
const char vf_props[] = "P32 P34 P11";
const char vf_full[] = "";
static con_t con; static ev_t ev, evup; static tls_tunnel_session_t *ses; static dnsc_t dq;
static unsigned char in[600], out[32], addr[4], port[2], name[256];
static int inN, inP, lim, cut, phase, outN, hold, closed, upGone, relaying, tried, upOk, looking, nameN, valid, failed, err_;
static dns_async_cb tell; static con_t *up; static int gotDns;
void *ov_mem_pool_alloc(int n) { void *p = calloc(1, n); vf_assume(p != NULL); return p; }
int ov_mem_pool_free(void *p) { free(p); return 0; }
int ov_ev_opt(con_t *c, int op) { return 0; }
int ov_ev_alloc(ev_t **e) { *e = &evup; return 0; }
int ov_tm_add(ev_timer_t *t, timer_cb cb, void *d, int ms) { return 0; }
int ov_tm_del(ev_timer_t *t) { return 0; }
int *ov___errno_location(void) { return &err_; }
int ov_net_free(con_t *c)
{
    if (c == &con) { vf_check(!closed, "P05: the client connection is closed once"); closed = 1; if (c->data_cb) c->data_cb(c->data); }
    else { vf_check(c && !upGone, "P05: the upstream connection is closed once"); upGone = 1; }
    return 0;
}
int ov_socket(int d, int t, int p) { return 9; }
int ov_fcntl(int fd, int c, ...) { return 0; }
int ov_setsockopt(int fd, int l, int o, const void *v, unsigned n) { return 0; }
static int ripe; // a pending connect shows no error and no result before it is decided
int ov_getsockopt(int fd, int l, int o, void *v, unsigned *n) { *(int *)v = 0; if (fd == 9 && tried && !upOk && ripe) { if (vf_choice(2)) { failed = 1; *(int *)v = ECONNREFUSED; } else upOk = 1; } return 0; }
unsigned ov_inet_addr(const char *s)
{
    unsigned char b[4] = { 0 }; int i, n;
    for (i = 0; i < 4; i++) {
        for (n = -1; *s >= '0' && *s <= '9'; s++) n = (n < 0 ? 0 : n) * 10 + *s - '0';
        if (n < 0 || n > 255 || (*s != '.' && i < 3)) return 0xffffffff;
        b[i] = n; s++;
    }
    return b[0] | b[1] << 8 | b[2] << 16 | (unsigned)b[3] << 24;
}
static int same(const char *n) { int i; for (i = 0; i < nameN; i++) if ((unsigned char)n[i] != name[i]) return 0; return !n[i]; }
int ov_dns_rec_find(char *n, char *o)
{
    int i;
    vf_check(valid && nameN && inP == inN && same(n), "P32 P17: the name looked for is the one the client asked for");
    if (vf_choice(2)) return -1;
    for (i = 0; i < 4; i++) o[i] = addr[i];
    gotDns = 1;
    return 0;
}
int ov_dns_alloc(dnsc_t **d, char *n, dns_async_cb cb, void *u)
{
    vf_check(valid && nameN && inP == inN && same(n) && u == ses, "P32 P17: the name looked up is the one the client asked for");
    if (vf_choice(2)) { failed = 1; cb(-1, NULL, u); return -1; }
    *d = &dq; tell = cb; looking = 1;
    return -11;
}
void ov_dns_free(dnsc_t *d) { vf_check(d == &dq && looking >= 1, "P05: a lookup is given up once"); looking = 0; }
int ov_connect(int fd, const struct sockaddr *a, unsigned n)
{
    const struct sockaddr_in *s = (const void *)a; const unsigned char *b = (const void *)&s->sin_addr.s_addr, *p = (const void *)&s->sin_port;
    vf_check(phase == 2 && valid && inP == inN && !failed, "P32: only a complete, acceptable request leads to a connection");
    vf_check(!nameN || gotDns, "P32 P17: a named target is connected to after it was resolved");
    vf_check(fd == 9 && s->sin_family == AF_INET && n == sizeof(*s), "P32: the connection is an internet connection");
    vf_check(b[0] == addr[0] && b[1] == addr[1] && b[2] == addr[2] && b[3] == addr[3], "P32 P17: the connection goes to the address asked for");
    vf_check(p[0] == port[0] && p[1] == port[1], "P32: the connection goes to the port asked for");
    vf_check(!tried, "P32: one connection is made per request");
    tried = 1;
    switch (vf_choice(3)) { case 0: upOk = 1; return 0; case 1: err_ = EINPROGRESS; return -1; }
    failed = 1; err_ = ENETUNREACH;
    return -1;
}
int ov_tls_tunnel_traffic_proc(con_t *c)
{
    vf_check(upOk && !closed && !upGone, "P34: relaying begins when the upstream is connected");
    vf_check(outN == 12, "P34: relaying begins after the whole reply");
    relaying = 1;
    return 0;
}
static int rx(con_t *c, unsigned char *b, int n)
{
    int k = lim - inP, i;
    vf_check(n > 0 && !closed, "P32: an open connection is read");
    if (!k) return -11;
    if (k > n) k = n;
    for (i = 0; i < k; i++) b[i] = in[inP++];
    return k;
}
static int tx(con_t *c, unsigned char *b, int n)
{
    int i;
    vf_check(!closed && n > 0 && outN + n <= (phase == 2 ? 12 : 2), "P34: nothing but the replies is sent");
    if (hold) { hold--; if (hold & 1) return -11; n = n > 2 && vf_choice(2) ? n - 1 : 1; }
    for (i = 0; i < n; i++) out[outN++] = b[i];
    if (outN > 2) vf_check(upOk, "P34: success is reported when the upstream is connected");
    return n;
}
static int txc(con_t *c, meta_t *m) { return -1; }
static void give(int n) // the next n bytes, cut once, or byte by byte
{
    int i;
    if (cut < 0) for (i = 0; i < n && !closed; i++) { lim++; if (con.ev->read_cb) con.ev->read_cb(&con); }
    else { int k = cut < n ? cut : n; lim += k; if (!closed && con.ev->read_cb) con.ev->read_cb(&con); if (k < n && !closed) { lim += n - k; if (con.ev->read_cb) con.ev->read_cb(&con); } }
    for (i = 0; i < 4 && !closed && !relaying; i++) if (con.ev->write_cb) con.ev->write_cb(&con); // a blocked reply goes on
}
void drv_s5req(void)
{
    static const unsigned char ads[3][4] = { { 10, 200, 0, 255 }, { 127, 0, 1, 128 }, { 192, 168, 100, 9 } }, pos[3][2] = { { 0, 80 }, { 255, 1 }, { 187, 128 } };
    static const int lens[] = { 1, 2, 16, 127, 128, 255 };
    int i, v, ty, rsv, n0, many, first = vf_choice(2); // vary the greeting, or the request
    con.ev = &ev; con.recv = rx; con.send = tx; con.send_chain = txc; con.fd = 5;
    if (tls_ses_alloc(&ses) || meta_alloc(&con.meta, TLS_TUNNEL_METAN)) return;
    ses->cdown = &con; con.data = ses; con.data_cb = tls_ses_release_cdown;
    if (!(ses->adata = mem_pool_alloc(sizeof(s5_t)))) return;
    // greeting
    many = first ? vf_choice(3) : 1; many = many == 0 ? 1 : many == 1 ? 3 : 255;
    in[inN++] = 5; in[inN++] = many; for (i = 0; i < many; i++) in[inN++] = i;
    cut = first ? vf_choice(4) : 2; cut = cut == 3 ? (many > 3 ? 200 : -1) : cut + 1;
    hold = first ? vf_choice(3) : 0; phase = 1;
    ev.read_cb = s5_p1_req;
    give(inN);
    vf_check(closed || (outN == 2 && out[0] == 5 && out[1] == 0), "P34: a greeting is answered with version 5 and the open method");
    if (closed) return;
    // request
    phase = 2; n0 = inN;
    v = first ? 0 : vf_choice(4); ty = v ? 1 : first ? 0 : vf_choice(4);
    valid = v == 0 && ty < 2;
    in[inN++] = v == 1 ? 4 : 5; in[inN++] = v == 2 ? 2 : v == 3 ? 3 : 1; rsv = valid && !first && vf_choice(2); in[inN++] = rsv;
    for (i = 0; i < 4; i++) addr[i] = ads[0][i];
    port[0] = 0; port[1] = 80;
    if (ty == 0) { i = vf_choice(3); in[inN++] = 1; for (v = 0; v < 4; v++) in[inN++] = addr[v] = ads[i][v]; i = vf_choice(3); port[0] = pos[i][0]; port[1] = pos[i][1]; }
    else if (ty == 1) { nameN = lens[vf_choice(6)]; in[inN++] = 3; in[inN++] = nameN; for (i = 0; i < nameN; i++) in[inN++] = name[i] = 'a' + i % 26; i = vf_choice(3); port[0] = pos[i][0]; port[1] = pos[i][1]; for (v = 0; v < 4; v++) addr[v] = ads[i][v]; }
    else if (ty == 2) { in[inN++] = 4; for (i = 0; i < 16; i++) in[inN++] = i; }
    else { in[inN++] = 2; for (i = 0; i < 4; i++) in[inN++] = i; }
    in[inN++] = port[0]; in[inN++] = port[1];
    cut = nameN > 20 ? (vf_choice(2) ? 100 : 5) : vf_choice(9); if (cut == 8) cut = -1; else cut++;
    hold = vf_choice(3);
    give(inN - n0);
    if (looking) { int ok = vf_choice(2); gotDns = ok; if (!ok) failed = 1; looking = 2; tell(ok ? 0 : -1, ok ? addr : NULL, ses); vf_check(!looking, "P06: a finished lookup is released"); }
    if (!closed && tried && !relaying && !failed && !upOk && ses->cup) { vf_check(evup.write_cb != NULL, "P08: a pending connect is followed up"); ripe = 1; evup.write_cb(ses->cup); }
    for (i = 0; i < 14 && !closed && !relaying; i++) if (con.ev->write_cb) con.ev->write_cb(&con);
    if (rsv && closed && !tried) return; // may be refused
    if (valid && !failed) {
        vf_check(relaying && outN == 12, "P34 P32: an acceptable request whose target answers is served");
        vf_check(out[2] == 5 && out[3] == 0 && out[4] == 0 && out[5] == 1, "P34: the reply is version 5, success, an address");
        vf_note("requests served");
    } else {
        vf_check(closed && !relaying && outN == 2, "P34 P32: a request that is refused or fails ends the session without a success reply");
        vf_check(!tried || upGone, "P06: the upstream of a failed request is released");
        vf_note("requests refused");
    }
}
