// The record a tunnel client sends, given to the code a tunnel server checks it with.
#include "vf.h"
#include "dns.h"
#include "tls_tunnel_c.h"
#include "tls_tunnel_s.h"
#include "socks5.h"
#include "text.h"
const char vf_keep[] = "log_print memcpy memset";
const char vf_props[] = "P36";
const char vf_full[] = "";
static con_t con, srv; static ev_t ev, evup, evs; static ssl_con_t tls; static con_t *up;
static unsigned char wire[120]; static int wireN, wireP, cut, shaken, closed, refused, accepted, relaying;
static char mine[40]; static const char *conf[2]; static int confN; static cJSON root, item[2];
void *ov_mem_pool_alloc(int n) { void *p = calloc(1, n); vf_assume(p != NULL); return p; }
int ov_mem_pool_free(void *p) { free(p); return 0; }
void *ov_sys_alloc(int n) { void *p = calloc(1, n); vf_assume(p != NULL); return p; }
void ov_sys_free(void *p) { free(p); }
int ov_ev_opt(con_t *c, int op) { return 0; }
int ov_ev_alloc(ev_t **e) { *e = &evup; return 0; }
int ov_tm_add(ev_timer_t *t, timer_cb cb, void *d, int ms) { return 0; }
int ov_tm_del(ev_timer_t *t) { return 0; }
int ov_net_free(con_t *c) { if (c == &srv) refused = 1; else closed = 1; return 0; }
int ov_socket(int d, int t, int p) { return 9; }
int ov_fcntl(int fd, int c, ...) { return 0; }
int ov_setsockopt(int fd, int l, int o, const void *v, unsigned n) { return 0; }
int ov_getsockopt(int fd, int l, int o, void *v, unsigned *n) { *(int *)v = 0; return 0; }
unsigned ov_inet_addr(const char *s) { return 0x04030201; }
int ov_connect(int fd, const struct sockaddr *a, unsigned n) { return 0; }
int ov_ssl_create_connection(con_t *c, unsigned int f) { c->ssl = &tls; up = c; return 0; }
int ov_ssl_handshake(con_t *c) { c->ssl->f_handshaked = 1; shaken = 1; return 0; }
int ov_ssl_write(con_t *c, unsigned char *b, int n) { int i; vf_assume(wireN + n <= 120); for (i = 0; i < n; i++) wire[wireN++] = b[i]; return n; }
int ov_tls_tunnel_traffic_proc(con_t *c) { relaying = 1; return 0; }
static int none(con_t *c, unsigned char *b, int n) { return -11; }
// the server's side
int ov_open(const char *p, int fl, ...) { return 7; }
int ov_close(int fd) { return 0; }
long ov_read(int fd, char *b, long n) { b[0] = '['; return 1; }
cJSON *ov_cJSON_Parse(const char *s) { return &root; }
int ov_cJSON_GetArraySize(const cJSON *o) { return confN; }
cJSON *ov_cJSON_GetArrayItem(const cJSON *o, int i) { item[i].valuestring = (char *)conf[i]; return &item[i]; }
char *ov_cJSON_GetStringValue(const cJSON *o) { return o->valuestring; }
int ov_cJSON_IsString(const cJSON *o) { return 1; }
void ov_cJSON_Delete(cJSON *o) { }
int ov_s5_p1_req(con_t *c) { vf_check(c == &srv && !refused, "P36: a session goes on once"); accepted = 1; return -11; }
static int rx(con_t *c, unsigned char *b, int n)
{
    int i, k = (wireP < cut ? cut : wireN) - wireP;
    static int waited;
    if (wireP == cut && !waited) { waited = 1; return -11; }
    if (!k) return -11;
    if (k > n) k = n;
    for (i = 0; i < k; i++) b[i] = wire[wireP++];
    return k;
}
static int tx(con_t *c, unsigned char *b, int n) { return n; }
static int txc(con_t *c, meta_t *m) { return -1; }
void drv_pair(void)
{
    static const char *const own[] = { "k", "key-9-abc", "fifteen-letters", "sixteen-letters!", "\200\377abc" }, *const part[] = { "", "9-a", "letters", "letters!", "\377" };
    int i, w, o = vf_choice(5), must; static char longer[40];
    for (i = 0; own[o][i]; i++) config_get()->s5_local_auth[i] = mine[i] = longer[i] = own[o][i];
    longer[i] = 'z';
    config_get()->s5_local_serv_port = 8081; ov_strncpy(config_get()->s5_local_serv_ip, "1.2.3.4", 8);
    con.ev = &ev; con.recv = none; con.send = tx; con.send_chain = txc; con.fd = 5;
    tls_tunnel_c_accept(&con);
    vf_assume(!closed);
    vf_check(relaying && wireN > 0, "P36: a client presents itself");
    w = vf_choice(5); must = w < 3; // the same key, next to another, a part of it, another, a longer one
    conf[0] = w == 0 ? mine : w == 1 ? "other" : w == 2 ? part[o] : w == 3 ? "other" : longer; confN = 1;
    if (w == 2 && o == 0) return;
    if (w == 1) { conf[1] = mine; confN = 2; }
    config_get()->s5_mode = TLS_TUNNEL_S;
    if (tls_tunnel_s_init()) { vf_check(0, "P36: a server with keys starts"); return; }
    srv.ev = &evs; srv.recv = rx; srv.send = tx; srv.send_chain = txc; srv.fd = 6;
    cut = 1 + vf_choice(wireN);
    tls_tunnel_s_start(&srv);
    for (i = 0; i < 3 && !refused && !accepted; i++) { vf_check(evs.read_cb != NULL, "P36 P08: the record is read on"); evs.read_cb(&srv); }
    vf_check(accepted != refused, "P36: a complete record is accepted or refused");
    vf_check(accepted == must, "P36: a client is accepted exactly if the server's keys cover its own");
    vf_check(!accepted || wireP == wireN, "P36: the server takes exactly the record");
    vf_note(accepted ? "clients accepted" : "clients refused");
}
