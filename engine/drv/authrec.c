// What a tunnel server makes of a connection's authentication record: every damage to the magic, every kind of key, cut anywhere, after another session.
#include "vf.h"
#include "dns.h"
#include "tls_tunnel_s.h"
#include "socks5.h"
#include "text.h"
const char vf_keep[] = "log_print memcpy memset";
const char vf_props[] = "P01 P02";
const char vf_full[] = "";
static con_t srv[2]; static ev_t evs[2]; static int now, refused[2], accepted[2];
static unsigned char wire[40]; static int wireN, wireP, cut, waited, eof;
static const char *conf[2] = { "secret-one", "two" }; static cJSON root, item[2];
void *ov_mem_pool_alloc(int n) { void *p = calloc(1, n); vf_assume(p != NULL); return p; }
int ov_mem_pool_free(void *p) { free(p); return 0; }
void *ov_sys_alloc(int n) { void *p = calloc(1, n); vf_assume(p != NULL); return p; }
void ov_sys_free(void *p) { free(p); }
int ov_ev_opt(con_t *c, int op) { return 0; }
int ov_tm_add(ev_timer_t *t, timer_cb cb, void *d, int ms) { return 0; }
int ov_tm_del(ev_timer_t *t) { return 0; }
int ov_net_free(con_t *c) { int i = c == &srv[1]; vf_check(!refused[i], "P05: a connection is closed once"); refused[i] = 1; if (c->data_cb) c->data_cb(c->data); return 0; }
int ov_open(const char *p, int fl, ...) { return 7; }
int ov_close(int fd) { return 0; }
long ov_read(int fd, char *b, long n) { b[0] = '['; return 1; }
cJSON *ov_cJSON_Parse(const char *s) { return &root; }
int ov_cJSON_GetArraySize(const cJSON *o) { return 2; }
cJSON *ov_cJSON_GetArrayItem(const cJSON *o, int i) { item[i].valuestring = (char *)conf[i]; return &item[i]; }
char *ov_cJSON_GetStringValue(const cJSON *o) { return o->valuestring; }
int ov_cJSON_IsString(const cJSON *o) { return 1; }
void ov_cJSON_Delete(cJSON *o) { }
int ov_s5_p1_req(con_t *c) { int i = c == &srv[1]; vf_check(!refused[i], "P01 P05: a refused connection is left alone"); vf_check(i == now, "P01: the connection that presented the record goes on"); accepted[i] = 1; return -11; }
static int rx(con_t *c, unsigned char *b, int n)
{
    int i, k = (wireP < cut ? cut : wireN) - wireP;
    if (wireP == cut && !waited) { waited = 1; return -11; }
    if (!k) return eof ? -1 : -11;
    if (k > n) k = n;
    for (i = 0; i < k; i++) b[i] = wire[wireP++];
    return k;
}
static int tx(con_t *c, unsigned char *b, int n) { return n; }
static int txc(con_t *c, meta_t *m) { return -1; }
static void record(int damage, const char *k, int fillSecret)
{
    int i; static const unsigned char m[] = { 0xa0, 0x01, 0xbe, 0xef };
    for (i = 0; i < 36; i++) wire[i] = i >= 20 && fillSecret ? i * 7 : 0;
    for (i = 0; i < 4; i++) wire[i] = damage == 33 ? 0 : damage == 34 ? m[3 - i] : m[i];
    if (damage >= 1 && damage <= 32) wire[(damage - 1) / 8] ^= 1 << (damage - 1) % 8;
    for (i = 0; k[i]; i++) wire[4 + i] = k[i];
    wireN = 36; wireP = waited = 0;
}
static void session(int i)
{
    int j;
    now = i; srv[i].ev = &evs[i]; srv[i].recv = rx; srv[i].send = tx; srv[i].send_chain = txc; srv[i].fd = 5 + i;
    tls_tunnel_s_start(&srv[i]);
    for (j = 0; j < 3 && !refused[i] && !accepted[i]; j++) { vf_check(evs[i].read_cb != NULL, "P08: the record is read on"); evs[i].read_cb(&srv[i]); }
}
void drv_authrec(void)
{
    static const char *const keys[] = { "secret-one", "xxtwoyy", "secret-on", "tw", "", "ecret-one" };
    int d = vf_choice(35), k = vf_choice(6), first = vf_choice(4);
    config_get()->s5_mode = vf_choice(2) ? TLS_TUNNEL_S : TLS_TUNNEL_S_SCRECT;
    if (tls_tunnel_s_init()) return;
    if (first) { // an earlier session: accepted, refused for its key, refused for its magic
        record(first == 3 ? 5 : 0, first == 2 ? "secret-o" : "two", 0); cut = 36;
        session(0);
        vf_check(accepted[0] == (first == 1), "P01 P02: a record is judged by its magic and its key");
    }
    record(d, keys[k], vf_choice(2));
    cut = vf_choice(4); cut = cut == 0 ? 1 : cut == 1 ? 4 : cut == 2 ? 20 : 36;
    if (vf_choice(3) == 0) { eof = 1; wireN = cut; } // the peer goes away
    session(1);
    if (eof && wireN < 36) { vf_check(!accepted[1] && refused[1], "P01: a connection whose record is incomplete is closed"); vf_note("incomplete records"); return; }
    vf_check(accepted[1] == (d == 0 && k < 2), "P01 P02: a record is judged by its magic and its key");
    vf_check(accepted[1] != refused[1], "P01: a connection whose record is not accepted is closed");
    vf_note(accepted[1] ? "records accepted" : "records refused");
}
