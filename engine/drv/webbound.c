// Choosing what to serve and building the answer for requests, settings and bodies of any length.
#include "vf.h"
#include "http_req.h"
#include "webser.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P12";
const char vf_join[] = "";
static con_t con; static ev_t ev; static web_req_t *req; static int closed, again; static long typ; static long bodyN;
static int done(con_t *c, web_req_t *r) { return again++ ? -1 : 0; }
web_req_t *ov_web_req_alloc(void) { return vf_choice(2) ? req : NULL; }
void ov_web_req_free(web_req_t *r) { }
int ov_ezhash_add(void *h, void *k, int n, void *v, int m) { if (m > typ) typ = m; return 0; }
int ov_ezhash_create(void **h, int n) { *h = &closed; return 0; }
void *ov_ezhash_find(void *h, void *k, int n) { return vf_choice(2) ? NULL : vf_str(typ); }
static char *now;
char *ov_systime_gmt(void) { return now; }
int ov_ev_opt(con_t *c, int op) { return 0; }
int ov_tm_add(ev_timer_t *t, timer_cb cb, void *d, int ms) { return 0; }
int ov_tm_del(ev_timer_t *t) { return 0; }
int ov_net_free(con_t *c) { closed = 1; if (c->data_cb) c->data_cb(c->data); meta_free(c->meta); c->meta = NULL; return 0; }
int ov_stat(const char *p, struct stat *st)
{
    char last = p[strlen(p)];
    switch (vf_choice(3)) { case 0: return -1; case 1: st->st_mode = S_IFREG | 0644; break; default: st->st_mode = S_IFDIR; }
    st->st_size = vf_any(0, 1L << 40);
    return 0;
}
int ov_open(const char *p, int fl, ...) { return vf_choice(2) ? 7 : -1; }
int ov_close(int fd) { return 0; }
long ov_read(int fd, char *b, long n) { return -1; }
static int tx(con_t *c, unsigned char *b, int n) { if (n > 0) { char x = b[0], y = b[n - 1]; } return -1; }
static int txc(con_t *c, meta_t *m)
{
    for (; m; m = m->next) {
        vf_check(m->pos >= m->start && m->pos <= m->last && m->last <= m->end, "P12: a block's positions stay inside it");
        m->pos = m->last;
    }
    return 0;
}
void drv_webbound(void)
{
    long n, o; int m; meta_t *b = NULL;
    if (webser_init()) return;
    now = vf_str(63);
    vf_data(config_get()->http_home, sizeof(config_get()->http_home) - 1); vf_data(config_get()->http_index, sizeof(config_get()->http_index) - 1);
    config_get()->http_home[sizeof(config_get()->http_home) - 1] = 0; config_get()->http_index[sizeof(config_get()->http_index) - 1] = 0;
    if (!(req = mem_pool_alloc(sizeof(web_req_t)))) return;
    req->cb = done;
    if (meta_alloc(&con.meta, 4096)) return;
    con.ev = &ev; con.send = tx; con.send_chain = txc; con.fd = 5;
    o = vf_any(0, 4095); n = vf_any(0, 4096); vf_assume(n + o < 4096);
    vf_data(con.meta->start, 4096);
    con.meta->last = con.meta->start + 4096; con.meta->pos = con.meta->last - vf_any(0, 4096);
    req->uri.data = con.meta->start + o; req->uri.len = n;
    m = vf_choice(3);
    req->method_typ = m == 0 ? HTTP_METHOD_GET : m == 1 ? HTTP_METHOD_POST : 0;
    req->fkeepalive = vf_choice(2);
    if (vf_choice(2)) {
        bodyN = vf_any(1, 10 * 1024 * 1024);
        if (meta_alloc(&b, bodyN)) return;
        b->last = b->end; req->payload = b; req->payloadn = bodyN;
    }
    webser_accept_cb(&con);
}
