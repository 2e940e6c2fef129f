// Sending a file of any size, read and sent in pieces of any size.
#include "vf.h"
#include "http_req.h"
#include "webser.h"
const char vf_keep[] = "log_print";
const char vf_props[] = "P18 P12";
const char vf_full[] = "";
static con_t con; static ev_t ev; static web_req_t req; static int closed, steps, opened, bad, hdr, again; static long size, got, sent, n1; static char *at; static long atOff, atN; static char uri[4] = "/f ";
void *ov_mem_pool_alloc(int n) { void *p = calloc(1, n); vf_assume(p != NULL); return p; }
int ov_mem_pool_free(void *p) { free(p); return 0; }
static int done(con_t *c, web_req_t *r) { return again++ ? -1 : 0; }
web_req_t *ov_web_req_alloc(void) { req.cb = done; return &req; }
void ov_web_req_free(web_req_t *r) { }
int ov_ezhash_add(void *h, void *k, int n, void *v, int m) { return 0; }
int ov_ezhash_create(void **h, int n) { *h = &closed; return 0; }
void *ov_ezhash_find(void *h, void *k, int n) { return NULL; }
char *ov_strstr(const char *a, const char *b) { return NULL; }
char *ov_systime_gmt(void) { return "D"; }
int ov_ev_opt(con_t *c, int op) { return 0; }
int ov_tm_add(ev_timer_t *t, timer_cb cb, void *d, int ms) { return 0; }
int ov_tm_del(ev_timer_t *t) { return 0; }
int ov_net_free(con_t *c) { vf_check(!closed, "P05 P18: a connection is closed once"); closed = 1; if (c->data_cb) c->data_cb(c->data); meta_free(c->meta); return 0; }
int ov_stat(const char *p, struct stat *st) { st->st_mode = S_IFREG | 0644; st->st_size = size; return 0; }
int ov_fstat(int fd, struct stat *st) { st->st_mode = S_IFREG | 0644; st->st_size = size; return 0; }
int ov_open(const char *p, int fl, ...) { opened = 1; return 7; }
int ov_close(int fd) { vf_check(fd == 7 && opened == 1, "P28 P18: a file is closed once"); opened = 0; return 0; }
// printing: only the number that is declared matters
static void text(char *b, long room, const char *f)
{
    if (f[0] == 'C' && f[8] == 'L') { long w = (long)vf_arg(0); int i; for (i = 16; f[i] == '%' || f[i] == 'l' || f[i] == 'z' || f[i] == 'j'; i++) ; if (i == 17) w = (int)w; vf_check(w == size, "P18: the declared length is the size of the file"); hdr = 1; }
    b[0] = 'h'; b[1] = 0;
}
int ov_vsnprintf(char *b, unsigned long n, const char *f, void *ap) { text(b, n, f); return 1; }
int ov_snprintf(char *b, unsigned long n, const char *f, ...) { text(b, n, f); return 1; }
int ov_sprintf(char *b, const char *f, ...) { text(b, 1000, f); return 1; }
long ov_read(int fd, char *b, long n)
{
    long k;
    vf_check(fd == 7 && opened, "P28 P18: a file that is open is read");
    vf_check(n > 0, "P18: there is room to read into");
    vf_check(sent == got, "P18: what was read is sent before more is read over it");
    vf_assume(++steps < 6);
    vf_check(got < size, "P18: nothing is read when nothing is missing");
    if (vf_choice(3) == 0) { bad = 1; return -1; }
    if (vf_choice(2)) k = n; else k = n - vf_any(1, 1L << 20);
    vf_assume(k >= 1); // the file may have grown
    vf_data(b, k);
    at = b; atOff = got; atN = k; got += k;
    return k;
}
static int tx(con_t *c, unsigned char *b, int n)
{
    long k;
    vf_check(!closed, "P05 P18: something is sent to an open connection");
    vf_check(hdr, "P18: the header comes before the body");
    vf_check((char *)b - at + atOff == sent, "P18: the body continues where it stopped");
    vf_check(n <= size - sent, "P18: no more is sent than was declared");
    vf_check(n > 0 && n <= got - sent, "P18: only bytes of the file are sent");
    vf_assume(++steps < 6);
    switch (vf_choice(4)) {
    case 0: return -11;
    case 1: bad = 1; return -1;
    case 2: k = n; break;
    default: k = n - vf_any(1, 1L << 20); vf_assume(k >= 1);
    }
    sent += k;
    return k;
}
static int txc(con_t *c, meta_t *m) { for (; m; m = m->next) m->pos = m->last; return 0; }
void drv_webfile(void)
{
    int i;
    if (webser_init()) return;
    size = vf_any(0, 1L << 40);
    req.uri.data = uri; req.uri.len = 2; req.method_typ = HTTP_METHOD_GET; req.fkeepalive = vf_choice(2);
    con.ev = &ev; con.send = tx; con.send_chain = txc; con.fd = 5;
    webser_accept_cb(&con);
    for (i = 0; i < 8 && !closed && ev.write_cb && !(again > 1); i++) { vf_assume(++steps < 7); ev.write_cb(&con); }
    vf_check(closed || again, "P18: the answer ends");
    if (!bad) vf_check(sent == size, "P18: the whole file is sent");
    vf_check(!opened, "P06 P28 P18: the file is closed");
}
