// Which file a request may open: every short path over '/', '.' and other letters, also after long prefixes.
#include "vf.h"
#include "http_req.h"
#include "webser.h"
#include "text.h"
const char vf_keep[] = "log_print  memcpy";
const char vf_props[] = "P04";
const char vf_full[] = "";
static con_t con; static ev_t ev; static web_req_t req; static int closed, kind, opened, judged;
static char uri[1200], home[] = "/w", idx[] = "i.h";
static int done(con_t *c, web_req_t *r) { return 0; }
web_req_t *ov_web_req_alloc(void) { req.cb = done; return &req; }
void ov_web_req_free(web_req_t *r) { }
void *ov_mem_pool_alloc(int n) { void *p = calloc(1, n); vf_assume(p != NULL); return p; }
int ov_mem_pool_free(void *p) { free(p); return 0; }
int ov_ezhash_add(void *h, void *k, int n, void *v, int m) { return 0; }
int ov_ezhash_create(void **h, int n) { *h = &closed; return 0; }
void *ov_ezhash_find(void *h, void *k, int n) { return NULL; }
char *ov_systime_gmt(void) { return "D"; }
int ov_ev_opt(con_t *c, int op) { return 0; }
int ov_tm_add(ev_timer_t *t, timer_cb cb, void *d, int ms) { return 0; }
int ov_tm_del(ev_timer_t *t) { return 0; }
int ov_net_free(con_t *c) { closed = 1; return 0; }
// 1 an ordinary file, 2 a directory, 4 a pipe, 5 a device, 3 an ordinary file that may not be read, -1 nothing
static void judge(const char *p)
{
    unsigned long n = ov_strlen(p);
    if (judged) return;
    judged = 1;
    if (n && (p[n - 1] == '/' || (p[n - 1] == '.' && (n < 2 || p[n - 2] == '/' || (p[n - 2] == '.' && (n < 3 || p[n - 3] == '/')))))) { kind = vf_choice(2) ? 2 : -1; return; }
    switch (vf_choice(6)) { case 0: kind = 1; break; case 1: kind = 2; break; case 2: kind = 3; break; case 3: kind = 4; break; case 4: kind = 5; break; default: kind = -1; }
}
static int fill(struct stat *st) { if (kind < 0) return -1; st->st_mode = kind == 2 ? S_IFDIR | 0755 : kind == 4 ? S_IFIFO | 0644 : kind == 5 ? S_IFCHR | 0644 : kind == 1 ? S_IFREG | 0644 : S_IFREG; st->st_size = 3; return 0; }
int ov_stat(const char *p, struct stat *st) { judge(p); return fill(st); }
int ov_lstat(const char *p, struct stat *st) { judge(p); return fill(st); }
int ov_fstat(int fd, struct stat *st) { return fill(st); }
int ov_access(const char *p, int m) { judge(p); return kind < 0 ? -1 : 0; }
int ov_open(const char *p, int fl, ...)
{
    int i;
    judge(p);
    vf_check((fl & O_ACCMODE) == O_RDONLY && !(fl & (O_CREAT | O_TRUNC)), "P04: files are opened for reading only");
    vf_check(req.method_typ == HTTP_METHOD_GET, "P04: a file is opened for a retrieval request only");
    vf_check(p[0] == '/' && p[1] == 'w' && p[2] == '/', "P04: the opened name begins with the document root");
    for (i = 2; p[i]; i++)
        if (p[i] == '/' && p[i + 1] == '.' && p[i + 2] == '.' && (p[i + 3] == '/' || !p[i + 3])) vf_check(0, "P04: no component of the opened name steps upwards");
    if (kind < 0 || kind == 3) return -1;
    opened = 1;
    return 7;
}
int ov_close(int fd) { return 0; }
long ov_read(int fd, char *b, long n) { vf_check(fd == 7 && opened && kind == 1, "P04: only ordinary files are read"); return -1; }
static int tx(con_t *c, unsigned char *b, int n) { return n; }
static int txc(con_t *c, meta_t *m)
{
    unsigned char *p = m->pos;
    vf_check(!(p[9] == '2') || kind == 1, "P04: only an ordinary file is served");
    m->pos = m->last;
    return 0;
}
void drv_webpath(void)
{
    static const int pre[] = { 0, 60, 124, 252, 508, 1012 };
    int i, k, n, m, g;
    char other = vf_any('a', 'z');
    ov_strncpy(config_get()->http_home, home, 3); ov_strncpy(config_get()->http_index, idx, 4);
    if (webser_init()) return;
    k = pre[vf_choice(6)];
    uri[0] = '/'; n = 1;
    for (i = 0; i < k; i++) uri[n++] = 'a';
    g = k ? 0 : vf_choice(3);
    m = k || g ? 0 : vf_choice(3);
    if (g == 1) { // encoded and foreign separators
        static const char *const tok[] = { "/", ".", "%2e", "%2F", "\\", "?", "a" };
        for (i = 0; i < 4; i++) { const char *t = tok[vf_choice(7)]; while (*t) uri[n++] = *t++; }
    } else if (g == 2) { // longer mixtures of the two
        for (i = 0; i < 8; i++) uri[n++] = vf_choice(2) ? '/' : '.';
    }
    k = k ? 5 : g ? 0 : vf_choice(7);
    for (i = 0; i < k; i++) switch (vf_choice(3)) { case 0: uri[n++] = '/'; break; case 1: uri[n++] = '.'; break; default: uri[n++] = other; }
    req.uri.data = uri; req.uri.len = n; uri[n] = ' ';
    switch (m) { case 0: req.method_typ = HTTP_METHOD_GET; break; case 1: req.method_typ = HTTP_METHOD_POST; break; default: req.method_typ = 0; }
    con.ev = &ev; con.send = tx; con.send_chain = txc; con.fd = 5;
    webser_accept_cb(&con);
}
