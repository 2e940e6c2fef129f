// Two requests on one connection, cut anywhere, with any outcome of the file system: what is answered.
#include "vf.h"
#include "http_req.h"
#include "webser.h"
#include "text.h"
const char vf_keep[] = "log_print ";
const char vf_props[] = "P18 P29";
const char vf_full[] = "";
static con_t con; static ev_t ev; static int closed, kind, openFds, asked, fsz, fpos, armed;
static char in[20000], out[1600]; static int inN, inP, cut, cutDone, outN, noAnswer, big; // big: the second request fills the buffer
static int kinds[2], failAt = -1, failed, live, timed;
void *ov_mem_pool_alloc(int n)
{
    void *p;
    if (failAt >= 0 && failAt-- == 0) { failed = 1; return NULL; }
    p = calloc(1, n); vf_assume(p != NULL); live++;
    return p;
}
int ov_mem_pool_free(void *p) { if (p) live--; free(p); return 0; }
int ov_ezhash_add(void *h, void *k, int n, void *v, int m) { return 0; }
int ov_ezhash_create(void **h, int n) { *h = &closed; return 0; }
void *ov_ezhash_find(void *h, void *k, int n) { return vf_choice(2) ? NULL : "t/x"; }
char *ov_systime_gmt(void) { return "D"; }
int ov_ev_opt(con_t *c, int op) { vf_check(!closed, "P05 P29: a closed connection is left alone"); armed = op; return 0; }
int ov_tm_add(ev_timer_t *t, timer_cb cb, void *d, int ms) { timed = t == &ev.timer && d == &con && ms > 0; return 0; }
int ov_tm_del(ev_timer_t *t) { timed = 0; return 0; }
int ov_net_free(con_t *c)
{
    vf_check(!closed, "P05 P29: a connection is closed once");
    closed = 1;
    if (c->data_cb) c->data_cb(c->data);
    meta_free(c->meta);
    return 0;
}
int ov_stat(const char *p, struct stat *st)
{
    kind = vf_choice(4);
    kinds[asked & 1] = kind; asked++;
    if (kind == 3) return -1;
    st->st_mode = kind == 2 ? S_IFDIR | 0755 : kind == 0 ? S_IFREG | 0644 : S_IFREG;
    st->st_size = fsz = vf_choice(3) * 2;
    return 0;
}
int ov_open(const char *p, int fl, ...) { fpos = 0; if (vf_choice(2)) { kinds[(asked - 1) & 1] = 4; return -1; } openFds++; return 7; }
int ov_close(int fd) { vf_check(fd == 7 && openFds == 1, "P28 P29: the file of a request is closed once"); openFds--; return 0; }
long ov_read(int fd, char *b, long n)
{
    long i;
    vf_check(fd == 7 && openFds == 1, "P28 P18: a file that is open is read");
    if (n > fsz - fpos) n = fsz - fpos;
    if (n > 1 && !big && vf_choice(2)) n--;
    for (i = 0; i < n; i++) b[i] = 'p' + fpos + i;
    fpos += n;
    return n;
}
long ov_recv(int fd, char *b, long n, int fl) { if (inP < inN && !(inP == cut && !cutDone)) return 1; errno = EAGAIN; return -1; }
static void fill(int room);
static int rx(con_t *c, unsigned char *b, int n)
{
    int k, i;
    if (big == 1) fill(n);
    if (inP == cut && !cutDone) return -11;
    k = (inP < cut ? cut : inN) - inP;
    if (!k) return -1;
    if (k > n) k = n;
    for (i = 0; i < k; i++) b[i] = in[inP + i];
    inP += k;
    return k;
}
static int hold;
static int tx(con_t *c, unsigned char *b, int n)
{
    int i;
    vf_check(!closed && n > 0, "P05 P18: something is sent to an open connection");
    vf_check(outN + n < 400, "P29: nothing but the answers is sent");
    if (hold && hold-- == 1) return -11;
    if (n > 1 && !big && vf_choice(2)) n--;
    for (i = 0; i < n; i++) out[outN++] = b[i];
    return n;
}
static int txc(con_t *c, meta_t *m)
{
    for (; m; m = m->next)
        while (m->last > m->pos) {
            int i, n = m->last - m->pos;
            vf_check(!closed, "P05 P18: something is sent to an open connection");
            vf_check(outN + n < 400, "P29: nothing but the answers is sent");
            if (hold && hold-- == 1) return -11;
            for (i = 0; i < n; i++) out[outN++] = m->pos[i];
            m->pos += n;
        }
    return 0;
}
static int at;
static int is(int p, const char *t) { int i; for (i = 0; t[i]; i++) if (p + i >= outN || out[p + i] != t[i]) return 0; return 1; }
// one answer: status, then the declared number of body bytes
static int answer(const char *body, int bn, int *code)
{
    int len = -1, i, e;
    if (at >= outN) return 0;
    vf_check(is(at, "HTTP/1.1 "), "P18 P29: an answer begins with a status line");
    *code = (out[at + 9] - '0') * 100 + (out[at + 10] - '0') * 10 + out[at + 11] - '0';
    vf_check(*code >= 100 && *code <= 599 && out[at + 12] == ' ', "P18: the status line names a status");
    for (;;) {
        for (e = at; e < outN && out[e] != '\r' && out[e] != '\n'; e++) ;
        vf_check(e + 1 < outN && out[e] == '\r' && out[e + 1] == '\n', "P18: every header line ends with CR LF");
        if (e == at) { at += 2; break; }
        if (is(at, "Content-Length: ")) { vf_check(len < 0, "P18: the length is declared once"); for (len = 0, i = at + 16; i < e; i++) { vf_check(out[i] >= '0' && out[i] <= '9', "P18: the declared length is a number"); len = len * 10 + out[i] - '0'; } }
        at = e + 2;
    }
    vf_check(len == bn, "P18 P29: the declared length is the length of the body");
    vf_check(at + bn <= outN, "P18 P29: the declared number of body bytes follows");
    for (i = 0; i < bn; i++) vf_check(out[at + i] == body[i], "P18 P29: a request is answered with its own content");
    at += bn;
    return 1;
}
static void add(const char *t) { int i; for (i = 0; t[i]; i++) in[inN++] = t[i]; }
// 0 a file, 1 the time, 2 an echo, 3 an echo without a body, 4 an echo that spells a request, 5 the same after many headers
static int sent[2];
static void request(int k, int keep)
{
    add(k == 0 ? "GET /f" : k == 1 ? "GET /echo" : "POST /echo");
    add(" HTTP/1.1\r\n");
    if (keep) add("Connection: Keep-Alive\r\n");
    if (k == 5) { int i; for (i = 0; i < 40; i++) add("A: b\r\n"); add("Content-Length: 18\r\n"); }
    if (k == 2) add("Content-Length: 2\r\n");
    if (k == 4) add("Content-Length: 18\r\n");
    add("\r\n");
    if (k == 2) add("yz");
    if (k >= 4) add("GET /f HTTP/1.1\r\n\r");
}
static void fill(int room)
{
    big = 2; vf_assume(room > 100 && room < 19000); room -= 20 * vf_choice(2);
    add("POST /echo HTTP/1.1\r\nA: "); while (inN < room) in[inN++] = 'b';
    add("\r\nContent-Length: 2\r\n\r\nyz"); cut = vf_choice(2) ? room - 1 : inN;
}
static void expect(int i, int nth)
{
    int code = 0, bad, fs = fsz, k = sent[i];
    const char *b = k == 1 ? "D" : k == 2 ? "yz" : k >= 4 ? "GET /f HTTP/1.1\r\n\r" : "pqrstuvw";
    bad = k == 3 || (k == 0 && kinds[nth] != 0);
    if (k == 0) { vf_check(answer(b, bad ? 0 : fs, &code), "P29: every request is answered"); }
    else vf_check(answer(b, bad ? 0 : k == 1 ? 1 : k == 2 ? 2 : 18, &code), "P29: every request is answered");
    vf_check((code == 200) == !bad, "P18: only a success is reported as a success");
    if (k == 0 && kinds[nth] == 1) vf_check(code == 403, "P18: a file that may not be read is reported as such");
    if (k == 0 && kinds[nth] == 2) vf_check(code == 404, "P18: a name that is no file is reported as not found");
    if (k == 0 && kinds[nth] == 4) vf_check(code == 500, "P18: a file that cannot be opened is reported as a server error");
}
void drv_webans(void)
{
    int i, two, a;
    if (webser_init()) return;
    live = 0;
    a = vf_choice(7); if (a == 6) { big = 1; a = 0; }
    two = big ? 2 : a == 5 ? 1 : vf_choice(3);
    sent[0] = a; request(a, two > 0);
    sent[1] = big ? 2 : -1; if (big) cut = inN + 1;
    if (big) ; // the second is written when the size of the buffer is known
    else if (two > 1) { sent[1] = a == 0 ? 2 : a == 1 ? 0 : a == 2 ? 4 : 1; request(sent[1], vf_choice(2)); }
    if (big) ;
    else if (vf_choice(2)) { // cut anywhere
        cut = a == 5 ? inN / 2 : 1 + vf_choice(inN - 1);
        hold = vf_choice(3);
    } else { // memory runs out somewhere
        cut = inN / 2; failAt = vf_choice(14);
    }
    con.ev = &ev; con.recv = rx; con.send = tx; con.send_chain = txc; con.fd = 5;
    webser_accept_cb(&con);
    for (i = 0; i < 12 && !closed; i++) {
        vf_check(timed, "P07: a connection that waits has a deadline");
        if (inP == cut) cutDone = 1;
        if (ev.read_cb && (armed & EV_R)) ev.read_cb(&con);
        if (!closed && ev.write_cb && (armed & EV_W)) ev.write_cb(&con);
    }
    vf_check(closed, "P08 P29: a connection whose input ended is closed");
    vf_check(!openFds, "P06 P28 P29: the file of a request is closed");
    vf_check(live == 0, "P06: everything a connection used is released");
    if (failed || (a == 5 && !outN)) return; // refused
    expect(0, 0);
    if (two > 1) expect(1, a == 0 ? 1 : 0);
    vf_check(at == outN, "P29: nothing but the answers is sent");
}
