// From a configuration to the connections it promises: every port is listened on, accepted and handed to its protocol.
#include "vf.h"
#include "dns.h"
#include "tls_tunnel_c.h"
#include "tls_tunnel_s.h"
#include "http_req.h"
#include "webser.h"
const char vf_keep[] = "log_print memcpy memset";
const char vf_props[] = "P35";
const char vf_full[] = "";
enum { NONE, CLIENT, SERVER, HTTP, HTTPS, FDS = 140 };
static int failed, budget, nextFd = 100, err_, called, acceptN, acceptFd[4], timed[4], closed_[FDS];
static char nb[FDS], isListen[FDS]; static unsigned short bound[FDS]; static ev_t *reg[FDS]; static int regEv[FDS];
static con_t *who; static int accN, accDone, trouble;
static int bad(void) { if (budget && vf_choice(2)) { budget = 0; failed = 1; return 1; } return 0; }
static int in(int fd) { vf_check(fd > 0 && fd < FDS && !closed_[fd], "P35 P28: only a descriptor that was obtained is used"); return fd; }
static int serving;
void *ov_mem_pool_alloc(int n) { void *p; if (serving && bad()) return NULL; p = calloc(1, n); vf_assume(p != NULL); return p; }
int ov_mem_pool_free(void *p) { free(p); return 0; }
int *ov___errno_location(void) { return &err_; }
int ov_tm_add(ev_timer_t *t, timer_cb cb, void *d, int ms) { int i; for (i = 0; i < acceptN; i++) if (reg[acceptFd[i]] && reg[acceptFd[i]]->c == d) timed[i] = 1; return 0; }
int ov_tm_del(ev_timer_t *t) { return 0; }
int ov_socket(int d, int t, int p) { vf_check(d == AF_INET && (t & 15) == SOCK_STREAM, "P35: ports are TCP ports"); if (bad()) return -1; vf_assume(nextFd < FDS); if (t & SOCK_NONBLOCK) nb[nextFd] = 1; return nextFd++; }
int ov_fcntl(int fd, int c, ...) { in(fd); if (bad()) return -1; if (c == F_SETFL && ((long)vf_arg(0) & O_NONBLOCK)) nb[fd] = 1; return 0; }
int ov_setsockopt(int fd, int l, int o, const void *v, unsigned n) { in(fd); return bad() ? -1 : 0; }
int ov_bind(int fd, const struct sockaddr *a, unsigned n)
{
    const struct sockaddr_in *s = (const void *)a; const unsigned char *p = (const void *)&s->sin_port;
    in(fd);
    vf_check(s->sin_family == AF_INET && s->sin_addr.s_addr == 0, "P35: ports are open on every address");
    if (bad()) return -1;
    bound[fd] = p[0] * 256 + p[1];
    return 0;
}
int ov_listen(int fd, int n) { in(fd); vf_check(n > 0, "P35: connections can wait to be accepted"); if (bad()) return -1; isListen[fd] = 1; return 0; }
int ov_epoll_create1(int f) { return 50; }
int ov_epoll_ctl(int ep, int op, int fd, struct epoll_event *e)
{
    in(fd);
    if (op == EPOLL_CTL_DEL) { reg[fd] = NULL; regEv[fd] = 0; return 0; }
    vf_check(op == EPOLL_CTL_ADD ? !reg[fd] : reg[fd] != NULL, "P35: a descriptor is registered once");
    reg[fd] = e->data.ptr; regEv[fd] = e->events;
    return 0;
}
int ov_accept(int fd, struct sockaddr *a, unsigned *n)
{
    in(fd); vf_check(isListen[fd], "P35: connections are accepted from a listening port");
    if (accDone == 2) { err_ = EMFILE; return -1; }
    if (accN == 3 || accDone) { err_ = EAGAIN; accDone = 1; return -1; }
    switch (trouble ? vf_choice(5) : 0) {
    case 1: trouble = 0; err_ = EINTR; return -1;
    case 2: trouble = 0; err_ = ECONNABORTED; return -1;
    case 3: err_ = EAGAIN; accDone = 1; return -1;
    case 4: err_ = EMFILE; accDone = 2; return -1;
    }
    accN++;
    vf_assume(nextFd < FDS && acceptN < 4);
    acceptFd[acceptN++] = nextFd;
    return nextFd++;
}
int ov_accept4(int fd, struct sockaddr *a, unsigned *n, int fl) { int k = ov_accept(fd, a, n); if (k > 0 && (fl & SOCK_NONBLOCK)) nb[k] = 1; return k; }
int ov_close(int fd) { in(fd); closed_[fd] = 1; reg[fd] = NULL; return 0; }
int ov_tls_tunnel_c_accept(con_t *c) { called = CLIENT; who = c; return 0; }
int ov_tls_tunnel_s_accept(con_t *c) { called = SERVER; who = c; return 0; }
int ov_webser_accept_cb(con_t *c) { called = HTTP; who = c; return 0; }
int ov_webser_accept_cb_ssl(con_t *c) { called = HTTPS; who = c; return 0; }
static int used[FDS];
static int find(int port) { int i, f = 0; for (i = 100; i < nextFd; i++) if (bound[i] == port && isListen[i] && !used[i]) { f = i; break; } if (f) used[f] = 1; return f; }
void drv_listen(void)
{
    static const int hn[] = { 0, 1, 2, 5, 8, 9 }, sn[] = { 0, 1, 3, 9 };
    config_t *g = config_get(); int i, rc, want[24], kind[24], fds[24], n = 0, k, fd; con_t *c;
    g->s5_mode = vf_choice(4); g->s5_local_port = 1080; g->s5_serv_port = 4433;
    g->http_num = hn[vf_choice(6)]; g->https_num = sn[vf_choice(4)];
    vf_assume(g->http_num + g->https_num <= 12);
    if (g->s5_mode == TLS_TUNNEL_C) { want[n] = 1080; kind[n++] = CLIENT; }
    if (g->s5_mode == TLS_TUNNEL_S) { want[n] = 4433; kind[n++] = SERVER; }
    for (i = 0; i < g->http_num; i++) { g->http_arr[i] = 8000 + 257 * i; want[n] = 8000 + 257 * i; kind[n++] = HTTP; }
    for (i = 0; i < g->https_num; i++) { g->https_arr[i] = 40000 + 513 * i; want[n] = 40000 + 513 * i; kind[n++] = HTTPS; }
    budget = n > 0 && n <= 3 && vf_choice(2);
    rc = listen_init();
    if (failed) { vf_check(rc != 0, "P35: start-up stops when a port cannot be opened"); vf_note("start-ups refused"); return; }
    budget = 0;
    if (rc) { vf_check(n > 4, "P35: a configuration with a few ports is served"); vf_note("start-ups refused"); return; }
    for (i = 0; i < n; i++) { fds[i] = find(want[i]); vf_check(fds[i] > 0, "P35: every configured port is listened on"); vf_check(nb[fds[i]], "P35 P10: a listening port never blocks the worker"); }
    for (i = 100; i < nextFd; i++) vf_check(used[i] && !closed_[i], "P35: nothing but the configured ports is listened on");
    rc = ev_init();
    vf_check(rc == 0, "P35: a worker starts");
    for (i = 0; i < n; i++) vf_check(reg[fds[i]] && (regEv[fds[i]] & EPOLLIN), "P35: a worker waits for connections on every configured port");
    vf_note("configurations served");
    if (!n) return;
    k = vf_choice(n); c = reg[fds[k]]->c; trouble = vf_choice(2); budget = trouble && vf_choice(2);
    serving = 1; reg[fds[k]]->read_cb(c); serving = 0;
    vf_check(accDone, "P35 P08: connections are accepted until none is waiting");
    for (i = 0; i < acceptN; i++) {
        fd = acceptFd[i];
        if (closed_[fd]) { vf_check(failed, "P35: an accepted connection is served"); continue; }
        vf_check(reg[fd] && (regEv[fd] & EPOLLIN), "P35 P06 P08: an accepted connection is waited for");
        vf_check(timed[i], "P07 P35: an accepted connection has a deadline");
        vf_check(nb[fd], "P35 P10: an accepted connection never blocks the worker");
        vf_check(reg[fd]->c && reg[fd]->c->fd == fd, "P35: an accepted connection keeps its descriptor");
        called = NONE; reg[fd]->read_cb(reg[fd]->c);
        vf_check(called == kind[k] && who == reg[fd]->c, "P35: a connection is given to the protocol its port is configured for");
        vf_check((reg[fd]->c->fssl != 0) == (kind[k] == SERVER || kind[k] == HTTPS), "P35 P03: a connection is marked for TLS as its port is configured");
        vf_note("connections accepted");
    }
}
