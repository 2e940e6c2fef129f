// Looking names up through any reply, and what the cache says afterwards.
#include "vf.h"
#include "dns.h"
#include "text.h"
const char vf_keep[] = "log_print";
const char vf_props[] = "P17";
const char vf_full[] = "";
static long now = 1000000; static int live; static ev_timer_t *tmT; static timer_cb tmCb; static void *tmData;
static con_t con; static ev_t ev; static unsigned char msg[400]; static int msgN, given; static int told, ok; static unsigned char got[4];
void *ov_mem_pool_alloc(int n) { void *p = calloc(1, n); vf_assume(p != NULL); live++; return p; }
int ov_mem_pool_free(void *p) { if (p) live--; free(p); return 0; }
long long ov_systime_msec(void) { return now; }
int ov_tm_add(ev_timer_t *t, timer_cb cb, void *d, int ms) { if (t != &ev.timer) { tmT = t; tmCb = cb; tmData = d; vf_check(ms > 0 && ms <= 3600 * 1000, "P17: the next clean-up is soon"); } return 0; }
int ov_tm_del(ev_timer_t *t) { return 0; }
int ov_net_alloc(con_t **c) { con.ev = &ev; *c = &con; return 0; }
int ov_net_free(con_t *c) { meta_free(c->meta); c->meta = NULL; return 0; }
int ov_socket(int a, int b, int c) { return 5; }
int ov_net_socket_reuseaddr(int fd) { return 0; }
int ov_net_socket_nbio(int fd) { return 0; }
unsigned ov_inet_addr(const char *s) { return 1; }
int ov_ev_opt(con_t *c, int o) { return 0; }
int ov_udp_sends(con_t *c, unsigned char *b, int n) { return n; }
int ov_udp_recvs(con_t *c, unsigned char *b, int n) { int i; if (given) return -1; given = 1; if (!msgN) return -1; for (i = 0; i < msgN; i++) b[i] = msg[i]; return msgN; }
static void result(int st, unsigned char *r, void *u)
{
    int i;
    vf_check(!told, "P17: a lookup is answered once");
    told = 1; ok = st == 0;
    if (ok) for (i = 0; i < 4; i++) got[i] = r[i];
}
static char *name[3] = { "a.a", "i.z", "o.s" }; // fall into one bucket
static struct { long exp; int tag; } rep[3][3]; static int reps[3]; static long must[3];
static int tags;
static void b(int v) { msg[msgN++] = v; }
static void w(int v) { b(v >> 8 & 255); b(v & 255); }
static const unsigned ttls[] = { 0, 1, 5, 0xffffffff, 3000000 };
static void record(int form, int typ, int len, unsigned ttl, int tag)
{
    int i;
    if (form == 0) w(0xc00c); else if (form == 1) b(0); else { b(1); b('q'); b(0); }
    w(typ); w(1); w(ttl >> 16); w(ttl & 0xffff); w(len);
    for (i = 0; i < len; i++) b(i < 4 ? tag + i : 77);
}
static void ask(dnsc_t **d, int i) { told = ok = given = 0; *d = NULL; dns_alloc(d, name[i], result, NULL); vf_check(told, "P17: a lookup whose reply has come is answered"); if (*d) dns_free(*d); }
static void head(int id, int qd, int an, const char *q) { msgN = 0; w(id); w(0x8180); w(qd); w(an); w(0); w(0); b(1); b(q[0]); b(1); b(q[2]); b(0); w(1); w(1); }
static void look(int i)
{
    char a[4]; int j, k, found = dns_rec_find(name[i], a) == 0, fine = 0;
    if (found) {
        for (k = 0; k < reps[i]; k++) if (rep[i][k].exp > now && a[0] == rep[i][k].tag && a[1] == rep[i][k].tag + 1 && a[2] == rep[i][k].tag + 2 && a[3] == rep[i][k].tag + 3) fine = 1;
        vf_check(fine, "P17: an address from the cache was given for that name and its lifetime has not run out");
    }
    if (must[i] > now) vf_check(found, "P17: a live entry is kept");
}
// a good reply for name i
static void learn(int i)
{
    dnsc_t *d; unsigned ttl = ttls[vf_choice(4)]; int tag = 4 * ++tags; long e = now + 1000L * ttl, m = now + 1000L * (ttl < 10800 ? ttl : 10800);
    head(0xbeef, 1, 1, name[i]); record(0, 1, 4, ttl, tag);
    ask(&d, i);
    vf_assume(ok);
    rep[i][reps[i]].exp = e; rep[i][reps[i]++].tag = tag;
    if (ttl) must[i] = must[i] > now ? (must[i] < m ? must[i] : m) : m;
}
static void cache(void)
{
    int i, n, base;
    base = live;
    for (n = 0; n < 4; n++) {
        switch (n == 0 ? 0 : n == 3 ? 3 : n == 1 ? 1 + vf_choice(3) : 2 + vf_choice(2)) {
        case 0: learn(0); break;
        case 1: learn(0); break;
        case 2: learn(n); break;
        default: if (tmCb) { timer_cb cb = tmCb; tmCb = NULL; cb(tmData); vf_check(tmCb != NULL, "P17: the clean-up goes on");
                   for (i = 0; i < 3; i++) { int k, any = 0; for (k = 0; k < reps[i]; k++) if (rep[i][k].exp > now) any = 1; if (any) break; }
                   if (i == 3) vf_check(live == base, "P17: expired entries are dropped"); } break;
        }
        look(0); look(1); look(2);
        if (n < 3) switch (vf_choice(4)) { case 0: break; case 1: now += 999; break; case 2: now += 1000; break; default: now += 5001; }
        look(0); look(1);
    }
}
// any reply to one lookup
static void reply(void)
{
    dnsc_t *d; int i, n, good, start[2], typ[2], len[2], full, cut, first = -1, id, qd, an, other;
    id = qd = 1; an = 1 + vf_choice(2); other = 0;
    switch (vf_choice(6)) { case 0: id = 0; break; case 1: qd = 0; break; case 2: an = 0; break; case 3: other = 1; break; case 4: other = 2; break; }
    head(id ? 0xbeef : 0xbeee, qd, an, other == 0 ? name[0] : other == 1 ? "b.a" : "A.A");
    n = 1 + vf_choice(2);
    for (i = 0; i < n; i++) {
        switch (vf_choice(3)) { case 0: typ[i] = 1; break; case 1: typ[i] = 5; break; default: typ[i] = 28; }
        switch (vf_choice(4)) { case 0: len[i] = 4; break; case 1: len[i] = 3; break; case 2: len[i] = 0; break; default: len[i] = 16; }
        record(i ? 0 : vf_choice(3), typ[i], len[i], ttls[4], 4 + 4 * i);
        start[i] = msgN;
    }
    cut = vf_choice(3) ? 0 : 1 + vf_choice(7); msgN -= cut;
    for (i = 0; i < n; i++) if (first < 0 && typ[i] == 1 && len[i] == 4 && start[i] <= msgN) first = i;
    ask(&d, 0);
    if (ok) {
        vf_check(id == 1, "P17: a reply with another identifier is not used");
        vf_check(other != 1, "P17: a reply to another question is not used");
        vf_check(qd && an, "P17: a reply without question or answer is not used");
        vf_check(first >= 0, "P17: only a complete four-byte address record is used");
        vf_check(got[0] == 4 + 4 * first || (n == 2 && first == 0 && typ[1] == 1 && len[1] == 4 && start[1] <= msgN && got[0] == 8), "P17: the address is the one in the record");
        vf_check(got[1] == got[0] + 1 && got[2] == got[0] + 2 && got[3] == got[0] + 3, "P17: the address is the one in the record");
        rep[0][0].exp = now + 3000000000L; rep[0][0].tag = got[0]; reps[0] = 1;
    }
    look(0); look(1); look(2);
}
// names that only differ beyond some length
static char la[260], lb[260];
static void put_(const char *n) { int i = 0, k; for (;;) { for (k = 0; n[i + k] && n[i + k] != '.'; k++) ; b(k); for (; k; k--) b(n[i++]); if (!n[i]) break; i++; } b(0); }
static void longs(void)
{
    static const int lens[] = { 17, 33, 64, 65, 127, 128, 129, 200, 250 }, cuts[] = { 15, 16, 31, 32, 62, 63, 64, 126, 127, 128, 199 };
    int i, L = lens[vf_choice(9)], T = cuts[vf_choice(11)], f; char *save = name[0], a[4]; dnsc_t *d;
    vf_assume(T < L);
    for (i = 0; i < L; i++) la[i] = i % 40 == 39 && i < L - 1 ? '.' : 'a' + i % 26;
    for (i = 0; i < T; i++) lb[i] = la[i];
    vf_assume(lb[T - 1] != '.');
    if (vf_choice(2)) for (; i < L; i++) lb[i] = la[i] == '.' ? '.' : 'z';
    f = vf_choice(2);
    name[0] = f ? la : lb;
    msgN = 0; w(0xbeef); w(0x8180); w(1); w(1); w(0); w(0); put_(name[0]); w(1); w(1); record(0, 1, 4, 5, 8);
    ask(&d, 0);
    vf_check(ok && got[0] == 8 && got[3] == 11, "P17: the address is the one in the record");
    vf_check(dns_rec_find(f ? la : lb, a) == 0 && a[0] == 8, "P17: a live entry is kept");
    vf_check(dns_rec_find(f ? lb : la, a) != 0, "P17: an address from the cache was given for that name");
    name[0] = save; vf_note("pairs of long names");
}
void drv_dnscache(void)
{
    if (dns_init()) return;
    switch (vf_choice(3)) { case 0: cache(); break; case 1: reply(); break; default: longs(); }
}
