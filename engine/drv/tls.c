// TLS read and write primitives against every outcome of the library.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P19";
static int out, why, calls; static long moved; static void *ubuf; static long ulen; static con_t c; static ev_t ev; static ssl_con_t sc;
static int io(void *b, long n)
{
    vf_check(b == ubuf && n == ulen, "P19: the whole buffer of the caller is offered");
    calls++;
    out = vf_choice(2);
    if (out) { why = 1 + vf_choice(12); return -(int)vf_any(0, 1); }
    moved = vf_any(1, 100000); vf_assume(moved <= n);
    return moved;
}
int ov_SSL_read(void *s, void *b, int n) { return io(b, n); }
int ov_SSL_write(void *s, void *b, int n) { return io(b, n); }
int ov_SSL_get_error(void *s, int rc) { return rc > 0 ? 0 : why; }
int ov_ev_opt(con_t *x, int o) { x->ev->opt = o; return 0; }
void ov_ERR_clear_error(void) { }
static int q;
unsigned long ov_ERR_peek_error(void) { return q ? 77 : 0; }
unsigned long ov_ERR_get_error(void) { if (q) q--; return 77; }
void ov_ERR_error_string_n(unsigned long e, char *b, unsigned long n) { if (n) b[0] = 0; }
static int rd(con_t *x) { return 0; }
static int wr(con_t *x) { return 0; }
void drv_tls(void)
{
    int rc, op;
    q = vf_choice(2);
    c.ev = &ev; c.ssl = &sc; ev.c = &c; ev.read_cb = rd; ev.write_cb = wr; ev.opt = (int)vf_any(0, 3);
    ulen = vf_any(1, 20000);
    ubuf = vf_mem(ulen);
    op = vf_choice(2);
    rc = op ? ssl_read(&c, ubuf, ulen) : ssl_write(&c, ubuf, ulen);
    vf_check(calls >= 1, "P19: the library is asked");
    if (!out) vf_check(rc == moved, "P19: the number of bytes moved is reported exactly");
    else if (why == 2 || why == 3) vf_check(rc == -11, "P19: a call that would block is reported as retry");
    else vf_check(rc == -1, "P19: a failed or ended TLS stream is reported as an error");
}
