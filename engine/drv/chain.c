// Sending a chain of two buffers with unknown fill.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_join[] = "loops over unknown amounts";
const char vf_props[] = "P19";
static meta_t m[2]; static con_t c; static unsigned char *b[2]; static long sent[2], len[2]; static int last;
static int io(unsigned char *p, long n)
{
    int i = sent[0] < len[0] ? 0 : 1; long k;
    vf_check(p == b[i] + sent[i], "P19: a chain is sent in order, from the first unsent byte");
    vf_check(n > 0 && n <= len[i] - sent[i], "P19: a chain sends only bytes it holds");
    last = vf_choice(3);
    if (last == 1) return -11;
    if (last == 2) return -1;
    k = vf_any(1, 20000); vf_assume(k <= n);
    sent[i] += k;
    return k;
}
int ov_sends(con_t *x, unsigned char *p, int n) { return io(p, n); }
int ov_ssl_write(con_t *x, unsigned char *p, int n) { return io(p, n); }
void drv_chain(void)
{
    int i, rc, two = vf_choice(2);
    for (i = 0; i < 2; i++) {
        len[i] = vf_any(0, 8000); b[i] = vf_mem(8000);
        m[i].start = m[i].pos = b[i]; m[i].last = b[i] + len[i]; m[i].end = b[i] + 8000;
    }
    if (two) m[0].next = &m[1]; else len[1] = 0;
    rc = vf_choice(2) ? send_chains(&c, &m[0]) : ssl_write_chain(&c, &m[0]);
    if (rc == 1) vf_check(sent[0] == len[0] && sent[1] == len[1], "P19: a chain is reported as sent when every byte was");
    else vf_check(rc == (last == 1 ? -11 : -1) && last, "P19: a chain reports why it stopped");
    vf_check(m[0].pos == b[0] + sent[0] && m[1].pos == b[1] + sent[1], "P19: exactly the sent bytes are taken off the chain");
}
