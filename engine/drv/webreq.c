// Parsing any HTTP request, delivered in any pieces.
#include "vf.h"
#include "http_req.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P12";
const char vf_table[] = "";
const char vf_join[] = "";
static con_t con;
static meta_t *body;
static int rx(con_t *c, unsigned char *b, int n)
{
    long k;
    vf_check(n > 0 && n <= 10 * 1024 * 1024, "P12: there is room to receive into");
    switch (vf_choice(3)) {
    case 0: return -11;
    case 1: return -1;
    }
    k = n - vf_any(0, 1L << 24); vf_assume(k >= 1);
    vf_data(b, k);
    return k;
}
static void in(string_t *s, const char *what)
{
    if (!s->data) { vf_check(s->len == 0, "P12: a missing part is empty"); return; }
    vf_check(s->data >= con.meta->start, "P12: a part of the request lies in the receive buffer");
    vf_check(s->data + s->len <= con.meta->end, "P12: a part of the request lies in the receive buffer");
}
void drv_webreq(void)
{
    int rc, i;
    web_req_t *r;
    if (meta_alloc(&con.meta, 4096)) return;
    con.recv = rx;
    if (!(r = web_req_alloc())) return;
    while ((rc = r->cb(&con, r)) == -11) vf_merge();
    if (rc == 0) {
        in(&r->uri, "path"); in(&r->method, "method");
        if (r->payload) vf_check(r->payload->last - r->payload->pos == r->payloadn, "P12: a body is complete when it is used");
        vf_check(con.meta->pos <= con.meta->last, "P12: consumed bytes were received");
    }
    web_req_free(r);
}
