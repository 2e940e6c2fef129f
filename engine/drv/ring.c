// One push or pull on every well-formed ring buffer of unknown size and fill.
#include "vf.h"
#include "ringbuffer.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P27";
static ringbuffer_t *rb;
static long S, cur, done, total; static char *user; static int busy, held;
int ov_pthread_mutex_init(void *m, void *a) { return 0; }
int ov_pthread_mutex_lock(void *m) { vf_check(!held, "P21: a lock is not taken while it is held"); held = 1; return 0; }
int ov_pthread_mutex_unlock(void *m) { vf_check(held, "P21: only a held lock is released"); held = 0; return 0; }
void ov_memcpy(char *d, char *s, long n)
{
    char *in = busy == 1 ? d : s, *out = busy == 1 ? s : d;
    if (n == 0) return;
    vf_check(n > 0, "P27: a copy has a length");
    vf_check(in == rb->data + cur, "P27: bytes are put and taken in order");
    vf_check(out == user + done, "P27: the caller's bytes are moved in order");
    vf_check(cur + n <= S, "P27: a copy stays inside the buffer");
    vf_check(done + n <= total, "P27: no more bytes are moved than asked for");
    cur += n; done += n;
    if (cur == S) cur = 0;
}
static void wf(void)
{
    long p = rb->pos - rb->data, l = rb->last - rb->data;
    vf_check(p >= 0 && p <= S && l >= 0 && l <= S, "P27: the positions stay inside the buffer");
    vf_check(rb->datan >= 0 && rb->datan <= S, "P27: the fill level stays inside the buffer");
    if (p < l) vf_check(rb->datan == l - p, "P27: the fill level matches the positions");
    else if (p > l) vf_check(rb->datan == S - p + l, "P27: the fill level matches the positions");
    else if (rb->datan != 0) vf_check(rb->datan == S, "P27: the fill level matches the positions");
}
void drv_ring(void)
{
    long p, l, n, rc, was; int out = -1;
    S = vf_any(1, 8000);
    if (ringbuffer_alloc(&rb, S) != 0) return;
    p = vf_any(0, S); l = vf_any(0, S);
    vf_assume(p <= S); vf_assume(l <= S);
    switch (vf_choice(4)) {
        case 0: vf_assume(p < l); rb->datan = l - p; break;
        case 1: vf_assume(l < p); rb->datan = S - p + l; break;
        case 2: l = p; rb->datan = 0; break;
        default: l = p; rb->datan = S; break;
    }
    rb->pos = rb->data + p; rb->last = rb->data + l;
    was = rb->datan;
    n = vf_any(1, 8000);
    user = vf_mem(n);
    total = n;
    if (vf_choice(2)) {
        busy = 1; cur = l == S ? 0 : l;
        rc = ringbuffer_push(rb, (unsigned char *)user, n);
        if (rc == 0) {
            vf_check(done == n, "P27: a push stores all bytes");
            vf_check(rb->datan == was + n, "P27: a push adds exactly its bytes");
        } else {
            vf_check(done == 0 && rb->datan == was, "P27: a refused push changes nothing");
            vf_check(n > S - was, "P27: a push is refused only without room");
        }
    } else {
        busy = 2; cur = p == S ? 0 : p;
        rc = ringbuffer_pull(rb, n, (unsigned char *)user, &out);
        if (rc == 0) {
            vf_check(out == done, "P27: a pull reports the bytes it delivered");
            vf_check(rb->datan == was - done, "P27: a pull takes exactly the bytes it delivered");
            vf_check(done == n || done == was, "P27: a pull delivers what is there");
        } else {
            vf_check(was == 0 && done == 0, "P27: a pull fails only when nothing is stored");
        }
    }
    vf_check(!held, "P21: the lock is released when the operation returns");
    wf();
}
