// List, array and hash operations on up to three elements.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P27";
static queue_t h, e[4];
static void expect(queue_t *a, queue_t *b, queue_t *c, queue_t *d)
{
    queue_t *x[4], *p; int i, n = 0;
    x[0] = a; x[1] = b; x[2] = c; x[3] = d;
    for (i = 0; i < 4; i++) if (x[i]) x[n++] = x[i];
    vf_check(!queue_empty(&h) == (n > 0), "P27: a list knows whether it is empty");
    p = queue_head(&h);
    for (i = 0; i < n; i++) {
        vf_check(p == x[i], "P27: a list holds its elements in order");
        vf_check(queue_next(queue_prev(p)) == p, "P27: a list is linked both ways");
        p = queue_next(p);
    }
    vf_check(p == queue_tail(&h), "P27: a list ends after its last element");
    vf_check(queue_prev(&h) == (n ? x[n - 1] : &h), "P27: a list knows its last element");
}
void drv_queue(void)
{
    int n = vf_choice(4), i, op;
    queue_init(&h);
    for (i = 0; i < n; i++) queue_insert_tail(&h, &e[i]);
    expect(n > 0 ? &e[0] : NULL, n > 1 ? &e[1] : NULL, n > 2 ? &e[2] : NULL, NULL);
    op = vf_choice(3);
    if (op == 0) { queue_insert(&h, &e[3]); expect(&e[3], n > 0 ? &e[0] : NULL, n > 1 ? &e[1] : NULL, n > 2 ? &e[2] : NULL); }
    else if (op == 1) { queue_insert_tail(&h, &e[3]); expect(n > 0 ? &e[0] : NULL, n > 1 ? &e[1] : NULL, n > 2 ? &e[2] : NULL, &e[3]); }
    else if (n) {
        i = vf_choice(n);
        queue_remove(&e[i]);
        expect(n > 0 && i != 0 ? &e[0] : NULL, n > 1 && i != 1 ? &e[1] : NULL, n > 2 && i != 2 ? &e[2] : NULL, NULL);
        queue_remove(&e[i]);
        expect(n > 0 && i != 0 ? &e[0] : NULL, n > 1 && i != 1 ? &e[1] : NULL, n > 2 && i != 2 ? &e[2] : NULL, NULL);
        queue_insert(&h, &e[i]);
        vf_check(queue_head(&h) == &e[i], "P27: a removed element can be inserted again");
    }
}
