// One step of the timer heap from every well-formed heap of up to HN nodes with unknown keys.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P22";
#define HN 9
static heap_t *h;
static heap_node_t nd[HN + 2];
static void wf(int n, heap_node_t *gone)
{
    int i;
    vf_check(heap_num(h) == n, "P22: the number of recorded timers is exact");
    for (i = 2; i <= n; i++) vf_check(h->array[i / 2]->key <= h->array[i]->key, "P22: no timer sits below a later one");
    for (i = 0; i < HN + 1; i++) {
        if (&nd[i] == gone || !nd[i].index) continue;
        vf_check(nd[i].index >= 1 && nd[i].index <= n, "P22: a recorded timer's place is inside the set");
        vf_check(h->array[nd[i].index] == &nd[i], "P22: a recorded timer knows where it sits");
    }
    if (n) vf_check(heap_min(h) == h->array[1], "P22: the earliest timer is the one at the top");
    else { vf_check(heap_min(h) == NULL, "P22: an empty set has no earliest timer"); vf_check(heap_empty(h), "P22: an empty set says so"); }
}
void drv_heap(void)
{
    int n, i, op;
    if (heap_create(&h, HN + 1) != 0) return;
    n = vf_choice(HN + 1);
    for (i = 1; i <= n; i++) {
        nd[i - 1].key = vf_any(0, 1L << 50);
        nd[i - 1].index = i;
        h->array[i] = &nd[i - 1];
        if (i > 1) vf_assume(h->array[i / 2]->key <= nd[i - 1].key);
    }
    h->index = n;
    op = vf_choice(2);
    if (op == 0) {
        nd[HN].key = vf_any(0, 1L << 50);
        vf_check(heap_add(h, &nd[HN]) == 0, "P22: a timer is recorded while there is room");
        vf_check(nd[HN].index != 0, "P22: a recorded timer has a place");
        wf(n + 1, NULL);
    } else if (n) {
        i = vf_choice(n);
        vf_check(heap_del(h, nd[i].index) == 0, "P22: a recorded timer can be withdrawn");
        wf(n - 1, &nd[i]);
    } else vf_check(heap_del(h, 1) != 0, "P22: nothing is withdrawn from an empty set");
}
