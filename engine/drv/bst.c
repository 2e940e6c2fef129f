// Search tree: every tree of up to three unknown keys built by insertion, then one removal.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P27";
static bst_t *b;
static int count;
static void walk(bst_node_t *n, bst_node_t *up, int d)
{
    if (!n || d > 5) return;
    count++;
    vf_check(vf_live(n), "P27: a tree holds no released node");
    vf_check(n->parent == up, "P27: a node knows its parent");
    if (n->left) vf_check(n->left->num <= n->num, "P27: smaller keys are on the left");
    if (n->right) vf_check(n->right->num > n->num, "P27: larger keys are on the right");
    walk(n->left, n, d + 1);
    walk(n->right, n, d + 1);
}
void drv_bst(void)
{
    long long k[4]; int i, n, d;
    if (bst_create(&b) != 0) return;
    n = vf_choice(5);
    for (i = 0; i < n; i++) { k[i] = vf_any(0, 1L << 40); for (d = 0; d < i; d++) { if (vf_choice(2)) { vf_case(1); vf_assume(k[i] < k[d]); } else { vf_case(0); vf_assume(k[i] > k[d]); } } if (bst_add(b, k[i]) != 0) return; }
    walk(b->head.right, &b->head, 0);
    vf_check(count == n && b->elem_num == n, "P27: a tree holds every key once");
    if (n) {
        d = vf_choice(n);
        vf_check(bst_del(b, k[d]) == 0, "P27: a stored key can be removed");
        count = 0;
        walk(b->head.right, &b->head, 0);
        vf_check(count == n - 1 && b->elem_num == n - 1, "P27: removal takes out exactly one key");
        for (i = 0; i < n; i++) {
            bst_node_t *x = bst_find(b, k[i]);
            if (i == d) vf_check(x == NULL, "P27: a removed key is no longer found");
            else vf_check(x != NULL, "P27: other keys stay");
        }
    } else vf_check(bst_find(b, 5) == NULL, "P27: nothing is found in an empty tree");
    bst_free(b);
}
