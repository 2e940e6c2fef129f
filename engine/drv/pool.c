// The pool as it is built at start-up, seen only through its operations: blocks of every class and any size in it,
// a class used up to its last block, requests that fit no class, blocks that are not the pool's.
#include "vf.h"
const char vf_keep[] = "log_print";
const char vf_props[] = "P20";
const char vf_full[] = "";
static int held;
int ov_pthread_mutex_lock(void *m) { vf_check(!held, "P21: a lock is not taken while it is held"); held = 1; return 0; }
int ov_pthread_mutex_unlock(void *m) { vf_check(held, "P21: only a held lock is released"); held = 0; return 0; }
static const long sz[] = {512, 1024, 2048, 4096, 8192, 16384};
static long some(int k) { return vf_any(k ? sz[k - 1] + 1 : 1, sz[k]); }
static char *take(int n)
{
    char *p = mem_pool_alloc(n);
    vf_check(!held, "P21: the lock is released when the operation returns");
    return p;
}
static int give(void *p)
{
    int rc = mem_pool_free(p);
    vf_check(!held, "P21: the lock is released when the operation returns");
    return rc;
}
static void apart(char *p, long n, char *q, long m) { vf_check(p + n <= q || q + m <= p, "P20: blocks in use do not overlap"); }
static void fresh(char *p, long n) { vf_check(p[0] == 0 && p[n / 2] == 0 && p[n - 1] == 0, "P20: a block handed out is zeroed"); memset(p, 7, n); p[0] = 7; p[n - 1] = 7; }
static long edge(int k) { switch (vf_choice(3)) { case 0: return k ? sz[k - 1] + 1 : 1; case 1: return sz[k]; default: return sz[k] - 100; } }
void drv_pool(void)
{
    int k = vf_choice(6), j, i, n, m, *w; char *p, *q, *r, *first = 0;
    vf_assume(mem_pool_init() == 0);
    switch (vf_choice(4)) {
    case 0:
        j = vf_choice(6);
        n = edge(k); m = edge(j);
        p = take(n); q = take(m);
        vf_check(p && q, "P20: a fresh pool has a block for every request it supports");
        vf_check(p != q, "P20: blocks in use do not overlap");
        if (j == k) apart(p, n, q, m);
        fresh(p, n); fresh(q, m);
        if (vf_choice(2)) { vf_check(give(p) == 0, "P20: a block can be released"); vf_check(q[0] == 7 && q[m - 1] == 7, "P20: a release leaves other blocks alone"); r = take(n); vf_check(r != NULL, "P20: a released block serves again"); if (j == k) apart(r, n, q, m); fresh(r, n); }
        else { vf_check(give(q) == 0, "P20: a block can be released"); vf_check(p[0] == 7 && p[n - 1] == 7, "P20: a release leaves other blocks alone"); r = take(m); vf_check(r != NULL, "P20: a released block serves again"); if (j == k) apart(r, m, p, n); fresh(r, m); }
        break;
    case 1:
        n = some(k);
        for (i = 0, p = 0; i < 4000 && (q = take(n)); i++) { if (p) apart(p, n, q, n); else first = q; if (i > 1) apart(first, n, q, n); p = q; }
        vf_check(i < 4000, "P20: an exhausted size class yields nothing");
        vf_check(i > 0, "P20: a fresh pool has a block for every request it supports");
        vf_check(take(n) == NULL, "P20: an exhausted size class yields nothing");
        fresh(p, n);
        q = vf_choice(2) ? p : first;
        vf_check(give(q) == 0, "P20: a block can be released");
        r = take(n);
        vf_check(r != NULL, "P20: a released block serves again");
        fresh(r, n);
        vf_check(take(n) == NULL, "P20: an exhausted size class yields nothing");
        for (j = 0; j < 6; j++) if (j != k) vf_check(take(sz[j]) != NULL, "P20: other classes are untouched");
        break;
    case 2:
        n = some(k);
        vf_check(take(vf_any(16385, 0x7fffffff)) == NULL, "P20: a request that fits no class yields nothing");
        p = take(n);
        vf_check(p != NULL, "P20: a refused operation leaves the classes untouched");
        fresh(p, n);
        break;
    default:
        q = malloc(512); vf_assume(q != NULL);
        n = some(k);
        j = vf_choice(2) ? 0 : 0x5a5a5a5a;
        for (w = (int *)q, i = 0; i < 128; i++) w[i] = j;
        vf_check(give(q + 256) != 0, "P20: a damaged block is refused");
        p = take(n);
        vf_check(p != NULL && p != q + 256, "P20: a refused operation leaves the classes untouched");
        fresh(p, n);
        r = sys_alloc(vf_any(1, 100000));
        vf_check(!held, "P21: the lock is released when the operation returns");
        if (r) sys_free(r);
        vf_check(!held, "P21: the lock is released when the operation returns");
    }
}
