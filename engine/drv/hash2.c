// Histories of a hash table with one or two buckets over keys that are beginnings of each other.
#include "vf.h"
#include "text.h"
const char vf_keep[] = "log_print memset";
const char vf_props[] = "P27";
const char vf_full[] = "";
static int live;
void *ov_mem_pool_alloc(int n) { void *p = calloc(1, n); vf_assume(p != NULL); live++; return p; }
int ov_mem_pool_free(void *p) { if (p) live--; free(p); return 0; }
void *ov_memcpy(void *d, const void *s, unsigned long n) { unsigned long i; for (i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
static const char *const key[5] = { "a", "ab", "b", "ab\0c", "ac" }; static const int kn[5] = { 1, 2, 1, 4, 2 };
static int in[5], amb[5]; // amb: stored twice, either value will do
static char val[5][3];
void drv_hash2(void)
{
    ezhash_t *h; int i, k, n, op; char *r;
    if (ezhash_create(&h, 1 + vf_choice(2))) return;
    for (n = 0; n < 4; n++) {
        op = vf_choice(2); k = vf_choice(5);
        if (op == 0) {
            char v[3]; for (i = 0; i < 3; i++) v[i] = 10 * n + k + i;
            if (ezhash_add(h, (void *)key[k], kn[k], v, 3)) vf_check(0, "P27: an element that fits is added");
            if (in[k]) amb[k] = 1; else { in[k] = 1; for (i = 0; i < 3; i++) val[k][i] = v[i]; }
        } else { ezhash_del(h, (void *)key[k], kn[k]); in[k] = amb[k] = 0; }
        for (i = 0; i < 5; i++) {
            r = ezhash_find(h, (void *)key[i], kn[i]);
            vf_check((r != NULL) == in[i], "P27: a table finds exactly the keys it was given");
            if (r && !amb[i]) vf_check(r[0] == val[i][0] && r[1] == val[i][1] && r[2] == val[i][2], "P27: a table gives back what was stored under the key");
        }
    }
    ezhash_free(h);
    vf_check(live == 0, "P27: a table that is freed leaves nothing behind");
    vf_note("table histories");
}
