// Hash table with one bucket (every collision) and unknown keys; array and text list.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P27";
static int same01, same02, same12, nk;
static char *k[3]; static long kn[3];
static int which(void *p) { int i; for (i = 0; i < 3; i++) if (p == k[i]) return i; return -1; }
static ezhash_t *hs;
// keys compare as the driver decided; stored copies are recognised by their position in the table
static char *copyOf[3];
void drv_hash(void)
{
    int a, b, i, v[3]; void *r; long got;
    if (ezhash_create(&hs, 1) != 0) return;
    for (i = 0; i < 3; i++) { kn[i] = i + 1; k[i] = vf_mem(kn[i]); v[i] = 10 + i; }
    for (i = 0; i < 3; i++) vf_check(ezhash_find(hs, k[i], kn[i]) == NULL, "P27: nothing is found in an empty table");
    a = vf_choice(4);
    for (i = 0; i < a; i++) if (ezhash_add(hs, k[i], kn[i], &v[i], sizeof(int)) != 0) return;
    for (i = a; i < 3; i++) vf_check(ezhash_find(hs, k[i], kn[i]) == NULL, "P27: a key that was not added is not found");
    if (a) {
        b = vf_choice(a);
        ezhash_del(hs, k[b], kn[b]);
        for (i = a; i < 3; i++) vf_check(ezhash_find(hs, k[i], kn[i]) == NULL, "P27: a key that was not added is not found");
    }
    ezhash_free(hs);
}
