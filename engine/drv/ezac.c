// Verdicts on presented keys: every pair of keys of up to three bytes over two letters, every presented text of up to four bytes over three
// letters (one that no key uses; two of them outside ASCII), with and without an earlier verdict on another text.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P02";
const char vf_full[] = "";
static const char abc[3] = {'a', (char)0xe4, (char)0xfc};
static char k1[4], k2[4], d[5], e[5];
static int text(char *b, int max, int letters)
{
    int i, n = 1 + vf_choice(max);
    for (i = 0; i < n; i++) b[i] = abc[vf_choice(letters)];
    return n;
}
static int inside(const char *k, int kn, const char *t, int tn)
{
    int i, j;
    for (i = 0; i + kn <= tn; i++) { for (j = 0; j < kn && t[i + j] == k[j]; j++) ; if (j == kn) return 1; }
    return 0;
}
void drv_ezac(void)
{
    int two = vf_choice(2), n1 = text(k1, two ? 2 : 3, 2), n2 = text(k2, two ? 2 : 3, 2), n, ok;
    ezac_ctx_t *c = ezac_init();
    if (!c) return;
    if (ezac_add(c, k1, n1) != 0 || ezac_add(c, k2, n2) != 0) return;
    vf_check(ezac_compiler(c) == 0, "P02: any set of keys can be prepared");
    if (two) { n = text(e, 2, 2); ezac_find(c, e, n); }
    n = text(d, two ? 3 : 4, 3);
    ok = inside(k1, n1, d, n) || inside(k2, n2, d, n);
    if (ok) vf_check(ezac_find(c, d, n) == 0, "P02: a text that contains a configured key is accepted, whatever came before");
    else vf_check(ezac_find(c, d, n) != 0, "P02: a text without a complete configured key is refused, whatever came before");
}
