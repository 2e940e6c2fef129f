// Growing array and text list of up to three elements of unknown size.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P27";
void drv_arr(void)
{
    mem_arr_t *l; mem_list_t *t = NULL; void *e[3] = {0}; int i, n; long sz = vf_any(1, 8000); mem_list_t *p; long ln[3]; char *s[3];
    if (mem_arr_create(&l, sz) != 0) return;
    vf_check(mem_arr_get(l, 1) == NULL, "P27: an empty array has no element");
    n = vf_choice(4);
    for (i = 0; i < n; i++) { e[i] = mem_arr_push(l); if (!e[i]) return; memset(e[i], 1, sz); }
    for (i = 0; i < n; i++) vf_check(mem_arr_get(l, i + 1) == e[i], "P27: an array returns the elements in order");
    vf_check(mem_arr_get(l, n + 1) == NULL && mem_arr_get(l, 0) == NULL, "P27: an array has no element outside its range");
    mem_arr_free(l);
    for (i = 0; i < n; i++) { s[i] = vf_str(4000); if (mem_list_push(&t, s[i]) != 0) return; }
    for (i = 0, p = t; p; p = p->next, i++) { vf_check(i < n, "P27: a text list holds no more than was added"); vf_check(p->datan >= 0, "P27: a text keeps its length"); }
    vf_check(i == n, "P27: a text list holds every text");
    mem_list_free(t);
}
