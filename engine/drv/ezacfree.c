// Building and releasing a key set: every block is released once, empty keys are refused.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P02";
const char vf_full[] = "";
void drv_ezacfree(void)
{
    char k[3] = {'a', 'b', 'c'}, l[3] = {'b', 'c', 'd'}; ezac_ctx_t *c = ezac_init();
    if (!c) return;
    if (ezac_add(c, k, vf_choice(4)) == 0) {
        ezac_add(c, l, 1 + vf_choice(3));
        ezac_compiler(c);
        vf_check(ezac_find(c, "xyz", 3) != 0, "P02: a text without a complete configured key is refused, whatever the keys");
        vf_check(ezac_find(c, "", 0) != 0, "P02: an empty text is refused");
    }
    ezac_free(c);
    vf_check(!vf_live(c), "P02: a key set is released");
}
