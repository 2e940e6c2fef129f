// The clock's text forms for any time.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P14";
void drv_systime(void)
{
    systime_update();
    vf_check(strlen(systime_log()) < 128, "P14: the time stamp is terminated");
    vf_check(strlen(systime_gmt()) < 128, "P14: the date is terminated");
    systime_update();
}
