// A timer that cannot be recorded is not reported as armed.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P22";
static int refuse, dels;
static ev_timer_t t;
static void cb(void *data) { }
int ov_heap_add(heap_t *h, heap_node_t *n) { return refuse ? -1 : 0; }
int ov_heap_del(heap_t *h, int i) { dels++; return 0; }
long long ov_systime_msec(void) { return 1000; }
void drv_timerfull(void)
{
    int rc;
    if (timer_init() != 0) return;
    refuse = vf_choice(2);
    rc = tm_add(&t, cb, NULL, 10);
    if (refuse) {
        vf_check(rc != 0, "P22: arming without room is reported");
        vf_check(!t.f_timeset, "P22: a timer that could not be recorded is not marked as armed");
        tm_del(&t);
        vf_check(dels == 0, "P22: a timer that was not recorded is not withdrawn");
    } else {
        vf_check(rc == 0 && t.f_timeset, "P22: a recorded timer is marked as armed");
        tm_del(&t);
        vf_check(dels == 1, "P22: a recorded timer is withdrawn once");
        tm_del(&t);
        vf_check(dels == 1, "P22: a cancelled timer is not withdrawn again");
        rc = tm_add(&t, cb, NULL, 10);
        refuse = 1;
        rc = tm_add(&t, cb, NULL, 20);
        vf_check(rc != 0 && !t.f_timeset && dels == 2, "P22: re-arming withdraws the old deadline even if the new one cannot be recorded");
    }
}
