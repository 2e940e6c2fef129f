// Three timers with unknown deadlines: arm, re-arm, cancel, then let an unknown time pass; callbacks re-arm or cancel others.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P22";
static long now;
static ev_timer_t t[3];
static int ix[3] = {0, 1, 2};
static long due[3];
static int armed[3], again;
static long start(void) { return vf_any(1000, 1L << 40); }
long long ov_systime_msec(void) { return now; }
static void cb(void *data);
static void arm(int i)
{
    int d = vf_any(1, 100000);
    if (tm_add(&t[i], cb, &ix[i], d) == 0) { armed[i] = 1; due[i] = now + d; }
    else armed[i] = 0;
    vf_check(!armed[i] == !t[i].f_timeset, "P22: a timer is marked as armed exactly when it was recorded");
}
static void cancel(int i)
{
    tm_del(&t[i]);
    armed[i] = 0;
    vf_check(!t[i].f_timeset, "P22: a cancelled timer is not marked as armed");
}
static void cb(void *data)
{
    int i = *(int *)data, j, act;
    vf_check(armed[i], "P22: only an armed timer fires");
    vf_check(due[i] <= now, "P22: a timer does not fire before its deadline");
    for (j = 0; j < 3; j++) if (armed[j]) vf_check(due[i] <= due[j], "P22: no timer fires before an earlier one");
    vf_check(!t[i].f_timeset, "P22: a fired timer is no longer armed");
    armed[i] = 0;
    if (again) return;
    again = 1;
    act = vf_choice(3);
    if (act == 1) cancel((i + 1) % 3);
    if (act == 2) arm(i);
}
void drv_timer(void)
{
    int i, w = -5, n = 0;
    now = start();
    if (timer_init() != 0) return;
    for (i = 0; i < 3; i++) arm(i);
    i = vf_choice(4);
    if (i < 3) { if (vf_choice(2)) cancel(i); else arm(i); }
    now += vf_any(0, 200000);
    timer_expire(&w);
    for (i = 0; i < 3; i++) if (armed[i]) {
        n++;
        vf_check(due[i] > now, "P22: every timer that is due has fired");
        vf_check(w <= due[i] - now, "P22: the loop does not sleep past a deadline");
    }
    vf_check(w >= 0, "P22: the time to sleep is not negative");
}
