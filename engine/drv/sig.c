// Signals at every moment the process module calls out, from before its initialisation to after its end.
#include "vf.h"
#include <sys/mman.h>
const char vf_keep[] = "mem_pool_alloc mem_pool_free systime_update";
const char vf_props[] = "P25";
static int err_no, inside, served, locked;
static void (*h[65])(int);
static const int sigs[4] = {SIGINT, SIGHUP, SIGCHLD, SIGPIPE};
int *ov___errno_location(void) { return &err_no; }
static void interrupt(void)
{
    int k, e;
    if (inside) return;
    vf_merge();
    k = vf_choice(5); e = err_no;
    if (k == 4) return;
    k = sigs[k];
    if (!h[k] || h[k] == SIG_IGN) return;
    inside = 1; h[k](k); inside = 0;
    vf_check(err_no == e, "P25: a handler leaves the error number of the interrupted code alone");
}
int ov_log_print(int a, int b, const char *f, int l, const char *t, ...) { vf_check(!inside, "P25: a handler does not format or write log lines"); return 0; }
int ov_pthread_mutex_lock(pthread_mutex_t *m) { vf_check(!inside, "P25: a handler takes no lock"); interrupt(); return 0; }
int ov_pthread_mutex_unlock(pthread_mutex_t *m) { vf_check(!inside, "P25: a handler takes no lock"); interrupt(); return 0; }
int ov_sigemptyset(sigset_t *s) { *(long *)s = 0; return 0; }
int ov_sigaddset(sigset_t *s, int k) { *(long *)s |= 1L << k; return 0; }
int ov_sigaction(int k, const struct sigaction *a, struct sigaction *o) { interrupt(); if (vf_choice(2)) return -1; h[k] = a->sa_handler; interrupt(); return 0; }
void *ov_mmap(void *a, long k, int b, int c, int d, long e) { interrupt(); if (vf_choice(2)) return MAP_FAILED; return vf_mem(k); }
int ov_munmap(void *a, long k) { interrupt(); return 0; }
int ov_waitpid(int p, int *st, int fl) { static int c; err_no = ECHILD; if (c++ < 2 && vf_choice(2)) return vf_choice(2) ? 100 : 4711; return -vf_choice(2); }
void drv_sig(void)
{
    config_get()->sys_process_num = vf_choice(3);
    if (process_init() == 0) {
        vf_check(h[SIGPIPE] != NULL, "P25: writing to a peer that has gone does not end the process");
        interrupt();
        served = 1;
    }
    process_end();
    interrupt();
}
