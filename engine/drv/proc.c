// The supervisor from main() on: any start-up failure, any failing fork or kill, any order of worker deaths, stop and reload requests.
#include "vf.h"
#include <sys/mman.h>
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free systime_update";
const char vf_props[] = "P24";
#define NP 6
int main(int argc, char **argv);
static int n, child, record, started, initBad, coreBad, stop, forkBad, next, err_no;
static int alive[NP], zombie[NP], need[NP];
static long blocked;
static void (*h[65])(int);
int *ov___errno_location(void) { return &err_no; }
int ov_printf(const char *f, ...) { return 0; }
int ov_sprintf(char *b, const char *f, ...) { b[0] = '7'; b[1] = 0; return 1; }
int ov_setpriority(int a, int b, int c) { return 0; }
int ov_getpid(void) { return 7; }
int ov_config_init(void) { config_get()->sys_process_num = n = vf_choice(3); return -vf_choice(2); }
int ov_proc_daemon(void) { return -vf_choice(2); }
int ov_open(const char *p, int fl, ...) { if (vf_choice(2)) return -1; if (fl & O_CREAT) record = 1; return 5; }
long ov_write(int fd, const void *b, long k) { return vf_choice(2) ? -1 : k; }
int ov_close(int fd) { return 0; }
int ov_unlink(const char *p)
{
    vf_check(!child, "P24: only the supervisor removes the record of its identity");
    record = 0;
    return 0;
}
void *ov_mmap(void *a, long k, int b, int c, int d, long e) { void *p; if (vf_choice(2)) return MAP_FAILED; p = vf_mem(k); return p; }
int ov_munmap(void *a, long k) { return 0; }
static int part(void) { if (vf_choice(2)) { initBad = 1; return -1; } return 0; }
int ov_log_init(void) { if (vf_choice(2)) { coreBad = 1; return -1; } return 0; }
int ov_listen_init(void) { if (vf_choice(2)) { coreBad = 1; return -1; } return 0; }
int ov_log_end(void) { return 0; } int ov_listen_end(void) { return 0; }
int ov_mem_pool_init(void) { return part(); } int ov_ssl_init(void) { return part(); } int ov_timer_init(void) { return part(); }
int ov_net_init(void) { return part(); } int ov_ev_init(void) { return part(); } int ov_tls_tunnel_s_init(void) { return part(); }
int ov_tls_tunnel_c_init(void) { return part(); } int ov_webser_init(void) { return part(); } int ov_dns_init(void) { started = !initBad; return part(); }
int ov_mem_pool_deinit(void) { return 0; } int ov_ssl_end(void) { return 0; } int ov_timer_end(void) { return 0; } int ov_net_end(void) { return 0; }
int ov_ev_exit(void) { return 0; } int ov_tls_tunnel_s_exit(void) { return 0; } int ov_tls_tunnel_c_exit(void) { return 0; } int ov_webser_end(void) { return 0; } int ov_dns_end(void) { return 0; }
int ov_sigemptyset(sigset_t *s) { *(long *)s = 0; return 0; }
int ov_sigfillset(sigset_t *s) { *(long *)s = -1; return 0; }
int ov_sigaddset(sigset_t *s, int k) { *(long *)s |= 1L << k; return 0; }
int ov_sigdelset(sigset_t *s, int k) { *(long *)s &= ~(1L << k); return 0; }
int ov_sigprocmask(int how, const sigset_t *s, sigset_t *o)
{
    long m = *(const long *)s;
    if (how == SIG_BLOCK) { if (vf_choice(2)) return -1; blocked |= m; }
    else if (how == SIG_UNBLOCK) blocked &= ~m;
    else blocked = m;
    return 0;
}
int ov_sigaction(int k, const struct sigaction *a, struct sigaction *o) { if (vf_choice(2)) { coreBad = 1; return -1; } if (a) h[k] = a->sa_handler; return 0; }
void ov_exit(int rc)
{
    if (child) vf_check(record, "P24: a worker that ends leaves the record of the supervisor");
    else vf_check(!record, "P24: no record of a supervisor that has ended");
    vf_assume(0);
}
void ov__exit(int rc) { ov_exit(rc); }
void ov_timer_expire(int *t) { *t = -1; }
int ov_ev_loop(int t)
{
    vf_check(!coreBad && !initBad && started, "P24: only a process whose start-up was complete serves");
    vf_check(!(blocked & (1L << SIGINT)), "P24: a serving process can be told to stop");
    if (vf_choice(2)) h[SIGINT](SIGINT);
    return 0;
}
int ov_fork(void)
{
    vf_check(record, "P24: the record of the supervisor exists while it starts workers");
    vf_check(!child, "P24: only the supervisor starts workers");
    vf_check(!stop, "P24: nothing is started any more once stopping was requested");
    vf_check((blocked & (1L << SIGINT)) && (blocked & (1L << SIGCHLD)) && (blocked & (1L << SIGHUP)), "P24: requests and deaths are taken only while waiting, so that none is lost");
    if (vf_choice(2)) { forkBad = 1; return -1; }
    vf_assume(next < NP);
    if (vf_choice(2)) { child = 1; return 0; }
    alive[next] = 1;
    return 100 + next++;
}
int ov_kill(int pid, int sig)
{
    int i = pid - 100;
    vf_check(pid >= 100 && pid < 100 + next, "P24: only workers are signalled");
    if (sig == SIGINT || sig == SIGTERM || sig == SIGKILL) need[i] = 0;
    if (vf_choice(2)) return -1;
    return 0;
}
int ov_waitpid(int p, int *st, int fl)
{
    int i, left = 0;
    for (i = 0; i < next; i++) { if (zombie[i]) { zombie[i] = 0; return 100 + i; } if (alive[i]) left = 1; }
    err_no = ECHILD;
    return left ? 0 : -1;
}
static void die(void) { int i, k = 0; for (i = 0; i < next; i++) if (alive[i] && vf_choice(2)) { alive[i] = 0; need[i] = 0; zombie[i] = 1; k = 1; } vf_assume(k); h[SIGCHLD](SIGCHLD); }
static void ask(int sig) { int i; for (i = 0; i < next; i++) need[i] = alive[i]; h[sig](sig); }
int ov_sigsuspend(const sigset_t *m)
{
    int i, live = 0, e;
    vf_check(!child, "P24: only the supervisor waits for workers");
    vf_check(record, "P24: the record of the supervisor exists while it waits");
    vf_check(!coreBad, "P24: a supervisor whose start-up failed does not go on");
    vf_check(!(*(const long *)m & (1L << SIGINT | 1L << SIGCHLD | 1L << SIGHUP)), "P24: requests and deaths end the wait");
    for (i = 0; i < next; i++) {
        live += alive[i];
        vf_check(!need[i], "P24: a stop or reload request reached every worker before the supervisor waits again");
    }
    if (!stop && !forkBad) vf_check(live == n, "P24: every worker that died has been replaced before the supervisor waits again");
    if (stop) vf_check(live > 0, "P24: a stopping supervisor whose workers are gone does not wait");
    e = vf_choice(5);
    if (e == 0) { stop = 1; ask(SIGINT); }
    if (e == 1) ask(SIGHUP);
    if (e == 2) die();
    if (e == 3) { die(); stop = 1; ask(SIGINT); }
    if (e == 4) { ask(SIGHUP); die(); }
    return -1;
}
void drv_proc(void)
{
    static char a0[] = "./s5"; char *av[2] = {a0, 0}; int i;
    main(1, av);
    vf_check(!child, "P24: a worker does not go on as if it were the supervisor");
    vf_check(!record, "P24: no record of a supervisor that has ended");
    for (i = 0; i < next; i++) if (alive[i]) vf_check(!need[i] && (stop || forkBad), "P24: a supervisor does not end while workers it has not told to stop are running");
    if (stop) for (i = 0; i < next; i++) vf_check(!alive[i], "P24: a supervisor that was told to stop ends after its workers");
}
