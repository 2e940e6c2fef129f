// A log line with unknown content of any length, at any level, to any destination.
#include "vf.h"
const char vf_keep[] = "mem_pool_alloc mem_pool_free";
const char vf_props[] = "P14";
static char *lineBuf;
long ov_write(int fd, const char *b, long n)
{
    vf_check(n >= 0, "P14: a log line has a length");
    vf_check(n <= LOG_TEXT_LENGTH, "P14: a log line is cut at its buffer's size");
    if (n > 0) { char first = b[0], last = b[n - 1]; }
    return vf_choice(2) ? n : -1;
}
int ov_open(const char *p, int fl, int mode) { return vf_choice(2) ? (int)vf_any(3, 1000) : -1; }
int ov_close(int fd) { return 0; }
void drv_log(void)
{
    char *a = vf_str(1000000), *f = vf_str(300);
    config_get()->sys_log_level = vf_any(-10, 1000);
    if (vf_choice(2)) { if (log_init() != 0) return; }
    log_print(vf_any(0, 5), vf_choice(3), f, vf_any(0, 100000), "%s %d", a, 5);
    log_print(LOG_ID_MAIN, LOG_LEVEL_ERROR, "f", 1, "%s", a);
    log_end();
}
