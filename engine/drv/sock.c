// Plain socket primitives against every outcome of the calls underneath.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P19";
const char vf_full[] = "";
static int out, wasErr, again; static long moved; static void *ubuf; static long ulen;
static long io(void *b, long n, int canEof)
{
    vf_check(b == ubuf && n == ulen, "P19: the whole buffer of the caller is offered");
    moved = 0; wasErr = 0;
    out = vf_choice(4);
    if (out == 0) { moved = vf_any(1, 100000); vf_assume(moved <= n); return moved; }
    if (out == 1) { vf_assume(canEof); return 0; }
    if (out == 2) { wasErr = vf_choice(2) ? EAGAIN : EINTR; if (wasErr == EINTR) vf_assume(again++ < 3); }
    else switch (vf_choice(3)) { case 0: wasErr = vf_any(1, EINTR - 1); break; case 1: wasErr = vf_any(EINTR + 1, EAGAIN - 1); break; default: wasErr = vf_any(EAGAIN + 1, 133); }
    errno = wasErr;
    return -1;
}
long ov_recv(int fd, void *b, long n, int fl) { return io(b, n, 1); }
long ov_send(int fd, void *b, long n, int fl) { return io(b, n, 0); }
long ov_recvfrom(int fd, void *b, long n, int fl, void *sa, void *sl) { return io(b, n, 1); }
long ov_sendto(int fd, void *b, long n, int fl, void *sa, int sl) { return io(b, n, 0); }
static con_t c;
static void verdict(int rc)
{
    if (out == 0) vf_check(rc == moved, "P19: the number of bytes moved is reported exactly");
    else if (out == 1) vf_check(rc == -1, "P19: the end of a stream is reported as an error");
    else if (out == 2) { vf_check(wasErr != EINTR, "P19: an interrupted call is repeated"); vf_check(rc == -11, "P19: a call that would block is reported as retry"); }
    else vf_check(rc == -1, "P19: a failed call is reported as an error");
}
void drv_sock(void)
{
    ulen = vf_any(1, 20000);
    ubuf = vf_mem(ulen);
    switch (vf_choice(4)) {
        case 0: verdict(recvs(&c, ubuf, ulen)); break;
        case 1: verdict(sends(&c, ubuf, ulen)); break;
        case 2: verdict(udp_recvs(&c, ubuf, ulen)); break;
        default: verdict(udp_sends(&c, ubuf, ulen)); break;
    }
}
