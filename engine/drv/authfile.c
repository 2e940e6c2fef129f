// Loading any authorisation file: unreadable, empty, of any size, not a list, entries of any type.
#include "vf.h"
#include "dns.h"
#include "tls_tunnel_s.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P26";
static int bad, adds; static cJSON root, elem; static int size;
int ov_open(const char *p, int fl, ...) { if (vf_choice(2)) { bad = 1; return -1; } return 7; }
int ov_close(int fd) { return 0; }
long ov_read(int fd, char *b, long n)
{
    long k;
    vf_check(n > 0, "P26: there is room to read into");
    if (vf_choice(2)) { bad = 1; return -1; }
    k = n - vf_any(0, 1L << 20); vf_assume(k >= 0);
    memset(b, 'x', k);
    return k;
}
cJSON *ov_cJSON_Parse(const char *s)
{
    vf_check(strlen(s) >= 0, "P26: the text that is parsed is terminated");
    vf_check(!bad, "P26: a file that could not be read is not used");
    return vf_choice(2) ? &root : NULL;
}
int ov_cJSON_GetArraySize(const cJSON *o) { return size; }
cJSON *ov_cJSON_GetArrayItem(const cJSON *o, int i) { vf_check(i >= 0 && i < size, "P26: only entries a list has are used"); elem.type = vf_any(0, 1000); elem.valuestring = vf_str(100000); return &elem; }
char *ov_cJSON_GetStringValue(const cJSON *o) { return o && o->type >= 500 ? o->valuestring : NULL; }
int ov_cJSON_IsString(const cJSON *o) { return o && o->type >= 500; }
void ov_cJSON_Delete(cJSON *o) { }
int ov_ezac_add(ezac_ctx_t *c, char *k, int n)
{
    vf_check(c != NULL && k != NULL, "P26: a key is a text");
    if (n > 0) { char first = k[0], last = k[n - 1]; }
    adds++;
    return -vf_choice(2);
}
int ov_ezac_compiler(ezac_ctx_t *c) { vf_check(c != NULL, "P26: a key set exists"); return 0; }
void drv_authfile(void)
{
    int i;
    size = vf_choice(3);
    config_get()->s5_mode = vf_any(0, 10);
    for (i = 0; i < 2; i++) {
        int rc = tls_tunnel_s_init();
        if (rc == 0 && bad) vf_check(config_get()->s5_mode <= TLS_TUNNEL_C, "P26: a server whose key file cannot be read does not start");
        if (rc != 0) return;
        if (i == 0) tls_tunnel_s_exit();
        vf_assume(!bad);
    }
}
