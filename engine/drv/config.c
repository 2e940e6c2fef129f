// Loading any configuration file: every member missing, of the wrong type, over-long or fine.
#include "vf.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free";
const char vf_props[] = "P26";
const char vf_join[] = "";
static int statOk, opened, readBad, parsed, refused; static long fsz, got;
static cJSON root, item[64], elem; static int items, asz[64]; static char *text;
int ov_stat(const char *p, struct stat *st) { statOk = vf_choice(2); if (!statOk) return -1; fsz = vf_any(0, 1L << 20); st->st_size = fsz; return 0; }
int ov_open(const char *p, int fl) { opened = vf_choice(2); return opened ? 7 : -1; }
int ov_close(int fd) { return 0; }
long ov_read(int fd, char *b, long n)
{
    long k;
    if (vf_choice(2)) { readBad = 1; return -vf_any(0, 1); }
    k = n - vf_any(0, 1L << 20); vf_assume(k >= 1);
    memset(b, 'x', k);
    got += k;
    return k;
}
int ov_printf(const char *f, ...) { return 0; }
cJSON *ov_cJSON_Parse(const char *s)
{
    vf_check(s != NULL, "P26: a text is parsed");
    vf_check(strlen(s) >= 0, "P26: the text that is parsed is terminated");
    vf_check(!readBad, "P26: a file that could not be read is not used");
    parsed = 1;
    if (vf_choice(2)) return &root;
    refused = 1;
    return NULL;
}
cJSON *ov_cJSON_GetObjectItem(const cJSON *o, const char *n)
{
    vf_merge();
    vf_check(o != NULL, "P26: members are looked up in an object");
    vf_assume(items < 63);
    item[items].valueint = vf_any(-0x80000000L, 0x7fffffff);
    item[items].type = vf_any(0, 1000); // 500 and more stand for a text
    item[items].valuestring = text;
    asz[items] = vf_any(0, 100000);
    items++;
    return vf_choice(2) ? NULL : &item[items - 1];
}
char *ov_cJSON_GetStringValue(const cJSON *o) { return o && o->type >= 500 ? vf_str(100000) : NULL; }
int ov_cJSON_IsString(const cJSON *o) { return o && o->type >= 500; }
int ov_cJSON_IsNumber(const cJSON *o) { return o ? vf_choice(2) : 0; }
int ov_cJSON_IsArray(const cJSON *o) { return o ? vf_choice(2) : 0; }
int ov_cJSON_GetArraySize(const cJSON *o) { return o ? asz[o - item] : 0; }
cJSON *ov_cJSON_GetArrayItem(const cJSON *o, int i) { vf_check(i >= 0, "P26: list entries are numbered from zero"); vf_check(i < asz[o - item], "P26: only entries a list has are used"); elem.valueint = vf_any(-0x80000000L, 0x7fffffff); return &elem; }
void ov_cJSON_Delete(cJSON *o) { }
static void term(const char *s) { vf_check(strlen(s) >= 0, "P26: a text setting is terminated inside its field"); }
void drv_config(void)
{
    text = vf_str(100000);
    int rc = config_init(); vf_merge(); config_t *c = config_get();
    if (rc == 0) {
        vf_check(parsed && !refused, "P26: start-up goes on only with a configuration that was understood");
        vf_check(c->http_num >= 0 && c->http_num <= L_OPEN_PORT_MAX, "P26: no more ports are used than fit the list");
        vf_check(c->https_num >= 0 && c->https_num <= L_OPEN_PORT_MAX, "P26: no more ports are used than fit the list");
        vf_check(c->sys_process_num >= 0, "P26: the number of workers is not negative");
    }
    term(c->ssl_crt_path);
 term(c->ssl_key_path);
 term(c->s5_serv_auth_path);
 term(c->s5_serv_gw);
    term(c->s5_local_serv_ip);
 term(c->s5_local_auth);
 term(c->http_home);
 term(c->http_index);
}
