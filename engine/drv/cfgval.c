// Every setting is taken from the configuration member of its name, and settings that are missing keep their default.
#include "vf.h"
#include "text.h"
const char vf_keep[] = "log_print mem_pool_alloc mem_pool_free memset memcpy";
const char vf_props[] = "P35 P26";
const char vf_full[] = "";
enum { DAEMON, PROCS, LEVEL, CRT, KEY, MODE, SPORT, SAUTH, GW, LPORT, LSPORT, LIP, LAUTH, HTTPA, HTTPSA, HOME, INDEX, MAX };
static const char *name[MAX] = { "sys_daemon", "sys_process", "sys_log_level", "ssl_crt_path", "ssl_key_path", "s5_mode", "s5_serv_port", "s5_serv_auth_path", "s5_serv_gw",
 "s5_local_port", "s5_local_serv_port", "s5_local_serv_ip", "s5_local_auth", "http_arr", "https_arr", "http_home", "http_index" };
static cJSON root, item[MAX], el[2][4]; static char txt[MAX][12]; static int missing = -1;
int ov_stat(const char *p, struct stat *st) { st->st_size = 2; return 0; }
int ov_open(const char *p, int fl) { return 7; }
int ov_close(int fd) { return 0; }
long ov_read(int fd, char *b, long n) { b[0] = '{'; if (n > 1) b[1] = '}'; return n; }
void *ov_sys_alloc(int n) { void *p = calloc(1, n); vf_assume(p != NULL); return p; }
int ov_printf(const char *f, ...) { return 0; }
char *ov_strncpy(char *d, const char *s, unsigned long n);
cJSON *ov_cJSON_Parse(const char *s) { return &root; }
static int isArr(const cJSON *o) { return o == &item[HTTPA] || o == &item[HTTPSA]; }
cJSON *ov_cJSON_GetObjectItem(const cJSON *o, const char *n) { int i; for (i = 0; i < MAX; i++) if (!ov_strcmp(n, name[i])) return i == missing ? NULL : &item[i]; return NULL; }
cJSON *ov_cJSON_GetObjectItemCaseSensitive(const cJSON *o, const char *n) { return ov_cJSON_GetObjectItem(o, n); }
char *ov_cJSON_GetStringValue(const cJSON *o) { return o ? o->valuestring : NULL; }
int ov_cJSON_IsString(const cJSON *o) { return o && o->valuestring; }
int ov_cJSON_IsNumber(const cJSON *o) { return o && !o->valuestring && !isArr(o); }
int ov_cJSON_IsArray(const cJSON *o) { return o && isArr(o); }
int ov_cJSON_GetArraySize(const cJSON *o) { return !o ? 0 : o == &item[HTTPA] ? 2 : 3; }
cJSON *ov_cJSON_GetArrayItem(const cJSON *o, int i) { vf_check(o && i >= 0 && i < ov_cJSON_GetArraySize(o), "P26: only entries a list has are used"); return &el[o == &item[HTTPSA]][i]; }
void ov_cJSON_Delete(cJSON *o) { }
static void text_(int k, const char *s) { int i, ok = 1; if (k == missing) { vf_check(!s[0], "P35: a missing setting is empty"); return; } for (i = 0; i < 8; i++) ok &= s[i] == txt[k][i]; vf_check(ok, "P35: a text setting is what the configuration says"); }
static void num_(int k, long v) { vf_check(v == (k == missing ? k == LEVEL ? 255 : 0 : item[k].valueint), "P35: a number setting is what the configuration says"); }
void drv_cfgval(void)
{
    int i; config_t *g = config_get();
    for (i = 0; i < MAX; i++) { txt[i][0] = '/'; txt[i][1] = 'a' + i; txt[i][2] = '.'; txt[i][3] = 'x'; txt[i][4] = 'y'; txt[i][5] = 'z'; txt[i][6] = '0'; txt[i][7] = 0; }
    for (i = 0; i < 4; i++) { el[0][i].valueint = 7000 + i; el[1][i].valueint = 60000 + i; }
    for (i = 0; i < MAX; i++) item[i].valueint = i == DAEMON ? 1 : i == PROCS ? 2 : i == LEVEL ? 5 : i == MODE ? 3 : 1000 * i + 3;
    item[CRT].valuestring = txt[CRT]; item[KEY].valuestring = txt[KEY]; item[SAUTH].valuestring = txt[SAUTH]; item[GW].valuestring = txt[GW];
    item[LIP].valuestring = txt[LIP]; item[LAUTH].valuestring = txt[LAUTH]; item[HOME].valuestring = txt[HOME]; item[INDEX].valuestring = txt[INDEX];
    missing = vf_choice(MAX + 1) - 1;
    vf_assume(missing != HTTPA && missing != HTTPSA);
    if (config_init()) { vf_check(missing >= 0, "P35: a complete configuration is accepted"); vf_note("configurations refused"); return; }
    num_(DAEMON, g->sys_daemon); num_(PROCS, g->sys_process_num); num_(LEVEL, g->sys_log_level); num_(MODE, g->s5_mode); num_(SPORT, g->s5_serv_port);
    num_(LPORT, g->s5_local_port); num_(LSPORT, g->s5_local_serv_port);
    text_(CRT, g->ssl_crt_path); text_(KEY, g->ssl_key_path); text_(SAUTH, g->s5_serv_auth_path); text_(GW, g->s5_serv_gw); text_(LIP, g->s5_local_serv_ip); text_(LAUTH, g->s5_local_auth); text_(HOME, g->http_home); text_(INDEX, g->http_index);
    vf_check(g->http_num == 2 && g->https_num == 3, "P35: a list setting has as many entries as the configuration");
    for (i = 0; i < 2; i++) vf_check(g->http_arr[i] == 7000 + i, "P35: a list setting is what the configuration says");
    for (i = 0; i < 3; i++) vf_check(g->https_arr[i] == 60000 + i, "P35: a list setting is what the configuration says");
    vf_note("configurations taken over");
}
