// string functions on known texts, followed character by character
static void num(char *b, long v)
{
    char t[24]; int n = 0, i = 0; unsigned long u = v < 0 ? -v : v;
    do { t[n++] = '0' + u % 10; u /= 10; } while (u);
    if (v < 0) b[i++] = '-';
    while (n) b[i++] = t[--n];
    b[i] = 0;
}
static long put(char *b, unsigned long n, const char *f)
{
    unsigned long o = 0, m, j; int a = 0, lim, w; char t[32], *s;
    for (; *f; f++) {
        if (*f != '%') { if (o + 1 < n) b[o] = *f; o++; continue; }
        lim = -1; f++;
        if (*f == '%') { if (o + 1 < n) b[o] = '%'; o++; continue; }
        if (*f == '.') { f++; if (*f == '*') { lim = (long)vf_arg(a++); f++; } else { lim = 0; while (*f >= '0' && *f <= '9') lim = lim * 10 + *f++ - '0'; } }
        for (w = 0; *f == 'l' || *f == 'z' || *f == 'h'; f++) w = 1;
        switch (*f) {
        case 's': s = vf_arg(a++); break;
        case 'c': t[0] = (long)vf_arg(a++); t[1] = 0; s = t; break;
        case 'd': case 'i': num(t, w ? (long)vf_arg(a++) : (int)(long)vf_arg(a++)); s = t; break;
        case 'u': num(t, w ? (long)vf_arg(a++) : (unsigned)(long)vf_arg(a++)); s = t; break;
        default: t[0] = '?'; t[1] = 0; s = t;
        }
        for (j = 0; (lim < 0 || j < lim) && s[j]; j++) { if (o + 1 < n) b[o] = s[j]; o++; }
    }
    if (n) b[o < n ? o : n - 1] = 0;
    return o;
}
int ov_snprintf(char *b, unsigned long n, const char *f, ...) { return put(b, n, f); }
int ov_sprintf(char *b, const char *f, ...) { return put(b, 1L << 30, f); }
int ov_vsnprintf(char *b, unsigned long n, const char *f, void *ap) { return put(b, n, f); }
int ov_vsprintf(char *b, const char *f, void *ap) { return put(b, 1L << 30, f); }
unsigned long ov_strlen(const char *s) { unsigned long n = 0; while (s[n]) n++; return n; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int ov_strncmp(const char *a, const char *b, unsigned long n) { for (; n; n--, a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) break; } return 0; }
int ov_strcmp(const char *a, const char *b) { for (;; a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } }
int ov_strncasecmp(const char *a, const char *b, unsigned long n) { for (; n; n--, a++, b++) { if (low(*a) != low(*b)) return low(*a) < low(*b) ? -1 : 1; if (!*a) break; } return 0; }
int ov_memcmp(const void *x, const void *y, unsigned long n) { const char *a = x, *b = y; for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
char *ov_strncpy(char *d, const char *s, unsigned long n) { unsigned long i; for (i = 0; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *ov_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *ov_strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *ov_strstr(const char *s, const char *t)
{
    long i;
    for (;; s++) {
        for (i = 0; t[i] && s[i] == t[i]; i++) ;
        if (!t[i]) return (char *)s;
        if (!*s) return NULL;
    }
}
void *ov_memmem(const void *h, unsigned long n, const void *x, unsigned long m) { const char *s = h; for (; n >= m; n--, s++) if (!ov_memcmp(s, x, m)) return (void *)s; return NULL; }
static int digit(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
long ov_strtol(const char *s, char **e, int base)
{
    long v = 0; int neg = 0;
    while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
    if (*s == '-') { neg = 1; s++; } else if (*s == '+') s++;
    if ((base == 0 || base == 16) && s[0] == '0' && low(s[1]) == 'x' && digit(s[2]) < 16) { base = 16; s += 2; }
    if (!base) base = *s == '0' ? 8 : 10;
    for (; digit(*s) < base; s++) v = v * base + digit(*s);
    if (e) *e = (char *)s;
    return neg ? -v : v;
}
unsigned long ov_strtoul(const char *s, char **e, int base) { return ov_strtol(s, e, base); }
long long ov_strtoll(const char *s, char **e, int base) { return ov_strtol(s, e, base); }
static const unsigned short ctB[] = {0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,8195,8194,8194,8194,8194,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,24577,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,55304,55304,55304,55304,55304,55304,55304,55304,55304,55304,49156,49156,49156,49156,49156,49156,49156,54536,54536,54536,54536,54536,54536,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,49156,49156,49156,49156,49156,49156,54792,54792,54792,54792,54792,54792,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,49156,49156,49156,49156,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
static const int ctL[] = {-128,-127,-126,-125,-124,-123,-122,-121,-120,-119,-118,-117,-116,-115,-114,-113,-112,-111,-110,-109,-108,-107,-106,-105,-104,-103,-102,-101,-100,-99,-98,-97,-96,-95,-94,-93,-92,-91,-90,-89,-88,-87,-86,-85,-84,-83,-82,-81,-80,-79,-78,-77,-76,-75,-74,-73,-72,-71,-70,-69,-68,-67,-66,-65,-64,-63,-62,-61,-60,-59,-58,-57,-56,-55,-54,-53,-52,-51,-50,-49,-48,-47,-46,-45,-44,-43,-42,-41,-40,-39,-38,-37,-36,-35,-34,-33,-32,-31,-30,-29,-28,-27,-26,-25,-24,-23,-22,-21,-20,-19,-18,-17,-16,-15,-14,-13,-12,-11,-10,-9,-8,-7,-6,-5,-4,-3,-2,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,91,92,93,94,95,96,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126,127,128,129,130,131,132,133,134,135,136,137,138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159,160,161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,176,177,178,179,180,181,182,183,184,185,186,187,188,189,190,191,192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,226,227,228,229,230,231,232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,247,248,249,250,251,252,253,254,255}, ctU[] = {-128,-127,-126,-125,-124,-123,-122,-121,-120,-119,-118,-117,-116,-115,-114,-113,-112,-111,-110,-109,-108,-107,-106,-105,-104,-103,-102,-101,-100,-99,-98,-97,-96,-95,-94,-93,-92,-91,-90,-89,-88,-87,-86,-85,-84,-83,-82,-81,-80,-79,-78,-77,-76,-75,-74,-73,-72,-71,-70,-69,-68,-67,-66,-65,-64,-63,-62,-61,-60,-59,-58,-57,-56,-55,-54,-53,-52,-51,-50,-49,-48,-47,-46,-45,-44,-43,-42,-41,-40,-39,-38,-37,-36,-35,-34,-33,-32,-31,-30,-29,-28,-27,-26,-25,-24,-23,-22,-21,-20,-19,-18,-17,-16,-15,-14,-13,-12,-11,-10,-9,-8,-7,-6,-5,-4,-3,-2,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,94,95,96,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,123,124,125,126,127,128,129,130,131,132,133,134,135,136,137,138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159,160,161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,176,177,178,179,180,181,182,183,184,185,186,187,188,189,190,191,192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,226,227,228,229,230,231,232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,247,248,249,250,251,252,253,254,255};
static const unsigned short *ctBp = ctB + 128; static const int *ctLp = ctL + 128, *ctUp = ctU + 128;
const unsigned short **ov___ctype_b_loc(void) { return &ctBp; }
const int **ov___ctype_tolower_loc(void) { return &ctLp; }
const int **ov___ctype_toupper_loc(void) { return &ctUp; }
int ov_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int ov_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int ov___isoc99_sscanf(const char *s, const char *f, ...) // numbers only
{
    int a = 0, n = 0, w, k; long v;
    for (; *f; f++) {
        if (*f == ' ') { while (*s == ' ') s++; continue; }
        if (*f != '%') { if (*s != *f) return n; s++; continue; }
        f++; for (w = 0; *f >= '0' && *f <= '9'; f++) w = w * 10 + *f - '0';
        if (!w) w = 99;
        k = 0; if (*f == 'h') { k = 1; f++; if (*f == 'h') { k = 2; f++; } } else while (*f == 'l') { k = 3; f++; }
        { int base = *f == 'x' || *f == 'X' ? 16 : 10, m = 0; void *o; if (*f != 'x' && *f != 'X' && *f != 'd' && *f != 'u') return n; for (v = 0; w && digit(*s) < base; w--, s++, m++) v = v * base + digit(*s); if (!m) return n;
          o = vf_arg(a++); if (k == 2) *(char *)o = v; else if (k == 1) *(short *)o = v; else if (k == 3) *(long *)o = v; else *(int *)o = v; n++; }
    }
    return n;
}
unsigned long ov_strnlen(const char *s, unsigned long n) { unsigned long i = 0; while (i < n && s[i]) i++; return i; }
int ov_atoi(const char *s) { return ov_strtol(s, NULL, 10); }
