/* String comparison and tokenising, spelled out for the solver. */
#ifndef VP_STR_MODELS_H
#define VP_STR_MODELS_H
#ifdef VP_CBMC
static int vp_low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int vp_strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; ++i) { if (a[i] != b[i]) return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
static int vp_strcmp(const char *a, const char *b) { return vp_strncmp(a, b, (size_t)-1); }
static int vp_strncasecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; ++i) { int x = vp_low(a[i]), y = vp_low(b[i]); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
static int vp_strcasecmp(const char *a, const char *b) { return vp_strncasecmp(a, b, (size_t)-1); }
static char *vp_strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
static _Bool vp_isin(char c, const char *d) { for (size_t i = 0; d[i]; ++i) if (d[i] == c) return 1; return 0; }
static char *vp_strtok_r(char *s, const char *d, char **save) {
    if (!s) s = *save;
    while (*s && vp_isin(*s, d)) ++s;
    if (!*s) { *save = s; return 0; }
    char *t = s;
    while (*s && !vp_isin(*s, d)) ++s;
    if (*s) { *s = 0; *save = s + 1; } else *save = s;
    return t;
}
#undef strncmp
#undef strcmp
#undef strcpy
#undef strtok_r
#undef strcasecmp
#undef strncasecmp
#define strncmp vp_strncmp
#define strcmp vp_strcmp
#define strncasecmp vp_strncasecmp
#define strcasecmp vp_strcasecmp
#define strcpy vp_strcpy
#define strtok_r vp_strtok_r
#endif
#endif
