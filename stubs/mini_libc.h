/* Small models of libc text functions for the solver (native replays use the
 * real ones): the %d %s %llx subset of printf, strto*, POSIX regular
 * expressions limited to ^ (literal | [set]) +? ... $ */
#ifndef VP_MINI_LIBC_H
#define VP_MINI_LIBC_H
#ifdef VP_CBMC
#include <stdarg.h>
#include <stddef.h>
#include <limits.h>
#include <regex.h>
#ifndef VP_STRMAX
#define VP_STRMAX 16
#endif
static int vp_vfmt(char *b, size_t n, const char *f, va_list ap) {
    size_t k = 0;
#define VP_PUT(ch) do { if (b && k + 1 < n) b[k] = (ch); k++; } while (0)
    while (*f) {
        if (*f != '%') { VP_PUT(*f); f++; continue; }
        f++;
        int prec = -1;
        if (f[0] == '.' && f[1] >= '0' && f[1] <= '9') { prec = f[1] - '0'; f += 2; if (*f >= '0' && *f <= '9') { prec = prec * 10 + *f - '0'; f++; } }
        if (*f == 'd') {
            int v = va_arg(ap, int); unsigned u = v < 0 ? 0u - (unsigned)v : (unsigned)v;
            if (v < 0) VP_PUT('-');
#ifdef VP_SMALL_INTS    /* exact division by 10 below 16384 */
#define VP_D10(x) ((unsigned)((x) * 6554u >> 16))
            __CPROVER_assert(u < 1000, "VPMODEL numbers in the text are small");
            unsigned q = VP_D10(u), h = VP_D10(q);
            if (u >= 100) VP_PUT('0' + h);
            if (u >= 10) VP_PUT('0' + (q - 10 * h));
            VP_PUT('0' + (u - 10 * q));
#else
            if (u >= 1000000000) VP_PUT('0' + u / 1000000000 % 10);
            if (u >= 100000000) VP_PUT('0' + u / 100000000 % 10);
            if (u >= 10000000) VP_PUT('0' + u / 10000000 % 10);
            if (u >= 1000000) VP_PUT('0' + u / 1000000 % 10);
            if (u >= 100000) VP_PUT('0' + u / 100000 % 10);
            if (u >= 10000) VP_PUT('0' + u / 10000 % 10);
            if (u >= 1000) VP_PUT('0' + u / 1000 % 10);
            if (u >= 100) VP_PUT('0' + u / 100 % 10);
            if (u >= 10) VP_PUT('0' + u / 10 % 10);
            VP_PUT('0' + u % 10);
#endif
            f++;
        } else if (*f == 's') {
            const char *s = va_arg(ap, const char*);
            for (; *s && prec != 0; --prec) { VP_PUT(*s); s++; }
            f++;
        } else if (f[0] == 'l' && f[1] == 'l' && f[2] == 'x') {
            unsigned long long u = va_arg(ap, unsigned long long); int d = 1;
#ifdef VP_SMALL_INTS
            __CPROVER_assert(u < 256, "VPMODEL hexadecimal numbers in the text are small");
            if (u >= 16) VP_PUT((u >> 4) < 10 ? '0' + (u >> 4) : 'a' + (u >> 4) - 10);
            VP_PUT((u & 15) < 10 ? '0' + (u & 15) : 'a' + (u & 15) - 10);
#else
            for (unsigned long long w = u >> 4; w; w >>= 4) d++;
            while (d-- > 0) { int h = (u >> (4 * d)) & 15; VP_PUT(h < 10 ? '0' + h : 'a' + h - 10); }
#endif
            f += 3;
        } else { __CPROVER_assert(0, "VPMODEL unsupported format"); __CPROVER_assume(0); }
    }
    if (b && n) b[k < n ? k : n - 1] = 0;
    return (int)k;
}
static int vp_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vp_vfmt(b, (size_t)INT_MAX, f, ap); va_end(ap); return r; }
static int vp_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vp_vfmt(b, n, f, ap); va_end(ap); return r; }
static int vp_digit(char c, int base) {
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
    return d < base ? d : -1;
}
/* no sign or blanks: the callers only pass digits */
static unsigned long vp_strtoul(const char *s, char **end, int base) {
    unsigned long v = 0; int i = 0; _Bool sat = 0;
    __CPROVER_assert(*s != ' ' && *s != '-' && *s != '+' && !(*s >= 9 && *s <= 13), "VPMODEL number starts with a digit");
    if (base == 16 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && vp_digit(s[2], 16) >= 0) i = 2;
    for (; vp_digit(s[i], base) >= 0; ++i) {
        unsigned long d = vp_digit(s[i], base);
        if (base == 16) { if (v >> 60) sat = 1; v = v << 4 | d; }
        else if (base == 2) { if (v >> 63) sat = 1; v = v << 1 | d; }
        else { if (v > 1844674407370955161UL || (v == 1844674407370955161UL && d > 5)) sat = 1; v = v * 10 + d; }
    }
    if (end) *end = (char*)s + i;
    return sat ? ULONG_MAX : v;
}
/* regular expressions: the pattern is kept as text */
static int vp_regcomp(regex_t *r, const char *pat, int fl) { r->fastmap = (char*)pat; return 0; }
static void vp_regfree(regex_t *r) {}
static _Bool vp_class(const char *p, int plen, char c) {   /* p at '[' or a literal */
    if (*p != '[') return *p == c;
    _Bool m = 0;
    for (int i = 1; i < plen - 1; ++i) {
        if (i + 2 < plen - 1 && p[i + 1] == '-') { if (c >= p[i] && c <= p[i + 2]) m = 1; i += 2; }
        else if (p[i] == c) m = 1;
    }
    return m;
}
static int vp_regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int fl) {
    /* pattern = sequence of atoms, each optionally followed by '+'; matched as a
     * set of reachable atom positions (no atom is skipped) */
    const char *p = r->fastmap;
    const char *at[8]; int len[8]; _Bool plus[8]; int na = 0;
    __CPROVER_assert(*p == '^', "VPMODEL anchored pattern"); p++;
    while (*p != '$') {
        int l = 1;
        if (*p == '[') { l = 2; while (p[l] != ']') l++; l++; }
        at[na] = p; len[na] = l; p += l; plus[na] = *p == '+'; if (*p == '+') p++;
        na++;
    }
    unsigned st = 1;          /* bit i: i atoms complete */
    for (int i = 0; s[i]; ++i) {
        unsigned nx = 0;
        for (int k = 0; k < na; ++k) if (vp_class(at[k], len[k], s[i])) {
            if (st & (1u << k)) nx |= 2u << k;
            if (plus[k] && (st & (2u << k))) nx |= 2u << k;
        }
        st = nx;
    }
    return (st >> na) & 1 ? 0 : REG_NOMATCH;
}
static size_t vp_strlen(const char *s) { size_t i = 0; while (s[i]) i++; return i; }
static size_t vp_strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
static char *vp_strdup(const char *s) { size_t l = vp_strlen(s); char *d = malloc(VP_STRMAX); __CPROVER_assert(l < VP_STRMAX, "VPMODEL string too long"); for (size_t i = 0; i <= l; ++i) d[i] = s[i]; return d; }
static int vp_isdigit(int c) { return c >= '0' && c <= '9'; }
#undef isdigit
#define isdigit vp_isdigit
#define sprintf vp_sprintf
#define snprintf vp_snprintf
#define strtoul vp_strtoul
#define strtoull vp_strtoul
#define regcomp vp_regcomp
#define regexec vp_regexec
#define regfree vp_regfree
#define strlen vp_strlen
#define strnlen vp_strnlen
#define strdup vp_strdup
#endif
#endif
