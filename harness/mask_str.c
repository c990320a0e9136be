/* mask_utils.c: CPU masks as text. */
#include "vp.h"
#include <sched.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#include <limits.h>
#include <regex.h>
#include <unistd.h>
#include <dirent.h>
#include "mini_libc.h"
#include "support/mask_utils.c"
#ifndef NB
#define NB 12
#endif
#ifndef LEN
#define LEN 6
#endif
#define ROUND 1
#define QUOTED 2
#define SLURM 3
#define LIST 4
#define BITS_ 5
#define EQUIV 6
typedef unsigned __int128 bits_t;
static void sized(int n) { mu_cpuset_setsize = n; mu_cpuset_num_ulongs = (n + 63) / 64; mu_cpuset_alloc_size = mu_cpuset_num_ulongs * 8; mu_initialized = true; }
static bits_t val(const cpu_set_t *s) {
    bits_t v = s->__bits[0];
    if (sizeof(cpu_set_t) > 8) v |= (bits_t)s->__bits[1] << 64;
    for (size_t w = 2; w < sizeof(cpu_set_t) / 8; ++w) CHECK(s->__bits[w] == 0, "no CPU beyond the machine is set");
    return v;
}
static bool is_list;           /* the text is a well-formed list */
/* meaning of a list of CPUs, e.g. 0,3-5 (n: size of the machine) */
static bits_t meaning(const char *s, int len, int n) {
    bits_t v = 0; int i = 0;
    is_list = len > 0;
    while (i < len) {
        unsigned long a = 0, b; int k = i;
        while (i < len && s[i] >= '0' && s[i] <= '9') { a = a * 10 + (s[i] - '0'); i++; }
        if (i == k) { is_list = false; return 0; }
        b = a;
        if (i < len && s[i] == '-') {
            i++; k = i; b = 0;
            while (i < len && s[i] >= '0' && s[i] <= '9') { b = b * 10 + (s[i] - '0'); i++; }
            if (i == k) { is_list = false; return 0; }
        }
        for (int c = 0; c < n; ++c) if ((unsigned long)c >= a && (unsigned long)c <= b) v |= (bits_t)1 << c;
        if (i < len) { if (s[i] != ',' || i + 1 == len) { is_list = false; return 0; } i++; }
    }
    return v;
}
static char text[LEN + 2]; static int tlen;
#ifndef VP_CBMC
void vp_show(void) { printf("machine of %u CPUs, text \"%s\"\n", mu_cpuset_setsize, text); }
#endif
static void nd_text(const char *alphabet, int na) {
    tlen = nd(0, LEN);
    for (int i = 0; i < LEN + 1; ++i) { text[i] = 0; if (i < tlen) { int k = nd(0, na - 1); text[i] = alphabet[k]; } }
    text[LEN + 1] = 0;
}

void harness(void) {
    cpu_set_t m, r;
    CPU_ZERO(&m);
    memset(&r, 0x5a, sizeof r);
#if MODE == ROUND
    sized(NB);
    m.__bits[0] = nd(0, (1L << NB) - 1);
    const char *s = mu_to_str(&m);
    int l = strlen(s);
    CHECK(l >= 2 && s[0] == '[' && s[l - 1] == ']', "the text of a mask is in brackets");
    bits_t v = meaning(s + 1, l - 2, NB);
    CHECK(IMP(l > 2, is_list), "the text of a mask is a list of CPUs and ranges");
    CHECK((l > 2) == (m.__bits[0] != 0), "only the empty mask has no text");
    CHECK(v == m.__bits[0], "the text of a mask names exactly its CPUs");
    WITNESS(l > NB + 3, "a long text");
#elif MODE == QUOTED
    sized(NB);
    m.__bits[0] = nd(0, (1L << NB) - 1);
    const size_t len = QLEN;
    char *b = malloc(len);      /* exactly as many bytes as promised */
    mu_get_quoted_mask(&m, b, len);
    if (len >= 2) {
        size_t l = 0; while (l < len && b[l]) l++;
        CHECK(l < len, "the quoted text is terminated within its buffer");
        bits_t v = l >= 2 ? meaning(b + 1, l - 2, NB) : 0;
        CHECK(IMP(len >= 2 * NB + 3, l >= 2 && b[0] == '"' && b[l - 1] == '"' && v == m.__bits[0] && (l == 2 || is_list)), "the quoted text names exactly the CPUs");
        WITNESS(m.__bits[0] == 0x15, "a mask with gaps");
    }
    free(b);
#elif MODE == SLURM
    sized(NB);
    m.__bits[0] = (unsigned long)nd(0, 0xffffffffL) & ((1UL << NB) - 1);
    char *s = mu_parse_to_slurm_format(&m);
    CHECK(s != NULL && s[0] == '0' && s[1] == 'x', "the hexadecimal form starts with 0x");
    unsigned long v = 0; int l = 2;
    for (; s[l]; ++l) { int d = s[l] >= '0' && s[l] <= '9' ? s[l] - '0' : s[l] >= 'a' && s[l] <= 'f' ? s[l] - 'a' + 10 : -1; CHECK(d >= 0, "the hexadecimal form has only digits"); v = v << 4 | d; }
    CHECK(l > 2 && v == m.__bits[0], "the hexadecimal form has exactly the bits of the mask");
    WITNESS(m.__bits[0] >> (NB - 1), "the last CPU of the machine");
    free(s);
#elif MODE == LIST
    sized(NB);
    nd_text("012359,-", 8);
    bits_t v = meaning(text, tlen, NB);
    mu_parse_mask(text, &r);
    bits_t g = val(&r);
    CHECK((g >> NB) == 0, "a parsed mask has only CPUs of the machine");
    CHECK(IMP(is_list, g == v), "a list of CPUs and ranges means exactly those CPUs");
    CHECK(IMP(tlen == 0, g == 0), "an empty text is an empty mask");
    WITNESS(is_list && tlen == LEN && text[1] == '-' && v != 0, "a list with a range");
#elif MODE == BITS_
    /* FORM 0: 0b1101   1: 0x1f  2: 1101b (old form, first digit is CPU 0) 3: any bytes */
    sized(NB);
#if FORM == 3
    tlen = nd(0, LEN);
    for (int i = 0; i < LEN; ++i) if (i < tlen) { int k = nd(1, 255); text[i] = (char)k; }
    bool hex = tlen >= 3 && text[0] == '0' && (text[1] == 'x' || text[1] == 'X'), bin = tlen >= 3 && text[0] == '0' && (text[1] == 'b' || text[1] == 'B'), list = tlen > 0, old = tlen >= 3 && (text[tlen - 1] == 'b' || text[tlen - 1] == 'B');
    for (int i = 0; i < LEN; ++i) if (i < tlen) {
        bool dg = text[i] >= '0' && text[i] <= '9', hd = dg || (text[i] >= 'a' && text[i] <= 'f') || (text[i] >= 'A' && text[i] <= 'F');
        if (!dg && text[i] != ',' && text[i] != '-') list = false;
        if (i >= 2 && !hd && text[i] != ',') hex = false;
        if (i >= 2 && text[i] != '0' && text[i] != '1') bin = false;
        if (i < tlen - 1 && text[i] != '0' && text[i] != '1') old = false;
    }
    mu_parse_mask(text, &r);
    bits_t g = val(&r);
    CHECK((g >> NB) == 0, "a parsed mask has only CPUs of the machine");
    CHECK(IMP(!hex && !bin && !list && !old, g == 0), "a text that is no mask gives an empty mask");
    WITNESS(hex && g, "a hexadecimal text");
#else
    int nd_ = nd(MINLEN, LEN - 2); bits_t v = 0;
    tlen = 0;
    if (FORM != 2) { text[0] = '0'; bool up = nd(0, 1); text[1] = FORM == 0 ? (up ? 'B' : 'b') : (up ? 'X' : 'x'); tlen = 2; }
    for (int i = 0; i < LEN - 2; ++i) if (i < nd_) {
        int d = nd(0, FORM == 1 ? 21 : 1);
        text[tlen + i] = d < 10 ? '0' + d : d < 16 ? 'a' + d - 10 : 'A' + d - 16;
        if (d >= 16) d -= 6;
        if (FORM == 2) { if (d) v |= (bits_t)1 << i; }
        else v = FORM == 1 ? v << 4 | d : v << 1 | d;
    }
    if (FORM == 2) { text[nd_] = nd(0, 1) ? 'b' : 'B'; }
    mu_parse_mask(text, &r);
    bits_t g = val(&r);
    CHECK(g == (v & (((bits_t)1 << NB) - 1)), "every digit of a mask text sets exactly its CPUs");
    WITNESS(nd_ == LEN - 2 && (g >> (NB - 1)), "the last CPU");
#endif
#else /* EQUIV: defaults and user values of mask options are compared as masks */
    sized(NB);
    nd_text("012,-", 5);
    bits_t a = meaning(text, tlen, NB); bool la = is_list || tlen == 0;
    static char text1[LEN + 2]; int l1 = tlen; for (int i = 0; i < LEN + 2; ++i) text1[i] = text[i];
    nd_text("012,-", 5);
    bits_t b = meaning(text, tlen, NB); bool lb = is_list || tlen == 0;
    ASSUME(la && lb);
    bool eq = mu_equivalent_masks(text1, text);
    CHECK(eq == (a == b), "two texts are equivalent exactly when they name the same CPUs");
    WITNESS(eq && l1 != tlen, "different texts of one mask");
#endif
}
