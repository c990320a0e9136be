/* mask_utils.c: reading the machine from the files of the system, whatever the
 * core numbers, the order of the directory entries and the gaps in NUMA nodes. */
#include "vp.h"
#include <sched.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <ctype.h>
#include <limits.h>
#include <regex.h>
#include <unistd.h>
#include <sys/types.h>
#include <dirent.h>
#ifndef NC
#define NC 4
#endif
#define NN 3
static int core_of[NC], core_id[NC], node_of[NC];
/* order of the directory entries */
static const int order[NC] = {ORDER}, norder[NN] = {NORDER};
static int ncores;
static unsigned long core_set(int c) { unsigned long w = 0; for (int i = 0; i < NC; ++i) if (core_of[i] == core_of[c]) w |= 1UL << i; return w; }
static unsigned long node_set(int n) { unsigned long w = 0; for (int i = 0; i < NC; ++i) if (node_of[i] == n) w |= 1UL << i; return w; }
/* --- the files --- */
static int cur_dir, cur_pos, f_kind, f_arg; static struct dirent ent; static int handle;
#define F_PRESENT 1
#define F_SIBLINGS 2
#define F_COREID 3
#define F_NODE 4
static int path_is(const char *p, const char *a, int n, const char *b) {     /* p == a N b */
    int i = 0;
    for (; a[i]; ++i) if (p[i] != a[i]) return 0;
    if (n >= 0) { if (p[i] < '0' || p[i] > '9') return 0; f_arg = p[i] - '0'; i++; }
    for (int k = 0; b[k]; ++k, ++i) if (p[i] != b[k]) return 0;
    return p[i] == 0;
}
static int vp_access(const char *p, int m) {
    f_kind = path_is(p, "/sys/devices/system/cpu/present", -1, "") ? F_PRESENT
        : path_is(p, "/sys/devices/system/cpu/cpu", 0, "/topology/thread_siblings_list") ? F_SIBLINGS
        : path_is(p, "/sys/devices/system/cpu/cpu", 0, "/topology/core_id") ? F_COREID
        : path_is(p, "/sys/devices/system/node/node", 0, "/cpulist") ? F_NODE : 0;
    CHECK(f_kind != 0, "only the documented system files are read");
    return f_kind ? 0 : -1;
}
static FILE *vp_fopen(const char *p, const char *m) { vp_access(p, 0); return (FILE*)&handle; }
static int vp_fclose(FILE *f) { return 0; }
static void put_hex(char *b, unsigned long w) { b[0] = '0'; b[1] = 'x'; b[2] = w < 10 ? '0' + w : 'a' + w - 10; b[3] = '\n'; b[4] = 0; }
static char *vp_fgets(char *b, int n, FILE *f) {
    if (f_kind == F_PRESENT) put_hex(b, (1UL << NC) - 1);
    else if (f_kind == F_SIBLINGS) put_hex(b, core_set(f_arg));
    else if (f_kind == F_NODE) put_hex(b, node_set(f_arg));
    else {
        int v = core_id[f_arg], i = 0;
        if (v < 0) { b[i++] = '-'; v = -v; }
        if (v >= 10000) { b[i++] = '6'; b[i++] = '5'; b[i++] = '5'; b[i++] = '3'; b[i++] = '5'; }
        else { if (v >= 10) b[i++] = '0' + (v * 205 >> 11); b[i++] = '0' + (v - 10 * (v * 205 >> 11)); }
        b[i++] = '\n'; b[i] = 0;
    }
    return b;
}
static DIR *vp_opendir(const char *p) { cur_dir = path_is(p, "/sys/devices/system/cpu", -1, "") ? 1 : 2; cur_pos = 0; return (DIR*)&handle; }
static int vp_closedir(DIR *d) { return 0; }
static struct dirent *vp_readdir(DIR *d) {
    int k = cur_pos++;
    if (k >= (cur_dir == 1 ? NC : NN) + 1) return NULL;
    ent.d_type = DT_DIR;
    if (k == 0) { strcpy(ent.d_name, cur_dir == 1 ? "cpufreq" : "power"); return &ent; }
    if (cur_dir == 1) { ent.d_name[0] = 'c'; ent.d_name[1] = 'p'; ent.d_name[2] = 'u'; ent.d_name[3] = '0' + order[k - 1]; ent.d_name[4] = 0; }
    else { ent.d_name[0] = 'n'; ent.d_name[1] = 'o'; ent.d_name[2] = 'd'; ent.d_name[3] = 'e'; ent.d_name[4] = '0' + norder[k - 1]; ent.d_name[5] = 0; }
    return &ent;
}
#define access vp_access
#define fopen vp_fopen
#define fclose vp_fclose
#define fgets vp_fgets
#define opendir vp_opendir
#define closedir vp_closedir
#define readdir vp_readdir
#ifdef VP_CBMC
#include <stdarg.h>
#include "mini_libc.h"
/* the only text that is parsed is a hexadecimal digit */
#undef regexec
static int vp_rx1(const regex_t *r, const char *s) { const char *p = r->fastmap; return p[0] == '^' && p[1] == '0' && p[2] == '[' && p[3] == 'x' ? 0 : REG_NOMATCH; }
#define regexec(r, s, n, m, f) vp_rx1(r, s)
/* lengths: the digit that varies is never a terminator */
static size_t vp_len(const char *s) { size_t i = s[0] == '0' && s[1] == 'x' ? 3 : 1; while (s[i]) i++; return i; }
#undef strlen
#undef strnlen
#define strlen vp_len
#define strnlen(s, n) vp_len(s)
static long vp_strtol(const char *s, char **e, int b) { int neg = *s == '-'; long v = vp_strtoul(s + neg, e, b); return neg ? -v : v; }
#define strtol vp_strtol
#endif
#include "support/mask_utils.h"
#include "typed_alloc.h"
#include "support/mask_utils.c"
#ifndef VP_CBMC
void vp_show(void) {
    for (int i = 0; i < NC; ++i) printf("entry %d: cpu%d core_id %d siblings 0x%lx node%d\n", i, order[i], core_id[order[i]], core_set(order[i]), node_of[order[i]]);
    printf("node entries: %d %d %d\n", norder[0], norder[1], norder[2]);
}
#endif
void harness(void) {
    /* any partition into cores, numbered by first CPU */
    for (int c = 0; c < NC; ++c) {
        core_of[c] = nd(0, c);
        ASSUME(core_of[core_of[c]] == core_of[c]);
        if (core_of[c] == c) { ncores++; long v = nd(-1, 30); core_id[c] = v == 30 ? 65535 : v; }
        else core_id[c] = core_id[core_of[c]];
        node_of[c] = nd(0, NN - 1);
    }
    for (int c = 1; c < NC; ++c) if (core_of[c] != c) node_of[c] = node_of[core_of[c]];
    mu_testing_init_nohwloc();
    CHECK(mu_get_system_size() == NC, "the machine has the CPUs that are present");
    CHECK(mu_get_num_cores() == ncores, "the machine has as many cores as there are groups of siblings");
    int a = nd(0, NC - 1), b = nd(0, NC - 1);
    int ia = mu_get_core_id(a), ib = mu_get_core_id(b);
    CHECK(ia >= 0 && ia < ncores, "every CPU has a core");
    CHECK((ia == ib) == (core_of[a] == core_of[b]), "two CPUs have the same core exactly when they are siblings");
    const mu_cpuset_t *m = mu_get_core_mask(a);
    CHECK(m != NULL && m->set != NULL && m->set->__bits[0] == core_set(a), "the core of a CPU consists of its siblings");
    const mu_cpuset_t *m2 = mu_get_core_mask_by_coreid(ia);
    CHECK(m2 != NULL && m2->set != NULL && m2->set->__bits[0] == core_set(a), "the core of that number consists of the same CPUs");
    CHECK(IMP(core_id[a] >= 0 && core_id[b] < NC && core_id[a] < core_id[b] && core_id[a] != core_id[b] && ncores == 2, ia < ib), "cores keep the order of their numbers");
    cpu_set_t s, r; CPU_ZERO(&s); CPU_SET(a, &s);
    mu_get_nodes_intersecting_with_cpuset(&r, &s);
    CHECK(r.__bits[0] == node_set(node_of[a]), "a CPU belongs to its NUMA node");
    mu_get_cores_intersecting_with_cpuset(&r, &s);
    CHECK(r.__bits[0] == core_set(a), "the core touched by a CPU");
    WITNESS(ncores == 3 && core_id[a] > 20, "a core number beyond the number of CPUs");
    WITNESS(node_set(1) == 0 && node_of[a] == 2 && node_of[b] == 0, "a NUMA node without CPUs");
    WITNESS(ncores == 2 && core_id[a] == core_id[b] && core_of[a] != core_of[b], "cores of two packages with the same number");
}
