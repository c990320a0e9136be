/* mask_utils.c: sets of CPUs, the machine topology, orders of CPUs. */
#include "vp.h"
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#ifndef NC
#define NC 6            /* CPUs in the modelled machine (topology) */
#endif
#define ALG 1
#define TOPO 2
#define ORDER 3
#include "support/mask_utils.h"
#include "typed_alloc.h"
#include "support/mask_utils.c"

#define BITS ((int)(8 * sizeof(cpu_set_t)))
static bool in(int c, const cpu_set_t *s) { return c >= 0 && c < BITS && (s->__bits[c / 64] >> (c % 64)) & 1UL; }

#if MODE == ALG
/* every set operation against its definition, CPU by CPU, for machines of any size */
static void nd_set(cpu_set_t *s, unsigned n) {
    for (int w = 0; w < BITS / 64; ++w) {
        unsigned long lo = (unsigned long)nd(0, 0xffffffffL), hi = (unsigned long)nd(0, 0xffffffffL);
        s->__bits[w] = lo | hi << 32;
        if ((unsigned)w * 64 >= n) s->__bits[w] = 0;
        else if (n - w * 64 < 64) s->__bits[w] &= (1UL << (n - w * 64)) - 1;
    }
}
static int cnt(const cpu_set_t *s) {
    int n = 0;
    for (int w = 0; w < BITS / 64; ++w) n += __builtin_popcountl(s->__bits[w]);
    return n;
}
void harness(void) {
    static cpu_set_t sysm, a, b, r;
    int n = nd(1, BITS);
    mu_cpuset_setsize = n; mu_cpuset_num_ulongs = (n + 63) / 64; mu_cpuset_alloc_size = mu_cpuset_num_ulongs * 8;
    sys.sys_mask.last_cpuid = n - 1; sys.sys_mask.set = &sysm; sys.sys_mask.alloc_size = mu_cpuset_alloc_size; mu_initialized = true;
    nd_set(&sysm, n);
    CHECK(mu_get_system_size() == n, "the system size is one more than its last CPU");
    nd_set(&a, n); nd_set(&b, n); nd_set(&r, n);
    int c = nd(0, BITS - 1);
    ASSUME(c < n);
    bool ia = in(c, &a), ib = in(c, &b);
    cpu_set_t a0 = a, b0 = b;
    int sel = nd(0, 3);       /* where the result goes */
    cpu_set_t *d = sel == 0 ? &a : sel == 1 ? &b : &r;
#if SUB == 1
    switch (nd(0, 4)) {
    case 0: mu_and(d, &a, &b); CHECK(in(c, d) == (ia && ib), "mu_and is the intersection"); WITNESS(in(c, d) && n > 600, "a common CPU of a large machine"); break;
    case 1: mu_or(d, &a, &b); CHECK(in(c, d) == (ia || ib), "mu_or is the union"); break;
    case 2: mu_xor(d, &a, &b); CHECK(in(c, d) == (ia != ib), "mu_xor is the symmetric difference"); break;
    case 3: mu_substract(d, &a, &b); CHECK(in(c, d) == (ia && !ib), "mu_substract is the difference"); break;
    default: mu_zero(d); CHECK(!in(c, d), "mu_zero leaves no CPU"); break;
    }
    if (d != &a) CHECK(in(c, &a) == ia, "operands are not changed");
    if (d != &b) CHECK(in(c, &b) == ib, "operands are not changed");
    mu_get_system_mask(&r);
    int x = nd(0, BITS - 1);
    CHECK(in(x, &r) == in(x, &sysm), "the system mask is the one given");
#elif SUB == 2
    /* predicates: universal direction through the arbitrary CPU c, existential through counts */
    bool sub = mu_is_subset(&a, &b), psub = mu_is_proper_subset(&a, &b), eq = mu_equal(&a, &b), it = mu_intersects(&a, &b);
    CHECK(sub == mu_is_superset(&b, &a), "superset is the converse of subset");
    CHECK(psub == mu_is_proper_superset(&b, &a), "proper superset is the converse of proper subset");
    CHECK(IMP(sub, IMP(ia, ib)), "a subset has only CPUs of the superset");
    CHECK(IMP(eq, ia == ib), "equal sets have the same CPUs");
    CHECK(IMP(!it, !(ia && ib)), "sets that do not intersect have no CPU in common");
    CHECK(psub == (sub && !eq), "a proper subset is a subset that differs");
    bool rsub = true, req = true, rit = false;
    for (int w = 0; w < BITS / 64; ++w) {
        if (a.__bits[w] & ~b.__bits[w]) rsub = false;
        if (a.__bits[w] != b.__bits[w]) req = false;
        if (a.__bits[w] & b.__bits[w]) rit = true;
    }
    CHECK(sub == rsub, "subset holds exactly when no CPU is missing");
    CHECK(eq == req, "equality holds exactly when no CPU differs");
    CHECK(it == rit, "intersection is reported exactly when there is a common CPU");
    WITNESS(psub && n > 600, "a proper subset"); WITNESS(it && !sub, "an intersection that is no subset");
#elif SUB == 3
    int k = mu_count(&a);
    CHECK(k == cnt(&a), "mu_count is the number of CPUs");
    int s = mu_get_single_cpu(&a);
    CHECK(IMP(s >= 0, in(s, &a) && cnt(&a) == 1), "the single CPU is the only one");
    CHECK(IMP(s == -1, cnt(&a) != 1) && s >= -1, "a set with one CPU has a single CPU");
    WITNESS(s > 600, "a single CPU in a large machine");
#else
    int f = mu_get_first_cpu(&a), l = mu_get_last_cpu(&a);
    CHECK(IMP(f >= 0, in(f, &a)) && IMP(ia, f >= 0 && f <= c) && f >= -1, "the first CPU is the lowest one");
    CHECK(IMP(l >= 0, in(l, &a)) && IMP(ia, l >= c) && l >= -1, "the last CPU is the highest one");
    int p = nd(-2, BITS - 1), nx = mu_get_next_cpu(&a, p), nu = mu_get_next_unset(&a, p);
    CHECK(nx >= -1 && IMP(nx >= 0, in(nx, &a) && nx > p), "the next CPU is in the set and comes later");
    CHECK(IMP(p >= -1 && ia && c > p, nx >= 0 && nx <= c), "the next CPU skips none");
    CHECK(nu >= -1 && IMP(nu >= 0, !in(nu, &a) && nu > p), "the next unset CPU is not in the set and comes later");
    CHECK(IMP(p >= -1 && !ia && c > p, nu >= 0 && nu <= c), "the next unset CPU skips none");
    CHECK(IMP(p < -1, nx == -1 && nu == -1), "a position before the start gives nothing");
    WITNESS(nx > 600 && p > 64, "a next CPU in a large machine"); WITNESS(l == 63 && n > 64, "a boundary between words");
#endif
    CHECK(IMP(d != &a || SUB != 1, CPU_EQUAL(&a, &a0)) && IMP(d != &b || SUB != 1, CPU_EQUAL(&b, &b0)), "operands are not changed");
}

#else
static cpu_set_t sysm, cores[NCORES], nodes[NNODES];
static int core_of[NC], node_of[NC], ncores, nnodes, ncpus;
static unsigned long nd_word(void) { return (unsigned long)nd(0, (1L << NC) - 1) & ((1UL << ncpus) - 1); }
static void mk(cpu_set_t *s, unsigned long w) { CPU_ZERO(s); s->__bits[0] = w; }
#define W(s) ((s)->__bits[0])
static void machine(void) {
    ncpus = NC; ncores = NCORES; nnodes = NNODES;
    CPU_ZERO(&sysm); W(&sysm) = (1UL << NC) - 1;
    for (int i = 0; i < ncores; ++i) CPU_ZERO(&cores[i]);
    for (int i = 0; i < nnodes; ++i) CPU_ZERO(&nodes[i]);
    for (int c = 0; c < NC; ++c) {
        core_of[c] = node_of[c] = -1;
        if (c >= ncpus) continue;
        int co = nd(-1, NC - 1), no = nd(-1, NC - 1);      /* -1: offline, or the CPU is in no core */
        ASSUME(co < ncores && no < nnodes);
        core_of[c] = co; node_of[c] = no;
        for (int i = 0; i < ncores; ++i) if (i == co) CPU_SET(c, &cores[i]);
        for (int i = 0; i < nnodes; ++i) if (i == no) CPU_SET(c, &nodes[i]);
    }
    for (int i = 0; i < ncores; ++i) ASSUME(W(&cores[i]) != 0);
    for (int i = 0; i < nnodes; ++i) ASSUME(W(&nodes[i]) != 0);
    mu_testing_set_sys_masks(&sysm, cores, ncores, nodes, nnodes);
}
#ifndef VP_CBMC
static void show_set(const char *n, const cpu_set_t *s) { printf("%s %s\n", n, mu_to_str(s)); }
void vp_show(void) {
    printf("machine: %d CPUs, %d cores, %d NUMA nodes\n", ncpus, ncores, nnodes);
    for (int i = 0; i < ncores; ++i) { printf("core %d: ", i); show_set("", &cores[i]); }
    for (int i = 0; i < nnodes; ++i) { printf("node %d: ", i); show_set("", &nodes[i]); }
}
#endif

#if MODE == TOPO
void harness(void) {
    machine();
    cpu_set_t m, r; mk(&m, nd_word()); cpu_set_t m0 = m;
    mk(&r, nd_word());
    int cpu = nd(-3, NC + 2), core = nd(-3, NC + 2);
#if SUB == 1
    CHECK(mu_get_system_size() == ncpus, "the system size covers its last CPU");
    CHECK(mu_get_num_cores() == ncores, "the number of cores is the machine's");
    CHECK(mu_get_system_hwthreads_per_core() == __builtin_popcountl(W(&cores[0])), "hardware threads per core");
    CHECK(mu_system_has_smt() == (__builtin_popcountl(W(&cores[0])) > 1), "a machine with several threads per core has SMT");
    int id = mu_get_core_id(cpu);
    CHECK(id == (cpu >= 0 && cpu < ncpus ? core_of[cpu] : -1), "every CPU has its core, no other number has one");
    const mu_cpuset_t *cm = mu_get_core_mask(cpu);
    CHECK((cm != NULL) == (cpu >= 0 && cpu < ncpus && core_of[cpu] >= 0), "every CPU has the CPUs of its core, no other number has them");
    if (cm && cpu < ncpus) {
        CHECK(cm->set->__bits[0] == W(&cores[core_of[cpu]]), "the core of a CPU has the right CPUs");
        CHECK(cm->count == __builtin_popcountl(W(&cores[core_of[cpu]])), "the number of CPUs in a core");
        CHECK(cm->first_cpuid == __builtin_ctzl(W(&cores[core_of[cpu]])) && cm->last_cpuid == 63 - __builtin_clzl(W(&cores[core_of[cpu]])), "the first and last CPU of a core");
    }
    const mu_cpuset_t *cc = mu_get_core_mask_by_coreid(core);
    CHECK((cc != NULL) == (core >= 0 && core < ncores), "every core has its CPUs, no other number has them");
    if (cc && core < ncores) CHECK(cc->set->__bits[0] == W(&cores[core]), "a core has the right CPUs");
    WITNESS(cpu == ncpus, "the number just after the last CPU");
    WITNESS(core == ncores, "the number just after the last core");
    WITNESS(id == ncores - 1, "a CPU of the last core");
#elif SUB == 2
    unsigned long e1 = 0, e2 = 0, e3 = 0, e4 = 0; int k = 0, last = -1;
    for (int i = 0; i < nnodes; ++i) { if (W(&nodes[i]) & W(&m)) e1 |= W(&nodes[i]); if (!(W(&nodes[i]) & ~W(&m))) e2 |= W(&nodes[i]); }
    for (int i = 0; i < ncores; ++i) { if (W(&cores[i]) & W(&m)) e3 |= W(&cores[i]); if (!(W(&cores[i]) & ~W(&m))) { e4 |= W(&cores[i]); k++; last = i; } }
    mu_get_nodes_intersecting_with_cpuset(&r, &m); CHECK(W(&r) == e1, "NUMA nodes touched by a set");
    mu_get_nodes_subset_of_cpuset(&r, &m); CHECK(W(&r) == e2, "NUMA nodes within a set");
    mu_get_cores_intersecting_with_cpuset(&r, &m); CHECK(W(&r) == e3, "cores touched by a set");
    mu_get_cores_subset_of_cpuset(&r, &m); CHECK(W(&r) == e4, "cores within a set");
    CHECK(mu_count_cores(&m) == k, "the number of complete cores");
    CHECK(mu_get_last_coreid(&m) == last, "the last complete core");
    CHECK(CPU_EQUAL(&m, &m0), "queries do not change the set");
    int t = mu_take_last_coreid(&m);
    CHECK(t == last, "the last complete core is the one taken");
    CHECK(W(&m) == (last < 0 ? W(&m0) : W(&m0) & ~W(&cores[last])), "exactly the CPUs of the taken core are removed");
    #if NCORES > 2
    WITNESS(k >= 2 && k < ncores, "some complete cores");
#endif
#if NNODES > 1 && NNODES < NC
    WITNESS(e1 != e2 && e2, "a node partly in the set");
#endif
#else
    int i = nd(0, NCORES - 1);
    cpu_set_t u = m;
    mu_set_core(&u, i); CHECK(W(&u) == (W(&m) | W(&cores[i])), "setting a core adds exactly its CPUs");
    u = m;
    mu_unset_core(&u, i); CHECK(W(&u) == (W(&m) & ~W(&cores[i])), "unsetting a core removes exactly its CPUs");
    int p = nd(-2, NC - 1);
    ASSUME(p < ncpus);
    int nx = mu_get_cpu_next_core(&m, p), pc = p >= 0 ? core_of[p] : -1, e = -1;
    for (int c = NC - 1; c >= 0; --c) if (p >= -1 && c > p && in(c, &m) && core_of[c] > pc) e = c;
    CHECK(nx == e, "the next CPU of a later core");
    WITNESS(nx > p + 1, "CPUs of the same core are skipped");
#endif
    mu_finalize();
    CHECK(!mu_testing_is_initialized(), "finalizing forgets the machine");
    CHECK(mu_get_core_id(cpu) == -1 && mu_get_core_mask(cpu) == NULL && mu_get_core_mask_by_coreid(core) == NULL, "nothing is known of a machine that was finalized");
}

#else /* ORDER */
static int core_cmp(int a, int b) { int x = core_of[a], y = core_of[b]; return x == y ? a - b : x - y; }
#define SGN(x) ((x) > 0 ? 1 : (x) < 0 ? -1 : 0)
/* rank of an unowned CPU relative to the first owned one: after it, or wrapped around */
static int wrap(int c, int first) { return first >= 0 && core_cmp(c, first) < 0; }
void harness(void) {
    machine();
    cpuid_t a = nd(0, NC - 1), b = nd(0, NC - 1), c = nd(0, NC - 1);
    ASSUME(a < ncpus && b < ncpus && c < ncpus);
#if SUB == 1
    cpu_set_t m; mk(&m, nd_word());
    int first = W(&m) ? __builtin_ctzl(W(&m)) : -1;
#define CMP(x, y) SGN(mu_cmp_cpuids_by_ownership(&x, &y, &m))
    int ca = in(a, &m) ? 0 : 1 + wrap(a, first), cb = in(b, &m) ? 0 : 1 + wrap(b, first);
#else
    cpu_set_t lv[4];
    unsigned long w0 = nd_word(), w1 = nd_word() | w0, w2 = nd_word() | w1;
    int nl = nd(0, 3);
    for (int i = 0; i < 4; ++i) mk(&lv[i], i >= nl ? 0 : i == 0 ? w0 : i == 1 ? w1 : w2);
    ASSUME(IMP(nl > 0, w0 != 0));
    int first = nl > 0 ? __builtin_ctzl(w0) : -1;
#define CMP(x, y) SGN(mu_cmp_cpuids_by_affinity(&x, &y, lv))
#define LEVEL(x) (nl > 0 && in(x, &lv[0]) ? 0 : nl > 1 && in(x, &lv[1]) ? 1 : nl > 2 && in(x, &lv[2]) ? 2 : nl)
    int ca = LEVEL(a) == 1 ? 2 + wrap(a, first) : LEVEL(a) * 4, cb = LEVEL(b) == 1 ? 2 + wrap(b, first) : LEVEL(b) * 4;
#endif
    int ab = CMP(a, b), ba = CMP(b, a), bc = CMP(b, c), ac = CMP(a, c), aa = CMP(a, a);
    CHECK(aa == 0, "a CPU equals itself in the order");
    CHECK(ab == -ba, "comparing two CPUs either way round agrees");
    CHECK(IMP(a != b, ab != 0), "different CPUs are ordered");
    CHECK(IMP(ab < 0 && bc < 0, ac < 0), "the order is transitive");
    CHECK(ab == (ca != cb ? SGN(ca - cb) : SGN(core_cmp(a, b))), "the order is the documented one");
    WITNESS(ab < 0 && bc < 0 && a > b, "an order that is not by CPU number");
}
#endif
#endif
