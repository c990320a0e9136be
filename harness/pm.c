/* Callbacks: registration and invocation (LB_numThreads/numThreads.c). */
#include "vp.h"
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#define OMP_HERE
int omp_n, omp_calls; 
void omp_set_num_threads(int n) { omp_n = n; ++omp_calls; }
int omp_get_max_threads(void) { return 5; }
#include "LB_numThreads/numThreads.c"
enum { NC = 4, NW = 9 };
static pm_interface_t pm;
static int calls[NW + 1], num; static void *args[NW + 1]; static cpu_set_t masks[NW + 1]; static int en[NC], dis[NC];
static void hit(int w, void *a) { calls[w]++; args[w] = a; }
static void cb1(int n, void *a) { hit(1, a); num = n; }
#define M(i) static void cb##i(const_dlb_cpu_set_t m, void *a) { hit(i, a); masks[i] = *(const cpu_set_t*)m; }
M(2) M(3) M(4) M(5) M(8) M(9)
static void bump(int *x, int c) { CHECK(c >= 0 && c < NC, "a CPU of the node"); for (int i = 0; i < NC; ++i) if (i == c) x[i]++; }
static void cb6(int c, void *a) { hit(6, a); bump(en, c); }
static void cb7(int c, void *a) { hit(7, a); bump(dis, c); }
static dlb_callback_t cbs[NW + 1] = { 0, (dlb_callback_t)cb1, (dlb_callback_t)cb2, (dlb_callback_t)cb3, (dlb_callback_t)cb4, (dlb_callback_t)cb5, (dlb_callback_t)cb6, (dlb_callback_t)cb7, (dlb_callback_t)cb8, (dlb_callback_t)cb9 };
static int tags[NW + 1];
static bool set[NW + 1];
static cpu_set_t affinity;
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) { *m = affinity; return 0; }
static void nd_mask(cpu_set_t *m) { CPU_ZERO(m); for (int c = 0; c < NC; ++c) if (nd(0, 1)) CPU_SET(c, m); }
static void start(void) {
    mu_testing_set_sys_size(NC);
    pm_init(&pm);
    for (int i = 1; i <= NW; ++i) if (set[i] = nd(0, 1)) CHECK(pm_callback_set(&pm, i, cbs[i], &tags[i]) == DLB_SUCCESS, "a callback can be set");
    nd_mask(&affinity);
}
static void only(int w, int n) {
    for (int i = 1; i <= NW; ++i) CHECK(calls[i] == (i == w ? n : 0), "exactly the right callback is called, the right number of times");
    if (w && n) CHECK(args[w] == &tags[w], "with the argument it was registered with");
}
void harness(void) {
    start();
    cpu_set_t m; nd_mask(&m); int cpu = nd(0, NC - 1), n = nd(-3, 9), r, cnt = 0;
    for (int c = 0; c < NC; ++c) if (CPU_ISSET(c, &m)) ++cnt;
#if CASE == 1   /* set and get */
    for (int i = 1; i <= NW; ++i) {
        dlb_callback_t c = NULL; void *a = NULL;
        CHECK(pm_callback_get(&pm, i, &c, &a) == DLB_SUCCESS, "a callback can be read");
        if (set[i]) CHECK(c == cbs[i] && a == &tags[i], "what was set is read back");
        else if (i > 1) CHECK(c == NULL && a == NULL, "nothing else was set");
    }
    int w = nd(1, NW);
    CHECK(pm_callback_set(&pm, w, NULL, NULL) == DLB_SUCCESS, "a callback can be removed");
    for (int i = 1; i <= NW; ++i) {
        dlb_callback_t c = NULL; void *a = NULL;
        pm_callback_get(&pm, i, &c, &a);
        if (i == w) CHECK(c == NULL && a == NULL, "a removed callback is gone");
        else if (set[i]) CHECK(c == cbs[i] && a == &tags[i], "the others stay");
    }
    int bad = nd(0, 1) ? 0 : nd(10, 20); dlb_callback_t c; void *a;
    CHECK(pm_callback_set(&pm, bad, cbs[2], NULL) == DLB_ERR_NOCBK && pm_callback_get(&pm, bad, &c, &a) == DLB_ERR_NOCBK, "an unknown callback is refused");
    pm_finalize(&pm);
    for (int i = 1; i <= NW; ++i) { pm_callback_get(&pm, i, &c, &a); CHECK(c == NULL && a == NULL, "no callback survives finalization"); }
    CHECK(pm_get_num_threads() == 5, "the number of threads is that of the runtime");
#elif CASE == 2 /* number of threads */
    r = update_threads(&pm, n);
    int want = n < 1 ? 1 : n > NC ? NC : n;
    CHECK(r == DLB_SUCCESS, "the number of threads is updated");
    if (set[1]) { only(1, 1); CHECK(num == want && omp_calls == 0, "between 1 and the size of the node"); }
    else { only(0, 0); CHECK(omp_calls == 1 && omp_n == want, "between 1 and the size of the node"); }
    pm_finalize(&pm); calls[1] = 0;
    CHECK(update_threads(&pm, n) == DLB_ERR_NOCBK && calls[1] == 0, "no callback, no update");
#elif CASE == 3 /* masks */
    int w = nd(0, 3);
    r = w == 0 ? set_mask(&pm, &m) : w == 1 ? set_process_mask(&pm, &m) : w == 2 ? add_process_mask(&pm, &m) : add_mask(&pm, &m);
    int cb = w == 0 ? 2 : w == 1 ? 3 : w == 2 ? 5 : 4;
    if (set[cb]) { only(cb, 1); CHECK(r == DLB_SUCCESS, "the callback is called"); for (int c = 0; c < NC; ++c) CHECK(!CPU_ISSET(c, &masks[cb]) == !CPU_ISSET(c, &m), "with the mask"); }
    else if (w == 3 && set[6]) { only(6, cnt); CHECK(r == DLB_SUCCESS, "each CPU of the mask is enabled"); for (int c = 0; c < NC; ++c) CHECK(en[c] == !!CPU_ISSET(c, &m), "once"); }
    else { only(0, 0); CHECK(r == DLB_ERR_NOCBK, "a missing callback is reported"); }
#elif CASE == 4 /* enabling */
    bool one = nd(0, 1);
    if (one) { CPU_ZERO(&m); CPU_SET(cpu, &m); cnt = 1; r = enable_cpu(&pm, cpu); } else r = enable_cpu_set(&pm, &m);
    int cb = one && set[6] ? 6 : set[8] ? 8 : set[6] ? 6 : set[4] ? 4 : 0;
    CHECK(r == (cb ? DLB_SUCCESS : DLB_ERR_NOCBK), "a CPU can be enabled whenever some callback allows it");
    only(cb, cb == 6 ? cnt : !!cb);
    for (int c = 0; c < NC; ++c) {
        if (cb == 6) CHECK(en[c] == !!CPU_ISSET(c, &m), "each CPU is enabled once");
        if (cb == 8 || cb == 4) CHECK(!CPU_ISSET(c, &masks[cb]) == !CPU_ISSET(c, &m), "exactly those CPUs are enabled");
    }
    WITNESS(cb == 4 && one, "added to the active mask");
#elif CASE == 5 /* disabling */
    bool one = nd(0, 1);
    if (one) { CPU_ZERO(&m); CPU_SET(cpu, &m); cnt = 1; r = disable_cpu(&pm, cpu); } else r = disable_cpu_set(&pm, &m);
    int cb = one && set[7] ? 7 : set[9] ? 9 : set[7] ? 7 : set[2] ? 2 : 0;
    CHECK(r == (cb ? DLB_SUCCESS : DLB_ERR_NOCBK), "a CPU can be disabled whenever some callback allows it");
    only(cb, cb == 7 ? cnt : !!cb);
    for (int c = 0; c < NC; ++c) {
        if (cb == 7) CHECK(dis[c] == !!CPU_ISSET(c, &m), "each CPU is disabled once");
        if (cb == 9) CHECK(!CPU_ISSET(c, &masks[cb]) == !CPU_ISSET(c, &m), "exactly those CPUs are disabled");
        if (cb == 2) CHECK(!CPU_ISSET(c, &masks[cb]) == !(CPU_ISSET(c, &affinity) && !CPU_ISSET(c, &m)), "the active mask is what remains");
    }
    WITNESS(cb == 2 && !one, "removed from the active mask");
#endif
    WITNESS(true, "end");
}
