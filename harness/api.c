/* The public API over the real kernel, policy table and descriptors; policies
 * and shared memories are recorders. */
#include "vp.h"
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#undef secure_getenv
#include "LB_core/spd.c"
/* the functions for unsupported operations take no parameters: they are called
 * through wrappers of the right type, since the solver front end resolves calls
 * through pointers by type */
#define set_lb_funcs real_set_lb_funcs
#include "LB_core/lb_funcs.c"
#undef set_lb_funcs
static balance_policy_t vp_none;
#define NOPOL(f, params) static int vp_nopol_##f params { return ((int(*)())vp_none.f)(); }
NOPOL(enable, (const subprocess_descriptor_t *s))
NOPOL(disable, (const subprocess_descriptor_t *s))
NOPOL(unset_max_parallelism, (const subprocess_descriptor_t *s))
NOPOL(into_communication, (const subprocess_descriptor_t *s))
NOPOL(out_of_communication, (const subprocess_descriptor_t *s))
NOPOL(into_blocking_call, (const subprocess_descriptor_t *s))
NOPOL(out_of_blocking_call, (const subprocess_descriptor_t *s))
NOPOL(lend, (const subprocess_descriptor_t *s))
NOPOL(reclaim, (const subprocess_descriptor_t *s))
NOPOL(borrow, (const subprocess_descriptor_t *s))
NOPOL(return_all, (const subprocess_descriptor_t *s))
NOPOL(set_max_parallelism, (const subprocess_descriptor_t *s, int n))
NOPOL(lend_cpu, (const subprocess_descriptor_t *s, int n))
NOPOL(lend_cpus, (const subprocess_descriptor_t *s, int n))
NOPOL(reclaim_cpu, (const subprocess_descriptor_t *s, int n))
NOPOL(reclaim_cpus, (const subprocess_descriptor_t *s, int n))
NOPOL(acquire_cpu, (const subprocess_descriptor_t *s, int n))
NOPOL(acquire_cpus, (const subprocess_descriptor_t *s, int n))
NOPOL(borrow_cpu, (const subprocess_descriptor_t *s, int n))
NOPOL(borrow_cpus, (const subprocess_descriptor_t *s, int n))
NOPOL(return_cpu, (const subprocess_descriptor_t *s, int n))
NOPOL(check_cpu_availability, (const subprocess_descriptor_t *s, int n))
NOPOL(lend_cpu_mask, (const subprocess_descriptor_t *s, const cpu_set_t *m))
NOPOL(reclaim_cpu_mask, (const subprocess_descriptor_t *s, const cpu_set_t *m))
NOPOL(acquire_cpu_mask, (const subprocess_descriptor_t *s, const cpu_set_t *m))
NOPOL(borrow_cpu_mask, (const subprocess_descriptor_t *s, const cpu_set_t *m))
NOPOL(return_cpu_mask, (const subprocess_descriptor_t *s, const cpu_set_t *m))
NOPOL(update_ownership, (const subprocess_descriptor_t *s, const cpu_set_t *m))
NOPOL(acquire_cpus_in_mask, (const subprocess_descriptor_t *s, int n, const cpu_set_t *m))
NOPOL(borrow_cpus_in_mask, (const subprocess_descriptor_t *s, int n, const cpu_set_t *m))
void set_lb_funcs(balance_policy_t *lb, policy_t p) {
    real_set_lb_funcs(&vp_none, POLICY_NONE);
    real_set_lb_funcs(lb, p);
#define W(f) if (lb->f == vp_none.f) lb->f = vp_nopol_##f;
    W(enable) W(disable) W(unset_max_parallelism) W(into_communication) W(out_of_communication) W(into_blocking_call) W(out_of_blocking_call) W(lend) W(reclaim) W(borrow) W(return_all)
    W(set_max_parallelism) W(lend_cpu) W(lend_cpus) W(reclaim_cpu) W(reclaim_cpus) W(acquire_cpu) W(acquire_cpus) W(borrow_cpu) W(borrow_cpus) W(return_cpu) W(check_cpu_availability)
    W(lend_cpu_mask) W(reclaim_cpu_mask) W(acquire_cpu_mask) W(borrow_cpu_mask) W(return_cpu_mask) W(update_ownership)
    W(acquire_cpus_in_mask) W(borrow_cpus_in_mask)
}
#include "LB_core/DLB_kernel.c"
#include "apis/dlb_sp.h"
#include "apis/DLB_interface.c"
#include "apis/DLB_interface_sp.c"
enum { NC = 4 };
/* ---- recorders ---- */
static int p_calls, p_policy, p_op, p_n, p_ret; static const subprocess_descriptor_t *p_spd; static const cpu_set_t *p_m;
static int policy_call(int policy, int op, const subprocess_descriptor_t *s, int n, const cpu_set_t *m) {
    ++p_calls; p_policy = policy; p_op = op; p_spd = s; p_n = n; p_m = m;
    return p_ret = nd(DLB_ERR_REQST, DLB_NOTED);
}
#include "api_ops.h"
enum { X_INIT = 100, X_FINI, X_ENABLE, X_DISABLE, X_INTO, X_OUT, X_OWNER };
static int life_init, life_fini, fini_fails;
#define POL(p, i, en, dis) \
int p##_Init(subprocess_descriptor_t *s) { ++life_init; p_policy = i; return 0; } \
int p##_Finalize(subprocess_descriptor_t *s) { ++life_fini; return 0; } \
int p##_##en(const subprocess_descriptor_t *s) { return policy_call(i, X_ENABLE, s, 0, NULL); } \
int p##_##dis(const subprocess_descriptor_t *s) { return policy_call(i, X_DISABLE, s, 0, NULL); } \
int p##_IntoBlockingCall(const subprocess_descriptor_t *s) { return policy_call(i, X_INTO, s, 0, NULL); } \
int p##_OutOfBlockingCall(const subprocess_descriptor_t *s) { return policy_call(i, X_OUT, s, 0, NULL); }
POL(lewi, 1, EnableDLB, DisableDLB)
POL(lewi_async, 2, Enable, Disable)
POL(lewi_mask, 3, EnableDLB, DisableDLB)
static cpu_set_t own_mask; static int own_lewi, own_table;
int lewi_mask_UpdateOwnership(const subprocess_descriptor_t *s, const cpu_set_t *m) { own_mask = *m; ++own_lewi; p_spd = s; return 0; }
void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict m, array_cpuinfo_task_t *restrict t) { own_mask = *m; ++own_table; CHECK(t == NULL, "no changes are asked for"); }
/* options are arbitrary */
static options_t want_opts;
void options_init(options_t *o, const char *a) { *o = want_opts; }
static int opts_fini; void options_finalize(options_t *o) { ++opts_fini; }
void options_print_lewi_flags(const options_t *o) {}
void options_print_variables(const options_t *o, bool e) {}
int options_set_variable(options_t *o, const char *a, const char *b) { return 0; }
int options_get_variable(const options_t *o, const char *a, char *b) { return 0; }
void debug_init(const options_t *o) {}
const char* policy_tostr(policy_t p) { return ""; }
/* attachments: 0 procinfo 1 cpuinfo 2 barrier table 3 barrier of the process 4 async 5 talp */
static int att[6]; static pid_t att_pid[6]; static int att_color; static bool att_sharing;
static const char *att_key[6];
static void attach(int i, pid_t p, const char *k) { CHECK(att[i] == 0, "nothing is attached twice"); att[i]++; att_pid[i] = p; att_key[i] = k; }
static void detach(int i, pid_t p) { if (!att[i]) return; CHECK(p == att_pid[i], "detached on behalf of the same process"); att[i]--; }
static cpu_set_t preinit_mask; static int procinfo_answer; static cpu_set_t table_mask; static int cpuinfo_masks_ok;
int shmem_procinfo__init(pid_t pid, pid_t pre, const cpu_set_t *pm, cpu_set_t *npm, const char *k) {
    attach(0, pid, k); att_sharing = false; procinfo_answer = nd(0, 1) ? DLB_NOTED : DLB_SUCCESS; if (procinfo_answer == DLB_NOTED) *npm = preinit_mask; return procinfo_answer; }
int shmem_procinfo__init_with_cpu_sharing(pid_t pid, pid_t pre, const cpu_set_t *pm, const char *k) { attach(0, pid, k); att_sharing = true; return DLB_SUCCESS; }
int shmem_procinfo__finalize(pid_t pid, bool rs, const char *k) { detach(0, pid); return 0; }
int shmem_cpuinfo__init(pid_t pid, pid_t pre, const cpu_set_t *pm, const char *k, int color) { attach(1, pid, k); att_color = color; table_mask = *pm; return DLB_SUCCESS; }
int shmem_cpuinfo__finalize(pid_t pid, const char *k, int color) { if (att[1]) CHECK(color == att_color, "detached from the same set of processes"); detach(1, pid); return 0; }
void shmem_barrier__init(const char *k) { attach(2, 0, k); }
void shmem_barrier__finalize(const char *k) { CHECK(!att[3], "the process leaves its barriers before the table"); detach(2, 0); }
void node_barrier_init(subprocess_descriptor_t *s) { CHECK(att[2], "the table of barriers is attached first"); attach(3, s->id, NULL); }
void node_barrier_finalize(subprocess_descriptor_t *s) { detach(3, s->id); }
static const void *async_pm;
int shmem_async_init(pid_t pid, const struct pm_interface *pm, const cpu_set_t *m, const char *k) { attach(4, pid, k); async_pm = pm; return DLB_SUCCESS; }
int shmem_async_finalize(pid_t pid) { detach(4, pid); return 0; }
void talp_init(subprocess_descriptor_t *s) { attach(5, s->id, NULL); }
void talp_finalize(subprocess_descriptor_t *s) { CHECK(att[0], "TALP finishes while the process is still registered"); detach(5, s->id); }
static int talp_in, talp_out_n, talp_coll;
void talp_into_sync_call(const subprocess_descriptor_t *s, bool b) { ++talp_in; talp_coll = b; p_spd = s; }
void talp_out_of_sync_call(const subprocess_descriptor_t *s, bool b) { ++talp_out_n; talp_coll = b; p_spd = s; }
void omptool__into_blocking_call(void) {}
void omptool__outof_blocking_call(void) {}
void omptool__lend_from_api(void) {}
int shmem_cpuinfo_ext__init(const char *k, int c) { return 0; }
int shmem_procinfo_ext__init(const char *k) { return 0; }
int shmem_procinfo_ext__preinit(pid_t p, const cpu_set_t *m, dlb_drom_flags_t f) { return 0; }
int shmem_cpuinfo_ext__preinit(pid_t p, const cpu_set_t *m, dlb_drom_flags_t f) { return 0; }
int shmem_cpuinfo_ext__finalize(void) { return 0; }
int shmem_procinfo_ext__finalize(void) { return 0; }
void shmem_cpuinfo__print_info(const char *k, int c, int n, dlb_printshmem_flags_t f) {}
void shmem_procinfo__print_info(const char *k) {}
void shmem_barrier__print_info(const char *k) {}
void shmem_talp__print_info(const char *k, int n) {}
static int drom_n, drom_ret; static pid_t drom_pid; static cpu_set_t drom_mask; static int *drom_cpus;
int shmem_procinfo__polldrom(pid_t pid, int *n, cpu_set_t *m) { ++drom_n; drom_pid = pid; drom_cpus = n; drom_ret = nd(DLB_ERR_REQST, DLB_NOTED); if (drom_ret == DLB_SUCCESS) *m = drom_mask; return drom_ret; }
int shmem_procinfo__setprocessmask(pid_t pid, const cpu_set_t *m, dlb_drom_flags_t f, cpu_set_t *fr) { ++drom_n; drom_pid = pid; return drom_ret = nd(DLB_ERR_REQST, DLB_NOTED); }
static int cb_pm; static cpu_set_t cb_mask; static const void *cb_ptr;
int set_process_mask(const pm_interface_t *pm, const cpu_set_t *m) { ++cb_pm; cb_mask = *m; cb_ptr = pm; return 0; }
void pm_init(pm_interface_t *pm) {}
void pm_finalize(pm_interface_t *pm) {}
int pm_get_num_threads(void) { return 3; }
static int pmc_which; static void *pmc_arg; static const void *pmc_pm; static int pmc_n;
int pm_callback_set(pm_interface_t *pm, dlb_callbacks_t w, dlb_callback_t c, void *a) { ++pmc_n; pmc_pm = pm; pmc_which = w; pmc_arg = a; return 0; }
int pm_callback_get(const pm_interface_t *pm, dlb_callbacks_t w, dlb_callback_t *c, void **a) { ++pmc_n; pmc_pm = pm; pmc_which = w; return 0; }
void mu_init(void) {}
void timer_init(void) {}
void timer_finalize(void) {}
const char* mu_to_str(const cpu_set_t *m) { return ""; }
char * mu_parse_to_slurm_format(const cpu_set_t *m) { return NULL; }
static int bar_n, bar_what; static const void *bar_spd, *bar_arg;
int node_barrier(const subprocess_descriptor_t *s, barrier_t *b) { ++bar_n; bar_what = 1; bar_spd = s; bar_arg = b; return 0; }
int node_barrier_attach(subprocess_descriptor_t *s, barrier_t *b) { ++bar_n; bar_what = 2; bar_spd = s; bar_arg = b; return 0; }
int node_barrier_detach(subprocess_descriptor_t *s, barrier_t *b) { ++bar_n; bar_what = 3; bar_spd = s; bar_arg = b; return 0; }
barrier_t* node_barrier_register(subprocess_descriptor_t *s, const char *n, int f) { return NULL; }
const char* error_get_str(int e) { return ""; }
void dlb_setenv(const char *v, const char *x, char ***e, env_add_condition_t o) {}
/* descriptors' tree is not consulted here */
static int tree_n;
GTree *(g_tree_new_full)(GCompareDataFunc c, gpointer d, GDestroyNotify kd, GDestroyNotify vd) { static int t; return (GTree*)&t; }
void g_tree_insert(GTree *t, gpointer k, gpointer v) { ++tree_n; }
gboolean g_tree_remove(GTree *t, gconstpointer k) { --tree_n; return 1; }
gpointer g_tree_lookup(GTree *t, gconstpointer k) { return NULL; }
gint g_tree_nnodes(GTree *t) { return 0; }
void g_tree_destroy(GTree *t) {}
void (g_tree_foreach)(GTree *t, GTraverseFunc f, gpointer d) {}
#ifdef VP_CBMC
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) { CPU_ZERO(m); CPU_SET(1, m); return 0; }
pid_t getpid(void) { return 77; }
pid_t fork(void) { return -1; }
int execvp(const char *f, char *const a[]) { return -1; }
int asprintf(char **p, const char *f, ...) { *p = NULL; return 0; }
int gethostname(char *n, size_t l) { return 0; }
char *secure_getenv(const char *n) { return NULL; }
#endif
static void nd_mask(cpu_set_t *m) { CPU_ZERO(m); for (int c = 0; c < NC; ++c) if (nd(0, 1)) CPU_SET(c, m); }
static bool eq(const cpu_set_t *a, const cpu_set_t *b) { for (int c = 0; c < NC; ++c) if (!CPU_ISSET(c, a) != !CPU_ISSET(c, b)) return false; return true; }
static subprocess_descriptor_t *S;
static dlb_handler_t H;
static bool SP; static cpu_set_t init_mask; static bool with_mask;
static int policy(void) {
    const options_t *o = &want_opts;
    if (!o->lewi) return 0;
    bool mask = o->lewi_affinity != LEWI_AFFINITY_NONE && (o->lewi_affinity != LEWI_AFFINITY_AUTO || o->ompt || o->preinit_pid || with_mask);
    return mask ? 3 : o->mode == MODE_ASYNC ? 2 : 1;
}
static bool incompatible(void) { int p = policy(); return (p == 1 || p == 2) && (want_opts.drom || want_opts.preinit_pid); }
static void options(void) {
    options_t *o = &want_opts;
    o->lewi = nd(0, 1); o->drom = nd(0, 1); o->barrier = nd(0, 1); o->ompt = nd(0, 1); o->talp = nd(0, 1);
    o->mode = nd(0, 1) ? MODE_ASYNC : MODE_POLLING;
    o->lewi_affinity = nd(LEWI_AFFINITY_AUTO, LEWI_AFFINITY_SPREAD_IFEMPTY);
    o->lewi_color = nd(0, 2); o->preinit_pid = nd(0, 1) ? 55 : 0;
    with_mask = nd(0, 1); nd_mask(&init_mask); nd_mask(&preinit_mask); nd_mask(&drom_mask);
}
static int do_init(int ncpus) {
#ifdef VIA_SP
    SP = VIA_SP;
#else
    SP = nd(0, 1);
#endif
    if (SP) { H = DLB_Init_sp(ncpus, with_mask ? &init_mask : NULL, NULL); S = H; return H ? DLB_SUCCESS : DLB_ERR_UNKNOWN; }
    int e = DLB_Init(ncpus, with_mask ? &init_mask : NULL, NULL); S = &global_spd; return e;
}
void harness(void) {
    cpu_set_t m; nd_mask(&m);
    int n = nd(-3, 9), r;
    options();
#if CASE == 1    /* every LeWI operation */
    int op = OPN, st = nd(0, 3); /* 0 never initialized, 1 enabled, 2 disabled, 3 finalized */
    ASSUME(!incompatible());
    if (!VIA_SP) SP = false;
    if (VIA_SP) ASSUME(st == 1 || st == 2);
    if (st > 0) { CHECK(do_init(0) == DLB_SUCCESS, "initialization succeeds"); }
    if (st == 2) CHECK((SP ? DLB_Disable_sp(H) : DLB_Disable()) == DLB_SUCCESS, "LeWI can be disabled");
    if (st == 3) { ASSUME(!SP); DLB_Finalize(); }
    p_calls = 0;
    if (nd(0, 1)) thread_is_observer = true;
    if (SP && nd(0, 1)) thread_spd = &global_spd;    /* the handler wins over what the thread used before */
    r = api_call(op, SP, H, n, &m);
    int p = policy();
    if (st == 0 || st == 3) CHECK(p_calls == 0 && r < 0 && IMP(op != 21, r == DLB_ERR_NOINIT || r != DLB_SUCCESS), "nothing works before initialization or after finalization");
    else if (!want_opts.lewi) CHECK(p_calls == 0 && r == DLB_ERR_NOLEWI, "without LeWI, LeWI calls are refused");
    else if (st == 2) CHECK(p_calls == 0 && r == DLB_ERR_DISBLD, "while disabled, LeWI calls are refused");
    else if (!supported(p, op)) CHECK(p_calls == 0 && r == DLB_ERR_NOPOL, "an operation the policy lacks is refused");
    else {
        CHECK(p_calls == 1 && p_policy == p && p_op == op, "the policy performs exactly the operation asked for");
        CHECK(p_spd == S, "for the process that asked");
        int k = op_kind(op);
        CHECK(IMP(k == 2 || k == 4, p_n == n) && IMP(k == 3 || k == 4, p_m == &m), "with the caller's arguments");
        CHECK(r == p_ret, "and its answer is returned");
    }
    if (SP) CHECK(thread_spd == H, "the thread works for the process of the handler");
    WITNESS(st == 1 && want_opts.lewi && p == 1 && p_calls, "classic policy");
    WITNESS(st == 1 && want_opts.lewi && p == 2 && p_calls, "async policy");
    WITNESS(st == 1 && want_opts.lewi && p == 3 && p_calls && SP, "mask policy");
#elif CASE == 2  /* enabling and disabling */
    ASSUME(!incompatible());
    CHECK(do_init(0) == DLB_SUCCESS, "initialization succeeds");
    bool on = true;
    for (int i = 0; i < 3; ++i) {
        bool want = nd(0, 1);
        p_calls = 0;
        r = SP ? (want ? DLB_Enable_sp(H) : DLB_Disable_sp(H)) : (want ? DLB_Enable() : DLB_Disable());
        if (want == on) CHECK(r == DLB_NOUPDT && p_calls == 0, "nothing happens when LeWI already is in that state");
        else {
            CHECK(r == DLB_SUCCESS, "the state changes");
            CHECK(p_calls == (policy() != 0) && IMP(p_calls, p_op == (want ? X_ENABLE : X_DISABLE) && p_policy == policy() && p_spd == S), "the policy is told exactly once");
        }
        on = want;
        CHECK(S->lewi_enabled == on, "the state is the one asked for");
    }
#elif CASE == 3  /* synchronization calls */
    ASSUME(!incompatible());
    bool obs = nd(0, 1), attached = nd(0, 1), dis = nd(0, 1);
    CHECK(do_init(0) == DLB_SUCCESS, "initialization succeeds");
    if (dis) { if (SP) DLB_Disable_sp(H); else DLB_Disable(); }
    DLB_SetObserverRole(obs);
    thread_spd = attached ? S : NULL;
    p_calls = 0;
    sync_call_flags_t f = { .is_mpi = nd(0, 1), .is_blocking = nd(0, 1), .is_collective = nd(0, 1), .is_dlb_barrier = nd(0, 1), .do_lewi = nd(0, 1) };
    bool in = nd(0, 1);
    if (in) into_sync_call(f); else out_of_sync_call(f);
    bool act = attached && !obs;
    bool l = act && want_opts.lewi && !dis && f.do_lewi;
    CHECK(p_calls == l && IMP(l, p_op == (in ? X_INTO : X_OUT) && p_policy == policy()), "LeWI follows a blocking call exactly when it is on, asked for and the thread is no observer");
    bool t = act && want_opts.talp;
    CHECK(talp_in == (t && in) && talp_out_n == (t && !in) && IMP(t, talp_coll == (f.is_blocking && f.is_collective)), "TALP follows every synchronization call of a thread that is no observer");
    WITNESS(l && t, "both");
#elif CASE == 4  /* DROM */
    ASSUME(!incompatible());
    CHECK(do_init(0) == DLB_SUCCESS, "initialization succeeds");
    cb_pm = 0; p_calls = 0;
    int cpus = 0; cpu_set_t got; CPU_ZERO(&got);
    cpu_set_t pm0 = S->process_mask;
    int how = nd(0, 3); bool np = nd(0, 1), nm = nd(0, 1);
    int flags = nd(0, 1) ? DLB_NO_SYNC : DLB_SYNC_NOW; pid_t target = nd(0, 1) ? 0 : nd(0, 1) ? S->id : S->id + 1;
    bool applied, cb;
    if (how == 0) {
        r = SP ? DLB_PollDROM_sp(H, np ? NULL : &cpus, nm ? NULL : &got) : DLB_PollDROM(np ? NULL : &cpus, nm ? NULL : &got);
        applied = want_opts.drom && drom_ret == DLB_SUCCESS; cb = false;
        CHECK(IMP(want_opts.drom, drom_n == 1 && drom_pid == S->id && drom_cpus == (np ? NULL : &cpus)), "the process asks for its own mask");
        CHECK(IMP(applied && !nm, eq(&got, &drom_mask)), "the caller gets its new mask");
    } else if (how == 1) {
        r = SP ? DLB_PollDROM_Update_sp(H) : DLB_PollDROM_Update();
        applied = cb = want_opts.drom && drom_ret == DLB_SUCCESS;
    } else {
        ASSUME(want_opts.drom);
        r = drom_setprocessmask(target, &m, flags);
        CHECK(drom_n == 1 && drom_pid == target, "the mask is set on the process asked for");
        drom_mask = m;
        applied = cb = drom_ret == DLB_SUCCESS && target != S->id + 1 && flags != DLB_NO_SYNC;
    }
    if (!want_opts.drom) CHECK(r == DLB_ERR_NOCOMP && drom_n == 0, "without DROM, polling is refused");
    else CHECK(r == drom_ret, "the answer of the process table is returned");
    CHECK(own_lewi + own_table == applied, "a new mask changes the ownership of CPUs exactly once");
    if (applied) {
        CHECK(eq(&own_mask, &drom_mask), "the ownership follows the new mask");
        CHECK(own_lewi == want_opts.lewi, "through LeWI when it is used");
    }
    CHECK(eq(&S->process_mask, applied ? &drom_mask : &pm0), "the process knows the mask it owns");
    CHECK(cb_pm == cb && IMP(cb, eq(&cb_mask, &drom_mask) && cb_ptr == &S->pm), "the process is told of its new mask exactly when it asked to be updated");
    WITNESS(applied && want_opts.lewi && how == 2, "own mask set with LeWI");
#elif CASE == 5  /* life cycle */
    int nc = nd(-1, 5);
    r = do_init(nc);
    int p = policy();
    if (incompatible()) {
        CHECK(r != DLB_SUCCESS && IMP(!SP, r == DLB_ERR_NOCOMP), "classic LeWI refuses modules that need masks");
        for (int i = 0; i < 6; ++i) CHECK(att[i] == 0, "a refused initialization attaches nothing");
        CHECK(life_init == 0, "no policy is started");
        if (SP) CHECK(tree_n == 0 && thread_spd == &global_spd, "a refused handler is forgotten");
        return;
    }
    CHECK(r == DLB_SUCCESS, "initialization succeeds");
    bool need = p == 3 || want_opts.drom || want_opts.preinit_pid;
    CHECK(att[0] == (need || want_opts.talp) && att[1] == need, "the process is registered and its CPUs owned exactly when masks matter");
    CHECK(IMP(att[0], att_sharing == (!need || want_opts.lewi_color != 0)), "CPUs may be shared only without ownership or between sets of processes");
    CHECK(att[2] == want_opts.barrier && att[3] == want_opts.barrier && att[4] == (want_opts.mode == MODE_ASYNC) && att[5] == want_opts.talp, "exactly the modules asked for are attached");
    CHECK(IMP(att[0], att_pid[0] == S->id) && IMP(att[1], att_pid[1] == S->id && att_color == want_opts.lewi_color) && IMP(att[4], att_pid[4] == S->id && async_pm == &S->pm), "on behalf of this process");
    CHECK(IMP(att[0], att_key[0] == S->options.shm_key) && IMP(att[1], att_key[1] == S->options.shm_key) && IMP(att[2], att_key[2] == S->options.shm_key) && IMP(att[4], att_key[4] == S->options.shm_key), "with the key of its options");
    CHECK(life_init == (p != 0) && IMP(p, p_policy == p) && S->lewi_enabled, "the policy the options ask for is started and on");
    bool noted = need && want_opts.lewi_color == 0 && procinfo_answer == DLB_NOTED;
    if (noted) CHECK(eq(&S->process_mask, &preinit_mask) && cb_pm == 1 && eq(&cb_mask, &preinit_mask), "a pre-initialized process gets the mask kept for it");
    else { CHECK(cb_pm == 0, "the mask is not changed"); if (with_mask) CHECK(eq(&S->process_mask, &init_mask), "the process owns the mask it was given"); }
    if (need) CHECK(eq(&table_mask, &S->process_mask), "the CPUs registered are those of the process");
    if (p == 1 || p == 2) CHECK(S->lewi_ncpus == (unsigned)(nc > 0 ? nc : 3), "classic LeWI starts with the CPUs given, or one per thread");
    if (!SP) { CHECK(DLB_Init(0, NULL, NULL) == DLB_ERR_INIT, "a process is initialized once");
               CHECK(life_init == (p != 0), "and nothing is started again"); }
    else CHECK(S->id != getpid() && S->id % 100000 == getpid() % 100000, "a subprocess has an identifier of its own");
    pid_t id = S->id;
    if (SP) {
        CHECK(tree_n == 1, "a subprocess is known while it lives");
        subprocess_descriptor_t *was = S;
        r = DLB_Finalize_sp(H);
        CHECK(tree_n == 0, "and forgotten afterwards");
        CHECK(thread_spd != was, "the thread no longer works for a subprocess that is gone");
    } else {
        r = DLB_Finalize();
        CHECK(!S->lewi_enabled, "LeWI is off afterwards");
        CHECK(DLB_Finalize() == DLB_NOUPDT, "finalizing twice does nothing");
    }
    CHECK(r == DLB_SUCCESS, "finalization succeeds");
    for (int i = 0; i < 6; ++i) CHECK(att[i] == 0, "everything attached is detached");
    CHECK(life_fini == life_init, "the policy is stopped once");
    CHECK(opts_fini == 1, "the options are released once");
    WITNESS(need && want_opts.talp && want_opts.barrier && want_opts.mode == MODE_ASYNC, "all modules");
    WITNESS(noted, "pre-initialized");
    if (!SP && nd(0, 1)) { r = DLB_Init(nc, with_mask ? &init_mask : NULL, NULL); CHECK(r == DLB_SUCCESS, "the process can be initialized again"); }
#elif CASE == 6  /* calls that are only passed on */
    ASSUME(!incompatible());
    CHECK(do_init(0) == DLB_SUCCESS, "initialization succeeds");
    int k = nd(0, 7), arg; static barrier_t *bp = (barrier_t*)&bar_n;
    if (k == 0) { r = SP ? DLB_CallbackSet_sp(H, n, NULL, &arg) : DLB_CallbackSet(n, NULL, &arg); CHECK(pmc_n == 1 && pmc_pm == &S->pm && pmc_which == n && pmc_arg == &arg, "a callback is set for this process"); }
    if (k == 1) { dlb_callback_t c; void *a; r = SP ? DLB_CallbackGet_sp(H, n, &c, &a) : DLB_CallbackGet(n, &c, &a); CHECK(pmc_n == 1 && pmc_pm == &S->pm && pmc_which == n, "a callback of this process is read"); }
    if (k >= 2) {
        r = k == 2 ? DLB_Barrier() : k == 3 ? DLB_BarrierAttach() : k == 4 ? DLB_BarrierDetach() : k == 5 ? DLB_BarrierNamed((dlb_barrier_t*)bp) : k == 6 ? DLB_BarrierNamedAttach((dlb_barrier_t*)bp) : DLB_BarrierNamedDetach((dlb_barrier_t*)bp);
        CHECK(bar_n == 1 && bar_what == (k - 2) % 3 + 1 && bar_spd == S && bar_arg == (k < 5 ? NULL : bp), "the barrier operation asked for, on that barrier");
    }
#endif
    WITNESS(true, "end");
}
