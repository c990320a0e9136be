/* Life cycle of one shared memory segment: a process attaches or leaves, from an
 * arbitrary state of the segment, while another one does so at any moment. */
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#ifndef NP
#define NP 3
#endif
#define ATTACH 1
#define LEAVE 2
#define RACE_LEAVE 3
#define RACE_ATTACH 4
#define RACE_BOTH 5
#ifndef HOOK
#define HOOK 0
#endif
#ifndef SEG
#define SEG 1
#endif
#define NI 2
static int vp_shm_open(const char *n, int f, int m), vp_ftruncate(int fd, long s), vp_fstat(int fd, struct stat *b), vp_close(int fd), vp_munmap(void *p, size_t n), vp_unlink(const char *n), vp_kill(int pid, int s), vp_getpid(void), vp_lock(pthread_mutex_t *m, int timed), vp_unlock(pthread_mutex_t *m), vp_minit(pthread_mutex_t *m);
static void *vp_mmap(size_t n, int fd); static void vp_spin(void);
#define shm_open(n, f, m) vp_shm_open(n, f, m)
#define ftruncate(fd, s) vp_ftruncate(fd, s)
#define fstat(fd, b) vp_fstat(fd, b)
#define close(fd) vp_close(fd)
#define mmap(a, n, p, f, fd, o) vp_mmap(n, fd)
#define munmap(p, n) vp_munmap(p, n)
#define shm_unlink(n) vp_unlink(n)
#define kill(p, s) vp_kill(p, s)
#define getpid() vp_getpid()
#define getuid() 0
#define usleep(n) ((void)0)
#define pthread_mutex_lock(m) vp_lock(m, 0)
#define pthread_mutex_timedlock(m, t) vp_lock(m, 1)
#define pthread_mutex_unlock(m) vp_unlock(m)
#define pthread_mutexattr_init(a) 0
#define pthread_mutexattr_setpshared(a, b) 0
#define pthread_mutexattr_destroy(a) 0
#define pthread_mutex_init(m, a) vp_minit(m)
#define __sync_synchronize() vp_spin()
#ifdef VP_CBMC
#define snprintf(...) 0
#define strerror(e) ""
#undef errno
static int vp_errno;
#define errno vp_errno
#undef MAP_FAILED
#define MAP_FAILED NULL
#endif
static int fatals, expect_fatal;
static void vp_on_fatal(void);
#include "support/debug.h"
#undef fatal_cond
#define fatal_cond(c, ...) do { if (c) vp_on_fatal(); } while (0)
#define fatal(...) vp_on_fatal()
#undef verbose
#define verbose(...) ((void)0)
#include "support/mytime.h"
void get_time_real(struct timespec *t) { t->tv_sec = 1; t->tv_nsec = 0; }
int mu_get_system_size(void) { return NP; }
#include "LB_comm/shmem.c"
#define DATA 16
#define SYNC 128
typedef struct { shmem_sync_t s; pid_t pids[(SYNC + DATA + 64 - sizeof(shmem_sync_t)) / sizeof(pid_t)]; } inode;
static inode seg_a __attribute__((aligned(128))), seg_b __attribute__((aligned(128)));
#define INO(i) ((i) == 0 ? &seg_a : &seg_b)
static int links[NI], size_[NI], mapped[NI], minit[NI], held[NI], cleaned[8], inits[NI], truncs;
static int cur = -1, nino, fds, fdino[16], who, racing, dead_bits;
/* process: 1 is the one under test, 2 the other, 3.. those already there */
static bool alive(int pid) { return pid > 0 && pid < 8 && !((dead_bits >> pid) & 1); }
static int in_of(void *p) { int k = -1; for (int i = 0; i < NI; ++i) if (p == (void*)&INO(i)->s.shmem_mutex) k = i; CHECK(k >= 0, "the lock of a segment"); return k; }
static void other(void);
static void hook(int at) { if (at != HOOK || who != 1 || !racing) return; racing = 0; who = 2; other(); who = 1; }
static int vp_getpid(void) { return who; }
static int vp_kill(int pid, int s) { CHECK(s == 0, "nobody is killed"); errno = ESRCH; return alive(pid) ? 0 : -1; }
static int vp_shm_open(const char *n, int f, int m) {
    hook(0); if (cur < 0) { ASSUME(nino < NI); cur = nino++; links[cur] = 1; size_[cur] = 0; }
    CHECK((f & O_CREAT) && !(f & (O_TRUNC | O_EXCL)), "the file is opened or created"); CHECK(fds < 16, "files"); fdino[fds] = cur; mapped[cur] += 0; return 100 + fds++; }
static int opened;
static int fi(int fd) { int k = -1; for (int i = 0; i < 16; ++i) if (fd == 100 + i && fdino[i] >= 0) k = fdino[i]; CHECK(k >= 0, "an open file"); return k < 0 ? 0 : k; }
static int vp_ftruncate(int fd, long s) { int k = fi(fd); for (int i = 0; i < NI; ++i) if (i == k) { CHECK(s >= size_[i] || mapped[i] == 0, "a segment in use is not shrunk"); size_[i] = s; truncs++; } return 0; }
static int vp_fstat(int fd, struct stat *b) { hook(1); int k = fi(fd); b->st_size = 0; b->st_nlink = 0; for (int i = 0; i < NI; ++i) if (i == k) { b->st_size = size_[i]; b->st_nlink = links[i]; } return 0; }
static int vp_close(int fd) { fi(fd); for (int i = 0; i < 16; ++i) if (fd == 100 + i) fdino[i] = -1; return 0; }
static void *vp_mmap(size_t n, int fd) {
    hook(2); int k = fi(fd); void *r = INO(0);
    for (int i = 0; i < NI; ++i) if (i == k) { CHECK(n <= (size_t)size_[i], "the whole segment is backed"); mapped[i]++; r = INO(i); }
    return r; }
static int msize[3];
static int vp_munmap(void *p, size_t n) {
    hook(8); int ok = 0;
    for (int i = 0; i < NI; ++i) if (p == (void*)INO(i)) { CHECK(mapped[i] > 0, "unmapped once"); mapped[i]--; ok = 1; }
    CHECK(ok && n == SYNC + DATA, "exactly what was mapped is unmapped"); return 0; }
static int vp_unlink(const char *n) {
    hook(6);
    if (cur < 0) { errno = ENOENT; return -1; }
    for (int i = 0; i < NI; ++i) if (i == cur) {
        links[i] = 0;
        for (int j = 0; j < NP; ++j) CHECK(INO(i)->s.pidlist[j] == 0 || !alive(INO(i)->s.pidlist[j]), "the segment is not removed while other processes use it");
    }
    cur = -1; return 0; }
static int vp_minit(pthread_mutex_t *m) { hook(3); int k = in_of(m); for (int i = 0; i < NI; ++i) if (i == k) { CHECK(!minit[i], "the segment is initialized once"); minit[i] = 1; inits[i]++; } return 0; }
static int vp_lock(pthread_mutex_t *m, int timed) {
    hook(4); int k = in_of(m);
    for (int i = 0; i < NI; ++i) if (i == k) { CHECK(minit[i], "a lock is used once it is initialized"); CHECK(mapped[i] > 0, "while mapped"); CHECK(held[i] != who, "the lock is not taken twice"); ASSUME(!held[i]); held[i] = who; }
    return 0; }
static int vp_unlock(pthread_mutex_t *m) {
    int k = in_of(m);
    for (int i = 0; i < NI; ++i) if (i == k) { CHECK(held[i] == who, "an unlock matches a lock"); held[i] = 0; }
    hook(7); return 0; }
static void vp_spin(void) { /* the creator goes on */
    ASSUME(cur >= 0);
    for (int i = 0; i < NI; ++i) if (i == cur) { ASSUME(INO(i)->s.initializing && !racing && who == 1); minit[i] = 1; INO(i)->s.shmem_version = nd(0, 3); INO(i)->s.shsync_version = SHMEM_SYNC_VERSION; INO(i)->s.initialized = 1; } }
static void vp_on_fatal(void) {
    fatals++;
    CHECK(expect_fatal, "no failure without a reason");
    for (int i = 0; i < NI; ++i) CHECK(held[i] != who, "the lock is not left taken after a failure");
    WITNESS(1, "other version refused");
    ASSUME(0); }
static void cleanup(void *d, int pid) {
    int ok = 0;
    for (int i = 0; i < NI; ++i) if (d == (void*)((char*)INO(i) + SYNC)) { ok = 1; CHECK(held[i] == who, "cleaned up with the lock"); }
    CHECK(ok, "cleans the segment's data"); CHECK(!alive(pid), "only dead processes are cleaned up"); cleaned[pid & 7]++; }
static bool empty; static int asked;
static bool is_empty(void) { asked++; bool h = false; for (int i = 0; i < NI; ++i) h = h || held[i] == who; CHECK(h, "asked with the lock"); return empty; }
static int version;
static shmem_handler_t *H[3]; static void *D[3]; static bool use_cleanup;
static void attach(int w) {
    who = w;
    shmem_props_t pr = { .size = DATA, .name = "m", .key = "k", .color = 0, .version = version, .cleanup_fn = use_cleanup ? cleanup : NULL };
    H[w] = shmem_init(&D[w], &pr); }
static void leave(int w) { who = w; shmem_finalize(H[w], is_empty); H[w] = NULL; }
static int other_op;
static void other(void) { if (other_op == ATTACH) attach(2); else leave(2); }
static int pre[NP], at0;
static bool in_list(int i, int pid) { bool r = false; for (int j = 0; j < NP; ++j) r = r || INO(i)->s.pidlist[j] == pid; return r; }
#ifndef VP_CBMC
void vp_show(void) { printf("op %d: other process acts at step %d; segment %d of %d, list", OP, HOOK, cur, nino); for (int j = 0; j < NP; ++j) printf(" %d", pre[j]); printf(" ->"); for (int j = 0; j < NP; ++j) printf(" %d", (int)INO(at0)->s.pidlist[j]); printf(" (dead mask %x)\n", dead_bits); }
#endif
/* segment 0 exists with some processes attached */
static void existing(int me) {
    cur = 0; nino = 1; links[0] = 1; size_[0] = SYNC + DATA + (nd(0, 1) ? 16 : 0);
    minit[0] = 1; INO(0)->s.initializing = 1; INO(0)->s.initialized = 1; INO(0)->s.shsync_version = SHMEM_SYNC_VERSION; INO(0)->s.shmem_version = version;
    for (int j = 0; j < NP; ++j) {
        int p = nd(0, 6); ASSUME(p != 1 && p != 2);
        for (int q = 0; q < j; ++q) ASSUME(p == 0 || pre[q] != p);
        pre[j] = p; INO(0)->s.pidlist[j] = p; if (p && alive(p)) mapped[0]++;
    }
    if (me) { int k = nd(0, NP - 1); for (int j = 0; j < NP; ++j) if (j == k) { ASSUME(pre[j] == 0); pre[j] = me; INO(0)->s.pidlist[j] = me; } mapped[0]++; }
}
static void handler_for(int w) {
    H[w] = malloc(sizeof(shmem_handler_t)); *H[w] = (const shmem_handler_t){0};
    H[w]->shm_size = SYNC + DATA; H[w]->shm_addr = (char*)INO(0); H[w]->shsync = &INO(0)->s; D[w] = (char*)INO(0) + SYNC; }
/* everyone who is attached shares the segment that newcomers will open */
static void together(int w) {
    if (!H[w]) return;
    CHECK(cur >= 0, "the segment exists while a process is attached");
    for (int i = 0; i < NI; ++i) {
        if (i == cur) {
            CHECK(H[w]->shsync == &INO(i)->s && H[w]->shm_addr == (char*)INO(i), "all attached processes share one segment, the one others will attach to");
            CHECK(D[w] == (void*)((char*)INO(i) + SYNC), "with its data after the bookkeeping");
            CHECK(in_list(i, w), "a process that attached is in its list");
        }
    }
}
void harness(void) {
    for (int i = 0; i < 16; ++i) fdino[i] = -1;
    version = nd(0, 3); dead_bits = nd(0, 15) << 3; empty = nd(0, 1); use_cleanup = true;
    CHECK(shmem_shsync__size() == SYNC, "bookkeeping fills whole cache lines");
#if OP == ATTACH
    int kind = nd(0, 3); use_cleanup = nd(0, 1);
    int v = version;
    if (kind) {
        existing(0);
        v = INO(0)->s.shmem_version = nd(0, 3);
        if (kind == 2) { INO(0)->s.initialized = 0; minit[0] = 0; }                                  /* being created */
        if (kind == 3) { INO(0)->s.initialized = 0; INO(0)->s.initializing = 0; minit[0] = 0; size_[0] = nd(0, 1) ? 0 : SYNC + DATA; for (int j = 0; j < NP; ++j) ASSUME(pre[j] == 0); v = version; }
    }
    int sv = SHMEM_SYNC_VERSION;
    if (kind == 1 && nd(0, 1)) { sv = nd(0, 9); INO(0)->s.shsync_version = sv; }
    expect_fatal = kind == 2 || (sv != SHMEM_SYNC_VERSION && sv != 0) || (kind == 1 && v != version && v != 0);
    int room = 0; for (int j = 0; j < NP; ++j) if (!pre[j] || (use_cleanup && !alive(pre[j]))) room = 1;
    attach(1);
    CHECK(!(kind == 1 && expect_fatal), "another version is refused");
    if (kind == 2) CHECK(INO(0)->s.shmem_version == (unsigned)version || INO(0)->s.shmem_version == 0, "another version is refused");
    CHECK(cur == 0 && nino == 1 && H[1] && H[1]->shsync == &INO(0)->s && D[1] == (void*)((char*)INO(0) + SYNC), "attached to the segment of that name");
    CHECK(minit[0] && INO(0)->s.initialized && INO(0)->s.initializing, "it is initialized");
    if (kind == 0 || kind == 3) CHECK(INO(0)->s.shmem_version == (unsigned)version && INO(0)->s.shsync_version == SHMEM_SYNC_VERSION && inits[0] == 1, "the first process initializes it");
    else CHECK(inits[0] == 0, "only the first process initializes it");
    int me = 0;
    for (int j = 0; j < NP; ++j) {
        int p = INO(0)->s.pidlist[j];
        if (p == 1) { me++; CHECK(pre[j] == 0 || (!alive(pre[j]) && use_cleanup), "no process loses its place"); }
        else if (pre[j] && alive(pre[j])) CHECK(p == pre[j], "processes that are alive stay");
        else if (pre[j] && use_cleanup) CHECK(p == 0, "dead processes are removed");
        else CHECK(p == pre[j], "nothing else changes");
        if (pre[j]) CHECK(cleaned[pre[j] & 7] == (!alive(pre[j]) && use_cleanup), "each dead process is cleaned up once");
    }
    CHECK(me == room, "the process is in the list once, if there is room");
    CHECK(H[1]->shm_size == SYNC + DATA, "size");
    WITNESS(me == 1 && kind == 1 && cleaned[3] && pre[0] == 4, "attached, dead process cleaned up");
    WITNESS(kind == 2, "waited for the creator");
    WITNESS(kind == 0, "created");
#elif OP == LEAVE
    existing(1); handler_for(1);
    bool others = false; for (int j = 0; j < NP; ++j) others = others || (pre[j] != 0 && pre[j] != 1);
    leave(1);
    for (int j = 0; j < NP; ++j) CHECK(INO(0)->s.pidlist[j] == (pre[j] == 1 ? 0 : pre[j]), "only this process leaves the list");
    CHECK(asked == 1, "asked once");
    CHECK(cur == (others || !empty ? 0 : -1), "the last process removes the segment, if it is empty");
    WITNESS(cur < 0, "removed"); WITNESS(others, "others stay");
#else
    /* process 1 acts; process 2 does at any of its steps */
    racing = 1;
#if OP == RACE_LEAVE
    existing(1); handler_for(1); other_op = ATTACH;
    leave(1);
#elif OP == RACE_ATTACH
    other_op = SEG == 2 ? LEAVE : ATTACH; if (SEG == 2) { existing(2); handler_for(2); } if (SEG == 1) existing(0);
    attach(1);
#else
    existing(1); handler_for(1); handler_for(2); other_op = LEAVE;
    int k2 = nd(0, NP - 1); for (int j = 0; j < NP; ++j) if (j == k2) { ASSUME(pre[j] == 0); pre[j] = 2; INO(0)->s.pidlist[j] = 2; } mapped[0]++;
    leave(1);
#endif
    WITNESS(!racing, "the other process acted meanwhile");
    if (racing) { racing = 0; who = 2; other(); }
    int cnt = 0; for (int i = 0; i < NI; ++i) for (int j = 0; j < NP; ++j) cnt += INO(i)->s.pidlist[j] != 0;
    ASSUME(cnt <= NP);
    bool room = true;
    if (H[1] || H[2]) { int n = 0; for (int j = 0; j < NP; ++j) n += pre[j] != 0 && (alive(pre[j])) && pre[j] > 2; room = n + 2 <= NP; }
    ASSUME(room);
    together(1); together(2);
    if (OP == RACE_BOTH) { bool others = false; for (int j = 0; j < NP; ++j) others = others || pre[j] > 2; CHECK(cur == (others || !empty ? 0 : -1), "the last of them removes the segment, if it is empty"); }
    if (OP == RACE_LEAVE && HOOK >= 7) WITNESS(nino > 1, "a new segment was created");
#endif
    for (int i = 0; i < NI; ++i) CHECK(!held[i], "locks are released");
    for (int i = 0; i < 16; ++i) CHECK(fdino[i] < 0, "files are closed");
    for (int i = 0; i < NI; ++i) { int n = 0; for (int w = 1; w <= 2; ++w) if (H[w] && H[w]->shsync == &INO(i)->s) n++; if (i) CHECK(mapped[i] == n, "nothing stays mapped"); }
}
