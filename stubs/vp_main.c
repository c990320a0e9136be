#include "vp.h"
#ifdef VP_CBMC
long vp_nd_val;
int main(void) { harness(); return 0; }
#else
#include <string.h>
static long vec[65536]; static int nvec, pos;
static const char *want;  /* WITNESS:<msg> | CHECK */
long nd(long lo, long hi) {
    if (pos >= nvec) { fprintf(stderr, "vector exhausted\n"); exit(77); }
    long v = vec[pos++];
    if (v < lo || v > hi) { fprintf(stderr, "value %ld out of [%ld,%ld]\n", v, lo, hi); exit(77); }
    return v;
}
__attribute__((weak)) void vp_show(void) {}   /* a harness may describe the state */
void vp_check_failed(const char *msg, const char *file, int line) {
    static int shown; if (!shown++) vp_show();
    printf("CHECK-FAILED %s (%s:%d)\n", msg, file, line);
    fflush(stdout);
    if (want == NULL || strcmp(want, msg) == 0) exit(10);
}
void vp_witness_reached(const char *msg) {
    if (want != NULL && strcmp(want, msg) == 0) {
        printf("WITNESS-REACHED %s\n", msg); fflush(stdout); exit(11); }
}
void vp_assume_failed(const char *file, int line) {
    fprintf(stderr, "assumption not met at %s:%d\n", file, line); exit(77);
}
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r");
    if (!f) { perror("vector"); return 3; }
    if (argc > 2) want = argv[2];
    while (nvec < 65536 && fscanf(f, "%ld", &vec[nvec]) == 1) ++nvec;
    fclose(f);
    harness();
    return 0;
}
#endif
