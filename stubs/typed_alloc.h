/* Allocation with the element types the solver should see: the same blocks of
 * the same exact sizes, but arrays of structures instead of arrays of bytes. */
#ifdef VP_CBMC
static void *vp_calloc(size_t n, size_t z) {
    if (z == sizeof(mu_cpuset_t)) {
        mu_cpuset_t *p = malloc(n * sizeof(mu_cpuset_t));
        for (size_t i = 0; i < n; ++i) p[i] = (const mu_cpuset_t){0};
        return p;
    }
    if (z == sizeof(mu_cpuset_t*)) {
        mu_cpuset_t **p = malloc(n * sizeof(mu_cpuset_t*));
        for (size_t i = 0; i < n; ++i) p[i] = 0;
        return p;
    }
    return calloc(n, z);
}
static size_t vp_realloc_old;
static void *vp_realloc(void *old, size_t z) {
    size_t n = z / sizeof(mu_cpuset_t);
    mu_cpuset_t *p = malloc(n * sizeof(mu_cpuset_t)), *q = old;
    for (size_t i = 0; i < vp_realloc_old && i < n; ++i) p[i] = q[i];
    vp_realloc_old = n;
    return p;
}
#define calloc vp_calloc
#define realloc vp_realloc
#endif
