/* generated from the list of operations documented for each policy */
int lewi_Lend(const subprocess_descriptor_t *spd) { return policy_call(1, 1, spd, 0, NULL); }
int lewi_Reclaim(const subprocess_descriptor_t *spd) { return policy_call(1, 5, spd, 0, NULL); }
int lewi_Borrow(const subprocess_descriptor_t *spd) { return policy_call(1, 13, spd, 0, NULL); }
int lewi_BorrowCpus(const subprocess_descriptor_t *spd, int n) { return policy_call(1, 15, spd, n, NULL); }
int lewi_SetMaxParallelism(const subprocess_descriptor_t *spd, int n) { return policy_call(1, 22, spd, n, NULL); }
int lewi_UnsetMaxParallelism(const subprocess_descriptor_t *spd) { return policy_call(1, 23, spd, 0, NULL); }
int lewi_async_Lend(const subprocess_descriptor_t *spd) { return policy_call(2, 1, spd, 0, NULL); }
int lewi_async_LendCpus(const subprocess_descriptor_t *spd, int n) { return policy_call(2, 3, spd, n, NULL); }
int lewi_async_Reclaim(const subprocess_descriptor_t *spd) { return policy_call(2, 5, spd, 0, NULL); }
int lewi_async_AcquireCpus(const subprocess_descriptor_t *spd, int n) { return policy_call(2, 10, spd, n, NULL); }
int lewi_async_Borrow(const subprocess_descriptor_t *spd) { return policy_call(2, 13, spd, 0, NULL); }
int lewi_async_BorrowCpus(const subprocess_descriptor_t *spd, int n) { return policy_call(2, 15, spd, n, NULL); }
int lewi_mask_Lend(const subprocess_descriptor_t *spd) { return policy_call(3, 1, spd, 0, NULL); }
int lewi_mask_LendCpu(const subprocess_descriptor_t *spd, int n) { return policy_call(3, 2, spd, n, NULL); }
int lewi_mask_LendCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t *m) { return policy_call(3, 4, spd, 0, m); }
int lewi_mask_Reclaim(const subprocess_descriptor_t *spd) { return policy_call(3, 5, spd, 0, NULL); }
int lewi_mask_ReclaimCpu(const subprocess_descriptor_t *spd, int n) { return policy_call(3, 6, spd, n, NULL); }
int lewi_mask_ReclaimCpus(const subprocess_descriptor_t *spd, int n) { return policy_call(3, 7, spd, n, NULL); }
int lewi_mask_ReclaimCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t *m) { return policy_call(3, 8, spd, 0, m); }
int lewi_mask_AcquireCpu(const subprocess_descriptor_t *spd, int n) { return policy_call(3, 9, spd, n, NULL); }
int lewi_mask_AcquireCpus(const subprocess_descriptor_t *spd, int n) { return policy_call(3, 10, spd, n, NULL); }
int lewi_mask_AcquireCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t *m) { return policy_call(3, 11, spd, 0, m); }
int lewi_mask_AcquireCpusInMask(const subprocess_descriptor_t *spd, int n, const cpu_set_t *m) { return policy_call(3, 12, spd, n, m); }
int lewi_mask_Borrow(const subprocess_descriptor_t *spd) { return policy_call(3, 13, spd, 0, NULL); }
int lewi_mask_BorrowCpu(const subprocess_descriptor_t *spd, int n) { return policy_call(3, 14, spd, n, NULL); }
int lewi_mask_BorrowCpus(const subprocess_descriptor_t *spd, int n) { return policy_call(3, 15, spd, n, NULL); }
int lewi_mask_BorrowCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t *m) { return policy_call(3, 16, spd, 0, m); }
int lewi_mask_BorrowCpusInMask(const subprocess_descriptor_t *spd, int n, const cpu_set_t *m) { return policy_call(3, 17, spd, n, m); }
int lewi_mask_Return(const subprocess_descriptor_t *spd) { return policy_call(3, 18, spd, 0, NULL); }
int lewi_mask_ReturnCpu(const subprocess_descriptor_t *spd, int n) { return policy_call(3, 19, spd, n, NULL); }
int lewi_mask_ReturnCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t *m) { return policy_call(3, 20, spd, 0, m); }
int lewi_mask_CheckCpuAvailability(const subprocess_descriptor_t *spd, int n) { return policy_call(3, 21, spd, n, NULL); }
int lewi_mask_SetMaxParallelism(const subprocess_descriptor_t *spd, int n) { return policy_call(3, 22, spd, n, NULL); }
int lewi_mask_UnsetMaxParallelism(const subprocess_descriptor_t *spd) { return policy_call(3, 23, spd, 0, NULL); }
#define N_OPS 23
static int api_call(int op, bool sp, dlb_handler_t h, int n, const cpu_set_t *m) {
    switch (op) {
    case 1: return sp ? DLB_Lend_sp(h) : DLB_Lend();
    case 2: return sp ? DLB_LendCpu_sp(h, n) : DLB_LendCpu(n);
    case 3: return sp ? DLB_LendCpus_sp(h, n) : DLB_LendCpus(n);
    case 4: return sp ? DLB_LendCpuMask_sp(h, m) : DLB_LendCpuMask(m);
    case 5: return sp ? DLB_Reclaim_sp(h) : DLB_Reclaim();
    case 6: return sp ? DLB_ReclaimCpu_sp(h, n) : DLB_ReclaimCpu(n);
    case 7: return sp ? DLB_ReclaimCpus_sp(h, n) : DLB_ReclaimCpus(n);
    case 8: return sp ? DLB_ReclaimCpuMask_sp(h, m) : DLB_ReclaimCpuMask(m);
    case 9: return sp ? DLB_AcquireCpu_sp(h, n) : DLB_AcquireCpu(n);
    case 10: return sp ? DLB_AcquireCpus_sp(h, n) : DLB_AcquireCpus(n);
    case 11: return sp ? DLB_AcquireCpuMask_sp(h, m) : DLB_AcquireCpuMask(m);
    case 12: return sp ? DLB_AcquireCpusInMask_sp(h, n, m) : DLB_AcquireCpusInMask(n, m);
    case 13: return sp ? DLB_Borrow_sp(h) : DLB_Borrow();
    case 14: return sp ? DLB_BorrowCpu_sp(h, n) : DLB_BorrowCpu(n);
    case 15: return sp ? DLB_BorrowCpus_sp(h, n) : DLB_BorrowCpus(n);
    case 16: return sp ? DLB_BorrowCpuMask_sp(h, m) : DLB_BorrowCpuMask(m);
    case 17: return sp ? DLB_BorrowCpusInMask_sp(h, n, m) : DLB_BorrowCpusInMask(n, m);
    case 18: return sp ? DLB_Return_sp(h) : DLB_Return();
    case 19: return sp ? DLB_ReturnCpu_sp(h, n) : DLB_ReturnCpu(n);
    case 20: return sp ? DLB_ReturnCpuMask_sp(h, m) : DLB_ReturnCpuMask(m);
    case 21: return sp ? DLB_CheckCpuAvailability_sp(h, n) : DLB_CheckCpuAvailability(n);
    case 22: return sp ? DLB_SetMaxParallelism_sp(h, n) : DLB_SetMaxParallelism(n);
    case 23: return sp ? DLB_UnsetMaxParallelism_sp(h) : DLB_UnsetMaxParallelism();
    }
    return -100;
}
static int op_kind(int op) { static const char k[] = { 0, 1, 2, 2, 3, 1, 2, 2, 3, 2, 2, 3, 4, 1, 2, 2, 3, 4, 1, 2, 3, 2, 2, 1 }; return k[op]; }
static bool supported(int policy, int op) {
    static const char s[4][N_OPS + 1] = { { 0 }, { 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 1, 1 }, { 0, 1, 0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0 }, { 0, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 } };
    return s[policy][op];
}
